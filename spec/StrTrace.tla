------------------------------ MODULE StrTrace ------------------------------
(* Recorded wide strings and sheet records of any texts.                                              *)
EXTENDS Wide, Json, CSV, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Stream(e) == FoldLeft(LAMBDA a, t : a \o Dump(t), <<>>, e.texts)
Ends(e) == [i \in 1..Len(e.texts) |-> FoldLeft(LAMBDA a, t : a + Len(Dump(t)), 0, SubSeq(e.texts, 1, i))]
Verdict(e) ==
  IF e.obs.bytes # Stream(e) THEN "bytes"
  ELSE IF e.obs.ends # Ends(e) THEN "positions"
  ELSE IF e.obs.loaded # e.texts THEN "loaded"
  ELSE IF e.obs.at # Ends(e) THEN "consumed"
  ELSE IF e.obs.parts # e.texts THEN "from bytes"
  ELSE IF e.obs.values # [i \in 1..Len(e.texts) |-> IF e.texts[i] = Null THEN <<>> ELSE e.texts[i]] THEN "values"
  ELSE IF Len(e.texts) >= 2 /\ e.obs.sheet # << <<e.state, 0, 0, 0>> \o e.tab, e.texts[1], e.texts[2] >> THEN "sheet"
  ELSE "ok"
Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v, want |-> ""])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
