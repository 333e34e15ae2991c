----------------------------- MODULE BiffTrace -----------------------------
(* Recorded streams: what was written, where, and what a scan of a part of it gave.                   *)
EXTENDS Biff, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(e) == LET s == Scanned(e.recs, e.all, {e.only[i] : i \in 1..Len(e.only)}, e.cut)
           IN [i \in 1..Len(s) |-> <<e.recs[s[i]].id, e.recs[s[i]].n, e.recs[s[i]].hash>>]
Verdict(e) ==
  IF \E i \in 1..Len(e.recs) : ~ValidId(e.recs[i].id) \/ ~ValidSize(e.recs[i].n) THEN "not a record"
  ELSE IF e.obs.heads # [i \in 1..Len(e.recs) |-> Header(e.recs[i])] THEN "headers"
  ELSE IF e.obs.ends # [i \in 1..Len(e.recs) |-> EndOf(e.recs, i)] THEN "positions"
  ELSE IF e.obs.got # Want(e) THEN "records"
  ELSE "ok"
Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v, want |-> ToJson(Want(e))])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
