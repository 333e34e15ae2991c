----------------------------- MODULE PairTrace -----------------------------
(* Recorded pairs of reads of one workbook stored as .xlsx and as .xlsb.                              *)
EXTENDS Table, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Book(e, fmt) == [fmt |-> fmt, rows |-> e.rows, sst |-> e.sst, sty |-> e.sty]
Matches(o, t) == IF t.ok THEN o.ok /\ o.names = t.names /\ o.types = t.types /\ o.cols = t.cols
                 ELSE ~o.ok /\ o.err = t.err
SameRead(o, p) == IF o.ok THEN p.ok /\ o.names = p.names /\ o.types = p.types /\ o.cols = p.cols
                  ELSE ~p.ok /\ o.err = p.err
Verdict(e) ==
  LET X == Tables(Book(e, "xlsx"), e.a)
      B == Tables(Book(e, "xlsb"), e.a)
  IN IF X # B THEN "the meaning differs"
     ELSE IF ~\E t \in X : Matches(e.obs.xlsx, t) THEN "xlsx"
     ELSE IF ~\E t \in B : Matches(e.obs.xlsb, t) THEN "xlsb"
     ELSE IF Cardinality(X) = 1 /\ ~SameRead(e.obs.xlsx, e.obs.xlsb) THEN "formats differ"
     ELSE "ok"
Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v,
              want |-> ToJson(CHOOSE t \in Tables(Book(e, "xlsx"), e.a) : TRUE)])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
