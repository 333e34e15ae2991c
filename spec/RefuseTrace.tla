---------------------------- MODULE RefuseTrace ----------------------------
(* Recorded reads of random workbooks with some arguments spoilt: the read must raise what one of the faults (or the
   request itself) raises, and the same file must give the right table afterwards.                           *)
EXTENDS Refuse, Table, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Book(e) == [fmt |-> e.fmt, rows |-> e.rows, sst |-> e.sst, sty |-> e.sty]
NamesAt(a, cols, first) ==
  CASE a.header.k = "int" -> HeaderNames(a, cols, first)
    [] a.header.k = "list" -> a.header.names
    [] OTHER -> [j \in 1..Cardinality(DOMAIN cols) |-> "Unnamed. " \o ToString(j - 1)]
Context(e) ==
  LET cols == TLCEval(Columns(Book(e), e.a))
      first == TLCEval(HeadRow(e.a, cols))
      ks == TLCEval(SortedCols(DOMAIN cols))
      lost == first = -1 \/ (e.a.header.k = "list" /\ Len(e.a.header.names) # Len(ks))
  IN [cols |-> Len(ks), sheets |-> e.sheets, filters |-> IF lost THEN 0 ELSE Len(FilterCols(e.a, ks, NamesAt(e.a, cols, first)))]
Same(o, t) == IF t.ok THEN o.ok /\ o.names = t.names /\ o.types = t.types /\ o.cols = t.cols ELSE ~o.ok /\ o.err = t.err
Verdict(e) ==
  LET T == TLCEval(Tables(Book(e), e.a))
      R == TLCEval(Raises({e.faults[i] : i \in 1..Len(e.faults)}, TLCEval(Context(e))))
  IN IF ~\E t \in T : Same(e.obs.plain, t) THEN "afterwards"
     ELSE IF R = {} THEN IF \E t \in T : Same(e.obs.spoilt, t) THEN "ok" ELSE "harmless"
     ELSE IF e.obs.spoilt.ok THEN "accepted"
     ELSE IF e.obs.spoilt.err \in R \cup {t.err : t \in {u \in T : ~u.ok}} THEN "ok" ELSE "error-kind"
Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v,
              want |-> ToString(<<Context(e), Raises({e.faults[i] : i \in 1..Len(e.faults)}, Context(e))>>)])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
