----------------------------- MODULE FaultTrace -----------------------------
(* Recorded reads under faults: the table of Table.tla, the caller's own error, or an error - never less. *)
EXTENDS Table, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Book(e) == [fmt |-> e.fmt, rows |-> e.rows, sst |-> e.sst, sty |-> e.sty]
Matches(o, t) == IF t.ok THEN o.ok /\ o.names = t.names /\ o.types = t.types /\ o.cols = t.cols
                 ELSE ~o.ok /\ o.err = t.err

(* what a read may do when its k-th report of progress fails *)
Calls(e) == LET n == Callbacks(Book(e), e.a) IN
            \A i \in DOMAIN e.obs.calls : e.obs.calls[i][2] = (IF e.obs.calls[i][1] <= n THEN "same" ELSE "base")
Nulls(e) == \A i \in DOMAIN e.obs.nulls : e.obs.nulls[i][2] = (IF e.obs.nulls[i][1] = 1 THEN "same" ELSE "base")
Reads(e) == \A i \in DOMAIN e.obs.reads : e.obs.reads[i][2] \in (IF e.obs.reads[i][1] = 1 THEN {"same", "error"} ELSE {"base"})
(* a cut part: an error, or - where what is missing is not needed - the same answer as ever.  The sheet part is
   needed to its end unless the number of rows is limited.  A read that fails anyway has no table to lose.      *)
Cuts(e) == \A i \in DOMAIN e.obs.cuts :
             LET c == e.obs.cuts[i] IN
             \/ c[2] = "error"
             \/ c[2] = "base" /\ (c[1] = 0 \/ e.a.take > 0 \/ ~e.obs.base.ok)
Verdict(e) ==
  CASE ~\E t \in Tables(Book(e), e.a) : Matches(e.obs.base, t) -> "table"
    [] e.obs.base.cb # Callbacks(Book(e), e.a) -> "callbacks"
    [] ~Calls(e) -> "failing callback"
    [] ~Nulls(e) -> "failing null predicate"
    [] ~Reads(e) -> "failing file"
    [] ~Cuts(e)  -> "cut part"
    [] e.obs.left # 0 -> "left behind"
    [] OTHER -> "ok"

Judge(e) == LET v == Verdict(e)
            IN IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
