----------------------------- MODULE ReadTrace -----------------------------
(* Checks recorded reads of the real code against the meaning of Table.tla: one line, one step.
   The verdict is total: "ok" or the name of the clause that fails.                              *)
EXTENDS Table, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Book(e) == [fmt |-> e.fmt, rows |-> e.rows, sst |-> e.sst, sty |-> e.sty]

Matches(o, t) == IF t.ok THEN o.ok /\ o.names = t.names /\ o.types = t.types /\ o.cols = t.cols
                 ELSE ~o.ok /\ o.err = t.err

Clause(o, t) ==
  CASE t.ok /\ ~o.ok -> "outcome"
    [] ~t.ok /\ o.ok -> "error-missed"
    [] ~t.ok -> "error-kind"
    [] Len(o.names) # Len(t.names) -> "column-count"
    [] o.names # t.names -> "names"
    [] o.types # t.types -> "types"
    [] \E j \in 1..Len(t.cols) : Len(o.cols[j]) # Len(t.cols[j]) -> "length"
    [] OTHER -> "values"

Want(e) == Tables(Book(e), e.a)
CbOk(e) == ~e.a.cb \/ e.obs.cb = Callbacks(Book(e), e.a)

Verdict(e) ==
  LET T == Want(e)
  IN IF \E t \in T : Matches(e.obs, t)
     THEN IF CbOk(e) THEN "ok" ELSE "callbacks"
     ELSE Clause(e.obs, CHOOSE t \in T : TRUE)

Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE
     ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v,
              want |-> IF v = "callbacks" THEN ToString(Callbacks(Book(e), e.a))
                       ELSE ToJson(CHOOSE t \in Want(e) : TRUE)])>>, IOEnv.VERDICTS)

Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
