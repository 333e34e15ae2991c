----------------------------- MODULE SessTrace -----------------------------
(* Recorded sessions: several readers and iterators on one workbook, reads of the file in between, threads.
   Every answer must be the one of Table.tla for that request alone, whatever went on before or meanwhile.
   e.obs.ops[n] is one operation with its answer: start/next/drop of iterator i, whole walks, reads.          *)
EXTENDS Table, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Book(e, s) == [fmt |-> e.fmt, rows |-> e.sheets[s + 1], sst |-> e.sst, sty |-> e.sty]
Places(e, o) == LET cs == TLCEval(Cells(Book(e, o.s), o.a)) IN [n \in 1..Len(cs) |-> <<cs[n].row, cs[n].c>>]
Matches(o, t) == IF t.ok THEN o.ok /\ o.names = t.names /\ o.types = t.types /\ o.cols = t.cols
                 ELSE ~o.ok /\ o.err = t.err

(* where iterator e.obs.ops[n].i is: the operation that started it, and the steps made since *)
Begun(e, n) == CHOOSE m \in 1..n : /\ e.obs.ops[m].op = "start" /\ e.obs.ops[m].i = e.obs.ops[n].i
                                   /\ \A k \in m + 1..n : ~(e.obs.ops[k].op = "start" /\ e.obs.ops[k].i = e.obs.ops[n].i)
Steps(e, n) == Cardinality({k \in Begun(e, n)..n : e.obs.ops[k].op = "next" /\ e.obs.ops[k].i = e.obs.ops[n].i})

Right(e, n) ==
  LET o == e.obs.ops[n] IN
  CASE o.op = "next"  -> LET p == Places(e, e.obs.ops[Begun(e, n)]) k == Steps(e, n)
                         IN o.ans = (IF k <= Len(p) THEN p[k] ELSE <<>>)
    [] o.op = "whole" -> o.ans = Places(e, o)
    [] o.op = "read"  -> \E t \in Tables(Book(e, o.s), o.a) : Matches(o.ans, t)
    [] o.op = "fail"  -> o.ans = <<IF Callbacks(Book(e, o.s), o.a) >= o.k THEN "raised" ELSE "ended">>
    [] o.op = "names" -> o.ans = e.names
    [] o.op = "check" -> o.ans = <<"same">>      \* the stream is open and unchanged; the cells are those of a lone read
    [] OTHER -> TRUE
Wrong(e) == {n \in 1..Len(e.obs.ops) : ~Right(e, n)}

Judge(e) == LET w == TLCEval(Wrong(e))
            IN IF w = {} THEN TRUE
               ELSE LET n == CHOOSE k \in w : \A j \in w : k <= j
                    IN CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> e.obs.ops[n].op, want |-> ToString(n)])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
