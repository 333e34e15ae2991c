------------------------------- MODULE ColsMC -------------------------------
(* Which columns a table has: sheets whose rows hold any subset of far-apart columns.               *)
EXTENDS Req
CONSTANTS MaxRows, Pool

Place == <<0, 25, 26, 702, 16383>>       \* A, Z, AA, AAA, XFD
VARIABLE rows      \* sequence of sets of positions in Place
Init == rows = <<>>
AddRow(S) == Len(rows) < MaxRows /\ rows' = Append(rows, S)
Next == \E S \in SUBSET Pool : AddRow(S)
Spec == Init /\ [][Next]_rows

(* the kind of a cell depends on its place: texts, numbers and texts again *)
Make(p, i) == IF p % 2 = 1 THEN StrAt(Place[p], "r" \o ToString(i) \o "c" \o ToString(p))
              ELSE NumAt(Place[p], ToString(10 * i + p), 10 * i + p, 0, 1, "real")
Row(i) == LET s == SetToSortSeq(rows[i], <)
          IN [r |-> i - 1, cells |-> [j \in 1..Len(s) |-> Make(s[j], i)]]
W(fmt) == BookOf(fmt, [i \in 1..Len(rows) |-> Row(i)], <<"unused">>)

Skips == << <<>>, <<25>>, <<702, 0>>, <<26, 25, 9999>> >>
Reqs == [i \in 1..Len(Skips) |-> [Base EXCEPT !.keep = TRUE, !.skipcols = Skips[i]]] \o
        <<[Base EXCEPT !.skipcols = Skips[2], !.header = Header(1)], [Base EXCEPT !.skip = 1, !.skipcols = Skips[3]],
          [Base EXCEPT !.take = 1, !.keep = TRUE]>>

(* --- meaning --- *)
Wanted(i) == {p \in UNION {rows[n] : n \in 1..Len(rows)} : \A k \in 1..Len(Reqs[i].skipcols) : Reqs[i].skipcols[k] # Place[p]}
LastOf(i) == LET S == {n \in 1..Len(rows) : rows[n] \cap Wanted(i) # {}} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m
Value(p, n) == IF p \in rows[n] THEN (IF p % 2 = 1 THEN "'r" \o ToString(n) \o "c" \o ToString(p) ELSE ToString(10 * n + p)) ELSE "~"
Exact == \A fmt \in {"xlsx", "xlsb"}, i \in 1..Len(Skips) : \A t \in Tables(W(fmt), Reqs[i]) :
  LET ps == SetToSortSeq(Wanted(i), <)
  IN /\ t.ok
     /\ t.cols = [j \in 1..Len(ps) |-> [n \in 1..LastOf(i) |-> Value(ps[j], n)]]
Even == \A fmt \in {"xlsx", "xlsb"}, i \in 1..Len(Reqs) : \A t \in Tables(W(fmt), Reqs[i]) :
  t.ok /\ \A j, k \in 1..Len(t.cols) : Len(t.cols[j]) = Len(t.cols[k])

ASSUME EmitReqs(Reqs)
Replayed == rows = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o ToString(rows), W(fmt), Reqs)
=============================================================================
