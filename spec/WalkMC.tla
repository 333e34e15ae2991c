------------------------------ MODULE WalkMC ------------------------------
(* Exhaustive exploration of both row machines over every small worksheet and request. *)
EXTENDS Walk, Emit
CONSTANTS MaxRows, MaxGap, MaxSkip, MaxTake

VARIABLES rs, q, i, x, b
vars == <<rs, q, i, x, b>>

(* the part is chosen row by row, so a prefix of every part is explored once *)
Init == /\ rs = <<>> /\ i = 0
        /\ q \in [skip : 0..MaxSkip, take : 0..MaxTake, keep : BOOLEAN]
        /\ x = XlsxInit /\ b = XlsbInit

LastRow == IF rs = <<>> THEN -1 ELSE rs[Len(rs)].r

StoreRow(gap, ne) ==
  /\ Len(rs) < MaxRows
  /\ rs' = Append(rs, [r |-> LastRow + 1 + gap, ne |-> ne])
  /\ i' = i + 1
  /\ x' = XlsxRow(x, rs', q, i + 1)
  /\ b' = XlsbRow(b, rs', q, i + 1)
  /\ UNCHANGED q

Next == \E gap \in 0..MaxGap, ne \in BOOLEAN : StoreRow(gap, ne)
Spec == Init /\ [][Next]_vars

XlsxMeaning == x.out = Rows(rs, q)
XlsbMeaning == b.out = Rows(rs, q)
Agree       == x.out = b.out
(* numbers never repeat or go back, and never exceed the limit *)
Ordered == \A m, n \in 1..Len(x.out) : m < n => x.out[m].row < x.out[n].row
Limited == q.take > 0 => \A n \in 1..Len(x.out) : x.out[n].row <= q.take
(* without holes when empty rows are dropped *)
Dense == ~q.keep => \A n \in 1..Len(x.out) : x.out[n].row = n - 1
(* progress is reported at least once per delivered row *)
Progress == x.cb >= Len(x.out) /\ XlsbEnd(b, q).cb >= Len(b.out)
(* a longer part only adds rows: what was delivered stays delivered *)
Monotone == [][SubSeq(x'.out, 1, Len(x.out)) = x.out]_vars

(* every state is a complete part with a request: its deliveries and callback counts are replayed *)
Replayed == Put([rs |-> rs, q |-> q, out |-> x.out, cbx |-> x.cb, cbb |-> XlsbEnd(b, q).cb])
===========================================================================
