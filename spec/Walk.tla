------------------------------- MODULE Walk -------------------------------
(* Which stored rows of a worksheet part are delivered, and under which row number.

   A part stores rows in order; row i is [r |-> sheet row (0-based) or -1 when unnumbered,
   ne |-> it yields at least one cell].  The request is [skip, take, keep].

   Meaning (declarative):
     keep  - rows of the sheet count: a stored row sits at its own sheet row, the first `skip` sheet
             rows are dropped, and absent rows are gaps;
     ~keep - the first `skip` stored rows are dropped and of the others only rows yielding cells count;
     take = 0 reads everything, take = n > 0 reads no row beyond number n after the dropped ones.

   Xlsx and Xlsb are the two readers' row machines, one step per stored row: the xlsx machine moves its
   counter when a row closes, the xlsb machine when the next row header arrives.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b

(* --- declarative ------------------------------------------------------------------------------- *)
(* Number of row i of rs before subtracting skip *)
RECURSIVE Num(_, _, _)
Num(rs, q, i) ==
  IF q.keep
  THEN LET nxt == IF i = 1 THEN 0 ELSE Num(rs, q, i - 1) + 1
       IN Max2(nxt, rs[i].r)
  ELSE IF i <= q.skip THEN i - 1
       ELSE q.skip + Cardinality({j \in (q.skip + 1)..(i - 1) : rs[j].ne})

Reached(rs, q, i) == \A j \in 1..i : q.take = 0 \/ Num(rs, q, j) <= q.take + q.skip
Delivered(rs, q, i) == Reached(rs, q, i) /\ Num(rs, q, i) >= q.skip /\ rs[i].ne

(* The delivered rows: position in the part and resulting row number, in order *)
Rows(rs, q) ==
  LET ids == SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : Delivered(rs, q, i))
  IN [n \in 1..Len(ids) |-> [i |-> ids[n], row |-> Num(rs, q, ids[n]) - q.skip]]

(* --- machines ---------------------------------------------------------------------------------- *)
(* out: rows delivered; cb: how many times the row callback ran; stop: the walk ended early *)
XlsxInit == [row |-> 0, out |-> <<>>, cb |-> 1, stop |-> FALSE]

XlsxRow(st, rs, q, i) ==
  LET lim   == IF q.take > 0 THEN q.take + q.skip ELSE 0
      open  == IF q.keep /\ rs[i].r >= 0 THEN Max2(st.row, rs[i].r) ELSE st.row
      gone  == 0 < lim /\ lim < open
      gives == open >= q.skip /\ rs[i].ne
      close == IF gives \/ q.keep \/ open < q.skip THEN open + 1 ELSE open
  IN IF st.stop THEN st
     ELSE IF q.keep /\ rs[i].r >= 0 /\ gone THEN [st EXCEPT !.stop = TRUE, !.row = open]
     ELSE [row  |-> close,
           out  |-> IF gives THEN Append(st.out, [i |-> i, row |-> open - q.skip]) ELSE st.out,
           cb   |-> st.cb + 1,
           stop |-> 0 < lim /\ lim < close]

XlsbInit == [row |-> -1, empty |-> FALSE, out |-> <<>>, cb |-> 0, stop |-> FALSE]

XlsbRow(st, rs, q, i) ==
  LET lim  == IF q.take > 0 THEN q.take + q.skip ELSE 0
      adv  == IF ~st.empty \/ q.keep \/ st.row < q.skip THEN st.row + 1 ELSE st.row
      row  == IF q.keep THEN Max2(adv, rs[i].r) ELSE adv
      gives == row >= q.skip /\ rs[i].ne
  IN IF st.stop THEN st
     ELSE IF 0 < lim /\ lim < row THEN [st EXCEPT !.stop = TRUE, !.row = row]
     ELSE [row |-> row, empty |-> ~gives,
           out |-> IF gives THEN Append(st.out, [i |-> i, row |-> row - q.skip]) ELSE st.out,
           cb  |-> IF q.skip <= row THEN st.cb + 1 ELSE st.cb,
           stop |-> FALSE]

(* the end-of-data record *)
XlsbEnd(st, q) == IF ~st.stop /\ q.skip <= st.row THEN [st EXCEPT !.cb = @ + 1] ELSE st

RECURSIVE RunXlsx(_, _, _, _), RunXlsb(_, _, _, _)
RunXlsx(rs, q, i, st) == IF i > Len(rs) THEN st ELSE RunXlsx(rs, q, i + 1, XlsxRow(st, rs, q, i))
RunXlsb(rs, q, i, st) == IF i > Len(rs) THEN XlsbEnd(st, q) ELSE RunXlsb(rs, q, i + 1, XlsbRow(st, rs, q, i))

Walked(fmt, rs, q) == IF fmt = "xlsx" THEN RunXlsx(rs, q, 1, XlsxInit) ELSE RunXlsb(rs, q, 1, XlsbInit)
===========================================================================
