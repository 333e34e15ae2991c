------------------------------- MODULE Series -------------------------------
(* A column as it is built: cells arrive with growing rows; neighbouring cells stored the same way form
   a stretch, which a view of the column also ends.                                                  *)
EXTENDS Column

Empty == [it |-> <<>>, n |-> 0, open |-> "", conv |-> "no"]

(* st.open: how the cells of the stretch that still grows are stored ("" none) *)
AddTo(st, row, item, store) ==
  LET last == Len(st.it)
      gap  == row - last
      m    == IF gap = 0 /\ st.open = store THEN st.n ELSE st.n + 1
  IN IF row < last THEN st
     ELSE [st EXCEPT !.it = @ \o [i \in 1..gap |-> Null] \o <<[item EXCEPT !.g = m]>>, !.n = m, !.open = store]
Viewed(st) == [st EXCEPT !.open = ""]

(* what a view shows *)
Part(st, q) == IF q.m THEN Masked(Slice(st.it, q.off, Len(q.mask)), q.mask) ELSE Slice(st.it, q.off, q.len)
(* a mask of nothing selects nothing, not the rest *)
Picked(st, q) == IF q.m /\ q.mask = <<>> THEN <<>> ELSE Part(st, q)
Shown(st, q, conv) == LET r == Resolve(Picked(st, q), conv) IN [t |-> r.t, v |-> r.v]
Texts(st, q, conv) == TextsOf(Picked(st, q), conv)
=============================================================================
