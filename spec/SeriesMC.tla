------------------------------ MODULE SeriesMC ------------------------------
(* Columns built from cells with gaps, viewed while they grow.  Next to the column runs the list of chunks
   an implementation keeps: finished stretches, nulls, and the stretch that still grows; cutting the list
   of chunks must be cutting the column.                                                                *)
EXTENDS Series, Emit
CONSTANTS MaxRows, Gaps, Pool, MaxOff, MaxTake, MaxMask

Make(k) == CASE k = 1 -> [x |-> "num", v |-> Small(25, 1), g |-> 0]
             [] k = 2 -> [x |-> "num", v |-> Small(44000, 0), g |-> 0]
             [] k = 3 -> [x |-> "temp", v |-> Small(438315, 1), g |-> 0]
             [] k = 4 -> [x |-> "text", s |-> "15", g |-> 0]
             [] k = 5 -> [x |-> "text", s |-> "2020-02-29", g |-> 0]
             [] k = 6 -> [x |-> "text", s |-> "word", g |-> 0]
             [] OTHER -> [x |-> "text", s |-> "31/12/1960 23:59", g |-> 0]
Store(k) == CASE k = 1 -> "n" [] k = 2 -> "r" [] k = 3 -> "d" [] k \in {4, 7} -> "h" [] OTHER -> "t"

VARIABLES st, codes, chunks, pend, nulls
vars == <<st, codes, chunks, pend, nulls>>

Init == st = Empty /\ codes = <<>> /\ chunks = <<>> /\ pend = <<>> /\ nulls = 0

Pull(cs, p, z) == cs \o (IF z > 0 THEN <<[i \in 1..z |-> Null]>> ELSE <<>>) \o <<p>>
Add(k, gap) ==
  LET row == Len(st.it) + gap
      now == AddTo(st, row, Make(k), Store(k))
      item == now.it[Len(now.it)]
      (* a chunk goes on only with the same kind of cell, in the next row, when nothing was pulled *)
      goes == gap = 0 /\ pend # <<>> /\ st.open = Store(k)
      done == IF pend # <<>> /\ ~goes THEN Pull(chunks, pend, nulls) ELSE chunks
  IN /\ row < MaxRows
     /\ st' = now
     /\ codes' = codes \o [i \in 1..gap |-> 0] \o <<k>>
     /\ chunks' = done
     /\ pend' = IF goes THEN Append(pend, item) ELSE <<item>>
     /\ nulls' = IF goes THEN nulls ELSE gap
View == /\ pend # <<>>
        /\ st' = Viewed(st) /\ chunks' = Pull(chunks, pend, nulls) /\ pend' = <<>> /\ nulls' = 0
        /\ UNCHANGED codes
Next == View \/ \E k \in Pool, gap \in Gaps : Add(k, gap)
Spec == Init /\ [][Next]_vars

All == IF pend = <<>> THEN chunks ELSE Pull(chunks, pend, nulls)
Flat(cs) == FoldLeft(LAMBDA acc, c : acc \o c, <<>>, cs)
Complete == Flat(All) = st.it

(* cutting chunks: skip and strip up to the offset, then keep what the length or the mask asks for *)
RECURSIVE Skip(_, _), Keep(_, _), Mark(_, _)
Skip(cs, off) == IF cs = <<>> \/ off = 0 THEN cs
                 ELSE IF off >= Len(cs[1]) THEN Skip(Tail(cs), off - Len(cs[1]))
                 ELSE <<SubSeq(cs[1], off + 1, Len(cs[1]))>> \o Tail(cs)
Keep(cs, n) == IF n = 0 THEN <<>>
               ELSE IF cs = <<>> THEN <<[i \in 1..n |-> Null]>>
               ELSE IF Len(cs[1]) >= n THEN <<SubSeq(cs[1], 1, n)>>
               ELSE <<cs[1]>> \o Keep(Tail(cs), n - Len(cs[1]))
Mark(cs, mask) ==
  IF mask = <<>> THEN <<>>
  ELSE IF cs = <<>> THEN <<[i \in 1..Len(SelectSeq(mask, LAMBDA b : b)) |-> Null]>>
  ELSE LET n == IF Len(cs[1]) < Len(mask) THEN Len(cs[1]) ELSE Len(mask)
       IN <<Masked(SubSeq(cs[1], 1, n), SubSeq(mask, 1, n))>> \o Mark(Tail(cs), SubSeq(mask, n + 1, Len(mask)))
Cut(cs, q) == LET s == Skip(cs, q.off) IN Flat(IF q.m THEN Mark(s, q.mask) ELSE IF q.len = 0 THEN s ELSE Keep(s, q.len))

Masks == UNION {[1..n -> BOOLEAN] : n \in 0..MaxMask}
Q(off, n) == [m |-> FALSE, off |-> off, len |-> n, mask |-> <<>>]
MQ(off, mask) == [m |-> TRUE, off |-> off, len |-> 0, mask |-> mask]
Reqs == SetToSeq({Q(o, n) : o \in 0..MaxOff, n \in 0..MaxTake} \cup {MQ(o, b) : o \in 0..2, b \in Masks})

Sliced == \A i \in 1..Len(Reqs) : Cut(All, Reqs[i]) = Picked(st, Reqs[i])
Exact == \A i \in 1..Len(Reqs) :
           LET q == Reqs[i] p == Picked(st, q)
           IN CASE q.m -> Len(p) = Len(SelectSeq(q.mask, LAMBDA b : b))
                [] q.len > 0 -> Len(p) = q.len
                [] OTHER -> Len(p) = IF q.off >= Len(st.it) THEN 0 ELSE Len(st.it) - q.off

Confs == << [dt |-> FALSE, num |-> FALSE, fmts |-> <<>>, prec |-> 6], [dt |-> TRUE, num |-> FALSE, fmts |-> <<>>, prec |-> 6],
            [dt |-> FALSE, num |-> TRUE, fmts |-> <<>>, prec |-> 6], [dt |-> TRUE, num |-> TRUE, fmts |-> <<>>, prec |-> 6] >>
Groups == [i \in 1..Len(st.it) |-> IF st.it[i].x = "null" THEN 0 ELSE st.it[i].g]
ASSUME Put([reqs |-> Reqs])
(* a column is handed over when its last cell has just arrived *)
Replayed == st.open = "" \/ \A i \in 1..4 :
              /\ Put([k |-> codes, g |-> Groups, c |-> i, a |-> [j \in 1..Len(Reqs) |-> Shown(st, Reqs[j], Confs[i])]])
              /\ Put([k |-> codes, g |-> Groups, c |-> i, u |-> [j \in 1..Len(Reqs) |-> Texts(st, Reqs[j], Confs[i])]])
=============================================================================
