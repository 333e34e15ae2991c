------------------------------- MODULE TypeMC -------------------------------
(* What type a column without conflicts gets: every short column of numbers, of dates, of texts.     *)
EXTENDS Req
CONSTANTS MaxLen, Precs
PrecList == <<0, 1, 4, 6, 8>>

Big(x, i, f, wp) == [b |-> TRUE, s |-> x, i |-> i, f |-> f, wp |-> wp, x |-> x]
BigAt(c, x, v)   == [c |-> c, k |-> "num", x |-> x, v |-> v, s |-> 1, rec |-> "real"]
(* 0 is a hole *)
Numbers == <<
  NumAt(0, "5", 5, 0, 1, "rk"), NumAt(0, "-1", -1, 0, 1, "rk"), NumAt(0, "0.5", 5, 1, 1, "real"),
  NumAt(0, "-0.25", -25, 2, 1, "real"), NumAt(0, "3.04", 304, 2, 1, "real"), NumAt(0, "2.0000004", 20000004, 7, 1, "real"),
  NumAt(0, "1.9999996", 19999996, 7, 1, "real"), NumAt(0, "7.00003", 700003, 5, 1, "fnum"),
  BigAt(0, "98765432109876", Big("98765432109876", "98765432109876", "9.8765432109876e+13", 99)),
  BigAt(0, "9223372036854775808", Big("9223372036854776000", "9223372036854775808", "9.223372036854776e+18", 0)) >>
Dates == << NumAt(0, "43831", 43831, 0, 2, "rk"), NumAt(0, "0.5", 5, 1, 2, "real") >>
Texts == << StrAt(0, "w"), Shared(0, 0), InlineAt(0, "12") >>

VARIABLES kind, col
Init == kind \in {"num", "date", "text"} /\ col = <<>>
Pool == CASE kind = "num" -> Numbers [] kind = "date" -> Dates [] OTHER -> Texts
AddItem(x) == Len(col) < MaxLen /\ col' = Append(col, x) /\ UNCHANGED kind
Next == \E x \in 0..Len(Pool) : AddItem(x)
Spec == Init /\ [][Next]_<<kind, col>>

W(fmt) == BookOf(fmt, [i \in 1..Len(col) |-> [r |-> i - 1, cells |-> IF col[i] = 0 THEN <<>> ELSE <<Pool[col[i]]>>]], <<"s">>)
Reqs == [i \in 1..Len(Precs) |-> [Base EXCEPT !.keep = TRUE, !.prec = Precs[i]]] \o <<[Base EXCEPT !.conf = "numeric"]>>

(* --- meaning --- *)
Live == {i \in 1..Len(col) : col[i] # 0}
T(i) == CHOOSE t \in Tables(W("xlsx"), Reqs[i]) : TRUE
Decided == \A i \in 1..Len(Precs) :
  Live # {} =>
    LET t == T(i)
    IN /\ t.ok /\ Len(t.types) = 1
       /\ kind = "date" => t.types = <<"ts">>
       /\ kind = "text" => t.types = <<"str">>
       /\ kind = "num" => t.types = <<IF \A j \in Live : NumWhole(Pool[col[j]].v, Precs[i]) THEN "i64" ELSE "f64">>
(* rounding below the precision: more digits never turn a float column into an integer one *)
Finer == kind = "num" => \A i, j \in 1..Len(Precs) :
  (Live # {} /\ Precs[i] <= Precs[j] /\ T(j).types = <<"i64">>) => T(i).types = <<"i64">>
(* a float column is never rounded, an integer column keeps the whole parts *)
Unrounded == kind = "num" => \A i \in 1..Len(Precs) : Live # {} =>
  \A n \in 1..Len(T(i).cols[1]) :
    LET v == Pool[col[n]].v
    IN T(i).cols[1][n] = IF col[n] = 0 THEN "~" ELSE IF T(i).types[1] = "i64" THEN IntStr(v) ELSE NumStr(v)
(* the kind of file does not matter *)
Same == \A i \in 1..Len(Reqs) : Tables(W("xlsx"), Reqs[i]) = Tables(W("xlsb"), Reqs[i])

ASSUME EmitReqs(Reqs)
Replayed == col = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o kind \o ToString(col), W(fmt), Reqs)
=============================================================================
