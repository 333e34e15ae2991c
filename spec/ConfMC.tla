------------------------------- MODULE ConfMC -------------------------------
(* Mixed columns under every conflict setting: every short sequence of kinds of cells.               *)
EXTENDS Req
CONSTANTS MaxLen, Pool

(* 0 is a hole *)
Make(k) == CASE k = 1 -> NumAt(0, "43831.5", 438315, 1, 2, "real")
             [] k = 2 -> NumAt(0, "2.5", 25, 1, 1, "real")
             [] k = 3 -> NumAt(0, "44000", 44000, 0, 1, "rk")
             [] k = 4 -> Shared(0, 0)                     \* a numeral
             [] k = 5 -> StrAt(0, "-7.25")                \* a numeral
             [] k = 6 -> Shared(0, 1)                     \* a date
             [] k = 7 -> InlineAt(0, "31/12/1960 23:59")  \* a date
             [] k = 8 -> StrAt(0, "word")
             [] OTHER -> Shared(0, 2)                     \* a word
Texts == <<"15", "2020-02-29", "other">>
Confs == <<"no", "temporal", "numeric", "all">>

VARIABLE col
Init == col = <<>>
AddItem(x) == Len(col) < MaxLen /\ col' = Append(col, x)
Next == \E x \in Pool : AddItem(x)
Spec == Init /\ [][Next]_col

W(fmt) == BookOf(fmt, [i \in 1..Len(col) |-> [r |-> i - 1, cells |-> IF col[i] = 0 THEN <<>> ELSE <<Make(col[i])>>]], Texts)
Reqs == [i \in 1..4 |-> [Base EXCEPT !.keep = TRUE, !.conf = Confs[i]]]

(* --- meaning --- *)
Live == {i \in 1..Len(col) : col[i] # 0}
Ks == {col[i] : i \in Live}
IsDate(k) == k = 1
IsNum(k) == k \in {2, 3}
IsText(k) == k >= 4
IsNumeral(k) == k \in {4, 5}
IsDateText(k) == k \in {6, 7}
T(i) == CHOOSE t \in Tables(W("xlsx"), Reqs[i]) : TRUE
(* every cell as text, as itself *)
Own(k) == CASE k = 0 -> "~" [] k = 1 -> "'2020-01-01 12:00:00.000" [] k = 2 -> "'2.5" [] k = 3 -> "'44000"
            [] k = 4 -> "'15" [] k = 5 -> "'-7.25" [] k = 6 -> "'2020-02-29" [] k = 7 -> "'31/12/1960 23:59"
            [] k = 8 -> "'word" [] OTHER -> "'other"
(* every cell as number, as moment *)
AsNum(k) == CASE k = 2 -> "2.5" [] k = 3 -> "44000" [] k = 4 -> "15" [] k = 5 -> "-7.25" [] OTHER -> "~"
AsTs(k) == CASE k = 1 -> "18262:43200000" [] k = 2 -> "-25566:43200000" [] k = 3 -> "18431:0" [] k = 4 -> "-25553:0"
             [] k = 5 -> "-8:64800000" [] k = 6 -> "18321:0" [] k = 7 -> "-3288:86340000" [] OTHER -> "~"
Wholly == \A i \in 1..4 : Live # {} =>
  LET t == T(i) IN
  /\ t.ok
  /\ t.cols[1] = [n \in 1..Len(t.cols[1]) |->
        CASE t.types[1] = "str" -> Own(col[n])
          [] t.types[1] = "ts"  -> AsTs(col[n])
          [] OTHER -> AsNum(col[n])]
(* the outcome is forced where the statement forces it *)
Forced == \A i \in 1..4 : Live # {} =>
  LET t == T(i).types[1] IN
  /\ (\A k \in Ks : IsDate(k)) => t = "ts"
  /\ (\A k \in Ks : IsNum(k)) => t \in {"i64", "f64"}
  /\ (\A k \in Ks : IsText(k)) => t = "str"
  /\ (i = 1 /\ Cardinality({IF IsDate(k) THEN 1 ELSE IF IsNum(k) THEN 2 ELSE 3 : k \in Ks}) > 1) => t = "str"
  /\ (Ks \cap {8, 9} # {}) => t = "str"
  /\ (i \in {2, 4} /\ 1 \in Ks /\ \A k \in Ks : IsDate(k) \/ IsNum(k) \/ IsDateText(k)) =>
        (t = "ts" \/ (i = 4 /\ t = "ts"))
  /\ (i \in {3, 4} /\ 1 \notin Ks /\ (\E k \in Ks : IsNum(k)) /\ \A k \in Ks : IsNum(k) \/ IsNumeral(k)) => t \in {"i64", "f64"}
  /\ (i = 2 /\ \E k \in Ks : IsNumeral(k)) => t = "str"
  /\ (i = 3 /\ ((\E k \in Ks : IsDateText(k)) \/ (1 \in Ks /\ Cardinality(Ks) > 1))) => t = "str"
Same == \A i \in 1..4 : Tables(W("xlsx"), Reqs[i]) = Tables(W("xlsb"), Reqs[i])

ASSUME EmitReqs(Reqs)
Replayed == col = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o ToString(col), W(fmt), Reqs)
=============================================================================
