------------------------------- MODULE NullMC -------------------------------
(* Which cells read as null: texts, error texts and errors, in every storage, under every null list.  *)
EXTENDS Req
CONSTANTS MaxRows, Pool

(* 0 is a hole; shared strings 0..4 *)
Texts == <<"#N/A", "x", "1", "keep", "#n/a">>
Make(c, k) == CASE k \in 1..5 -> Shared(c, k - 1)
                [] k = 6 -> StrAt(c, "#DIV/0!")
                [] k = 7 -> InlineAt(c, "x")
                [] k = 8 -> ErrAt(c, "#SPILL!")
                [] k = 9 -> NumAt(c, "1", 1, 0, 1, "rk")
                [] k = 10 -> [StrAt(c, "x") EXCEPT !.rec = "fst"]
                [] OTHER -> BlankAt(c)
Text(k) == CASE k \in 1..5 -> Texts[k] [] k = 6 -> "#DIV/0!" [] k \in {7, 10} -> "x" [] OTHER -> ""

VARIABLE rows     \* sequence of pairs
Init == rows = <<>>
AddRow(x, y) == Len(rows) < MaxRows /\ rows' = Append(rows, <<x, y>>)
Next == \E x \in Pool, y \in {0, 4, 9} : AddRow(x, y)
Spec == Init /\ [][Next]_rows

Row(i) == [r |-> i - 1, cells |-> (IF rows[i][1] = 0 THEN <<>> ELSE <<Make(0, rows[i][1])>>) \o
                                  (IF rows[i][2] = 0 THEN <<>> ELSE <<Make(1, rows[i][2])>>)]
W(fmt) == BookOf(fmt, [i \in 1..Len(rows) |-> Row(i)], Texts)
Lists == << <<>>, <<"x", "#n/a">>, <<"keep ", "3", "X">>, <<"keep", "#N/A ">> >>
Reqs == [i \in 1..4 |-> [Base EXCEPT !.keep = TRUE, !.nulls = Lists[i]]] \o
        [i \in 1..4 |-> [Base EXCEPT !.nulls = Lists[i]]]

(* --- meaning --- *)
IsNull(k, i) == \/ k \in {0, 8, 11}
                \/ k # 9 /\ Text(k) \in ({"#N/A", "#DIV/0!"} \cup {Lists[i][j] : j \in 1..Len(Lists[i])})
Show(k, mixed) == IF k = 9 THEN (IF mixed THEN "'1" ELSE "1") ELSE "'" \o Text(k)
Marked == \A fmt \in {"xlsx", "xlsb"}, i \in 1..4 : \A t \in Tables(W(fmt), Reqs[i]) :
  LET Live(p) == {n \in 1..Len(rows) : ~IsNull(rows[n][p], i)}
      cs == SelectSeq(<<1, 2>>, LAMBDA p : Live(p) # {})
      end == CHOOSE m \in 0..Len(rows) : (m = 0 \/ m \in Live(1) \cup Live(2)) /\ \A n \in Live(1) \cup Live(2) : n <= m
      mixed(p) == \E n \in Live(p) : rows[n][p] # 9
  IN t.ok /\ t.cols = [j \in 1..Len(cs) |-> [n \in 1..end |->
       IF n \in Live(cs[j]) THEN Show(rows[n][cs[j]], mixed(cs[j])) ELSE "~"]]
(* rows of nulls do not count: the table is the one of the sheet without them *)
Dropped == \A fmt \in {"xlsx", "xlsb"}, i \in 1..4 :
  LET some == SelectSeq([n \in 1..Len(rows) |-> n], LAMBDA n : ~IsNull(rows[n][1], i) \/ ~IsNull(rows[n][2], i))
      V == BookOf(fmt, [m \in 1..Len(some) |-> [Row(some[m]) EXCEPT !.r = m - 1]], Texts)
  IN Tables(W(fmt), Reqs[4 + i]) = Tables(V, Reqs[i])

ASSUME EmitReqs(Reqs)
Replayed == rows = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o ToString(rows), W(fmt), Reqs)
=============================================================================
