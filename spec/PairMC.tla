------------------------------- MODULE PairMC -------------------------------
(* One sheet, both kinds of files: every small sheet of the cells both can hold alike, under requests
   that use every part of a read.                                                                    *)
EXTENDS Req
CONSTANTS MaxRows, KindsA, KindsB

Texts == <<"h", "10", "2020-02-29", "#N/A">>
Make(c, k) == CASE k \in 1..4 -> Shared(c, k - 1)
                [] k = 5 -> NumAt(c, "7", 7, 0, 1, "rk")
                [] k = 6 -> NumAt(c, "43831.5", 438315, 1, 2, "real")
                [] k = 7 -> InlineAt(c, "h")
                [] k = 8 -> ErrAt(c, "#CALC!")
                [] k = 9 -> BlankAt(c)
                [] OTHER -> StrAt(c, "w")
VARIABLE rows
Init == rows = <<>>
AddRow(x, y, gap) == Len(rows) < MaxRows /\ rows' = Append(rows, <<x, y, gap>>)
Next == \E x \in KindsA, y \in KindsB, gap \in {0, 1} : AddRow(x, y, gap)
Spec == Init /\ [][Next]_rows

RECURSIVE At_(_)
At_(i) == IF i = 1 THEN rows[1][3] ELSE At_(i - 1) + 1 + rows[i][3]
Row(i) == [r |-> At_(i), cells |-> (IF rows[i][1] = 0 THEN <<>> ELSE <<Make(0, rows[i][1])>>) \o
                                   (IF rows[i][2] = 0 THEN <<>> ELSE <<Make(2, rows[i][2])>>)]
W(fmt) == BookOf(fmt, [i \in 1..Len(rows) |-> Row(i)], Texts)
Pat(k, s) == [k |-> "re", p |-> [k |-> k, s |-> s], n |-> 0, size |-> 30]
Reqs == << Base,
  [Base EXCEPT !.keep = TRUE, !.conf = "all"],
  [Base EXCEPT !.conf = "temporal", !.header = Header(1)],
  [Base EXCEPT !.conf = "numeric", !.header = Header(2), !.skip = 1],
  [Base EXCEPT !.lookup = Pat("exact", "h"), !.header = Header(1), !.take = 2],
  [Base EXCEPT !.nulls = <<"10", "w">>, !.keep = TRUE, !.take = 1],
  [Base EXCEPT !.filt = [k |-> "ints", ps |-> <<>>, is |-> <<0, 1>>], !.strat = [k |-> "and", ops |-> <<>>]],
  [Base EXCEPT !.skipcols = <<0>>, !.dtypes = [k |-> "one", t |-> "str", ts |-> <<>>, names |-> <<>>]] >>

Alike == \A i \in 1..Len(Reqs) : Tables(W("xlsx"), Reqs[i]) = Tables(W("xlsb"), Reqs[i])
ASSUME EmitReqs(Reqs)
Replayed == rows = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o ToString(rows), W(fmt), Reqs)
=============================================================================
