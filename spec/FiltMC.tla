------------------------------- MODULE FiltMC -------------------------------
(* Which rows filters keep: every presence pattern of three columns, every combination of operators. *)
EXTENDS Req
CONSTANTS MaxRows, Fmts

VARIABLE rows       \* sequence of triples of booleans
Init == rows = <<>>
AddRow(t) == Len(rows) < MaxRows /\ rows' = Append(rows, t)
Next == \E t \in [1..3 -> BOOLEAN] : AddRow(t)
Spec == Init /\ [][Next]_rows

(* a text column, a column of numbers, a column of dates; the first row is a header row *)
Make(p, i) == CASE p = 1 -> IF i % 2 = 0 THEN StrAt(1, "t" \o ToString(i)) ELSE Shared(1, i - 1)
                [] p = 2 -> NumAt(2, ToString(i) \o ".5", 10 * i + 5, 1, 1, "real")
                [] OTHER -> NumAt(4, ToString(43830 + i), 43830 + i, 0, 2, "rk")
Heads3 == [r |-> 0, cells |-> <<StrAt(1, "ta"), StrAt(2, "tb"), StrAt(4, "c")>>]
Row(i) == LET s == SelectSeq(<<1, 2, 3>>, LAMBDA p : rows[i][p])
          IN [r |-> i, cells |-> [j \in 1..Len(s) |-> Make(s[j], i)]]
W(fmt) == BookOf(fmt, <<Heads3>> \o [i \in 1..Len(rows) |-> Row(i)], <<"s1", "s2", "s3", "s4", "s5">>)

Pat(k, s) == [k |-> k, s |-> s]
Ints(is)  == [k |-> "ints", ps |-> <<>>, is |-> is]
Strs(ps)  == [k |-> "strs", ps |-> ps, is |-> <<>>]
One(p)    == [k |-> "one", ps |-> <<p>>, is |-> <<>>]
Ops(s)    == [k |-> "list", ops |-> s]
And == [k |-> "and", ops |-> <<>>]
Or  == [k |-> "or", ops |-> <<>>]
F(filt, strat) == [Base EXCEPT !.header = Header(1), !.keep = TRUE, !.filt = filt, !.strat = strat]
(* [filter columns, operators, request] *)
Plans == <<
  [ps |-> <<1>>,       ops |-> <<>>,             a |-> F(One(Pat("exact", "ta")), And)],
  [ps |-> <<3>>,       ops |-> <<>>,             a |-> F(Ints(<<2>>), Or)],
  [ps |-> <<1, 2>>,    ops |-> <<"and">>,        a |-> F(One(Pat("pre", "t")), And)],
  [ps |-> <<1, 2>>,    ops |-> <<"or">>,         a |-> F(Strs(<<Pat("exact", "tb"), Pat("exact", "ta")>>), Or)],
  [ps |-> <<2, 3>>,    ops |-> <<"and">>,        a |-> F(Ints(<<1, 2>>), Ops(<<"and">>))],
  [ps |-> <<1, 2, 3>>, ops |-> <<"and", "and">>, a |-> F(Ints(<<0, 1, 2>>), And)],
  [ps |-> <<1, 2, 3>>, ops |-> <<"or", "or">>,   a |-> F(Strs(<<Pat("sub", "a"), Pat("sub", "b"), Pat("exact", "c")>>), Or)],
  [ps |-> <<1, 2, 3>>, ops |-> <<"or", "and">>,  a |-> F(Ints(<<0, 1, 2>>), Ops(<<"or", "and">>))],
  [ps |-> <<1, 2, 3>>, ops |-> <<"and", "or">>,  a |-> F(Ints(<<0, 1, 2>>), Ops(<<"and", "or">>))] >>
Wrong == << F(Ints(<<0, 1, 2>>), Ops(<<"or">>)), F(Ints(<<0, 1, 2>>), Ops(<<"or", "xor">>)),
            F(Ints(<<0, 2>>), Ops(<<"or", "and">>)) >>
Extra == << [Plans[9].a EXCEPT !.after = 1], [Plans[5].a EXCEPT !.conf = "all", !.keep = FALSE],
            [Plans[2].a EXCEPT !.header = HeaderList(<<"x", "y", "z">>)] >>
Reqs == [i \in 1..Len(Plans) |-> Plans[i].a] \o Wrong \o Extra

(* --- meaning: the marks of a row folded left to right --- *)
RECURSIVE Folded(_, _, _, _)
Folded(t, ps, ops, k) == IF k = 1 THEN t[ps[1]]
                         ELSE IF ops[k - 1] = "and" THEN Folded(t, ps, ops, k - 1) /\ t[ps[k]]
                         ELSE Folded(t, ps, ops, k - 1) \/ t[ps[k]]
Last0 == LET S == {n \in 1..Len(rows) : \E p \in 1..3 : rows[n][p]} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m
Mine(p, i) == IF ~rows[i][p] THEN "~"
              ELSE CASE p = 1 -> IF i % 2 = 0 THEN "'t" \o ToString(i) ELSE "'s" \o ToString(i)
                     [] p = 2 -> ToString(i) \o ".5"
                     [] OTHER -> ToString(18261 + i) \o ":0"
Kept == \A fmt \in Fmts, i \in 1..Len(Plans) : \A t \in Tables(W(fmt), Reqs[i]) :
  LET ids == SelectSeq([n \in 1..Last0 |-> n], LAMBDA n : Folded(rows[n], Plans[i].ps, Plans[i].ops, Len(Plans[i].ps)))
  IN IF ids = <<>> THEN ~t.ok
     ELSE t.ok /\ t.cols = [p \in 1..3 |-> [n \in 1..Len(ids) |-> Mine(p, ids[n])]]
Refused == \A fmt \in Fmts, i \in 1..Len(Wrong) : \A t \in Tables(W(fmt), Wrong[i]) : ~t.ok /\ t.err = "ValueError"

ASSUME EmitReqs(Reqs)
Replayed == rows = <<>> \/ \A fmt \in Fmts : Emitted(fmt \o ToString(rows), W(fmt), Reqs)
=============================================================================
