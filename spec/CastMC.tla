------------------------------- MODULE CastMC -------------------------------
(* Requested types: every short column of every kind against every type, asked in every way.          *)
EXTENDS Req
CONSTANTS MaxLen, Targets
AllTargets == <<"str", "utf8", "i64", "i32", "f64", "ts", "tss", "d32">>

(* 0 is a hole *)
Pools == [num  |-> << NumAt(0, "5", 5, 0, 1, "rk"), NumAt(0, "-2.5", -25, 1, 1, "real"), NumAt(0, "70000", 70000, 0, 1, "real") >>,
          date |-> << NumAt(0, "43831", 43831, 0, 2, "rk"), NumAt(0, "43831.25", 4383125, 2, 2, "real"),
                      NumAt(0, "0.00003", 3, 5, 2, "real") >>,
          text |-> << StrAt(0, "12"), Shared(0, 0), InlineAt(0, "2020-02-29"), StrAt(0, "1.50") >>]
(* 0.00003 days are 2592 ms: not a whole number of seconds *)
VARIABLES kind, col
Init == kind \in {"num", "date", "text"} /\ col = <<>>
AddItem(x) == Len(col) < MaxLen /\ col' = Append(col, x) /\ UNCHANGED kind
Next == \E x \in 0..Len(Pools[kind]) : AddItem(x)
Spec == Init /\ [][Next]_<<kind, col>>

Cell(x) == IF kind = "date" /\ x = 3
           THEN [Pools[kind][x] EXCEPT !.v = [b |-> TRUE, s |-> "0.00003", i |-> "0", f |-> "0.00003", wp |-> 5, x |-> "0.00003",
                                              day |-> 0, ms |-> 2592]]
           ELSE Pools[kind][x]
(* the second column is of numbers: the request for the first must not touch it *)
Row(i) == [r |-> i - 1, cells |-> (IF col[i] = 0 THEN <<>> ELSE <<Cell(col[i])>>) \o <<NumAt(3, ToString(i) \o ".5", 10 * i + 5, 1, 1, "real")>>]
W(fmt) == BookOf(fmt, [i \in 1..Len(col) |-> Row(i)], <<"w">>)

Asked(k, ts, ns) == [Base EXCEPT !.keep = TRUE, !.dtypes = [k |-> k, t |-> IF k = "one" THEN ts[1] ELSE "", ts |-> ts, names |-> ns]]
Ts == SetToSortSeq(1..Len(Targets), <)
Plain == [Base EXCEPT !.keep = TRUE]
Reqs == <<Plain>> \o
        [i \in 1..Len(Targets) |-> Asked("map", <<Targets[i]>>, <<"Unnamed. 0">>)] \o
        [i \in 1..Len(Targets) |-> Asked("seq", <<Targets[i], "f64">>, <<>>)] \o
        <<Asked("one", <<"str">>, <<>>), Asked("one", <<"f64">>, <<>>), Asked("seq", <<"str">>, <<>>),
          Asked("map", <<"str">>, <<"none such">>)>> \o
        [i \in 1..Len(Targets) |-> [Asked("map", <<Targets[i]>>, <<"a">>) EXCEPT !.header = HeaderList(<<"a", "a">>)]]

(* --- meaning --- *)
T(i) == CHOOSE t \in Tables(W("xlsx"), Reqs[i]) : TRUE
Live == {i \in 1..Len(col) : col[i] # 0}
Exact == Live # {} => \A i \in 1..Len(Targets) :
  LET p == T(1)
      t == T(1 + i)
      u == T(1 + Len(Targets) + i)
  IN /\ t = u
     /\ t.ok => /\ t.types = <<Targets[i], "f64">>
                /\ t.cols[2] = p.cols[2]
                /\ \A n \in 1..Len(col) : (t.cols[1][n] = "~") <=> (p.cols[1][n] = "~")
                /\ Targets[i] = p.types[1] => t = p
     /\ ~t.ok => t.err = "ValueError" /\ Targets[i] # p.types[1]
Refused == Live # {} => T(1 + 2 * Len(Targets) + 3).ok = FALSE
Untouched == Live # {} => T(1 + 2 * Len(Targets) + 4) = T(1)
(* all columns of that name, not only the first *)
Named == Live # {} => \A i \in 1..Len(Targets) : LET t == T(5 + 2 * Len(Targets) + i) IN t.ok => t.types = <<Targets[i], Targets[i]>>
(* texts are always possible *)
AnyText == Live # {} => T(1 + 2 * Len(Targets) + 1).ok

ASSUME EmitReqs(Reqs)
Replayed == col = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o kind \o ToString(col), W(fmt), Reqs)
=============================================================================
