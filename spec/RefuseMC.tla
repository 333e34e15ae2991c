------------------------------ MODULE RefuseMC ------------------------------
(* Requests with arguments no read can honour.  Faults are put in one after the other, at any argument; then the
   read goes through its stages and stops at the first one it cannot pass.  Meaning: it is refused iff some fault
   matters, whatever the others are, and a refused request leaves the file as good as it was.               *)
EXTENDS Refuse, Req
CONSTANTS MaxFaults, Fmts, Fine      \* Fine: the longer list of values

VARIABLES base, faults, stage, answer
vars == <<base, faults, stage, answer>>

W(fmt) == BookOf(fmt, << [r |-> 0, cells |-> <<Shared(0, 0), Shared(2, 1)>>],
                         [r |-> 1, cells |-> <<Shared(0, 2), NumAt(2, "5", 5, 0, 1, "rk")>>],
                         [r |-> 3, cells |-> <<NumAt(2, "7.5", 75, 1, 1, "real")>>] >>, <<"key", "val", "x">>)
Names == <<"S">>
Filt(is) == [k |-> "ints", ps |-> <<>>, is |-> is]
Bases == << Base,
            [Base EXCEPT !.header = Header(1)],
            [Base EXCEPT !.header = HeaderList(<<"p", "q">>), !.keep = TRUE],
            [Base EXCEPT !.header = Header(1), !.filt = Filt(<<0, 1>>), !.strat = [k |-> "and", ops |-> <<>>]],
            [Base EXCEPT !.header = Header(1), !.filt = Filt(<<1>>), !.keep = TRUE],
            [Base EXCEPT !.lookup = [k |-> "re", p |-> [k |-> "exact", s |-> "x"], n |-> 0, size |-> 2],
                         !.dtypes = [k |-> "seq", t |-> "", ts |-> <<"str", "f64">>, names |-> <<>>]] >>
FiltersOf(b) == CASE b = 4 -> 2 [] b = 5 -> 1 [] OTHER -> 0
Context(b) == [cols |-> 2, filters |-> FiltersOf(b), sheets |-> Names]

Whole(arg, k) == FaultN(arg, "int", k)
Values(arg) ==
  CASE arg = "file" -> {Fault("file", k) : k \in {"absent", "folder", "shut", "hollow", "text"}}
    [] arg = "sheet" -> {Whole("sheet", n) : n \in {0 - 1, 1}} \cup {FaultS("sheet", "name", s) : s \in {"s", "", "S"}}
                        \cup (IF Fine THEN {Whole("sheet", n) : n \in {0 - 2, 0, 7}} \cup {FaultS("sheet", "name", s) : s \in {"S ", "SS", "0"}} ELSE {})
    [] arg \in {"skip", "take"} -> {Whole(arg, 0 - 1), Fault(arg, "float"), Fault(arg, "none")}
                        \cup (IF Fine THEN {Whole(arg, 0 - 5), Fault(arg, "text"), Fault(arg, "list")} ELSE {})
    [] arg = "header" -> {FaultN("header", "list", n) : n \in IF Fine THEN {0, 1, 2, 3, 5} ELSE {1, 3}}
    [] arg = "filt" -> {Fault("filt", k) : k \in IF Fine THEN {"mixed", "tuple", "number", "dict", "pattern"} ELSE {"mixed", "tuple"}}
    [] arg = "strat" -> {FaultS("strat", "text", s) : s \in IF Fine THEN {"xor", "", "AND", "or", "and or"} ELSE {"xor", "or"}}
                        \cup {Fault("strat", k) : k \in IF Fine THEN {"none", "number", "set"} ELSE {"none"}}
                        \cup {FaultL("strat", ss) : ss \in {<<>>, <<"or", "and">>, <<"xor">>, <<"and">>}
                                                          \cup (IF Fine THEN {<<"#1">>, <<"">>, <<"and", "nor">>} ELSE {})}
    [] OTHER -> {FaultN("dtypes", "list", n) : n \in IF Fine THEN {0, 1, 2, 3} ELSE {1, 3}}
Order == <<"file", "sheet", "skip", "take", "header", "filt", "strat", "dtypes">>

Init == base \in 1..Len(Bases) /\ faults = <<>> /\ stage = 0 /\ answer = {}
At1(arg) == CHOOSE i \in 1..Len(Order) : Order[i] = arg
Spoil(x) == /\ stage = 0 /\ Len(faults) < MaxFaults
            /\ \A i \in 1..Len(faults) : At1(faults[i].arg) < At1(x.arg)
            /\ faults' = Append(faults, x) /\ UNCHANGED <<base, stage, answer>>
Read == stage = 0 /\ faults # <<>> /\ stage' = 1 /\ UNCHANGED <<base, faults, answer>>
(* a stage looks at its own argument only *)
Own == {faults[i] : i \in {j \in 1..Len(faults) : faults[j].arg = Order[stage]}}
Pass == /\ stage \in 1..Len(Order) /\ answer = {}
        /\ LET e == Raises(Own, Context(base))
           IN IF e # {} THEN answer' = e /\ stage' = 99 ELSE stage' = stage + 1 /\ UNCHANGED answer
        /\ UNCHANGED <<base, faults>>
Next == (\E arg \in SeqSet(Order) : \E x \in Values(arg) : Spoil(x)) \/ Read \/ Pass
Spec == Init /\ [][Next]_vars

Done == stage = 99 \/ stage = Len(Order) + 1
All == {faults[i] : i \in 1..Len(faults)}
Right == Done => /\ answer = {} <=> \A x \in All : Raised(x, Context(base)) = {}
                 /\ answer \subseteq Raises(All, Context(base))
(* what is passed must be a table: the other arguments are good ones *)
Harmless(x) == Raised(x, Context(base)) = {}
With(a, x) == CASE x.arg = "header" -> [a EXCEPT !.header = HeaderList(<<"h0", "h1">>)]
                [] x.arg = "strat" -> [a EXCEPT !.strat = IF x.k = "list" THEN [k |-> "list", ops |-> x.ss] ELSE [k |-> x.s, ops |-> <<>>]]
                [] x.arg = "dtypes" -> [a EXCEPT !.dtypes = [k |-> "seq", t |-> "", ts |-> <<"str", "str">>, names |-> <<>>]]
                [] OTHER -> a
RECURSIVE Spoilt(_, _)
Spoilt(a, xs) == IF xs = <<>> THEN a ELSE Spoilt(With(a, Head(xs)), Tail(xs))
(* (a strategy without filters to combine is not looked at) *)
Seen(x) == ~(x.arg = "strat" /\ FiltersOf(base) < 2)
Asked == Spoilt(Bases[base], SelectSeq(faults, Seen))

Replayed == Done => \A fmt \in Fmts :
  Put([fmt |-> fmt, b |-> base, faults |-> faults, errs |-> SetToSeq(Raises(All, Context(base))),
       want |-> IF answer = {} THEN SetToSeq(Tables(W(fmt), Asked)) ELSE <<>>])
ASSUME \A fmt \in Fmts : \A b \in 1..Len(Bases) :
         Put([w |-> W(fmt), base |-> b, fmt |-> fmt, a |-> Bases[b], plain |-> SetToSeq(Tables(W(fmt), Bases[b]))])
=============================================================================
