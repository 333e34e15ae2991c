------------------------------- MODULE SessMC -------------------------------
(* Two readers open on the same workbook (the second one with a null text of its own) and iterators over their
   sheets, used in every order: started, advanced, abandoned, failed, with whole reads in between.

   A reader keeps what it has loaded - the list of sheets, the shared strings with the null ones among them, the
   styles; an iterator loads what is missing at its first step and keeps its own place.  Meaning: an iterator
   gives the cells of its sheet as if it were the only one there has ever been.                              *)
EXTENDS Walk, Emit
CONSTANTS Depth, Windows, Ops

(* the sheets, rows of cells: s. shared texts, i. inline texts, d a date; sn and in hold the null text *)
Sheets == << <<<<"sa", "d">>, <<"sn", "in">>, <<"ib">>>>,
             <<<<"sn">>, <<"sc", "sn">>, <<"d">>, <<"sa">>>> >>
NullOf(b) == IF b = 2 THEN {"sn", "in"} ELSE {}
Win(w) == CASE w = "all" -> [skip |-> 0, take |-> 0, keep |-> FALSE]
            [] w = "mid" -> [skip |-> 1, take |-> 1, keep |-> FALSE]
            [] w = "keep" -> [skip |-> 0, take |-> 0, keep |-> TRUE]

(* --- meaning --- *)
Stream(b, s, w, nulls) ==
  LET live(i) == SelectSeq(Sheets[s][i], LAMBDA t : t \notin nulls)
      rs == [i \in 1..Len(Sheets[s]) |-> [r |-> i - 1, ne |-> live(i) # <<>>]]
      dl == Rows(rs, Win(w))
  IN FlattenSeq([n \in 1..Len(dl) |-> [j \in 1..Len(live(dl[n].i)) |-> <<live(dl[n].i)[j], dl[n].row>>]])

VARIABLES it, loaded, nulls, log, place
vars == <<it, loaded, nulls, log, place>>
Idle == [live |-> FALSE, b |-> 0, s |-> 0, w |-> "all", todo |-> <<>>, begun |-> FALSE]

Init == /\ it = [i \in 1..2 |-> Idle] /\ loaded = [b \in 1..2 |-> {}] /\ nulls = [b \in 1..2 |-> {}]
        /\ log = <<>> /\ place = [i \in 1..2 |-> 0]

(* loading is what fills the null shared strings of a reader *)
Load(b, what) == /\ loaded' = [loaded EXCEPT ![b] = @ \cup what]
                 /\ nulls' = [nulls EXCEPT ![b] = IF "shared" \in what THEN NullOf(b) \cap {"sn"} ELSE @]
Texts(b) == NullOf(b) \ {"sn"}       \* the predicate tells of texts in the cells themselves
Say(r) == log' = Append(log, r)

Start(i, b, s, w) ==
  /\ i = 1 \/ it[1].live          \* the iterators are alike
  /\ it' = [it EXCEPT ![i] = [live |-> TRUE, b |-> b, s |-> s, w |-> w, todo |-> <<>>, begun |-> FALSE]]
  /\ place' = [place EXCEPT ![i] = 0] /\ UNCHANGED <<loaded, nulls>>
  /\ Say([op |-> "start", i |-> i, b |-> b, s |-> s, w |-> w, ans |-> <<>>])

Step(i) ==
  /\ it[i].live
  /\ LET x == it[i]
         now == IF x.begun THEN x.todo ELSE Stream(x.b, x.s, x.w, (NullOf(x.b) \cap {"sn"}) \cup Texts(x.b))
     IN /\ IF x.begun THEN UNCHANGED <<loaded, nulls>> ELSE Load(x.b, {"sheets", "shared", "styles"})
        /\ IF now = <<>>
           THEN it' = [it EXCEPT ![i] = Idle] /\ Say([op |-> "next", i |-> i, ans |-> <<"end">>])
           ELSE it' = [it EXCEPT ![i].todo = Tail(now), ![i].begun = TRUE] /\ Say([op |-> "next", i |-> i, ans |-> Head(now)])
        /\ place' = [place EXCEPT ![i] = @ + 1]

Close(i) == /\ it[i].live /\ it' = [it EXCEPT ![i] = Idle] /\ UNCHANGED <<loaded, nulls, place>>
            /\ Say([op |-> "close", i |-> i, ans |-> <<>>])

Whole(b, s, w) == /\ Load(b, {"sheets", "shared", "styles"}) /\ UNCHANGED <<it, place>>
                  /\ Say([op |-> "whole", b |-> b, s |-> s, w |-> w, ans |-> Stream(b, s, w, nulls'[b] \cup Texts(b))])
Fail(b, s) == /\ Load(b, {"sheets", "shared", "styles"}) /\ UNCHANGED <<it, place>>
              /\ Say([op |-> "fail", b |-> b, s |-> s, ans |-> <<"raised">>])
Names(b) == /\ Load(b, {"sheets"}) /\ UNCHANGED <<it, place>> /\ Say([op |-> "names", b |-> b, ans |-> <<"S1", "S2">>])
Texted(b) == /\ Load(b, {"shared"}) /\ UNCHANGED <<it, place>> /\ Say([op |-> "shared", b |-> b, ans |-> <<>>])

Next == /\ Len(log) < Depth
        /\ \/ \E i \in 1..2 : Step(i) \/ Close(i) \/ \E b \in 1..2, s \in 1..Len(Sheets), w \in Windows : Start(i, b, s, w)
           \/ "whole" \in Ops /\ \E b \in 1..2, s \in 1..Len(Sheets), w \in Windows : Whole(b, s, w)
           \/ "fail" \in Ops /\ \E b \in 1..2, s \in 1..Len(Sheets) : Fail(b, s)
           \/ "names" \in Ops /\ \E b \in 1..2 : Names(b) \/ Texted(b)
Spec == Init /\ [][Next]_vars

(* an iterator that has begun has loaded what it depends on, and goes on where it was *)
Alone == \A i \in 1..2 : it[i].live /\ it[i].begun =>
           LET x == it[i]
               full == Stream(x.b, x.s, x.w, NullOf(x.b))
           IN /\ {"sheets", "shared", "styles"} \subseteq loaded[x.b]
              /\ place[i] <= Len(full) /\ x.todo = SubSeq(full, place[i] + 1, Len(full))
WholeReads == \A n \in 1..Len(log) : log[n].op = "whole" => log[n].ans = Stream(log[n].b, log[n].s, log[n].w, NullOf(log[n].b))
Kept == \A b \in 1..2 : "shared" \in loaded[b] => nulls[b] = NullOf(b) \cap {"sn"}
Replayed == Len(log) = Depth => Put([log |-> log])
=============================================================================
