------------------------------ MODULE FaultMC ------------------------------
(* Workbooks with parts left out: sheets grown row by row, with and without shared strings and styles.
   What is there reads as if the absent part were empty; a cell naming an absent text is an error.     *)
EXTENDS Req
CONSTANTS MaxRows, RowKinds, Ssts, Stys

None == 9   \* no shared strings part
VARIABLES rows, sst, sty
vars == <<rows, sst, sty>>

Far == [Shared(0, 2147483647) EXCEPT !.s = 1] @@ [ix |-> "4294967296"]
(* what a row holds *)
Make(k) ==
  CASE k = "none"   -> <<>>
    [] k = "blank"  -> <<BlankAt(0), BlankAt(2)>>
    [] k = "head"   -> <<StrAt(0, "h"), StrAt(1, "k")>>
    [] k = "nums"   -> <<NumAt(0, "7", 7, 0, 1, "rk"), NumAt(1, "43831", 43831, 0, 2, "real")>>
    [] k = "first"  -> <<Shared(0, 0)>>
    [] k = "second" -> <<Shared(1, 1)>>
    [] k = "below"  -> <<Shared(1, -1)>>
    [] k = "far"    -> <<Far>>
    [] OTHER        -> <<Shared(0, 2), ErrAt(1, "#N/A")>>

Texts(n) == [i \in 1..n |-> IF i = 1 THEN "one" ELSE "two"]
Sty(x) == CASE x = "std" -> StdStyles [] x = "short" -> <<"g">> [] OTHER -> <<>>
Book(fmt) == [fmt |-> fmt, rows |-> [i \in 1..Len(rows) |-> [r |-> i - 1, cells |-> Make(rows[i])]],
              sst |-> Items(Texts(IF sst = None THEN 0 ELSE sst)), sty |-> Sty(sty)]
Absent == (IF sst = None THEN <<"sst">> ELSE <<>>) \o (IF sty = "none" THEN <<"styles">> ELSE <<>>)

Init == rows = <<>> /\ sst \in Ssts /\ sty \in Stys
Next == /\ Len(rows) < MaxRows /\ \E k \in RowKinds : rows' = Append(rows, k)
        /\ UNCHANGED <<sst, sty>>
Spec == Init /\ [][Next]_vars

Reqs == <<[Base EXCEPT !.keep = TRUE], [Base EXCEPT !.header = Header(1)], [Base EXCEPT !.conf = "all", !.header = Header(2)],
          [Base EXCEPT !.skip = 1, !.take = 1], [Base EXCEPT !.skipcols = <<0>>, !.keep = TRUE]>>
Formats == {"xlsx", "xlsb"}

(* --- meaning --- *)
Fine(i, fmt) == \A t \in Tables(Book(fmt), Reqs[i]) : t.ok
Have == IF sst = None THEN 0 ELSE sst
Dangles(k) == CASE k = "first" -> Have < 1 [] k = "second" -> Have < 2 [] k \in {"below", "far", "third"} -> TRUE [] OTHER -> FALSE
InFirst(k) == k \in {"first", "far", "third"}
(* a read fails exactly when a dangling cell is inside the window, and always in the same way *)
Refused == \A fmt \in Formats :
   /\ Fine(1, fmt) <=> ~\E i \in 1..Len(rows) : Dangles(rows[i])
   /\ Fine(5, fmt) <=> ~\E i \in 1..Len(rows) : Dangles(rows[i]) /\ ~InFirst(rows[i])
   /\ \A i \in 1..Len(Reqs) : \A t \in Tables(Book(fmt), Reqs[i]) : t.ok \/ t.err = "IndexError"
(* nothing to read: no columns *)
Empty == (\A i \in 1..Len(rows) : rows[i] \in {"none", "blank"}) =>
           \A fmt \in Formats : \A t \in Tables(Book(fmt), Reqs[1]) : t.ok /\ t.cols = <<>>
(* without styles there are no dates *)
Undated == sty # "std" => \A fmt \in Formats : \A t \in Tables(Book(fmt), Reqs[1]) : t.ok => \A j \in 1..Len(t.types) : t.types[j] # "ts"

ASSUME EmitReqs(Reqs)
Key(fmt) == fmt \o ToString(<<rows, sst, sty>>)
Replayed == \A fmt \in Formats :
  LET w == Book(fmt) IN
  /\ Put([k |-> Key(fmt), w |-> [fmt |-> fmt, rows |-> w.rows, sst |-> w.sst, sty |-> w.sty, absent |-> Absent]])
  /\ \A i \in 1..Len(Reqs) : Put([k |-> Key(fmt), i |-> i, want |-> SetToSeq(Tables(w, Reqs[i]))])
=============================================================================
