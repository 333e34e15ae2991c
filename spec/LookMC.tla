------------------------------- MODULE LookMC -------------------------------
(* Where a table starts: header lookup on every small sheet.  Sheets grow row by row.               *)
EXTENDS Req
CONSTANTS MaxRows, Fmt

Texts == <<"a", "ab", "b", "A">>
(* a cell is 0 (none) or the number of a text; the last column is of numbers *)
VARIABLE rows
Init == rows = <<>>
AddRow(x, y) == /\ Len(rows) < MaxRows
                /\ rows' = Append(rows, <<x, y>>)
Next == \E x \in 0..4, y \in 0..2 : AddRow(x, y)
Spec == Init /\ [][Next]_rows

Row(i) == [r |-> i - 1, cells |->
   (IF rows[i][1] = 0 THEN <<>> ELSE <<Shared(0, rows[i][1] - 1)>>) \o
   (IF rows[i][2] = 0 THEN <<>> ELSE IF rows[i][2] = 1 THEN <<StrAt(3, "b")>>
                                     ELSE <<NumAt(3, "7", 7, 0, 1, "rk")>>)]
W == BookOf(Fmt, [i \in 1..Len(rows) |-> Row(i)], Texts)

Pat(k, s, size) == [k |-> "re", p |-> [k |-> k, s |-> s], n |-> 0, size |-> size]
ByCol(n, size)  == [k |-> "col", p |-> [k |-> "sub", s |-> ""], n |-> n, size |-> size]
Lookups == <<Pat("exact", "a", 30), Pat("sub", "b", 30), Pat("pre", "a", 2), Pat("exact", "b", 1), Pat("exact", "7", 3),
             Pat("exact", "c", 30), ByCol(0, 30), ByCol(3, 2), ByCol(1, 30), Pat("sub", "b", 2), Pat("suf", "b", 3),
             [Pat("alt", "A", 30) EXCEPT !.p = [k |-> "alt", s |-> "A", t |-> "ab"]], Pat("dig", "", 30)>>
Reqs == <<[Base EXCEPT !.keep = TRUE, !.lookup = Lookups[1], !.header = Header(1)]>> \o
        [i \in 1..Len(Lookups) |-> [Base EXCEPT !.lookup = Lookups[i], !.header = Header(1), !.keep = i % 2 = 0]] \o
        <<[Base EXCEPT !.lookup = Lookups[2]], [Base EXCEPT !.lookup = Lookups[7], !.header = Header(2)],
          [Base EXCEPT !.lookup = Lookups[6]], [Base EXCEPT !.lookup = Lookups[2], !.header = Header(1), !.after = 1],
          [Base EXCEPT !.lookup = Lookups[3], !.skip = 1, !.keep = TRUE]>>

(* --- meaning: some cell of the first row matches, no cell above it does --- *)
StartsAtMatch == \A i \in 1..Len(Reqs) :
  LET a == Reqs[i]
      cols == TLCEval(Columns(W, a))
      txt == TLCEval([c \in DOMAIN cols |-> TextsOf(Slice(cols[c], 0, a.lookup.size), Conv(a))])
      hit(c, j) == txt[c][j] # "~" /\ Finds(a.lookup.p, TextAt(txt[c][j]))
      f == HeadRow(a, cols)
  IN CASE a.lookup.k = "re" ->
            IF f = -1
            THEN \A c \in DOMAIN cols : \A j \in 1..Len(cols[c]) : j <= a.lookup.size => ~hit(c, j)
            ELSE /\ f < a.lookup.size /\ \E c \in DOMAIN cols : f < Len(cols[c]) /\ hit(c, f + 1)
                 /\ \A c \in DOMAIN cols : \A j \in 1..Len(cols[c]) : j <= f => ~hit(c, j)
       [] a.lookup.k = "col" /\ a.lookup.n \in DOMAIN cols ->
            LET v == txt[a.lookup.n]
            IN IF f = -1 THEN \A j \in 1..Len(v) : v[j] = "~"
               ELSE v[f + 1] # "~" /\ \A j \in 1..f : v[j] = "~"
       [] OTHER -> a.lookup.k = "none" \/ f = -1
(* the table is the sheet from the start on: length is what remains *)
NothingLost == \A i \in 1..Len(Reqs) :
  LET a == Reqs[i]
      cols == TLCEval(Columns(W, a))
      L == {Len(cols[c]) : c \in DOMAIN cols}
      tot == IF L = {} THEN 0 ELSE CHOOSE m \in L : \A x \in L : x <= m
      f == HeadRow(a, cols)
  IN f # -1 =>
         LET t == TableAt(W, a, cols, f)
             n == tot - f - (IF a.header.k = "int" THEN a.header.n ELSE 0) - a.after
         IN t.ok => \A j \in 1..Len(t.cols) : Len(t.cols[j]) = Max2(n, 0)

ASSUME EmitReqs(Reqs)
Replayed == rows = <<>> \/ Emitted(ToString(rows), W, Reqs)
=============================================================================
