------------------------------ MODULE ScaleMC ------------------------------
(* Sheets of any size: bands of equal rows.  Column A of a band holds cells of one kind, column B texts or
   nothing; every value names the sheet row it is from.  A table is described by runs: how many rows, what,
   from which sheet row on.  The meaning follows Table.tla for these sheets, at sizes where no list of cells
   can be written down.                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANTS Kinds,    \* kinds of column A
          Sides,    \* kinds of column B: "none" or "text"
          Sizes,    \* rows of a band
          Depth,    \* bands
          Family    \* which requests

VARIABLE bands      \* sequence of [n, a, b]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Sum(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i].n IN f[Len(s)]
Stored(b) == b.a # "none" \/ b.b # "none"

Init == bands = <<>>
Grow == /\ Len(bands) < Depth
        /\ \E n \in Sizes, a \in Kinds, b \in Sides :
              /\ a = "null" => b # "none"
              /\ Len(bands) > 0 => bands[Len(bands)].a # a \/ bands[Len(bands)].b # b
              /\ bands' = Append(bands, [n |-> n, a |-> a, b |-> b])
Next == Grow
Spec == Init /\ [][Next]_bands

-----------------------------------------------------------------------------
(* pieces: [n, k, r] - n cells of kind k, the first one is of sheet row r; k = "~" are nulls *)
Null(k) == k \in {"none", "null"}
Piece(n, k, r) == [n |-> n, k |-> IF Null(k) THEN "~" ELSE k, r |-> IF Null(k) THEN 0 ELSE r]
Pieces(side, keep) ==
  LET start[i \in 1..Len(bands)] == IF i = 1 THEN 0 ELSE start[i - 1] + bands[i - 1].n
      f[i \in 0..Len(bands)] == IF i = 0 THEN <<>>
                                ELSE IF keep \/ Stored(bands[i])
                                     THEN Append(f[i - 1], [n |-> bands[i].n, k |-> IF side = "a" THEN bands[i].a ELSE IF bands[i].b = "none" THEN "none" ELSE "b",
                                                            r |-> start[i]])
                                     ELSE f[i - 1]
  IN [i \in 1..Len(f[Len(bands)]) |-> LET p == f[Len(bands)][i] IN Piece(p.n, p.k, p.r)]

(* cells lo .. hi-1 of a column *)
Cut(ps, lo, hi) ==
  LET f[i \in 0..Len(ps)] ==
        IF i = 0 THEN [at |-> 0, out |-> <<>>]
        ELSE LET b == f[i - 1].at  p == ps[i]
                 x == Max(lo, b)  y == Min(hi, b + p.n)
             IN [at |-> b + p.n,
                 out |-> IF x < y THEN Append(f[i - 1].out, [n |-> y - x, k |-> p.k, r |-> IF p.k = "~" THEN 0 ELSE p.r + (x - b)])
                         ELSE f[i - 1].out]
  IN f[Len(ps)].out
LastValue(ps) ==   \* one more than the place of the last value
  LET f[i \in 0..Len(ps)] == IF i = 0 THEN [at |-> 0, m |-> 0]
                             ELSE [at |-> f[i - 1].at + ps[i].n, m |-> IF ps[i].k # "~" THEN f[i - 1].at + ps[i].n ELSE f[i - 1].m]
  IN f[Len(ps)].m
FirstValue(ps) ==  \* place of the first value (Sum(ps) when there is none)
  LET f[i \in 0..Len(ps)] == IF i = 0 THEN [at |-> 0, m |-> -1]
                             ELSE [at |-> f[i - 1].at + ps[i].n, m |-> IF ps[i].k # "~" /\ f[i - 1].m < 0 THEN f[i - 1].at ELSE f[i - 1].m]
  IN IF f[Len(ps)].m < 0 THEN Sum(ps) ELSE f[Len(ps)].m
(* the cells of ps at the places where qs has values *)
Where(ps, qs) ==
  LET at[i \in 0..Len(qs)] == IF i = 0 THEN 0 ELSE at[i - 1] + qs[i].n
      f[i \in 0..Len(qs)] == IF i = 0 THEN <<>> ELSE IF qs[i].k = "~" THEN f[i - 1] ELSE f[i - 1] \o Cut(ps, at[i - 1], at[i])
  IN f[Len(qs)]
KindsOf(ps) == {ps[i].k : i \in {j \in 1..Len(ps) : ps[j].k # "~"}}

-----------------------------------------------------------------------------
Nums == {"rk", "int", "frac"}
Texts == {"shared", "text", "numtext", "datetext", "b"}
TypeOf(ps, conf) ==
  LET K == KindsOf(ps)  d == "date" \in K  n == K \cap Nums # {}  t == K \cap Texts
      toTime == \A k \in t : (k = "datetext") \/ (k = "numtext" /\ conf = "all")
  IN IF K = {} THEN "str"
     ELSE IF d THEN (IF t = {} /\ ~n THEN "ts" ELSE IF conf \in {"temporal", "all"} /\ toTime THEN "ts" ELSE "str")
     ELSE IF n THEN (IF t = {} \/ (conf \in {"numeric", "all"} /\ t = {"numtext"}) THEN (IF "frac" \in K THEN "f64" ELSE "i64") ELSE "str")
     ELSE "str"
Token(k, type) ==
  IF k = "~" THEN "~"
  ELSE IF type = "ts" THEN (IF k = "frac" THEN "e" ELSE "d")
  ELSE CASE k \in {"rk", "int", "numtext"} -> "n" [] k = "frac" -> "f" [] k \in {"date", "datetext"} -> "d" [] k = "shared" -> "s"
         [] k = "text" -> "t" [] OTHER -> k
(* runs: neighbours that continue each other are one *)
Runs(ps, type) ==
  LET f[i \in 0..Len(ps)] ==
        IF i = 0 THEN <<>>
        ELSE LET s == f[i - 1]  p == [n |-> ps[i].n, k |-> Token(ps[i].k, type), r |-> ps[i].r]
             IN IF Len(s) > 0 /\ s[Len(s)].k = p.k /\ (p.k = "~" \/ s[Len(s)].r + s[Len(s)].n = p.r)
                THEN [s EXCEPT ![Len(s)].n = @ + p.n] ELSE Append(s, p)
  IN [i \in 1..Len(f[Len(ps)]) |-> LET p == f[Len(ps)][i] IN <<p.n, p.k, p.r>>]

Base == [skip |-> 0, take |-> 0, keep |-> TRUE, head |-> 0, after |-> 0, look |-> "no", size |-> 30, filt |-> FALSE, conf |-> "no"]
Table(q) ==
  LET top == q.skip  end == IF q.take > 0 THEN q.skip + q.take + 1 ELSE 1000000000
      A == Cut(Pieces("a", q.keep), top, end)
      B == Cut(Pieces("b", q.keep), top, end)
      hasA == KindsOf(A) # {}  hasB == KindsOf(B) # {}
      first == IF q.look = "no" THEN 0 ELSE FirstValue(B)
      max == Max(LastValue(A), LastValue(B))
      g == first + q.head + q.after
      TA == LET c == Cut(A, g, max) IN IF q.filt THEN Where(c, Cut(B, g, max)) ELSE c
      TB == LET c == Cut(B, g, max) IN IF q.filt THEN Where(c, c) ELSE c
      Col(ps) == LET t == TypeOf(ps, q.conf) IN [type |-> t, runs |-> Runs(ps, t)]
      Name(ps) == LET c == Cut(ps, first, first + 1)
                  IN IF c = <<>> \/ c[1].k = "~" THEN <<"U", 0>> ELSE <<Token(c[1].k, IF c[1].k = "frac" THEN "f64" ELSE "str"), c[1].r>>
  IN CASE q.look # "no" /\ first >= q.size -> [ok |-> FALSE, err |-> "ValueError"]
       [] q.filt /\ hasB /\ KindsOf(TB) = {} -> [ok |-> FALSE, err |-> "ValueError"]
       [] OTHER -> [ok |-> TRUE, len |-> Sum(IF hasA THEN TA ELSE TB), a |-> IF hasA THEN <<Col(TA)>> ELSE <<>>, b |-> IF hasB THEN <<Col(TB)>> ELSE <<>>,
                    names |-> IF q.head = 0 THEN <<>> ELSE (IF hasA THEN <<Name(A)>> ELSE <<>>) \o (IF hasB THEN <<Name(B)>> ELSE <<>>),
                    rows |-> max - g]

(* requests whose outcome does not hang on what this module leaves open (empty tables, no such column) *)
Sound(q) ==
  LET top == q.skip  end == IF q.take > 0 THEN q.skip + q.take + 1 ELSE 1000000000
      A == Cut(Pieces("a", q.keep), top, end)  B == Cut(Pieces("b", q.keep), top, end)
      first == IF q.look = "no" THEN 0 ELSE FirstValue(B)
  IN /\ q.look # "no" \/ q.filt => KindsOf(B) # {}
     /\ Max(LastValue(A), LastValue(B)) > first + q.head + q.after
     /\ (q.conf # "no" /\ "date" \in KindsOf(A)) => ~({"text", "shared"} \cap KindsOf(A) # {} /\ KindsOf(A) \cap {"numtext", "datetext"} # {})

HasA(q) == KindsOf(Cut(Pieces("a", q.keep), q.skip, IF q.take > 0 THEN q.skip + q.take + 1 ELSE 1000000000)) # {}   \* column A is there

Near == LET at == {0, bands[1].n} IN {x \in {0, 1} \cup {y + d : y \in at, d \in {-1, 0, 1}} : x >= 0}
Requests ==
  CASE Family = "plain"  -> {[Base EXCEPT !.keep = k] : k \in BOOLEAN}
    [] Family = "window" -> {[Base EXCEPT !.keep = k, !.skip = s, !.take = t] : k \in BOOLEAN, s \in Near, t \in Near}
    [] Family = "head"   -> {[Base EXCEPT !.skip = s, !.head = 1, !.after = a] : s \in Near, a \in {0, bands[1].n}}
    [] Family = "look"   -> {[Base EXCEPT !.look = l, !.size = z, !.head = h, !.keep = k] :
                               k \in BOOLEAN, l \in {"col", "re"}, h \in {0, 1}, z \in {x \in Near : x > 0} \cup {200000}}
    [] Family = "filter" -> {[Base EXCEPT !.filt = TRUE, !.skip = s, !.after = a, !.head = IF a > 0 THEN 1 ELSE 0, !.keep = k] :
                               k \in BOOLEAN, s \in {0, bands[1].n}, a \in {0, 1}}
    [] Family = "conf"   -> {[Base EXCEPT !.conf = c, !.after = a, !.head = 1] : c \in {"no", "temporal", "numeric", "all"}, a \in {0, bands[1].n}}

-----------------------------------------------------------------------------
(* a table has as many cells in each column; no value is of a row outside the sheet or there twice *)
RowsOf(c) == LET f[i \in 0..Len(c.runs)] == IF i = 0 THEN 0 ELSE f[i - 1] + c.runs[i][1] IN f[Len(c.runs)]
Consistent ==
  Len(bands) > 0 => \A q \in Requests : Sound(q) =>
    LET t == Table(q) IN t.ok =>
      /\ \A c \in {t.a[i] : i \in 1..Len(t.a)} \cup {t.b[i] : i \in 1..Len(t.b)} :
            /\ RowsOf(c) = t.len
            /\ \A i \in 1..Len(c.runs) : c.runs[i][2] # "~" => c.runs[i][3] + c.runs[i][1] <= Sum(bands)
            /\ \A i, j \in 1..Len(c.runs) : (i < j /\ c.runs[i][2] # "~" /\ c.runs[j][2] # "~") => c.runs[i][3] + c.runs[i][1] <= c.runs[j][3]
      /\ ~q.filt => t.len = t.rows
Replayed ==
  Len(bands) > 0 => \A q \in Requests : Sound(q) => Put([bands |-> [i \in 1..Len(bands) |-> <<bands[i].n, bands[i].a, bands[i].b>>], q |-> q, want |-> Table(q), left |-> HasA(q)])
=============================================================================
