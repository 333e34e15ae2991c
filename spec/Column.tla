------------------------------ MODULE Column ------------------------------
(* A column of typed cells and what it becomes: its arrow type and its values.

   A column is a sequence of items, one per row:
     [x |-> "null"]
     [x |-> "text", s |-> text, g |-> group]     (and v |-> number, when the text was stored as one)
     [x |-> "num",  v |-> number, g |-> group]
     [x |-> "temp", v |-> number, g |-> group]      a serial shown as a date or time
   A number is [b |-> FALSE, n, k] (n / 10^k, small), [b |-> TRUE, s, f, w, ...] (outside the model's
   integers: its shortest decimal form s, its whole part i, its text form f, and wp: it counts as a
   whole number in the int64 range under every precision below wp), or a serial given as days and
   milliseconds [b |-> TRUE, ..., day |-> d, ms |-> m].
   Maximal stretches of neighbouring items of one group are runs: a run is converted as a whole.     *)
EXTENDS Strp

Null == [x |-> "null"]

NumText(v)   == IF v.b THEN v.f ELSE DecText(v.n, v.k)        \* as text
NumStr(v)    == IF v.b THEN v.s ELSE DecText(v.n, v.k)        \* as a number of the result
NumWhole(v, p) == IF v.b THEN p < v.wp ELSE IsWhole(v.n, v.k, p)
NumMoment(v) == IF v.b THEN SerialMoment(v.day, v.ms) ELSE SerialDec(v.n, v.k)
IntStr(v)    == IF v.b THEN v.i ELSE ToString(TruncInt(v.n, v.k))

Small(n, k) == [b |-> FALSE, n |-> n, k |-> k]

MomentStr(m) == ToString(m.day) \o ":" \o ToString(m.ms)

(* runs: <<first, last>> of every maximal stretch of equal group among the items *)
SameRun(it, i) == i > 1 /\ it[i].x # "null" /\ it[i - 1].x # "null" /\ it[i].g = it[i - 1].g
RunStarts(it) == SelectSeq([i \in 1..Len(it) |-> i], LAMBDA i : it[i].x # "null" /\ ~SameRun(it, i))
RECURSIVE RunEnd(_, _)
RunEnd(it, i) == IF i < Len(it) /\ SameRun(it, i + 1) THEN RunEnd(it, i + 1) ELSE i
Runs(it) == LET s == RunStarts(it) IN [j \in 1..Len(s) |-> <<s[j], RunEnd(it, s[j])>>]

(* conv = [dt, num, fmts, prec]: what conflict resolution may do *)
TextAsMoment(s, conv) == StampOf(s, conv.fmts)

RunStamps(it, r, conv)   == \A i \in r[1]..r[2] : TextAsMoment(it[i].s, conv).ok
Stored(c) == "v" \in DOMAIN c                       \* the text was stored as a number
Numeral(c) == Stored(c) \/ ParseDec(c.s).ok
RunNumerals(it, r)       == \A i \in r[1]..r[2] : Numeral(it[i])
IsTextRun(it, r)         == it[r[1]].x = "text"

(* Can a text run join the dates / the numbers of its column? *)
JoinsDates(it, r, conv) == RunStamps(it, r, conv) \/ (conv.num /\ RunNumerals(it, r))

Has(it, k) == \E i \in 1..Len(it) : it[i].x = k

(* The four outcomes: "ts", "num", "str" *)
Outcome(it, conv) ==
  LET temp == Has(it, "temp")
      num  == Has(it, "num")
      text == Has(it, "text")
      rs   == SelectSeq(Runs(it), LAMBDA r : IsTextRun(it, r))
  IN IF temp
     THEN IF ~num /\ ~text THEN "ts"
          ELSE IF ~conv.dt THEN "str"
          ELSE IF \A j \in 1..Len(rs) : JoinsDates(it, rs[j], conv) THEN "ts" ELSE "str"
     ELSE IF num
     THEN IF ~text THEN "num"
          ELSE IF conv.num /\ \A j \in 1..Len(rs) : RunNumerals(it, rs[j]) THEN "num" ELSE "str"
     ELSE "str"

AsText(c) == CASE c.x = "null" -> "~"
               [] c.x = "text" -> "'" \o c.s
               [] c.x = "num"  -> "'" \o NumText(c.v)
               [] c.x = "temp" -> "'" \o StampText(NumMoment(c.v).day, NumMoment(c.v).ms)

NumOf(c) == IF Stored(c) THEN c.v ELSE LET d == ParseDec(c.s) IN Small(d.n, d.k)

(* [t |-> type, v |-> values] *)
Resolve(it, conv) ==
  LET o == Outcome(it, conv)
  IN CASE o = "str" -> [t |-> "str", v |-> [i \in 1..Len(it) |-> AsText(it[i])]]
       [] o = "num" ->
            LET nums == {i \in 1..Len(it) : it[i].x # "null"}
                whole == \A i \in nums : NumWhole(NumOf(it[i]), conv.prec)
            IN [t |-> IF whole THEN "i64" ELSE "f64",
                v |-> [i \in 1..Len(it) |->
                        IF it[i].x = "null" THEN "~"
                        ELSE IF whole THEN IntStr(NumOf(it[i])) ELSE NumStr(NumOf(it[i]))]]
       [] o = "ts" ->
            LET rs == Runs(it)
                M(i) == CASE it[i].x \in {"temp", "num"} -> NumMoment(it[i].v)
                          [] OTHER ->
                             LET r == CHOOSE r \in {rs[j] : j \in 1..Len(rs)} : r[1] <= i /\ i <= r[2]
                             IN IF RunStamps(it, r, conv)
                                THEN LET p == TextAsMoment(it[i].s, conv) IN [day |-> p.day, ms |-> p.ms]
                                ELSE NumMoment(NumOf(it[i]))
            IN [t |-> "ts",
                v |-> [i \in 1..Len(it) |-> IF it[i].x = "null" THEN "~" ELSE MomentStr(M(i))]]


(* Texts of a stretch of a column: resolve it, then write every value as text *)
TextsOf(it, conv) ==
  LET res == Resolve(it, conv)
      o == res.t
      rs == Runs(it)
  IN CASE o = "ts" ->
            [i \in 1..Len(it) |->
               IF it[i].x = "null" THEN "~"
               ELSE IF it[i].x \in {"temp", "num"} THEN "'" \o StampText(NumMoment(it[i].v).day, NumMoment(it[i].v).ms)
               ELSE LET r == CHOOSE r \in {rs[j] : j \in 1..Len(rs)} : r[1] <= i /\ i <= r[2]
                        m == IF RunStamps(it, r, conv) THEN TextAsMoment(it[i].s, conv)
                             ELSE NumMoment(NumOf(it[i]))
                    IN "'" \o StampText(m.day, m.ms)]
       [] o = "str" -> res.v
       [] OTHER -> [i \in 1..Len(it) |->
                      IF it[i].x = "null" THEN "~"
                      ELSE IF o = "i64" THEN "'" \o IntStr(NumOf(it[i]))
                      ELSE "'" \o NumText(NumOf(it[i]))]

(* --- slicing ----------------------------------------------------------------------------------- *)
(* Exactly n items from position off (0-based); n = 0 keeps everything to the end; missing items are
   nulls *)
Slice(it, off, n) ==
  IF n = 0 THEN SubSeq(it, off + 1, Len(it))
  ELSE [i \in 1..n |-> IF off + i <= Len(it) THEN it[off + i] ELSE Null]

(* The items whose mask bit is set *)
Masked(it, mask) ==
  LET ids == SelectSeq([i \in 1..Len(mask) |-> i], LAMBDA i : mask[i])
  IN [j \in 1..Len(ids) |-> it[ids[j]]]
===========================================================================
