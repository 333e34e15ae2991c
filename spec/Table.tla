------------------------------- MODULE Table -------------------------------
(* The meaning of a whole read: from the abstract workbook and the request to the table (or error).

   w = [fmt, rows, sst, sty]: file kind, stored rows ([r, cells]), shared strings ([runs]), class of
   every cell style ("t" temporal, "n" numeric, "g" neither).
   a = the request.                                                                                *)
EXTENDS Walk, Column, TLC

ErrorTexts == {"#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA",
  "#{414}{415}{41b}/0!", "#{417}{41d}{410}{427}!", "#{421}{421}{42b}{41b}{41a}{410}!",
  "#{418}{41c}{42f}?", "#{427}{418}{421}{41b}{41e}!", "#{41d}/{414}"}

SeqSet(s) == {s[i] : i \in 1..Len(s)}
NullTexts(a) == ErrorTexts \cup SeqSet(a.nulls)

---------------------------------------------------------------------------
(* one cell *)
Style(w, c) == IF "s" \in DOMAIN c /\ c.s < Len(w.sty) THEN w.sty[c.s + 1] ELSE "g"
Clean(w, s) == IF w.fmt = "xlsx" THEN Strip(s) ELSE s
NullText(w, a, s) == s \in NullTexts(a) \/ (w.fmt = "xlsx" /\ s = "")

TextCell(w, a, s0, g) ==
  LET s == Clean(w, s0) IN IF NullText(w, a, s) THEN Null ELSE [x |-> "text", s |-> s, g |-> g]

NumCell(w, a, c, raw, v, g) ==
  LET st == Style(w, c)
  IN IF w.fmt = "xlsx"
     THEN IF raw \in NullTexts(a) THEN Null
          ELSE CASE st = "t" -> [x |-> "temp", v |-> v, g |-> "d"]
                 [] st = "n" -> [x |-> "num", v |-> v, g |-> "n"]
                 [] OTHER    -> [x |-> "text", s |-> raw, g |-> "t", v |-> v]
     ELSE IF st = "t" /\ g # "b" THEN [x |-> "temp", v |-> v, g |-> g \o "d"]
          ELSE [x |-> "num", v |-> v, g |-> g]

ItemOf(w, a, c) ==
  CASE c.k = "num"    -> NumCell(w, a, c, c.x, c.v, IF c.rec = "rk" THEN "r" ELSE "n")
    [] c.k = "bool"   -> NumCell(w, a, c, ToString(c.b), Small(c.b, 0), "b")
    [] c.k = "sst"    -> IF c.i \in 0..(Len(w.sst) - 1) THEN TextCell(w, a, Concat(w.sst[c.i + 1].runs), "h") ELSE Null
    [] c.k = "str"    -> TextCell(w, a, c.t, "t")
    [] c.k = "inline" -> TextCell(w, a, c.t, "t")
    [] c.k = "err"    -> Null          \* whatever its text
    [] OTHER          -> Null

(* A cell that names a shared string that does not exist makes the read fail *)
Dangling(w, c) == c.k = "sst" /\ (c.i < 0 \/ c.i >= Len(w.sst))
Gives(w, a, c) == c.c \notin SeqSet(a.skipcols) /\ (Dangling(w, c) \/ ItemOf(w, a, c).x # "null")

---------------------------------------------------------------------------
(* the delivered rows *)
WalkRows(w, a) == TLCEval([i \in 1..Len(w.rows) |->
   [r |-> w.rows[i].r, ne |-> \E j \in 1..Len(w.rows[i].cells) : Gives(w, a, w.rows[i].cells[j])]])
Request(a) == [skip |-> a.skip, take |-> a.take, keep |-> a.keep]

Delivery(w, a) == Rows(WalkRows(w, a), Request(a))
Callbacks(w, a) == Walked(w.fmt, WalkRows(w, a), Request(a)).cb

(* the delivered cells: [row, c, item], row by row, in stored order *)
Cells(w, a) ==
  LET dl == TLCEval(Delivery(w, a))
  IN FlattenSeq([n \in 1..Len(dl) |->
       LET cs == SelectSeq(w.rows[dl[n].i].cells, LAMBDA c : Gives(w, a, c))
       IN [j \in 1..Len(cs) |-> [row |-> dl[n].row, c |-> cs[j].c, cell |-> cs[j]]]])

Broken(w, a) == LET cs == TLCEval(Cells(w, a)) IN \E n \in 1..Len(cs) : Dangling(w, cs[n].cell)

(* columns: function from column number to its items; rows past the last cell are not stored *)
Fill(w, a, cs, c) ==
  LET mine == SelectSeq(cs, LAMBDA e : e.c = c)
      len  == mine[Len(mine)].row + 1
      at   == [r \in {mine[j].row : j \in 1..Len(mine)} |->
                 mine[CHOOSE j \in 1..Len(mine) : mine[j].row = r /\ \A h \in 1..(j - 1) : mine[h].row # r].cell]
  IN [i \in 1..len |-> IF (i - 1) \in DOMAIN at THEN ItemOf(w, a, at[i - 1]) ELSE Null]

(* every run of cells of one kind gets its own group *)
RECURSIVE LabelFrom(_, _, _, _)
LabelFrom(it, i, n, acc) ==
  IF i > Len(it) THEN acc
  ELSE IF it[i].x = "null" THEN LabelFrom(it, i + 1, n + 1, Append(acc, it[i]))
  ELSE LET m == IF i > 1 /\ it[i - 1].x # "null" /\ it[i - 1].g # it[i].g THEN n + 1 ELSE n
       IN LabelFrom(it, i + 1, m, Append(acc, [it[i] EXCEPT !.g = m]))
Label(it) == LabelFrom(it, 1, 0, <<>>)

SortedCols(S) == SetToSortSeq(S, <)

Columns(w, a) ==
  LET cs == TLCEval(Cells(w, a))
  IN TLCEval([c \in {cs[n].c : n \in 1..Len(cs)} |-> Label(Fill(w, a, cs, c))])

---------------------------------------------------------------------------
(* patterns stand for regular expressions: "exact" ^s$, "pre" ^s, "sub" s, "suf" s$, "alt" ^(s|t)$, "dig" ^\d+$ *)
Finds(p, s) == CASE p.k = "exact" -> s = p.s
                 [] p.k = "pre"   -> PrefixOf(p.s, s)
                 [] p.k = "suf"   -> Len(p.s) <= Len(s) /\ SubSeq(s, Len(s) - Len(p.s) + 1, Len(s)) = p.s
                 [] p.k = "alt"   -> s \in {p.s, p.t}
                 [] p.k = "dig"   -> s # "" /\ AllDigits(s)
                 [] OTHER         -> Within(s, p.s)

Conv(a) == [dt |-> a.conf \in {"temporal", "all"}, num |-> a.conf \in {"numeric", "all"},
            fmts |-> a.fmts, prec |-> a.prec]

TextAt(t) == SubSeq(t, 2, Len(t))   \* drop the mark of a non-null text

(* The first row of the header: the first of the rows looked at that has a match in some column (or the first
   value of the column asked for); -1 when there is none                                                      *)
Lowest(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
HeadRow(a, cols) ==
  LET T == TLCEval([c \in DOMAIN cols |-> TextsOf(Slice(cols[c], 0, a.lookup.size), Conv(a))])
      Hits(c) == {i \in 1..Len(T[c]) : T[c][i] # "~" /\ (a.lookup.k = "col" \/ Finds(a.lookup.p, TextAt(T[c][i])))}
  IN IF a.lookup.k = "none" THEN 0
     ELSE Lowest(UNION {Hits(c) : c \in {c \in DOMAIN cols : a.lookup.k = "re" \/ c = a.lookup.n}}) - 1

---------------------------------------------------------------------------
(* header names *)
RECURSIVE Fresh(_, _, _)
Fresh(name, i, used) ==
  LET n == IF i = 0 THEN name ELSE name \o "." \o ToString(i)
  IN IF n \in used THEN Fresh(name, i + 1, used) ELSE n
Dedup(names) == FoldLeft(LAMBDA acc, n : Append(acc, Fresh(n, 0, SeqSet(acc))), <<>>, names)

NonEmpty(t) == t # "~" /\ t # "'"

(* several rows: the topmost empty cells of a column repeat its left neighbour's *)
Top(t) == LET s == {i \in 1..Len(t) : t[i] # "~"} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
RECURSIVE MergeHead(_, _, _, _)
MergeHead(ts, j, prev, acc) ==
  IF j > Len(ts) THEN acc
  ELSE IF Top(ts[j]) = 0 THEN MergeHead(ts, j + 1, prev, Append(acc, "Unnamed"))
  ELSE LET m == [i \in 1..Len(ts[j]) |-> IF prev # <<>> /\ i < Top(ts[j]) THEN prev[i] ELSE ts[j][i]]
           ne == SelectSeq(m, NonEmpty)
           nm == JoinWith([i \in 1..Len(ne) |-> TextAt(ne[i])], ", ")
       IN MergeHead(ts, j + 1, m, Append(acc, IF nm = "" THEN "Unnamed" ELSE nm))

HeaderNames(a, cols, first) ==
  LET ks == SortedCols(DOMAIN cols)
      ts == TLCEval([j \in 1..Len(ks) |-> TextsOf(Slice(cols[ks[j]], first, a.header.n), Conv(a))])
  IN IF a.header.n = 1
     THEN Dedup([j \in 1..Len(ks) |-> IF NonEmpty(ts[j][1]) THEN TextAt(ts[j][1]) ELSE "Unnamed"])
     ELSE Dedup(MergeHead(ts, 1, <<>>, <<>>))

---------------------------------------------------------------------------
(* Dates and times in texts, ISO 8601 only: YYYY-MM-DD, then optionally " " or "T" and HH, HH:MM,
   HH:MM:SS or HH:MM:SS and up to `frac` decimals                                               *)
Digits(s, p, n) == p + n - 1 <= Len(s) /\ AllDigits(SubSeq(s, p, p + n - 1))
AtC(s, p, cs) == p <= Len(s) /\ Ch(s, p) \in cs
TwoAt(s, p) == NatOf(SubSeq(s, p, p + 1))
MonthLen(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
IsoStamp(s, frac) ==
  LET L == Len(s)
      dateok == /\ Digits(s, 1, 4) /\ AtC(s, 5, {"-"}) /\ Digits(s, 6, 2) /\ AtC(s, 8, {"-"}) /\ Digits(s, 9, 2)
                /\ TwoAt(s, 6) \in 1..12
                /\ TwoAt(s, 9) \in 1..MonthLen(NatOf(SubSeq(s, 1, 4)), TwoAt(s, 6))
      hok == AtC(s, 11, {" ", "T"}) /\ Digits(s, 12, 2) /\ TwoAt(s, 12) < 24
      mok == L > 13 => AtC(s, 14, {":"}) /\ Digits(s, 15, 2) /\ TwoAt(s, 15) < 60
      sok == L > 16 => AtC(s, 17, {":"}) /\ Digits(s, 18, 2) /\ TwoAt(s, 18) < 60
      fok == L > 19 => AtC(s, 20, {"."}) /\ L > 20 /\ L - 20 <= frac /\ AllDigits(SubSeq(s, 21, L))
      ok == dateok /\ (L = 10 \/ (hok /\ mok /\ sok /\ fok))
      secs == (IF L >= 13 THEN TwoAt(s, 12) * 3600 ELSE 0) + (IF L >= 16 THEN TwoAt(s, 15) * 60 ELSE 0)
              + (IF L >= 19 THEN TwoAt(s, 18) ELSE 0)
      ms == IF L > 20 THEN NatOf(SubSeq(s, 21, L)) * Pow10(3 - (L - 20)) ELSE 0
  IN IF ok THEN [ok |-> TRUE, day |-> DaysOf(NatOf(SubSeq(s, 1, 4)), TwoAt(s, 6), TwoAt(s, 9)), ms |-> secs * 1000 + ms]
     ELSE [ok |-> FALSE, day |-> 0, ms |-> 0]

(* day * 86400000 + ms as text: past 32 bits, so in units of 100 s *)
EpochMs(day, ms) ==
  LET q == day * 864 + ms \div 100000
      r == ms % 100000
      a == IF q < 0 /\ r > 0 THEN -(q + 1) ELSE Abs(q)
      b == IF q < 0 /\ r > 0 THEN 100000 - r ELSE r
  IN (IF q < 0 THEN "-" ELSE "") \o (IF a = 0 THEN ToString(b) ELSE ToString(a) \o Pad(b, 5))

(* casts to requested types: [ok, v] *)
CastOne(t, s, to) ==
  IF s = "~" THEN [ok |-> TRUE, v |-> "~"]
  ELSE CASE t = to -> [ok |-> TRUE, v |-> s]
    [] t = "str" /\ to = "utf8" -> [ok |-> TRUE, v |-> s]
    [] t = "str" /\ to \in {"i64", "i32"} ->
         LET d == ParseWhole(TextAt(s)) IN [ok |-> d.ok, v |-> ToString(d.n)]
    [] t = "str" /\ to = "f64" ->
         LET d == ParseDec(TextAt(s)) IN [ok |-> d.ok, v |-> DecText(d.n, d.k)]
    [] t = "str" /\ to = "d32" ->
         LET d == IsoStamp(TextAt(s), 0) IN [ok |-> d.ok /\ Len(s) = 11, v |-> ToString(d.day)]
    [] t = "str" /\ to \in {"ts", "tss"} ->
         LET d == IsoStamp(TextAt(s), IF to = "ts" THEN 3 ELSE 0) IN [ok |-> d.ok, v |-> MomentStr(d)]
    [] t = "ts" /\ to = "i64" ->
         LET c == SelectInSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA x : x = ":")
         IN [ok |-> TRUE, v |-> EpochMs(ParseWhole(SubSeq(s, 1, c - 1)).n, NatOf(SubSeq(s, c + 1, Len(s))))]
    [] t = "i64" /\ to \in {"ts", "tss"} ->
         LET n == ParseWhole(s).n
         IN [ok |-> TRUE,
             v |-> IF to = "ts" THEN MomentStr([day |-> n \div DayMs, ms |-> n % DayMs])
                   ELSE MomentStr([day |-> n \div 86400, ms |-> (n % 86400) * 1000])]
    [] t = "i64" /\ to \in {"f64", "i32"} -> [ok |-> TRUE, v |-> s]
    [] t \in {"i64", "f64"} /\ to \in {"str", "utf8"} -> [ok |-> TRUE, v |-> "'" \o s]
    [] t = "f64" /\ to \in {"i64", "i32"} -> [ok |-> ~Within(s, "."), v |-> s]
    [] t = "ts" /\ to \in {"str", "utf8"} ->
         LET c == SelectInSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA x : x = ":")
             D == ParseWhole(SubSeq(s, 1, c - 1)).n
         IN [ok |-> TRUE, v |-> "'" \o StampText(D, NatOf(SubSeq(s, c + 1, Len(s))))]
    [] t = "ts" /\ to = "tss" ->
         LET c == SelectInSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA x : x = ":")
         IN [ok |-> NatOf(SubSeq(s, c + 1, Len(s))) % 1000 = 0, v |-> s]
    [] t = "ts" /\ to = "d32" ->
         LET c == SelectInSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA x : x = ":")
         IN [ok |-> TRUE, v |-> SubSeq(s, 1, c - 1)]
    [] OTHER -> [ok |-> FALSE, v |-> s]

(* casts between these pairs do not exist, even for empty columns *)
NoCast(t, to) == \/ t = "ts" /\ to \in {"f64", "i32"}
                 \/ t \in {"i64", "f64"} /\ to \in {"d32"}
                 \/ t = "f64" /\ to \in {"ts", "tss"}

(* texts of floating-point numbers use their text form *)
CastCol(res, to, it) ==
  LET v == [i \in 1..Len(res.v) |->
              IF it[i].x = "null" \/ res.t = to THEN [ok |-> TRUE, v |-> res.v[i]]
              ELSE IF res.t = "f64" /\ to \in {"str", "utf8"}
              THEN [ok |-> TRUE, v |-> "'" \o NumText(NumOf(it[i]))]
              ELSE IF Stored(it[i]) /\ it[i].v.b /\ to \in {"i64", "i32", "f64"} /\ res.t # "ts"
              THEN [ok |-> \/ to = "f64"
                           \/ to = "i64" /\ it[i].v.wp = 99 /\ ~(res.t = "str" /\ Within(it[i].s, ".")),
                    v |-> IF to = "i64" THEN it[i].v.i ELSE it[i].v.s]
              ELSE CastOne(res.t, res.v[i], to)]
  IN [ok |-> (~NoCast(res.t, to)) /\ \A i \in 1..Len(v) : v[i].ok,
      t |-> to, v |-> [i \in 1..Len(v) |-> v[i].v]]

---------------------------------------------------------------------------
Error(e) == [ok |-> FALSE, err |-> e]

FilterCols(a, ks, names) ==   \* positions among the columns
  LET P == [i \in 1..Len(ks) |-> i]
  IN CASE a.filt.k = "none" -> <<>>
       [] a.filt.k \in {"one", "strs"} ->
            SelectSeq(P, LAMBDA i : \E j \in 1..Len(a.filt.ps) : Finds(a.filt.ps[j], names[i]))
       [] OTHER -> SelectSeq(P, LAMBDA i : (i - 1) \in SeqSet(a.filt.is))

RECURSIVE Chain(_, _, _, _)
Chain(ms, ops, j, acc) ==
  IF j > Len(ms) THEN acc
  ELSE Chain(ms, ops, j + 1,
         [i \in 1..Len(acc) |-> IF ops[j - 1] = "and" THEN acc[i] /\ ms[j][i] ELSE acc[i] \/ ms[j][i]])

(* The table when the header starts at row `first` *)
TableAt(w, a, cols, first) ==
  LET ks == TLCEval(SortedCols(DOMAIN cols))
      total == IF ks = <<>> THEN 0
               ELSE CHOOSE m \in {Len(cols[ks[j]]) : j \in 1..Len(ks)} :
                      \A j \in 1..Len(ks) : Len(cols[ks[j]]) <= m
      cs == TLCEval(Cells(w, a))
      hh == IF a.header.k = "int" THEN a.header.n ELSE 0
      names == TLCEval(CASE a.header.k = "int" -> HeaderNames(a, cols, first)
                 [] a.header.k = "list" -> a.header.names
                 [] OTHER -> [j \in 1..Len(ks) |-> "Unnamed. " \o ToString(j - 1)])
      off == hh + first + a.after
      len == total - off
      stretch == TLCEval([j \in 1..Len(ks) |-> IF len <= 0 THEN <<>> ELSE Slice(cols[ks[j]], off, len)])
      fs == TLCEval(FilterCols(a, ks, names))
      masks == TLCEval([f \in 1..Len(fs) |->
                 LET r == Resolve(stretch[fs[f]], Conv(a)) IN [i \in 1..Len(r.v) |-> r.v[i] # "~"]])
      badops == a.strat.k = "list" /\ Len(fs) > 1 /\ Len(a.strat.ops) # Len(fs) - 1
      badop  == a.strat.k = "list" /\ Len(fs) > 1 /\ ~badops
                /\ \E i \in 1..Len(a.strat.ops) : a.strat.ops[i] \notin {"and", "or"}
      mask == TLCEval(IF Len(fs) = 1 THEN masks[1]
              ELSE CASE a.strat.k = "or"  -> Chain(masks, [i \in 1..Len(fs) |-> "or"], 2, masks[1])
                     [] a.strat.k = "and" -> Chain(masks, [i \in 1..Len(fs) |-> "and"], 2, masks[1])
                     [] OTHER             -> Chain(masks, a.strat.ops, 2, masks[1]))
      picked == IF fs = <<>> THEN stretch ELSE TLCEval([j \in 1..Len(ks) |-> Masked(stretch[j], mask)])
      (* a cell naming an absent text is in the header, in a filter column or in the table *)
      seen == Broken(w, a) /\ \E n \in DOMAIN cs : LET d == cs[n] IN
                /\ Dangling(w, d.cell)
                /\ \/ a.header.k = "int" /\ d.row >= first /\ d.row < first + hh
                   \/ d.row >= off /\ (fs = <<>> \/ (\E f \in 1..Len(fs) : ks[fs[f]] = d.c) \/ (d.row - off + 1 \in DOMAIN mask /\ mask[d.row - off + 1]))
      raw == TLCEval([j \in 1..Len(ks) |-> Resolve(picked[j], Conv(a))])
      want(j) == CASE a.dtypes.k = "one" -> a.dtypes.t
                   [] a.dtypes.k = "seq" -> a.dtypes.ts[j]
                   [] a.dtypes.k = "map" ->
                        LET h == {i \in 1..Len(a.dtypes.names) : a.dtypes.names[i] = names[j]}
                        IN IF h = {} THEN raw[j].t ELSE a.dtypes.ts[CHOOSE i \in h : TRUE]
                   [] OTHER -> raw[j].t
      cast == TLCEval([j \in 1..Len(ks) |-> CastCol(raw[j], want(j), picked[j])])
  IN IF a.header.k = "list" /\ Len(a.header.names) # Len(ks) THEN Error("ValueError")
     ELSE IF fs # <<>> /\ (badops \/ badop) THEN Error("ValueError")
     ELSE IF fs # <<>> /\ ~\E i \in 1..Len(mask) : mask[i] THEN Error("ValueError")
     ELSE IF seen THEN Error("IndexError")
     ELSE IF a.dtypes.k = "seq" /\ Len(a.dtypes.ts) # Len(ks) THEN Error("ValueError")
     ELSE IF \E j \in 1..Len(ks) : ~cast[j].ok THEN Error("ValueError")
     ELSE [ok |-> TRUE, names |-> names,
           types |-> [j \in 1..Len(ks) |-> cast[j].t],
           cols |-> [j \in 1..Len(ks) |-> cast[j].v]]

(* Every table the read may give: more than one only when a cell naming an absent text was delivered but is not
   part of the table (the read may fail or not)                                                               *)
Tables(w, a) ==
  LET cols == TLCEval(Columns(w, a))
      f == TLCEval(HeadRow(a, cols))
  IN {IF f = -1 THEN Error("ValueError") ELSE TableAt(w, a, cols, f)}
          \cup (IF Broken(w, a) THEN {Error("IndexError")} ELSE {})
============================================================================
