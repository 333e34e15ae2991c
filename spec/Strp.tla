------------------------------- MODULE Strp -------------------------------
(* Text dates: which texts denote a moment under a list of formats.

   Matches(s, f) is a deterministic scanner: a state (position in the text, fields read so far) is
   advanced by one directive or literal of the format at a time.  Directives are those of C strptime
   used by the reader: %Y %y %m %d %H %M %S %T %R; a blank in the format matches any run of blanks.  *)
EXTENDS Cal

Start(s) == [ok |-> TRUE, p |-> 1, y |-> 1900, m |-> 1, d |-> 1, H |-> 0, M |-> 0, S |-> 0]
Bad == [ok |-> FALSE, p |-> 0, y |-> 0, m |-> 0, d |-> 0, H |-> 0, M |-> 0, S |-> 0]

IsBlank(c) == c = " "
RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, p) == IF p <= Len(s) /\ IsBlank(Ch(s, p)) THEN SkipBlanks(s, p + 1) ELSE p

(* Greedy bounded number: at most n digits, stops as soon as one more digit must exceed `to` *)
RECURSIVE Greedy(_, _, _, _, _)
Greedy(s, p, v, left, to) ==
  IF left > 0 /\ v * 10 <= to /\ p <= Len(s) /\ IsDigit(Ch(s, p))
  THEN Greedy(s, p + 1, v * 10 + Digit(Ch(s, p)), left - 1, to)
  ELSE [v |-> v, p |-> p]

Number(s, p0, from, to, n) ==
  LET p == SkipBlanks(s, p0)
  IN IF p > Len(s) \/ ~IsDigit(Ch(s, p)) THEN [ok |-> FALSE, v |-> 0, p |-> 0]
     ELSE LET g == Greedy(s, p + 1, Digit(Ch(s, p)), n - 1, to)
          IN [ok |-> g.v >= from /\ g.v <= to, v |-> g.v, p |-> g.p]

Lit(s, st, c) ==
  IF ~st.ok THEN Bad
  ELSE IF c = " " THEN [st EXCEPT !.p = SkipBlanks(s, st.p)]
  ELSE IF st.p <= Len(s) /\ Ch(s, st.p) = c THEN [st EXCEPT !.p = @ + 1]
  ELSE Bad

Simple(s, st, c) ==
  LET r == CASE c = "Y" -> Number(s, st.p, 0, 9999, 4)
             [] c = "y" -> Number(s, st.p, 0, 99, 2)
             [] c = "m" -> Number(s, st.p, 1, 12, 2)
             [] c = "d" -> Number(s, st.p, 1, 31, 2)
             [] c = "H" -> Number(s, st.p, 0, 23, 2)
             [] c = "M" -> Number(s, st.p, 0, 59, 2)
             [] c = "S" -> Number(s, st.p, 0, 61, 2)
             [] OTHER -> [ok |-> FALSE, v |-> 0, p |-> 0]
  IN IF ~r.ok THEN Bad
     ELSE CASE c = "Y" -> [st EXCEPT !.p = r.p, !.y = r.v]
            [] c = "y" -> [st EXCEPT !.p = r.p, !.y = IF r.v >= 69 THEN 1900 + r.v ELSE 2000 + r.v]
            [] c = "m" -> [st EXCEPT !.p = r.p, !.m = r.v]
            [] c = "d" -> [st EXCEPT !.p = r.p, !.d = r.v]
            [] c = "H" -> [st EXCEPT !.p = r.p, !.H = r.v]
            [] c = "M" -> [st EXCEPT !.p = r.p, !.M = r.v]
            [] OTHER   -> [st EXCEPT !.p = r.p, !.S = r.v]

RECURSIVE Scan(_, _, _, _)
Scan(s, f, i, st) ==
  IF ~st.ok \/ i > Len(f) THEN st
  ELSE IF Ch(f, i) = "%" /\ i < Len(f)
       THEN LET c == Ch(f, i + 1)
            IN Scan(s, f, i + 2,
                 CASE c = "T" -> Scan(s, "%H:%M:%S", 1, st)
                   [] c = "R" -> Scan(s, "%H:%M", 1, st)
                   [] OTHER -> Simple(s, st, c))
       ELSE Scan(s, f, i + 1, Lit(s, st, Ch(f, i)))

NoStamp == [ok |-> FALSE, day |-> 0, ms |-> 0]

HasDate(f) == Within(f, "%Y") \/ Within(f, "%y") \/ Within(f, "%m") \/ Within(f, "%d")

(* What s denotes under format f: the whole text must be consumed; a four-digit-year directive does
   not accept a two-digit year; a format without a date gives a time of day on 1970-01-01.         *)
StampUnder(s, f) ==
  LET st == Scan(s, f, 1, Start(s))
      secs == st.H * 3600 + st.M * 60 + st.S
      day == DaysOf(st.y, st.m, st.d) + (IF secs >= 86400 THEN 1 ELSE 0)
  IN IF ~st.ok \/ st.p # Len(s) + 1 THEN NoStamp
     ELSE IF Within(f, "%Y") /\ st.y < 100 THEN NoStamp
     ELSE [ok |-> TRUE, day |-> IF HasDate(f) THEN day ELSE 0, ms |-> (secs % 86400) * 1000]

DateFormats == <<"%Y-%m-%d", "%d/%m/%Y", "%d/%m/%y", "%d.%m.%Y", "%d.%m.%y", "%d-%m-%Y", "%d-%m-%y">>
TimeFormats == <<"%T", "%R">>
DefaultFormats ==
  FlattenSeq([i \in 1..Len(DateFormats) |->
      <<DateFormats[i] \o " %T", DateFormats[i] \o "T%T",
        DateFormats[i] \o " %R", DateFormats[i] \o "T%R", DateFormats[i]>>])
  \o TimeFormats

(* The first format of the list that the text satisfies decides *)
RECURSIVE StampFrom(_, _, _)
StampFrom(s, fmts, i) ==
  IF i > Len(fmts) THEN NoStamp
  ELSE LET r == StampUnder(s, fmts[i]) IN IF r.ok THEN r ELSE StampFrom(s, fmts, i + 1)

StampOf(s, fmts) == StampFrom(s, IF fmts = <<>> THEN DefaultFormats ELSE fmts, 1)
==========================================================================
