------------------------------- MODULE Txt -------------------------------
(* Text and decimal helpers shared by every other module.

   A text is a TLA+ string.  Characters outside printable ASCII never occur in it: the harness writes
   them as brace escapes ({2028}, {a*9000} for a long run), an injective, concatenation-preserving
   encoding, so joining, comparing, searching and stripping mean the same on both sides.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ch(s, i) == SubSeq(s, i, i)
DigitChars == <<"0","1","2","3","4","5","6","7","8","9">>
DigitMap == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
               CHOOSE d \in 0..9 : DigitChars[d + 1] = c]
IsDigit(c) == c \in DOMAIN DigitMap
Digit(c) == DigitMap[c]

PrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
SuffixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Within(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

(* Leading and trailing white space of an XML text: plain blanks or escaped ones *)
Blanks == {" ", "{9}", "{a}", "{d}", "{a0}", "{2028}", "{3000}"}
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF \E b \in Blanks : PrefixOf(b, s)
             THEN LET b == CHOOSE x \in Blanks : PrefixOf(x, s)
                  IN LStrip(SubSeq(s, Len(b) + 1, Len(s)))
             ELSE s
RStrip(s) == IF \E b \in Blanks : SuffixOf(b, s)
             THEN LET b == CHOOSE x \in Blanks : SuffixOf(x, s)
                  IN RStrip(SubSeq(s, 1, Len(s) - Len(b)))
             ELSE s
Strip(s) == RStrip(LStrip(s))

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
JoinWith(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE LPad(_, _)
LPad(s, w) == IF Len(s) >= w THEN s ELSE LPad("0" \o s, w)
Pad(n, w) == LPad(ToString(n), w)

RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* The number n / 10^k, shortest decimal form *)
DecText(n, k) ==
  IF k = 0 THEN ToString(n)
  ELSE LET d == Pow10(k)
           a == Abs(n)
           f == TrimZeros(Pad(a % d, k))
       IN (IF n < 0 THEN "-" ELSE "") \o ToString(a \div d) \o (IF f = "" THEN "" ELSE "." \o f)

AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
NatOf(s) == FoldLeft(LAMBDA a, i : a * 10 + Digit(Ch(s, i)), 0, [i \in 1..Len(s) |-> i])

(* A decimal numeral: optional sign, digits, optional point with digits on at least one side. *)
NotNum == [ok |-> FALSE, n |-> 0, k |-> 0]
ParseDec(s) ==
  LET neg == PrefixOf("-", s)
      b   == IF neg \/ PrefixOf("+", s) THEN SubSeq(s, 2, Len(s)) ELSE s
      dot == SelectInSeq([i \in 1..Len(b) |-> Ch(b, i)], LAMBDA c : c = ".")
      ip  == IF dot = 0 THEN b ELSE SubSeq(b, 1, dot - 1)
      fp  == IF dot = 0 THEN "" ELSE SubSeq(b, dot + 1, Len(b))
      v   == (IF ip = "" THEN 0 ELSE NatOf(ip)) * Pow10(Len(fp)) + (IF fp = "" THEN 0 ELSE NatOf(fp))
  IN IF b = "" \/ (ip = "" /\ fp = "") THEN NotNum
     ELSE IF ~((ip = "" \/ AllDigits(ip)) /\ (fp = "" \/ AllDigits(fp))) THEN NotNum
     ELSE [ok |-> TRUE, n |-> (IF neg THEN -v ELSE v), k |-> Len(fp)]

(* A whole numeral *)
ParseWhole(s) ==
  LET b == IF PrefixOf("-", s) THEN SubSeq(s, 2, Len(s)) ELSE s
  IN IF AllDigits(b) THEN [ok |-> TRUE, n |-> IF PrefixOf("-", s) THEN -NatOf(b) ELSE NatOf(b), k |-> 0]
     ELSE NotNum

(* n / 10^k rounded half to even at p decimals, in units of 10^-p *)
RoundAt(n, k, p) ==
  IF k <= p THEN n * Pow10(p - k)
  ELSE LET d == Pow10(k - p)
           q == n \div d          \* floor
           r == n - q * d
       IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1

TruncInt(n, k) == IF n >= 0 THEN n \div Pow10(k) ELSE -((-n) \div Pow10(k))

(* Rounding at p decimals gives the same number as dropping the fraction *)
IsWhole(n, k, p) ==
  IF k <= p THEN n % Pow10(k) = 0
  ELSE RoundAt(n, k, p) = TruncInt(n, k) * Pow10(p)
==========================================================================
