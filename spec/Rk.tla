---------------------------------- MODULE Rk ----------------------------------
(* Packed numbers: a word of flags and a payload, here a sequence of bits, most significant first.
   EB bits of exponent and MB bits of fraction remain of the double (11 and 18 in a real workbook). *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS EB, MB

RECURSIVE Unsigned(_), Pow2(_)
Unsigned(b) == IF b = <<>> THEN 0 ELSE (2 * Unsigned(SubSeq(b, 1, Len(b) - 1))) + b[Len(b)]
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Width == 1 + EB + MB
Bias == Pow2(EB - 1) - 1

(* the payload as an integer: two's complement (the top bit counts negative; its weight alone may not fit) *)
Signed(b) == Unsigned(Tail(b)) - (IF b[1] = 1 THEN Pow2(Len(b) - 1) ELSE 0)

(* the payload as the upper part of a double: (-1)^s * m * 2^e *)
Expo(b) == Unsigned(SubSeq(b, 2, 1 + EB))
Frac(b) == Unsigned(SubSeq(b, 2 + EB, Width))
Finite(b) == Expo(b) # Pow2(EB) - 1
Double(b) == [s |-> b[1], m |-> IF Expo(b) = 0 THEN Frac(b) ELSE Pow2(MB) + Frac(b),
              e |-> (IF Expo(b) = 0 THEN 1 ELSE Expo(b)) - Bias - MB]

(* what a word denotes: (-1)^s * m * 2^e / d *)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Meaning(b, int, centi) ==
  LET n == IF int THEN [s |-> b[1], m |-> Abs(Signed(b)), e |-> 0] ELSE Double(b)
  IN [s |-> n.s, m |-> n.m, e |-> n.e, d |-> IF centi THEN 100 ELSE 1]

(* encoders: the bits of an integer of n bits, and of a double that fits *)
RECURSIVE Bits(_, _)
Bits(v, n) == IF n = 0 THEN <<>> ELSE Append(Bits(v \div 2, n - 1), v % 2)
IntBits(v, n) == <<IF v < 0 THEN 1 ELSE 0>> \o Bits(IF v < 0 THEN v + Pow2(n - 1) ELSE v, n - 1)
RECURSIVE Scale(_, _)
Scale(m, x) == IF x = 1 \/ m >= Pow2(MB) THEN <<m, x>> ELSE Scale(2 * m, x - 1)
(* m * 2^(x - Bias - MB) with m < 2^(MB + 1), x >= 1 *)
DoubleBits(s, m, x) ==
  LET n == Scale(m, x)
      ex == IF n[1] < Pow2(MB) THEN 0 ELSE n[2]
  IN <<s>> \o Bits(ex, EB) \o Bits(n[1] % Pow2(MB), MB)
=============================================================================
