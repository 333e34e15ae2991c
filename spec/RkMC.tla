--------------------------------- MODULE RkMC ---------------------------------
(* Payloads are shifted in bit by bit, with at most K changes between neighbouring bits (every payload when K is large). *)
EXTENDS Rk, Emit
CONSTANTS K, Full

VARIABLES bits, turns, value
vars == <<bits, turns, value>>
Init == bits = <<>> /\ turns = 0 /\ value = 0
Turn(b) == IF bits = <<>> \/ bits[Len(bits)] = b THEN 0 ELSE 1
Shift(b) == /\ Len(bits) < Width
            /\ turns + Turn(b) <= K
            /\ bits' = Append(bits, b) /\ turns' = turns + Turn(b)
            (* an accumulator: the first bit of a two's complement number counts negative *)
            /\ value' = IF bits = <<>> THEN 0 - b ELSE 2 * value + b
Next == \E b \in {0, 1} : Shift(b)
Spec == Init /\ [][Next]_vars

Integer == bits # <<>> => /\ Signed(bits) = value
                          /\ IntBits(value, Len(bits)) = bits
Done == Len(bits) = Width
(* doubles encode back, and grow with their payload *)
Scaled(b) == Double(b).m * Pow2(Double(b).e + Bias + MB - 1)
Float == (Done /\ Finite(bits)) => DoubleBits(bits[1], Double(bits).m, IF Expo(bits) = 0 THEN 1 ELSE Expo(bits)) = bits
Grows == (Done /\ ~Full /\ Finite(bits) /\ Unsigned(Tail(bits)) > 0) =>
           LET p == <<bits[1]>> \o Bits(Unsigned(Tail(bits)) - 1, Width - 1)
               step == Scaled(bits) - Scaled(p)
           IN /\ step > 0
              /\ step * Pow2(MB) <= Scaled(bits) \/ Expo(bits) \in {0, 1}
              /\ Expo(p) = 0 => step = 1
(* the same payload under the four flags *)
Replayed == (Done /\ Full) =>
              Put([p |-> Unsigned(Tail(bits)), n |-> bits[1], fin |-> Finite(bits),
                   w |-> << Meaning(bits, FALSE, FALSE), Meaning(bits, FALSE, TRUE), Meaning(bits, TRUE, FALSE), Meaning(bits, TRUE, TRUE) >>])
=============================================================================
