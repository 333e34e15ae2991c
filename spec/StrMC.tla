-------------------------------- MODULE StrMC --------------------------------
(* Streams of nullable wide strings, dumped one after another and loaded unit by unit.                 *)
EXTENDS Wide, Emit
CONSTANTS Points, MaxLen, MaxStrings

Texts == {Null} \cup UNION {[1..n -> Points] : n \in 0..MaxLen}

VARIABLES texts, stream, ends, phase, pos, acc, left, loaded, at
vars == <<texts, stream, ends, phase, pos, acc, left, loaded, at>>
Init == texts = <<>> /\ stream = <<>> /\ ends = <<>> /\ phase = "dump" /\ pos = 0 /\ acc = <<>> /\ left = 0 /\ loaded = <<>> /\ at = <<>>
DumpOne == /\ phase = "dump" /\ Len(texts) < MaxStrings
           /\ \E t \in Texts : texts' = Append(texts, t) /\ stream' = stream \o Dump(t)
           /\ ends' = Append(ends, Len(stream'))
           /\ UNCHANGED <<phase, pos, acc, left, loaded, at>>
Rewind == phase = "dump" /\ phase' = "count" /\ UNCHANGED <<texts, stream, ends, pos, acc, left, loaded, at>>
Keep == UNCHANGED <<texts, stream, ends>>
Give(t, p) == loaded' = Append(loaded, t) /\ at' = Append(at, p) /\ phase' = "count" /\ acc' = <<>> /\ left' = 0
Count == /\ phase = "count" /\ pos < Len(stream) /\ Keep /\ pos' = pos + 4
         /\ LET b == SubSeq(stream, pos + 1, pos + 4)
                n == b[1] + 256 * b[2] + 65536 * b[3]
            IN IF b = <<255, 255, 255, 255>> THEN Give(Null, pos + 4)
               ELSE IF n = 0 THEN Give(<<>>, pos + 4)
               ELSE left' = n /\ phase' = "unit" /\ acc' = <<>> /\ UNCHANGED <<loaded, at>>
Unit == /\ phase = "unit" /\ Keep /\ pos' = pos + 2
        /\ LET u == stream[pos + 1] + 256 * stream[pos + 2]
               low == u \in 56320..57343 /\ acc # <<>> /\ acc[Len(acc)] \in 55296..56319
               a == IF low THEN [acc EXCEPT ![Len(acc)] = 65536 + (@ - 55296) * 1024 + (u - 56320)] ELSE Append(acc, u)
           IN IF left = 1 THEN Give(a, pos + 2) ELSE acc' = a /\ left' = left - 1 /\ phase' = "unit" /\ UNCHANGED <<loaded, at>>
Next == DumpOne \/ Rewind \/ Count \/ Unit
Spec == Init /\ [][Next]_vars
Done == phase = "count" /\ pos = Len(stream)

(* --- meaning --- *)
Same == IsPrefix(loaded, texts) /\ (Done => loaded = texts)
OwnBytes == IsPrefix(at, ends) /\ (Done => at = ends)
Replayed == Done => Put([texts |-> texts, bytes |-> stream, ends |-> ends])
=============================================================================
