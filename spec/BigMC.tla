------------------------------- MODULE BigMC -------------------------------
(* Reads of sheets far larger than any buffer: what must have been delivered, and how the read ends.
   The meaning is that of PipeMC - a prefix of the cells, all of them unless the read is stopped or fails -
   at sizes whose interleavings cannot be listed.                                                        *)
EXTENDS Integers, Sequences, Emit
CONSTANTS Sizes, Width, Faults

Min(a, b) == IF a < b THEN a ELSE b
Points(f, n) == CASE f = "no" -> {0} [] f = "null" -> {1, (n * Width) \div 2, n * Width} [] OTHER -> {1, n \div 2, n, n + 1}
Before(n, f, at) == CASE f \in {"call", "text"} -> (at - 1) * Width [] f = "null" -> at - 1 [] OTHER -> n * Width
Takes(n) == {0, 1, (n * Width) \div 3, n * Width + 1}

VARIABLES rows, fault, at, take
Init == /\ rows \in Sizes /\ fault \in Faults
        /\ at \in Points(fault, rows) /\ take \in Takes(rows)
Next == FALSE /\ UNCHANGED <<rows, fault, at, take>>
Spec == Init /\ [][Next]_<<rows, fault, at, take>>

Got == Min(take, Before(rows, fault, at))
End == IF take <= Before(rows, fault, at) THEN "closed" ELSE IF fault = "no" THEN "ended" ELSE "failed"
Replayed == Put([rows |-> rows, width |-> Width, fault |-> fault, at |-> at, take |-> take, got |-> Got, end |-> End])
=============================================================================
