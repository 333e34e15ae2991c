------------------------------ MODULE NamesMC ------------------------------
(* Record numbers and their file form, for every number and every name.                                *)
EXTENDS Names, Integers, Sequences, FiniteSets, Emit
(* --- the machine that writes and reads a number: low seven bits first, the eighth marks a second byte --- *)
FileForm(n) == IF n < 128 THEN n ELSE (n % 128) + 128 + 256 * (n \div 128)
NumberOf(id) == IF (id \div 128) % 2 = 0 THEN id ELSE (id % 128) + 128 * ((id \div 256) % 128)
IsForm(id) == IF (id \div 128) % 2 = 0 THEN id < 128 ELSE id < 32768

VARIABLE n
Init == n = 0
Next == n < 16383 /\ n' = n + 1
Spec == Init /\ [][Next]_n

(* --- meaning --- *)
Inverse == NumberOf(FileForm(n)) = n /\ IsForm(FileForm(n))
Numbers == TLCEval({Names[i][2] : i \in 1..Len(Names)})
Words == TLCEval({Names[i][1] : i \in 1..Len(Names)})
NameOf == TLCEval([m \in Numbers |-> (CHOOSE i \in 1..Len(Names) : Names[i][2] = m)])
ASSUME OneToOne == Cardinality(Numbers) = Len(Names) /\ Cardinality(Words) = Len(Names)
ASSUME \A m \in Numbers : m \in 0..16383
ASSUME Put([names |-> [i \in 1..Len(Names) |-> [name |-> Names[i][1], id |-> FileForm(Names[i][2]), n |-> Names[i][2]]]])
Replayed == Put([n |-> n, id |-> FileForm(n), name |-> IF n \in Numbers THEN Names[NameOf[n]][1] ELSE "Undefined"])
=============================================================================
