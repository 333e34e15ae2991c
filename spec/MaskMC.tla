------------------------------- MODULE MaskMC -------------------------------
(* Filters over many columns: any set of columns of N, any word of operators, all 2^N patterns of presence. *)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANTS N

VARIABLES is, ops       \* the columns in order, the operators between them
vars == <<is, ops>>
Init == \E i \in 1..N : is = <<i>> /\ ops = <<>>
Add == \E i \in (is[Len(is)] + 1)..N, o \in {"and", "or"} : is' = Append(is, i) /\ ops' = Append(ops, o)
Spec == Init /\ [][Add]_vars

(* row r of 0..2^N-1 has a value in column i when bit i-1 of r is set *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Has(r, i) == (r \div Pow2(i - 1)) % 2 = 1
Rows == 0..(Pow2(N) - 1)
Kept(r) == LET f[k \in 1..Len(is)] == IF k = 1 THEN Has(r, is[1])
                                      ELSE IF ops[k - 1] = "and" THEN f[k - 1] /\ Has(r, is[k]) ELSE f[k - 1] \/ Has(r, is[k])
           IN f[Len(is)]
Out == SelectSeq([r \in 1..Pow2(N) |-> r - 1], LAMBDA r : Kept(r))

(* more values never lose a row; only the named columns count; the last operator has the last word *)
Monotone == \A r \in Rows, i \in 1..N : Kept(r) /\ ~Has(r, i) => Kept(r + Pow2(i - 1))
Named == \A r \in Rows, i \in 1..N : (i \notin {is[k] : k \in 1..Len(is)} /\ ~Has(r, i)) => (Kept(r) <=> Kept(r + Pow2(i - 1)))
Final == Len(is) > 1 => \A r \in Rows : IF ops[Len(ops)] = "and" THEN Kept(r) => Has(r, is[Len(is)]) ELSE Has(r, is[Len(is)]) => Kept(r)
Some == Out # <<>> /\ (0 \notin Rows \/ ~Kept(0))
Replayed == Put([n |-> N, is |-> is, ops |-> ops, out |-> Out])
=============================================================================
