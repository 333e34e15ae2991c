------------------------------- MODULE Refuse -------------------------------
(* Arguments no read can honour, and what a read with such arguments must raise.

   A fault is a record [arg, k, n, s, ss]: the argument, the kind of value put in its place, and the value.
   c tells what the rest of the request amounts to: [cols, filters, sheets] - the number of columns, of filter
   columns, and the names of the sheets.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

Fault(arg, k) == [arg |-> arg, k |-> k, n |-> 0, s |-> "", ss |-> <<>>]
FaultN(arg, k, n) == [Fault(arg, k) EXCEPT !.n = n]
FaultS(arg, k, s) == [Fault(arg, k) EXCEPT !.s = s]
FaultL(arg, ss) == [Fault(arg, "list") EXCEPT !.ss = ss]

Raised(x, c) ==
  CASE x.arg = "file"  -> (CASE x.k = "absent" -> {"FileNotFoundError"}
                             [] x.k = "folder" -> {"IsADirectoryError"}
                             [] x.k = "shut"   -> {"ValueError"}
                             [] OTHER          -> {"BadZipFile"})
    [] x.arg = "sheet" -> IF x.k = "int" THEN IF x.n \in 0..(Len(c.sheets) - 1) THEN {} ELSE {"IndexError"}
                          ELSE IF \E i \in 1..Len(c.sheets) : c.sheets[i] = x.s THEN {} ELSE {"KeyError"}
    [] x.arg \in {"skip", "take"} -> IF x.k = "int" /\ x.n >= 0 THEN {} ELSE {"ValueError"}
    [] x.arg = "header" -> IF x.n = c.cols THEN {} ELSE {"ValueError"}
    [] x.arg = "filt"   -> {"ValueError"}
    [] x.arg = "strat"  -> IF c.filters < 2 THEN {}      \* nothing to combine
                           ELSE IF x.k = "list"
                           THEN IF Len(x.ss) = c.filters - 1 /\ \A i \in 1..Len(x.ss) : x.ss[i] \in {"or", "and"}
                                THEN {} ELSE {"ValueError"}
                           ELSE IF x.k = "text" /\ x.s \in {"or", "and"} THEN {} ELSE {"TypeError"}
    [] OTHER            -> IF x.n = c.cols THEN {} ELSE {"ValueError"}     \* dtypes: a list of that length

(* what may be raised for a set of faults; {} : nothing is wrong *)
Raises(xs, c) == UNION {Raised(x, c) : x \in xs}
=============================================================================
