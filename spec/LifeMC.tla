------------------------------- MODULE LifeMC -------------------------------
(* The life of a reader: entered, left, asked, in every order.  What it has loaded it keeps (also when left); the
   sheets themselves are read from the file, so only while it is open.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANT Depth
Asks == {"sheets", "shared", "styles"}
VARIABLES state, kept, log, ans
vars == <<state, kept, log, ans>>
Init == state = "fresh" /\ kept = {} /\ log = <<>> /\ ans = <<>>
Say(op, a) == log' = Append(log, op) /\ ans' = Append(ans, a)
Value(q) == CASE q = "sheets" -> "S" [] q = "shared" -> "a" [] OTHER -> "styles"
Enter == state' = "open" /\ Say("enter", "self") /\ UNCHANGED kept
Leave == state' = (IF state = "fresh" THEN "fresh" ELSE "closed") /\ Say("exit", "None") /\ UNCHANGED kept
Ask(q) == /\ UNCHANGED state
          /\ IF state = "open" THEN kept' = kept \cup {q} /\ Say(q, Value(q))
             ELSE UNCHANGED kept /\ Say(q, IF q \in kept THEN Value(q) ELSE IF state = "fresh" THEN "RuntimeError" ELSE "error")
Walk == /\ UNCHANGED state
        /\ IF state = "open" THEN kept' = Asks /\ Say("iter", "v")
           ELSE UNCHANGED kept /\ Say("iter", IF state = "fresh" THEN "RuntimeError" ELSE "error")
Next == Len(log) < Depth /\ (Enter \/ Leave \/ Walk \/ \E q \in Asks : Ask(q))
Spec == Init /\ [][Next]_vars

(* --- meaning: by the last entrance or exit before a step, and by what was answered before --- *)
OpenAt(n) == LET S == {i \in 1..(n - 1) : log[i] \in {"enter", "exit"}}
             IN S # {} /\ log[CHOOSE m \in S : \A i \in S : i <= m] = "enter"
EverOpen(n) == \E i \in 1..(n - 1) : log[i] = "enter"
Loaded(q, n) == \E i \in 1..(n - 1) : OpenAt(i) /\ log[i] \in {q, "iter"}
Answers == \A n \in 1..Len(log) : log[n] \notin {"enter", "exit"} =>
             LET given == OpenAt(n) \/ (log[n] # "iter" /\ Loaded(log[n], n))
             IN ans[n] = (IF given THEN IF log[n] = "iter" THEN "v" ELSE Value(log[n])
                          ELSE IF EverOpen(n) THEN "error" ELSE "RuntimeError")
Replayed == Len(log) = Depth => Put([log |-> log, ans |-> ans])
=============================================================================
