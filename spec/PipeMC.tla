------------------------------- MODULE PipeMC -------------------------------
(* The background parser, its queue and the consumer of its cells, with every interleaving and fault.

   The sheet is rows of numbered cells.  The parser works row by row: it reports progress (call n, which may
   raise), then puts the cells of row n on the queue; a null predicate may raise at a cell, and the markup may
   be damaged before a row.  What is raised is put on the queue, then the end mark, always.  The consumer
   takes cells one at a time, may stop at any time, and raises what it takes when that is an error.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Emit
CONSTANTS MaxRows, MaxCells, Faults, Logged

VARIABLES rows, fault, at, pos, queue, worker, consumer, got, log
vars == <<rows, fault, at, pos, queue, worker, consumer, got, log>>

RECURSIVE Sum(_, _)
Sum(rs, n) == IF n = 0 THEN 0 ELSE Sum(rs, n - 1) + rs[n]
Total == Sum(rows, Len(rows))
Points(f, rs) == CASE f = "call" -> 1..(Len(rs) + 1) [] f = "null" -> 1..Sum(rs, Len(rs)) [] f = "text" -> 1..(Len(rs) + 1) [] OTHER -> {0}

Init == /\ rows \in UNION {[1..n -> 0..MaxCells] : n \in 0..MaxRows}
        /\ fault \in Faults /\ at \in Points(fault, rows)
        /\ pos = 0 /\ queue = <<>> /\ worker = "unborn" /\ consumer = "idle" /\ got = <<>> /\ log = <<>>

Log(x) == log' = IF Logged THEN Append(log, x) ELSE log

(* --- the parser: one step from one report of progress to the next ------------------------------------ *)
Ids(n) == [i \in 1..rows[n] |-> Sum(rows, n - 1) + i]
Work ==
  /\ worker = "alive"
  /\ LET n == pos IN     \* call n is being made
     IF fault = "call" /\ at = n
     THEN queue' = queue \o <<"err", "end">> /\ worker' = "done" /\ UNCHANGED pos
     ELSE IF fault = "text" /\ at = n
     THEN queue' = queue \o <<"err", "end">> /\ worker' = "done" /\ UNCHANGED pos
     ELSE IF n > Len(rows)
     THEN queue' = Append(queue, "end") /\ worker' = "done" /\ UNCHANGED pos
     ELSE LET ok == SelectSeq(Ids(n), LAMBDA c : ~(fault = "null" /\ c >= at))
              put == [i \in 1..Len(ok) |-> ToString(ok[i])]
          IN IF fault = "null" /\ at \in {Ids(n)[i] : i \in 1..rows[n]}
             THEN queue' = queue \o put \o <<"err", "end">> /\ worker' = "done" /\ UNCHANGED pos
             ELSE queue' = queue \o put /\ pos' = n + 1 /\ UNCHANGED worker
  /\ Log("work")
  /\ UNCHANGED <<rows, fault, at, consumer, got>>

(* --- the consumer ------------------------------------------------------------------------------------ *)
Ask == /\ consumer = "idle" /\ consumer' = "waiting"
       /\ IF worker = "unborn" THEN worker' = "alive" /\ pos' = 1 ELSE UNCHANGED <<worker, pos>>
       /\ Log("ask") /\ UNCHANGED <<rows, fault, at, queue, got>>
Take == /\ consumer = "waiting" /\ queue # <<>> /\ queue' = Tail(queue)
        /\ IF Head(queue) = "end" THEN consumer' = "ended" /\ UNCHANGED got
           ELSE IF Head(queue) = "err" THEN consumer' = "failed" /\ UNCHANGED got
           ELSE consumer' = "idle" /\ got' = Append(got, Head(queue))
        /\ UNCHANGED <<rows, fault, at, pos, worker, log>>
Close == /\ consumer = "idle" /\ worker # "unborn" /\ consumer' = "closed" /\ Log("close")
         /\ UNCHANGED <<rows, fault, at, pos, queue, worker, got>>

(* a waiting consumer takes at once: the order of the other steps is what matters *)
Ready == consumer = "waiting" /\ queue # <<>>
Next == IF Logged THEN Take \/ (~Ready /\ (Work \/ Ask \/ Close)) ELSE Take \/ Work \/ Ask \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Work) /\ WF_vars(Take) /\ WF_vars(Ask)

(* --- meaning ----------------------------------------------------------------------------------------- *)
(* the cells before the fault, in order *)
Before == CASE fault = "call" -> Sum(rows, at - 1) [] fault = "text" -> Sum(rows, at - 1) [] fault = "null" -> at - 1 [] OTHER -> Total
All(n) == [i \in 1..n |-> ToString(i)]
InOrder == got = All(Len(got)) /\ Len(got) <= Before
Whole   == consumer = "ended" => fault = "no" /\ got = All(Total)
Raised  == consumer = "failed" => fault # "no" /\ got = All(Before)
(* an error is never behind the end mark, and the end mark comes once *)
Marks == LET ends == {i \in 1..Len(queue) : queue[i] = "end"} IN
         /\ Cardinality(ends) <= 1
         /\ \A i \in ends : i = Len(queue)
(* every read ends and so does the parser, also when nobody takes what it puts *)
Over == consumer \in {"ended", "failed", "closed"}
Ends == <>Over /\ <>[](worker \in {"done"})
(* whoever is still waiting will be served *)
Served == [](consumer = "waiting" => <>(consumer # "waiting"))

Terminal == Over /\ worker = "done"
Replayed == Logged /\ Terminal => Put([rows |-> rows, fault |-> fault, at |-> at, log |-> log, got |-> Len(got), end |-> consumer])
=============================================================================
