------------------------------ MODULE RelTrace ------------------------------
(* Recorded lists of relations of any characters (as code points), dumped and scanned.                *)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Slash == 47
LastSegment(s) == LET at == {i \in 1..Len(s) : s[i] = Slash} IN
  IF at = {} THEN s ELSE SubSeq(s, (CHOOSE i \in at : \A j \in at : j <= i) + 1, Len(s))
Want(e) == [i \in 1..Len(e.rels) |-> <<e.rels[i].id, LastSegment(e.rels[i].type), e.rels[i].target>>]
Verdict(e) == IF e.obs.xml # Want(e) THEN "dumped" ELSE IF e.obs.own # Want(e) THEN "scanned" ELSE "ok"
Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v, want |-> ToJson(Want(e))])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
