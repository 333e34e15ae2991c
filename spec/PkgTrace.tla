------------------------------ MODULE PkgTrace ------------------------------
(* Recorded selections on random packages: listed sheets and the part (or error) of every selection.   *)
EXTENDS Pkg, Json, CSV, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Answer(s, x) == LET a == Select(s, x) IN IF a.ok THEN a.path ELSE <<a.err>>
Wants(e) == LET s == TLCEval(Sheets(e.entries, e.rels)) IN [i \in 1..Len(e.sels) |-> Answer(s, e.sels[i])]
Listed(e) == LET s == Sheets(e.entries, e.rels) IN [i \in 1..Len(s) |-> s[i].name]
Verdict(e) ==
  LET w == TLCEval(Wants(e))
      n == Listed(e)
      bad(o) == IF o.listed # n THEN "listed"
                ELSE IF o.got # w THEN "selected"
                ELSE IF \E i \in 1..Len(o.tables) : Tail(o.tables[i]) # w[o.tables[i][1] + 1] THEN "table" ELSE "ok"
  IN IF bad(e.obs.xlsx) # "ok" THEN bad(e.obs.xlsx) ELSE bad(e.obs.xlsb)
Judge(e) ==
  LET v == Verdict(e)
  IN IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> v, want |-> ToJson(<<Listed(e), Wants(e)>>)])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
