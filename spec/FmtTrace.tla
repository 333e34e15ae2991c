------------------------------- MODULE FmtTrace -------------------------------
(* Recorded: the kind of column every cell style of a workbook gave. *)
EXTENDS NumFmt, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(e) == [i \in 1..Len(e.xfs) |-> LET c == StyleClass(e.fmts, e.xfs[i]) IN IF e.fmt = "xlsb" /\ c # "t" THEN "n" ELSE c]
Judge(e) == IF e.obs.cls = Want(e) THEN TRUE
            ELSE CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> "class of style", want |-> ToJson(Want(e))])>>, IOEnv.VERDICTS)
Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
