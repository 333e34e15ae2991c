----------------------------- MODULE SeriesTrace -----------------------------
(* Judges recorded histories of columns: additions, views of slices and masks, views as texts. *)
EXTENDS Series, Json, CSV, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

ConvOf(e) == [dt |-> e.conf \in {"temporal", "all"}, num |-> e.conf \in {"numeric", "all"}, fmts |-> <<>>, prec |-> e.prec]

(* 0: all well, else the number of the first operation whose answer is not the column's *)
RECURSIVE FirstBad(_, _, _, _)
FirstBad(e, i, st, conv) ==
  IF i > Len(e.ops) THEN 0
  ELSE LET o == e.ops[i]
       IN IF o.o = "add" THEN FirstBad(e, i + 1, TLCEval(AddTo(st, o.row, o.c, o.k)), conv)
          ELSE LET w == TLCEval(IF o.o = "utf8" THEN [t |-> "str", v |-> Texts(st, o, conv)] ELSE Shown(st, o, conv))
                   (* a column without cells has no type, and nothing to mark *)
                   fits == IF st.it = <<>> THEN o.m \/ e.obs.ans[i].v = w.v ELSE e.obs.ans[i].t = w.t /\ e.obs.ans[i].v = w.v
               IN IF fits THEN FirstBad(e, i + 1, Viewed(st), conv) ELSE i

RECURSIVE StateAt(_, _, _, _)
StateAt(e, i, n, st) == IF i > n THEN st
                        ELSE StateAt(e, i + 1, n, IF e.ops[i].o = "add" THEN AddTo(st, e.ops[i].row, e.ops[i].c, e.ops[i].k) ELSE Viewed(st))
Judge(e) ==
  LET b == FirstBad(e, 1, Empty, ConvOf(e))
  IN IF b = 0 THEN TRUE
     ELSE LET st == StateAt(e, 1, b, Empty) o == e.ops[b]
          IN CSVWrite("%1$s", <<ToJson([id |-> e.id, clause |-> o.o \o " at operation " \o ToString(b),
                 want |-> IF o.o = "utf8" THEN ToJson(Texts(st, o, ConvOf(e))) ELSE ToJson(Shown(st, o, ConvOf(e)))])>>, IOEnv.VERDICTS)

Init == l = 1
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
