-------------------------------- MODULE Req --------------------------------
(* Small workbooks and requests for the bounded models of reads, and their hand-over for replay. *)
EXTENDS Table, Emit

Base == [skip |-> 0, take |-> 0, keep |-> FALSE, skipcols |-> <<>>,
         header |-> [k |-> "none", n |-> 0, names |-> <<>>], after |-> 0,
         lookup |-> [k |-> "none", p |-> [k |-> "sub", s |-> ""], n |-> 0, size |-> 30],
         filt |-> [k |-> "none", ps |-> <<>>, is |-> <<>>], strat |-> [k |-> "or", ops |-> <<>>],
         conf |-> "no", fmts |-> <<>>, prec |-> 6, nulls |-> <<>>,
         dtypes |-> [k |-> "none", t |-> "", ts |-> <<>>, names |-> <<>>], cb |-> FALSE]

Header(n) == [k |-> "int", n |-> n, names |-> <<>>]
HeaderList(ns) == [k |-> "list", n |-> 0, names |-> ns]

(* styles 0, 1, 2 are general, number, date *)
StdStyles == <<"g", "n", "t">>

NumAt(c, x, n, k, s, rec) == [c |-> c, k |-> "num", x |-> x, v |-> Small(n, k), s |-> s, rec |-> rec]
Shared(c, i)  == [c |-> c, k |-> "sst", i |-> i, s |-> 0]
StrAt(c, t)   == [c |-> c, k |-> "str", t |-> t, s |-> 0, rec |-> "st"]
InlineAt(c, t) == [c |-> c, k |-> "inline", t |-> t, s |-> 0]
BlankAt(c)    == [c |-> c, k |-> "blank", s |-> 0]
ErrAt(c, e)   == [c |-> c, k |-> "err", e |-> e, s |-> 0, rec |-> "err"]
BoolAt(c, b)  == [c |-> c, k |-> "bool", b |-> b, s |-> 0, rec |-> "bool"]
At(c, cell)   == [cell EXCEPT !.c = c]

Items(ts) == [i \in 1..Len(ts) |-> [runs |-> <<ts[i]>>]]
BookOf(fmt, rows, texts) == [fmt |-> fmt, rows |-> rows, sst |-> Items(texts), sty |-> StdStyles]

(* Handed over once: the list of requests of a model; then per workbook its content and, for every
   request, the tables allowed (short lines: several workers write at the same time)                *)
EmitReqs(reqs) == Put([reqs |-> reqs])
Emitted(key, w, reqs) ==
  /\ Put([k |-> key, w |-> [fmt |-> w.fmt, rows |-> w.rows, sst |-> w.sst, sty |-> w.sty]])
  /\ \A i \in 1..Len(reqs) : Put([k |-> key, i |-> i, want |-> SetToSeq(Tables(w, reqs[i]))])
============================================================================
