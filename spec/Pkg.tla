-------------------------------- MODULE Pkg --------------------------------
(* Which part of a package a sheet selection reads.

   A package has entries (the sheets of the workbook part, in order: name and relation id), relations in
   some order (id, type, target) and parts (named by their path).  A target is [abs, segs]: its segments
   count from the root when absolute and from the folder of the workbook part otherwise; "." and ".." are
   followed.                                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Base == <<"xl">>
Path(t) == FoldLeft(LAMBDA acc, s : CASE s = "." -> acc
                                      [] s = ".." -> IF acc = <<>> THEN acc ELSE Front(acc)
                                      [] OTHER -> Append(acc, s),
                    <<>>, IF t.abs THEN t.segs ELSE Base \o t.segs)

(* --- meaning --- *)
RelOf(rels, rid) == rels[CHOOSE i \in 1..Len(rels) : rels[i].id = rid]
Sheets(entries, rels) ==
  LET ws == SelectSeq(entries, LAMBDA e : RelOf(rels, e.rid).type = "worksheet")
  IN [i \in 1..Len(ws) |-> [name |-> ws[i].name, path |-> Path(RelOf(rels, ws[i].rid).target)]]

(* selection by position (zero-based) or by name: a path or the error *)
ByIndex(sheets, n) == IF n >= 0 /\ n < Len(sheets) THEN [ok |-> TRUE, path |-> sheets[n + 1].path] ELSE [ok |-> FALSE, err |-> "IndexError"]
ByName(sheets, s)  == LET at == {i \in 1..Len(sheets) : sheets[i].name = s}
                      IN IF at = {} THEN [ok |-> FALSE, err |-> "KeyError"] ELSE [ok |-> TRUE, path |-> sheets[CHOOSE i \in at : TRUE].path]
Select(sheets, sel) == IF sel.k = "i" THEN ByIndex(sheets, sel.i) ELSE ByName(sheets, sel.n)
=============================================================================
