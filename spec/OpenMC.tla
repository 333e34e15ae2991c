------------------------------- MODULE OpenMC -------------------------------
(* Which files are read, refused as not being a workbook, or fail: every set of parts, in an archive or not. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Emit
CONSTANTS Parts, Archives, Readers

VARIABLES parts, archive, reader, step, answer
vars == <<parts, archive, reader, step, answer>>
Init == parts \in SUBSET Parts /\ archive \in Archives /\ reader \in Readers /\ step = "open" /\ answer = ""

(* the reader of the file is chosen by the workbook part; .xml comes first *)
Kind == IF reader # "read" THEN reader ELSE IF "xml" \in parts THEN "xlsx" ELSE IF "bin" \in parts THEN "xlsb" ELSE "none"
Main == IF Kind = "xlsx" THEN "xml" ELSE "bin"
End(a) == step' = "end" /\ answer' = a /\ UNCHANGED <<parts, archive, reader>>
Go(s)  == step' = s /\ UNCHANGED <<parts, archive, reader, answer>>

Open  == step = "open" /\ IF archive # "zip" THEN End("error") ELSE Go("kind")
Sort  == step = "kind" /\ IF Kind = "none" \/ Main \notin parts THEN End("AssertionError") ELSE Go("rels")
Rels  == step = "rels" /\ IF "rels" \notin parts THEN End("error") ELSE Go("sheet")
Sheet == step = "sheet" /\ IF "sheet" \notin parts THEN End("error") ELSE End("table")
Next == Open \/ Sort \/ Rels \/ Sheet
Spec == Init /\ [][Next]_vars

(* --- meaning --- *)
Done == step = "end"
Workbook == archive = "zip" /\ (IF reader = "read" THEN {"xml", "bin"} \cap parts # {} ELSE Main \in parts)
Right == Done => /\ answer = "table" <=> Workbook /\ {"rels", "sheet"} \subseteq parts
                 /\ answer = "AssertionError" <=> archive = "zip" /\ ~Workbook
Replayed == Done => Put([parts |-> SetToSeq(parts), archive |-> archive, reader |-> reader, kind |-> Kind, want |-> answer])
=============================================================================
