------------------------------- MODULE PkgMC -------------------------------
(* Every small package: sheets of two kinds, ids, places and relations in every order.  Both readers scan
   relations and entries; what they list and select is compared with the meaning and replayed.           *)
EXTENDS Pkg, Emit
CONSTANTS MaxSheets, Kinds, Rids, Slots, NameLists

(* places of parts; decoys stand where a target would lead if it were resolved wrongly *)
Place == [s1 |-> [abs |-> FALSE, segs |-> <<"worksheets", "sheet1">>],
          s2 |-> [abs |-> TRUE,  segs |-> <<"xl", "worksheets", "sheet2">>],
          s3 |-> [abs |-> FALSE, segs |-> <<"..", "other", "sheet1">>],
          s4 |-> [abs |-> FALSE, segs |-> <<".", "worksheets", "sheet10">>],
          s5 |-> [abs |-> TRUE,  segs |-> <<"sheet1">>]]
Ghost  == [id |-> "rIdGhost", type |-> "worksheet", target |-> [abs |-> FALSE, segs |-> <<"worksheets", "ghost">>]]
Names  == [plain  |-> <<"Data", "data", "Data ">>, digits |-> <<"1", "0", "2">>, marks |-> <<"a&b", "a&amp;b", "{1f600} <\"'>">>]
Misses == {"DATA", " Data", "3", "a", "rId1", "sheet1", ""}

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Picks(S, n) == {s \in [1..n -> S] : \A i, j \in 1..n : i # j => s[i] # s[j]}

VARIABLES entries, rels, phase, pos, files, list, listb
vars == <<entries, rels, phase, pos, files, list, listb>>

Entry(names, rids, i) == [name |-> names[i], rid |-> rids[i]]
Rel(rids, kinds, places, i) == [id |-> rids[i], type |-> kinds[i], target |-> Place[places[i]]]

Init == /\ phase = "rels" /\ pos = 1 /\ files = <<>> /\ list = <<>> /\ listb = <<>>
        /\ \E n \in 1..MaxSheets : \E rids \in Picks(Rids, n), places \in Picks(Slots, n), kinds \in [1..n -> Kinds],
               order \in Perms(1..n), nl \in NameLists :
             /\ entries = [i \in 1..n |-> Entry(Names[nl], rids, i)]
             /\ rels = <<Rel(rids, kinds, places, order[1])>> \o <<Ghost>> \o [i \in 1..(n - 1) |-> Rel(rids, kinds, places, order[i + 1])]

(* the .xlsx reader remembers the parts of worksheets by id, then walks the entries *)
ScanRel == /\ phase = "rels" /\ UNCHANGED <<entries, rels, list, listb>>
           /\ IF pos > Len(rels) THEN phase' = "entries" /\ pos' = 1 /\ UNCHANGED files
              ELSE /\ pos' = pos + 1 /\ UNCHANGED phase
                   /\ files' = IF rels[pos].type = "worksheet" THEN Append(files, [id |-> rels[pos].id, path |-> Path(rels[pos].target)]) ELSE files
(* the .xlsb reader searches the relations for every entry *)
ScanEntry == /\ phase = "entries" /\ UNCHANGED <<entries, rels, files>>
             /\ IF pos > Len(entries) THEN phase' = "done" /\ UNCHANGED <<pos, list, listb>>
                ELSE LET e == entries[pos]
                         own == SelectSeq(files, LAMBDA f : f.id = e.rid)
                         r == RelOf(rels, e.rid)
                     IN /\ pos' = pos + 1 /\ UNCHANGED phase
                        /\ list' = IF own # <<>> THEN Append(list, [name |-> e.name, path |-> own[1].path]) ELSE list
                        /\ listb' = IF r.type = "worksheet" THEN Append(listb, [name |-> e.name, path |-> Path(r.target)]) ELSE listb
Next == ScanRel \/ ScanEntry
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Listed == Done => list = Sheets(entries, rels) /\ listb = list
(* no two sheets share a part, and the ghost is never a sheet *)
Apart == Done => /\ \A i, j \in 1..Len(list) : i # j => list[i].path # list[j].path
                 /\ \A i \in 1..Len(list) : list[i].path # Path(Ghost.target)

Sels == {[k |-> "i", i |-> i, n |-> ""] : i \in (-2)..(Len(list) + 1)}
        \cup {[k |-> "n", i |-> 0, n |-> s] : s \in {entries[j].name : j \in 1..Len(entries)} \cup Misses}
(* a selection by name and one by position agree, and errors are the only other answers *)
Agree == Done => \A i \in 1..Len(list) : ByIndex(list, i - 1) = ByName(list, list[i].name)
Answers == SetToSeq({[sel |-> s, want |-> LET a == Select(list, s) IN IF a.ok THEN a.path ELSE <<a.err>>] : s \in Sels})
Replayed == Done => Put([entries |-> entries, rels |-> rels, listed |-> [i \in 1..Len(list) |-> list[i].name], answers |-> Answers])
=============================================================================
