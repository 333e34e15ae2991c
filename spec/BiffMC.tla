------------------------------- MODULE BiffMC -------------------------------
(* The scanner as a machine that takes byte after byte from a stream that may end anywhere.            *)
EXTENDS Biff, Emit
CONSTANTS Ids, Sizes, MaxRecs, Cuts, Onlys, Emitting, Widths

VARIABLES rs, cut, all, only, phase, pos, id, sz, k, out
vars == <<rs, cut, all, only, phase, pos, id, sz, k, out>>
RECURSIVE Pow(_)
Pow(j) == IF j = 0 THEN 1 ELSE B * Pow(j - 1)

Wants(i) == all \/ i \in only
ASSUME \A i \in Ids : ValidId(i)
ASSUME \A n \in Sizes : ValidSize(n)

Init == /\ rs = <<>> /\ cut = -1 /\ all = TRUE /\ only = {} /\ phase = "write" /\ pos = 0 /\ id = 0 /\ sz = 0 /\ k = 0 /\ out = <<>>

Write == /\ phase = "write" /\ Len(rs) < MaxRecs
         /\ \E i \in Ids, n \in Sizes, w \in Widths : rs' = Append(rs, [id |-> i, n |-> n, w |-> w])
         /\ UNCHANGED <<cut, all, only, phase, pos, id, sz, k, out>>
(* the positions of interest of the stream: all of them, or those around the headers and the ends *)
Positions == LET e == EndOf(rs, Len(rs)) IN
  IF Cuts = "all" THEN 0..e
  ELSE UNION {LET s == EndOf(rs, j - 1) h == Len(Header(rs[j])) w == Whole(rs[j])
              IN {s + x : x \in 0..h} \cup {s + x : x \in {h + 1, h + rs[j].n \div 2, w - 1, w} \cap (0..w)} : j \in 1..Len(rs)} \cup {e}
(* a filter is: everything, an explicit set of ids *)
Open == /\ phase = "write"
        /\ \E c \in Positions : cut' = c
        /\ \/ all' = TRUE /\ only' = {}
           \/ all' = FALSE /\ only' \in (IF Onlys = "all" THEN SUBSET Ids ELSE {{x} : x \in Ids} \cup {{}})
        /\ phase' = "id" /\ UNCHANGED <<rs, pos, id, sz, k, out>>

End == phase' = "end" /\ UNCHANGED <<pos, id, sz, k, out>>
Take(b) == pos < cut /\ b = ByteAt(rs, pos) /\ pos' = pos + 1
ReadId == phase = "id" /\ (IF pos >= cut THEN End
  ELSE LET b == ByteAt(rs, pos) IN pos' = pos + 1 /\ id' = b /\ sz' = 0 /\ k' = 0 /\ phase' = (IF High(b) THEN "id2" ELSE "size") /\ UNCHANGED out)
ReadId2 == phase = "id2" /\ (IF pos >= cut THEN End
  ELSE pos' = pos + 1 /\ id' = id + 2 * B * ByteAt(rs, pos) /\ phase' = "size" /\ UNCHANGED <<sz, k, out>>)
ReadSize == phase = "size" /\ (IF pos >= cut THEN End
  ELSE LET b == ByteAt(rs, pos) IN
       /\ pos' = pos + 1 /\ sz' = sz + (b % B) * Pow(k) /\ k' = k + 1
       /\ phase' = (IF High(b) /\ k < 3 THEN "size" ELSE "data") /\ UNCHANGED <<id, out>>)
ReadData == phase = "data" /\ (IF pos + sz > cut THEN End
  ELSE /\ pos' = pos + sz /\ phase' = "id" /\ UNCHANGED <<id, sz, k>>
       /\ out' = IF Wants(id) THEN Append(out, [id |-> id, n |-> sz, at |-> pos + sz]) ELSE out)

Read == (ReadId \/ ReadId2 \/ ReadSize \/ ReadData) /\ UNCHANGED <<rs, cut, all, only>>
Next == Write \/ Open \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

(* --- meaning --- *)
Want == LET s == Scanned(rs, all, only, cut)
        IN [j \in 1..Len(s) |-> [id |-> rs[s[j]].id, n |-> rs[s[j]].n, at |-> EndOf(rs, s[j])]]
Exact == phase = "end" => out = Want
Never == phase \in {"id", "end"} => IsPrefix(out, Want)
Ends == [](phase = "id" => <>(phase = "end"))
(* the encoding of a size is the shortest one and is read back *)
Shortest == \A n \in Sizes : LET s == SizeBytes(n) IN
  /\ Len(s) = (IF n < B THEN 1 ELSE IF n < B * B THEN 2 ELSE IF n < B * B * B THEN 3 ELSE 4)
  /\ FoldLeft(LAMBDA a, j : a + (s[j] % B) * Pow(j - 1), 0, [j \in 1..Len(s) |-> j]) = n
  /\ \A j \in 1..Len(s) : High(s[j]) <=> j < Len(s)

Replayed == (Emitting /\ phase = "end") =>
  Put([rs |-> rs, cut |-> cut, all |-> all, only |-> only,
       want |-> Scanned(rs, all, only, cut),
       heads |-> [i \in 1..Len(rs) |-> Header(rs[i])], ends |-> [i \in 1..Len(rs) |-> EndOf(rs, i)]])
=============================================================================
