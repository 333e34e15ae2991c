------------------------------- MODULE HeadMC -------------------------------
(* Header names, column by column.

   The machine names one column at a time (previous column's merged cells, names used so far); the
   meaning is declarative: the merged text of a cell is its own, or for the empty cells above a
   column's topmost text the merged text to the left.                                              *)
EXTENDS Req
CONSTANTS Height, MaxCols, Words

Cell == {"~"} \cup {"'" \o x : x \in Words}

VARIABLES grid, prev, names
vars == <<grid, prev, names>>

Init == grid = <<>> /\ prev = <<>> /\ names = <<>>

Merge(t, p) == [i \in 1..Height |-> IF p # <<>> /\ i < Top(t) THEN p[i] ELSE t[i]]
NameOf(m) == LET ne == SelectSeq(m, NonEmpty)
                 nm == JoinWith([i \in 1..Len(ne) |-> TextAt(ne[i])], ", ")
             IN IF nm = "" THEN "Unnamed" ELSE nm

AddColumn(t) ==
  /\ Len(grid) < MaxCols
  /\ grid' = Append(grid, t)
  /\ LET m == IF Height = 1 \/ Top(t) = 0 THEN t ELSE Merge(t, prev)
         n == IF Top(t) = 0 THEN "Unnamed" ELSE NameOf(m)
     IN /\ prev' = IF Height = 1 \/ Top(t) = 0 THEN prev ELSE m
        /\ names' = Append(names, Fresh(n, 0, SeqSet(names)))

Next == \E t \in [1..Height -> Cell] : AddColumn(t)
Spec == Init /\ [][Next]_vars

(* --- meaning --- *)
(* nearest column to the left of j that has a text *)
RECURSIVE LeftOf(_), Merged(_, _)
LeftOf(j) == IF j <= 1 THEN 0 ELSE IF Top(grid[j - 1]) # 0 THEN j - 1 ELSE LeftOf(j - 1)
Merged(i, j) == IF Top(grid[j]) = 0 \/ i >= Top(grid[j]) \/ LeftOf(j) = 0 THEN grid[j][i] ELSE Merged(i, LeftOf(j))
BaseName(j) == NameOf([i \in 1..Height |-> IF Height = 1 \/ Top(grid[j]) = 0 THEN grid[j][i] ELSE Merged(i, j)])

Unique == \A i, j \in 1..Len(names) : i # j => names[i] # names[j]
(* a name is its base, or the base with the least suffix that is still free *)
Suffixed == \A j \in 1..Len(names) :
  \E k \in 0..Len(names) :
     /\ names[j] = IF k = 0 THEN BaseName(j) ELSE BaseName(j) \o "." \o ToString(k)
     /\ \A h \in 0..(k - 1) : \E i \in 1..(j - 1) :
           names[i] = IF h = 0 THEN BaseName(j) ELSE BaseName(j) \o "." \o ToString(h)
OwnText == \A j \in 1..Len(names), i \in 1..Height :
  NonEmpty(grid[j][i]) => Within(names[j], TextAt(grid[j][i]))
Stable == [][SubSeq(names', 1, Len(names)) = names]_vars

(* the header of Table.tla is this machine *)
AsTable == names = (IF Height = 1
                    THEN Dedup([j \in 1..Len(grid) |-> IF NonEmpty(grid[j][1]) THEN TextAt(grid[j][1]) ELSE "Unnamed"])
                    ELSE Dedup(MergeHead(grid, 1, <<>>, <<>>)))

Replayed == grid = <<>> \/ Put([h |-> Height, grid |-> grid, names |-> names])
=============================================================================
