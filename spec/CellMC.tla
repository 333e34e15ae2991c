------------------------------- MODULE CellMC -------------------------------
(* Where every cell of a sheet ends up: sheets of every kind of cell, grown cell by cell.           *)
EXTENDS Req
CONSTANTS MaxCells, Kinds, Moves

(* the kinds of cells; 1..3 are never read as null under the base request, whatever the file kind *)
Make(c, k) ==
  CASE k = 1  -> NumAt(c, "7", 7, 0, 1, "rk")
    [] k = 2  -> NumAt(c, "12.5", 125, 1, 1, "real")
    [] k = 3  -> NumAt(c, "43831.25", 4383125, 2, 2, "fnum")
    [] k = 4  -> Shared(c, 0)
    [] k = 5  -> [StrAt(c, "w") EXCEPT !.rec = "fst"]
    [] k = 6  -> InlineAt(c, "in line")
    [] k = 7  -> ErrAt(c, "#N/A")
    [] k = 8  -> BlankAt(c)
    [] k = 9  -> BoolAt(c, 1)
    [] k = 10 -> Shared(c, 1)
    [] k = 11 -> StrAt(c, "#DIV/0!")
    [] k = 12 -> NumAt(c, "-3", -3, 0, 0, "rk")
    [] k = 13 -> [ErrAt(c, "Err:502") EXCEPT !.rec = "ferr"]
    [] OTHER  -> [BoolAt(c, 0) EXCEPT !.rec = "fbool"]
Texts == <<"shared", "#NULL!">>
NullKind(k) == k \in {7, 8, 10, 11, 13}

(* a sheet is a sequence of [r, c, k] in reading order *)
VARIABLE cells
Init == cells = <<>>
At0 == IF cells = <<>> THEN [r |-> 0, c |-> -1] ELSE cells[Len(cells)]
Place(m) == CASE m = "right" -> [r |-> At0.r, c |-> At0.c + 1]
              [] m = "far"   -> [r |-> At0.r, c |-> At0.c + 2]
              [] m = "down"  -> [r |-> At0.r + 1, c |-> 0]
              [] m = "below" -> [r |-> At0.r + 1, c |-> Max2(At0.c, 0)]
              [] OTHER       -> [r |-> At0.r + 2, c |-> 1]
AddCell(m, k) == /\ Len(cells) < MaxCells
                 /\ cells' = Append(cells, [r |-> Place(m).r, c |-> Place(m).c, k |-> k])
Next == \E m \in Moves, k \in Kinds : AddCell(m, k)
Spec == Init /\ [][Next]_cells

RowNums == {cells[n].r : n \in 1..Len(cells)}
Rows0(S) == [i \in 1..Cardinality(S) |->
   LET r == SetToSortSeq(S, <)[i]
       mine == SelectSeq(cells, LAMBDA x : x.r = r)
   IN [r |-> r, cells |-> [j \in 1..Len(mine) |-> Make(mine[j].c, mine[j].k)]]]
W(fmt) == BookOf(fmt, Rows0(RowNums), Texts)
Reqs == <<[Base EXCEPT !.keep = TRUE], [Base EXCEPT !.conf = "all", !.keep = TRUE], [Base EXCEPT !.keep = FALSE]>>

(* --- meaning: values exactly where the cells are -------------------------------------------------- *)
Live == {[r |-> cells[n].r, c |-> cells[n].c] : n \in {m \in 1..Len(cells) : ~NullKind(cells[m].k)}}
LiveCols == SetToSortSeq({x.c : x \in Live}, <)
LastLive == IF Live = {} THEN -1 ELSE CHOOSE m \in {x.r : x \in Live} : \A x \in Live : x.r <= m
Placed == \A fmt \in {"xlsx", "xlsb"} : \A i \in {1, 2} : \A t \in Tables(W(fmt), Reqs[i]) :
   /\ t.ok
   /\ Len(t.cols) = Len(LiveCols)
   /\ \A j \in 1..Len(t.cols) :
        /\ Len(t.cols[j]) = LastLive + 1
        /\ \A r \in 1..Len(t.cols[j]) : t.cols[j][r] # "~" <=> [r |-> r - 1, c |-> LiveCols[j]] \in Live
(* a lone kind in a column keeps its value; mixed columns are text of the same values *)
Plain(k, fmt) == CASE k = 1 -> "7" [] k = 2 -> "12.5" [] k = 3 -> "18262:21600000" [] k = 4 -> "'shared" [] k = 5 -> "'w"
                   [] k = 6 -> "'in line" [] k = 9 -> IF fmt = "xlsx" THEN "'1" ELSE "1"
                   [] k = 12 -> IF fmt = "xlsx" THEN "'-3" ELSE "-3"
                   [] OTHER -> IF fmt = "xlsx" THEN "'0" ELSE "0"
Valued == \A fmt \in {"xlsx", "xlsb"} : \A t \in Tables(W(fmt), Reqs[1]) :
   \A j \in 1..Len(t.cols) :
     LET ks == {cells[n].k : n \in {m \in 1..Len(cells) : cells[m].c = LiveCols[j] /\ ~NullKind(cells[m].k)}}
     IN Cardinality(ks) = 1 =>
          \A r \in 1..Len(t.cols[j]) : t.cols[j][r] # "~" => t.cols[j][r] = Plain(CHOOSE k \in ks : TRUE, fmt)

ASSUME EmitReqs(Reqs)
Replayed == cells = <<>> \/ \A fmt \in {"xlsx", "xlsb"} : Emitted(fmt \o ToString(cells), W(fmt), Reqs)
=============================================================================
