-------------------------------- MODULE SstMC --------------------------------
(* The list of shared strings, read piece by piece.

   An item holds a plain text, runs of rich text, phonetic hints and phonetic properties, in this order.  Between the tags
   there may be white space.  The parser hands over the characters of a text in pieces of any size.                       *)
EXTENDS Table, Emit
CONSTANTS Which, MaxItems, MaxEls

(* a text is a sequence of units that are never split *)
Texts == <<{<<>>, <<"a">>, <<"b", " ">>, <<"#N", "/A">>},
           {<<" ">>, <<"q", "{1f600}", "&", "_x000D_">>, <<"{x*2047}", "{e9}", "{y*6200}">>, <<"#N">>, <<"/A">>}>>[Which]
Kinds == {"t", "r", "p", "pp"}
Rank == [t |-> 1, r |-> 2, p |-> 3, pp |-> 4]

(* source of an item *)
ElSource(e) == CASE e.k = "t" -> <<"<t>">> \o e.x \o <<"</t>">>
                 [] e.k = "r" -> <<"<r>", "ws", "<rPr>", "</rPr>", "<t>">> \o e.x \o <<"</t>", "</r>">>
                 [] e.k = "p" -> <<"<rPh>", "<t>">> \o e.x \o <<"</t>", "ws", "</rPh>">>
                 [] OTHER     -> <<"<pp>", "</pp>">>
Source(its) == FlattenSeq([i \in 1..Len(its) |-> <<"ws", "<si>">> \o FlattenSeq([j \in 1..Len(its[i]) |-> ElSource(its[i][j])]) \o <<"</si>">>])

VARIABLES items, doc, pos, phase, parts, inText, inPhon, out
vars == <<items, doc, pos, phase, parts, inText, inPhon, out>>
Init == items = <<>> /\ doc = <<>> /\ pos = 1 /\ phase = "write" /\ parts = "" /\ inText = FALSE /\ inPhon = FALSE /\ out = <<>>

Keep == UNCHANGED <<doc, pos, parts, inText, inPhon, out>>
NewItem == phase = "write" /\ Len(items) < MaxItems /\ items' = Append(items, <<>>) /\ Keep /\ UNCHANGED phase
AddEl == /\ phase = "write" /\ items # <<>>
         /\ LET it == items[Len(items)]
                rank == IF it = <<>> THEN 0 ELSE Rank[it[Len(it)].k]
            IN /\ Len(it) < MaxEls
               /\ \E k \in Kinds, x \in Texts :
                    /\ Rank[k] > rank \/ (Rank[k] = rank /\ k \in {"r", "p"})
                    /\ k = "pp" => x = (CHOOSE y \in Texts : TRUE)
                    /\ items' = [items EXCEPT ![Len(items)] = Append(@, [k |-> k, x |-> x])]
         /\ Keep /\ UNCHANGED phase
Parse == phase = "write" /\ items # <<>> /\ phase' = "parse" /\ doc' = Source(items) /\ UNCHANGED <<items, pos, parts, inText, inPhon, out>>

IsTag(x) == Len(x) > 1 /\ Ch(x, 1) = "<"
Tag == /\ phase = "parse" /\ pos <= Len(doc) /\ IsTag(doc[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<items, doc, phase>>
       /\ LET x == doc[pos]
          IN /\ parts' = IF x = "<si>" THEN "" ELSE parts
             /\ inPhon' = CASE x = "<rPh>" -> TRUE [] x = "</rPh>" -> FALSE [] OTHER -> inPhon
             /\ inText' = CASE x = "<t>" -> ~inPhon [] x = "</t>" -> FALSE [] OTHER -> inText
             /\ out' = IF x = "</si>" THEN Append(out, parts) ELSE out
(* a piece: some of the characters up to the next tag *)
Piece == /\ phase = "parse" /\ pos <= Len(doc) /\ ~IsTag(doc[pos])
         /\ \E n \in 1..4 : /\ pos + n - 1 <= Len(doc) /\ \A i \in 1..n : ~IsTag(doc[pos + i - 1])
                            /\ pos' = pos + n
                            /\ parts' = IF inText THEN parts \o Concat(SubSeq(doc, pos, pos + n - 1)) ELSE parts
         /\ UNCHANGED <<items, doc, phase, inText, inPhon, out>>
Next == NewItem \/ AddEl \/ Parse \/ Tag \/ Piece
Spec == Init /\ [][Next]_vars
Done == phase = "parse" /\ pos > Len(doc)

(* --- meaning: the texts of an item, without its hints; an item depends on nothing before it --- *)
TextOf(it) == Concat([i \in 1..Len(it) |-> IF it[i].k \in {"t", "r"} THEN Concat(it[i].x) ELSE ""])
Whole == \A i \in 1..Len(out) : out[i] = TextOf(items[i])
Complete == Done => Len(out) = Len(items)
(* what a cell shows: read from .xlsx and .xlsb *)
Shown(fmt, s) == LET t == IF fmt = "xlsx" THEN Strip(s) ELSE s
                 IN IF t \in ErrorTexts \/ (fmt = "xlsx" /\ t = "") THEN "~" ELSE "'" \o t
Replayed == Done => Put([items |-> [i \in 1..Len(items) |-> [j \in 1..Len(items[i]) |-> <<items[i][j].k, Concat(items[i][j].x)>>]],
                         x |-> [i \in 1..Len(out) |-> Shown("xlsx", out[i])], b |-> [i \in 1..Len(out) |-> Shown("xlsb", out[i])]])
=============================================================================
