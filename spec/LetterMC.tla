------------------------------ MODULE LetterMC ------------------------------
(* Column letters: an odometer from A to XFD, against the closed form of the column number.          *)
EXTENDS Txt, Emit
CONSTANTS LastCol

Alphabet == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
(* digits of the odometer, most significant first, each 1..26 *)
RECURSIVE Turn(_)
Turn(d) == IF d = <<>> THEN <<1>>
           ELSE IF d[Len(d)] < 26 THEN [d EXCEPT ![Len(d)] = @ + 1]
           ELSE Append(Turn(SubSeq(d, 1, Len(d) - 1)), 1)
VARIABLES col, dial
Init == col = 0 /\ dial = <<1>>
Next == col < LastCol /\ col' = col + 1 /\ dial' = Turn(dial)
Spec == Init /\ [][Next]_<<col, dial>>

Closed(d) == FoldLeft(LAMBDA a, x : a * 26 + x, 0, d) - 1
Letters(d) == FoldLeft(LAMBDA a, x : a \o Alphabet[x], "", d)
Meaning == Closed(dial) = col
Replayed == Put([c |-> col, t |-> Letters(dial)])
=============================================================================
