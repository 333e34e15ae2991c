------------------------------- MODULE StrpMC -------------------------------
(* What date and time texts denote: texts put together piece by piece, under many lists of formats.    *)
EXTENDS Strp, Emit
CONSTANTS Days, Months, Years, Seps, Times, Tails

VARIABLES text, n, sep, order
vars == <<text, n, sep, order>>
Init == text = "" /\ n = 0 /\ sep \in Seps /\ order \in {"ymd", "dmy"}
Piece(i) == IF order = "ymd" THEN (CASE i = 0 -> Years [] i = 1 -> Months [] OTHER -> Days)
            ELSE (CASE i = 0 -> Days [] i = 1 -> Months [] OTHER -> Years)
Put3 == n < 3 /\ \E p \in Piece(n) : text' = text \o (IF n = 0 THEN "" ELSE sep) \o p /\ n' = n + 1
PutTime == n = 3 /\ \E p \in Times : text' = text \o p /\ n' = 4
PutTail == n = 4 /\ \E p \in Tails : text' = text \o p /\ n' = 5
OnlyTime == n = 0 /\ \E p \in Times : p # "" /\ text' = SubSeq(p, 2, Len(p)) /\ n' = 4
Next == (Put3 \/ PutTime \/ PutTail \/ OnlyTime) /\ UNCHANGED <<sep, order>>
Spec == Init /\ [][Next]_vars

Lists == << <<>>, <<"%d.%m.%Y">>, <<"%H:%M">>, <<"%d/%m/%y">>, <<"%Y-%m-%d">>, <<"%d/%m/%Y", "%d/%m/%y", "%Y/%m/%d">>,
            <<"%m-%d-%Y %H:%M:%S", "%d-%m-%Y %T">>, <<"%y">>, <<"%d.%m.%y %R", "%d.%m.%Y %R">> >>

(* --- meaning --- *)
(* the first format of the list that matches completely decides *)
First == n < 3 \/ \A i \in 1..Len(Lists) :
  LET fs == IF Lists[i] = <<>> THEN DefaultFormats ELSE Lists[i]
      su == TLCEval([k \in 1..Len(fs) |-> StampUnder(text, fs[k])])
      hit == {k \in 1..Len(fs) : su[k].ok}
      r == StampOf(text, Lists[i])
  IN IF hit = {} THEN ~r.ok
     ELSE r = su[CHOOSE k \in hit : \A j \in hit : k <= j]
(* moments lie inside a day; a time alone is on 1970-01-01 *)
InDay == n < 3 \/ \A i \in 1..Len(Lists) : LET r == StampOf(text, Lists[i]) IN r.ok => r.ms \in 0..(DayMs - 1)
(* the default formats read back what the calendar writes *)
Written == \A i \in {1} : LET r == StampOf(text, Lists[i]) IN
  (r.ok /\ order = "ymd" /\ sep = "-" /\ n = 4 /\ Len(text) = 19) => SubSeq(StampText(r.day, r.ms), 12, 19) = SubSeq(text, 12, 19)

Res(i) == LET r == StampOf(text, Lists[i]) IN IF r.ok THEN ToString(r.day) \o ":" \o ToString(r.ms) ELSE "~"
ASSUME Put([lists |-> Lists])
Replayed == n < 3 \/ Put([t |-> text, want |-> [i \in 1..Len(Lists) |-> Res(i)]])
=============================================================================
