------------------------------- MODULE SerialMC -------------------------------
(* Serial dates against a calendar that is turned month by month, from 1900-01-01 to 9999-12-31. *)
EXTENDS Cal, Emit
CONSTANTS LastYear

(* an odometer of months: the first serial of the month, and the days of 1970-based count *)
VARIABLES y, m, serial, day, starts
vars == <<y, m, serial, day, starts>>
Leap == y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0)
Days == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap THEN 29 ELSE 28) [] OTHER -> 31
(* Excel counts a day 60 that never was *)
Counted == IF y = 1900 /\ m = 2 THEN 29 ELSE Days

Init == y = 1900 /\ m = 1 /\ serial = 1 /\ day = -25567 /\ starts = <<1>>
Turn == /\ ~(y = LastYear /\ m = 12)
        /\ y' = IF m = 12 THEN y + 1 ELSE y
        /\ m' = IF m = 12 THEN 1 ELSE m + 1
        /\ serial' = serial + Counted /\ day' = day + Days
        /\ starts' = IF m = 12 THEN <<serial'>> ELSE Append(starts, serial')
Next == Turn
Spec == Init /\ [][Next]_vars

(* --- meaning: every day of the month is the day its serial names --- *)
Named == \A d \in 1..Days : /\ SerialDay(serial + d - 1) = day + d - 1
                            /\ DaysOf(y, m, d) = day + d - 1
                            /\ DateOf(day + d - 1) = [y |-> y, m |-> m, d |-> d]
                            /\ DaySerial(day + d - 1) = serial + d - 1
Increasing == \A d \in 1..Counted : (serial + d - 1 # 60) => SerialDay(serial + d - 1) > SerialDay(serial + d - 2) \/ serial + d - 1 = 1
Replayed == m = 12 => Put([y |-> y, starts |-> starts])

(* serials with decimals, handed over once *)
Wholes == {0, 1, 2, 31, 58, 59, 60, 61, 62, 365, 366, 367, 25568, 25569, 25570, 43831, 44000, 73050, 2958465}
Fracs(k) == IF k = 0 THEN {0} ELSE {f \in 0..(Pow10(k) - 1) : f % (IF k = 4 THEN 37 ELSE IF k = 3 THEN 7 ELSE 1) = 0 \/ f = Pow10(k) - 1}
ASSUME \A w \in Wholes : \A k \in 0..4 : \A f \in Fracs(k) :
         LET r == SerialMoment(w, f * (DayMs \div Pow10(k)))
         IN /\ w < 10000 => r = SerialDec(w * Pow10(k) + f, k)
            /\ Put([w |-> w, f |-> f, k |-> k, want |-> ToString(r.day) \o ":" \o ToString(r.ms)])
=============================================================================
