------------------------------- MODULE CodecMC -------------------------------
(* Moments written as serials and read back.  A clock is turned over days and times of day; the serial
   of a moment is a whole number of days and the milliseconds of the day (a time of day on 1970-01-01
   has no days).                                                                                    *)
EXTENDS Cal, Emit
CONSTANTS Times    \* milliseconds of the day that are tried on every day turned to

VARIABLES day, ms, last   \* the days of the serial before this one
vars == <<day, ms, last>>

Encode(d, t) == [w |-> IF d = 0 THEN 0 ELSE DaySerial(d), t |-> t]
Decode(s) == SerialMoment(s.w, s.t)
FirstDay == -25567
LastDay == 2932896

(* near the edges every day, else month by month, then by years *)
Leap(d) == IF d < FirstDay + 800 \/ (d > -800 /\ d < 800) THEN 1
           ELSE IF d < 40000 THEN 29 ELSE IF d < LastDay - 400 THEN 353 ELSE 1
Init == day = FirstDay /\ ms \in Times /\ last = 0
Tick == day + Leap(day) <= LastDay /\ day' = day + Leap(day) /\ ms' \in Times /\ last' = Encode(day, ms).w
Next == Tick
Spec == Init /\ [][Next]_vars

ReadsBack == Decode(Encode(day, ms)) = [day |-> day, ms |-> ms]
Grows == day # 0 /\ last # 0 => Encode(day, ms).w > last
NoFake == Encode(day, ms).w # 60
InRange == Encode(day, ms).w \in 0..2958465
Replayed == Put([d |-> day, t |-> ms, w |-> Encode(day, ms).w])
=============================================================================
