------------------------------- MODULE Cal -------------------------------
(* The calendar.  A moment is a pair (day, ms): days since 1970-01-01 and milliseconds of the day. *)
EXTENDS Txt

DayMs == 86400000

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

(* Gregorian date <-> day number (days since 1970-01-01), proleptic *)
DaysOf(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

DateOf(z0) ==
  LET z   == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400
  IN [y |-> IF m <= 2 THEN y + 1 ELSE y, m |-> m, d |-> d]

StampText(day, ms) ==
  LET c == DateOf(day)
      s == ms \div 1000
  IN Pad(c.y, 4) \o "-" \o Pad(c.m, 2) \o "-" \o Pad(c.d, 2) \o " " \o
     Pad(s \div 3600, 2) \o ":" \o Pad((s \div 60) % 60, 2) \o ":" \o Pad(s % 60, 2) \o
     "." \o Pad(ms % 1000, 3)

-----------------------------------------------------------------------------
(* Excel's 1900 date system: serial 1 is 1900-01-01, and a day that never was (1900-02-29) is
   serial 60.  A serial below 1 is a time of day.                                              *)
SerialDay(whole) == IF whole >= 60 THEN whole - 25569 ELSE IF whole >= 1 THEN whole - 25568 ELSE whole

(* Serial given as whole days and milliseconds *)
SerialMoment(whole, ms) == [day |-> SerialDay(whole), ms |-> ms]

(* Serial given as the decimal n / 10^k, k <= 4 (the fraction is then a whole number of ms) *)
SerialDec(n, k) ==
  LET w == n \div Pow10(k)
      f == n - w * Pow10(k)
  IN SerialMoment(w, f * (DayMs \div Pow10(k)))

(* The serial (whole days) of a date, 1900-01-01 .. ; the inverse of SerialDay on days that exist *)
DaySerial(day) == IF day >= -25508 THEN day + 25569 ELSE day + 25568
=============================================================================
