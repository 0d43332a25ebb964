------------------------------ MODULE Calendar ------------------------------
(* The Gregorian calendar from 1901 to 2099 in exact integer arithmetic.        *)
(* A day is identified by its Julian day number at noon (JDN).                  *)
EXTENDS Integers, Sequences

FirstYear == 1901
LastYear  == 2099
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31

CumDays == << 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 >>
DayOfYear(y, m, d) == CumDays[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)

(* The month and day that are the n-th day of year y. *)
MonthOf(y, n) == CHOOSE m \in 1..12 : /\ n > DayOfYear(y, m, 0)
                                      /\ n <= DayOfYear(y, m, MonthLen(y, m))
MonthDay(y, n) == LET m == MonthOf(y, n) IN << m, n - DayOfYear(y, m, 0) >>

(* Julian day number (Fliegel & van Flandern). *)
JDN(y, m, d) ==
  LET a == IF m <= 2 THEN -1 ELSE 0 IN
  ((1461 * (y + 4800 + a)) \div 4) + ((367 * (m - 2 - (12 * a))) \div 12)
  - ((3 * ((y + 4900 + a) \div 100)) \div 4) + d - 32075

ValidDate(y, m, d) == y \in FirstYear..LastYear /\ m \in 1..12 /\ d \in 1..MonthLen(y, m)
=============================================================================
