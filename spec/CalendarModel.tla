--------------------------- MODULE CalendarModel ---------------------------
(* Walks through every day of 1901-2099 one day at a time, counting, and checks *)
(* that the closed forms used by the trace specifications agree with the walk.  *)
EXTENDS Calendar
VARIABLES y, m, d, n, jdn
vars == << y, m, d, n, jdn >>

Init == y = FirstYear /\ m = 1 /\ d = 1 /\ n = 1 /\ jdn = 2415386     \* 1901 January 1

NextDay == d < MonthLen(y, m) /\ d' = d + 1 /\ n' = n + 1 /\ UNCHANGED << y, m >>
NextMonth == d = MonthLen(y, m) /\ m < 12 /\ d' = 1 /\ m' = m + 1 /\ n' = n + 1 /\ y' = y
NextYear == d = 31 /\ m = 12 /\ y < LastYear /\ y' = y + 1 /\ m' = 1 /\ d' = 1 /\ n' = 1
Tick == (NextDay \/ NextMonth \/ NextYear) /\ jdn' = jdn + 1
Next == Tick
Spec == Init /\ [][Next]_vars

ClosedForms == /\ JDN(y, m, d) = jdn
               /\ DayOfYear(y, m, d) = n
               /\ MonthDay(y, n) = << m, d >>
               /\ n <= YearLen(y)
KnownDates == /\ (y = 2000 /\ m = 1 /\ d = 1 => jdn = 2451545)
              /\ (y = 1949 /\ m = 12 /\ d = 31 => jdn = 2433282)     \* 1950 January 0, 12h
              /\ (y = 1970 /\ m = 1 /\ d = 1 => jdn = 2440588)
(* The leap rule "every fourth year" is the Gregorian rule on this range. *)
FourYearRule == Leap(y) <=> y % 4 = 0
=============================================================================
