------------------------------ MODULE Instants ------------------------------
(* Instants of time as exact calendar dates with a time of day, and their       *)
(* Julian dates.  utc = << year, month, day, hour, minute, second, nanosecond >>*)
EXTENDS Sidereal, Calendar

(* Fraction of the day. *)
DayFraction(h, mi, s, ms) ==
  ((((ms // R("60000")) ++ (s // R("60")) ++ mi) // R("60")) ++ h) // R("24")
JulianDate(y, m, d, frac) == (FInt(JDN(y, m, d)) -- Half) ++ frac
UtcFraction(u) == DayFraction(FInt(u[4]), FInt(u[5]), FInt(u[6]), FInt(u[7]) // R("1000000"))
UtcJd(u) == JulianDate(u[1], u[2], u[3], UtcFraction(u))

(* Minutes from the instant with Julian date jd0 to utc: whole days first, so   *)
(* that no precision is lost to the size of Julian dates.                       *)
MinutesSince(u, jd0) ==
  ((((FInt(JDN(u[1], u[2], u[3])) -- Half) -- jd0) ** MinPerDay))
  ++ (UtcFraction(u) ** MinPerDay)

(* Year and fractional day of year, as written in element sets. *)
FullYear(yy) == IF yy < 57 THEN 2000 + yy ELSE 1900 + yy
EpochJd(yy, days) ==
  (FInt(JDN(FullYear(yy), 1, 1)) -- Half) ++ (days -- One)

(* Angles agree modulo a whole turn. *)
AngleClose(a, b, tol) ==
  LET d == FMod(FAbs(a -- b), TwoPi) IN d \preceq tol \/ (TwoPi -- d) \preceq tol
=============================================================================
