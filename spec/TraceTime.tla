----------------------------- MODULE TraceTime -----------------------------
(* Judges recorded calls of the calendar and sidereal-time functions.           *)
EXTENDS Replay, Instants
VARIABLES sess, pos, why

Integral(x, lo, hi) == FFinite(x) /\ FEq(x, FFloor(x)) /\ x \succeq FInt(lo) /\ x \preceq FInt(hi)

JudgeJday(e) ==
  LET i(k) == e.in[k]
      y == FToInt(i(1))  m == FToInt(i(2))  d == FToInt(i(3))
      frac == DayFraction(i(4), i(5), i(6), i(7))
      jd == JulianDate(y, m, d, frac)
  IN (Need(ValidDate(y, m, d), "trace: not a date")
      ?? Need(IF FEq(frac, Zero) THEN FEq(e.out.x[1], jd) ELSE FClose(e.out.x[1], jd, R("1.5e-9")), "Julian date is not that of the calendar"))

JudgeJdUtc(e) ==
  Need(FClose(e.out.x[1], UtcJd(e.utc), R("1.5e-9")), "Julian date of a UTC instant is wrong")

JudgeSplit(e) ==
  LET x == e.out.x
      n == FToInt(e.days)
      md == MonthDay(e.year, n)
      frac == e.days -- FInt(n)
      back == DayFraction(x[3], x[4], x[5], Zero)
  IN (Need(FEq(x[1], FInt(md[1])), "wrong month")
      ?? Need(FEq(x[2], FInt(md[2])), "wrong day of month")
      ?? Need(Integral(x[3], 0, 23), "hour out of range")
      ?? Need(Integral(x[4], 0, 59), "minute out of range")
      ?? Need(x[5] \succeq Zero /\ x[5] \prec R("60"), "second out of range")
      ?? Need(FClose(back, frac, R("1e-12")), "time of day does not denote the same instant"))

JudgeEpoch(e) ==
  IF e.out.k # "rec" THEN "ok"      \* whether a text is accepted is not this property
  ELSE IF e.out.epochyr \notin 0..99 \/ ~(e.out.epochdays \succeq One /\ e.out.epochdays \prec R("367")) THEN "ok"
  ELSE Need(FClose(e.out.jd, EpochJd(e.out.epochyr, e.out.epochdays), R("1.5e-9")), "epoch is not the Julian date of the element set's year and day")

InTurn(x) == x \succeq Zero /\ x \preceq TwoPi
JudgeGst(e, jd, tol) ==
  (Need(InTurn(e.out.x[1]), "sidereal angle outside one turn")
   ?? Need(AngleClose(e.out.x[1], Gmst(jd), tol), "not the IAU-1982 sidereal angle"))

Judge(e) ==
  IF Lost(e) THEN "the call did not return: " \o e.out.k
  ELSE CASE e.ev = "JDAY" -> JudgeJday(e)
         [] e.ev = "JDDT" -> JudgeJdUtc(e)
         [] e.ev = "D2M"  -> JudgeSplit(e)
         [] e.ev = "PS"   -> JudgeEpoch(e)
         [] e.ev = "GST"  -> JudgeGst(e, e.in[1], R("4e-10"))
         [] e.ev = "GSTDT" -> JudgeGst(e, UtcJd(e.utc), R("1.2e-8"))

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok"
TraceNext == /\ why = "ok"
             /\ pos < Len(Log[sess].events)
             /\ pos' = pos + 1
             /\ why' = Judge(Log[sess].events[pos + 1])
             /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
