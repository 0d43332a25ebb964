---------------------------- MODULE TraceFrames ----------------------------
(* Judges recorded frame, bearing, Doppler and unit conversions (C18-C22). *)
EXTENDS Replay, Frames
VARIABLES sess, pos, why

V(x, k) == << x[k], x[k + 1], x[k + 2] >>
AllFinite(x) == \A k \in DOMAIN x : FFinite(x[k])
Ulps(k) == FInt(k) ** R("2.3e-16")

(* ---- C18: every component to rounding of the vector's length; the trigonometry *)
(* of g is exact, and whole turns are as exact as the number g.                    *)
Rotated(e) ==
  LET p == V(e.in, 1)
      g == e.in[4]
      want == IF e.ev = "E2F" THEN ToFixed(p, g) ELSE ToInertial(p, g)
      slack == Ulps(8) ** Length(p)
      o == e.out.x
  IN (Need(FEq(o[3], p[3]), "the polar component is changed")
      ?? Need(FClose(o[1], want[1], slack) /\ FClose(o[2], want[2], slack), "not the rotation by the sidereal angle")
      ?? Need(FClose(Length(o), Length(p), slack), "the length is changed"))

(* ---- C19 *)
InRange(x, bound) == FAbs(x) \preceq (bound ++ R("1e-12"))
Geodetic(e) ==
  LET p == V(e.in, 1)
      g == e.in[4]
      o == e.out.x
      slack == R("1e-6") ++ (Ulps(16) ** Length(p) ** (One ++ FAbs(g)))
  IN (Need(InRange(o[1], Pi // Two), "latitude out of range")
      ?? Need(InRange(o[2], Pi), "longitude out of range")
      ?? Need(Distance(ToInertial(FromGeodetic(o[1], o[2], o[3]), g), p) \preceq slack, "the geodetic coordinates denote another point"))
OnNormal(e) ==
  LET p == FromGeodetic(e.in[1], e.in[2], e.in[3]) IN
  Need(Distance(e.out.x, p) \preceq (R("1e-9") ++ (Ulps(16) ** Length(p))), "not on the ellipsoid normal at the given height")

(* ---- C20 *)
BearingIs(o, s, slack) ==
  (Need(AllFinite(o), "undefined bearing")
   ?? Need(FAbs(o[2]) \preceq ((Pi // Two) ++ R("1e-12")), "elevation out of range")
   ?? Need((FNeg(R("1e-12")) \preceq o[1]) /\ (o[1] \preceq (TwoPi ++ R("1e-12"))), "azimuth out of range")
   ?? Need(FClose(o[3], Length(s), slack), "range is not the distance")
   ?? Need(FClose(o[3] ** FSin(o[2]), s[3], slack), "elevation does not point at the satellite")
   ?? Need(Points(o[1], o[2], o[3], s, slack), "azimuth does not point at the satellite"))
LocalSlack(x) == R("1e-10") ++ (Ulps(32) ** (EarthRadius ++ FAbs(x[3]) ++ Length(V(x, 4))))
Look(e) ==
  LET s == Local(e.in[1], e.in[2], e.in[3], V(e.in, 4))
  IN IF e.ev = "TOPO"
     THEN Need(Distance(e.out.x, s) \preceq LocalSlack(e.in), "not the offset in the observer's axes")
     ELSE IF Length(s) \prec R("1e-6") THEN "ok"                    \* observer and satellite coincide
     ELSE BearingIs(e.out.x, s, LocalSlack(e.in) ** R("4"))
Bearing(e) ==
  LET s == V(e.in, 1) IN
  IF Length(s) \prec R("1e-9") THEN "ok" ELSE BearingIs(e.out.x, s, Ulps(32) ** Length(s))
Vector(e) ==
  LET p == V(e.in, 1)
      q == V(e.in, 4)
      o == e.out.x
      d == Minus(p, q)
  IN (Need(FClose(o[1], Length(d), Ulps(8) ** Length(d)), "range is not the distance")
      ?? Need(V(o, 2) = Plus(p, q) \/ Distance(V(o, 2), Plus(p, q)) \preceq (Ulps(2) ** (Length(p) ++ Length(q))), "sum of vectors")
      ?? Need(V(o, 5) = d \/ Distance(V(o, 5), d) \preceq (Ulps(2) ** (Length(p) ++ Length(q))), "difference of vectors"))

(* ---- C21 *)
Shift(e) ==
  LET loc == V(e.in, 1)
      p == V(e.in, 4)
      v == V(e.in, 7)
      change == RangeChange(loc, p, v)
      blur == R("1e-9") ++ (Ulps(32) ** (Length(loc) ++ Length(p) ++ Length(v)))   \* km
      f == e.out.x[1]
  IN (Need(~(change \prec FNeg(blur)) \/ f \succ One, "not above one on approach")
      ?? Need(~(change \succ blur) \/ f \prec One, "not below one on recession")
      ?? Need(FClose(f, Doppler(loc, p, v), R("5e-16") ++ (blur // SpeedOfLight)), "not one minus the change of distance over the speed of light"))

(* ---- C22 *)
Converts(fn, x) == IF fn \in {"radians_to_degrees", "degrees_lat", "degrees_long"} THEN x ** (R("180") // Pi) ELSE x ** (Pi // R("180"))
Bound(fn) == CASE fn = "radians_lat" -> R("90") [] fn = "radians_long" -> R("180")
               [] fn = "degrees_lat" -> Pi // Two [] fn = "degrees_long" -> Pi
(* The bounds in radians are not numbers; the last place next to them is open.  *)
OpenAt(fn, x) == /\ fn \in {"degrees_lat", "degrees_long"}
                 /\ ~FEq(FAbs(x), Bound(fn))
                 /\ FClose(FAbs(x), Bound(fn), Ulps(4) ** Bound(fn))
Angle(e) ==
  LET x == e.in
      fn == e.fn
      good == e.out.k = "val" /\ Agree(e.out.x[1], Converts(fn, x), Ulps(3), R("1e-300"))
  IN IF FIsNaN(x) THEN "ok"
     ELSE IF fn \in {"radians_to_degrees", "degrees_to_radians"}
     THEN IF ~FFinite(x) \/ ~FFinite(Converts(fn, x)) THEN "ok" ELSE Need(good, "wrong conversion")
     ELSE IF OpenAt(fn, x) THEN "ok"
     ELSE IF FAbs(x) \preceq Bound(fn) THEN Need(good, "a value in range is refused or wrongly converted")
     ELSE Need(e.out.k = "panic", "a value out of range is accepted")
Constants(e) ==
  LET c == e.out.x IN
  (Need(FClose(c[1] ** c[2], One, Ulps(8)), "degree and radian factors are not inverse")
   ?? Need(FClose(c[3] ** c[4], One, Ulps(8)), "kilometre and mile factors are not inverse")
   ?? Need(FClose(c[1], Pi // R("180"), Ulps(1)), "degrees to radians")
   ?? Need(FClose(c[4], R("1.609344"), R("2e-5")), "a mile is 1.609344 km")
   ?? Need(FEq(c[5], TwoPi), "a turn")
   ?? Need(FEq(c[6], SpeedOfLight), "the speed of light"))

Judge(e) ==
  IF e.ev = "ANG" THEN (IF e.out.k \in {"crash", "hang"} THEN "the call did not return: " \o e.out.k ELSE Angle(e))
  ELSE IF Lost(e) THEN "the call did not return: " \o e.out.k
  ELSE CASE e.ev \in {"E2F", "F2E"} -> Rotated(e)
         [] e.ev = "E2G" -> IF FFinite(e.in[4]) THEN Geodetic(e) ELSE "ok"
         [] e.ev = "G2F" -> OnNormal(e)
         [] e.ev \in {"TOPO", "LOOK"} -> Look(e)
         [] e.ev = "T2L" -> Bearing(e)
         [] e.ev = "VEC" -> Vector(e)
         [] e.ev = "DOP" -> Shift(e)
         [] e.ev = "CONST" -> Constants(e)

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok"
TraceNext == /\ why = "ok" /\ pos < Len(Log[sess].events)
             /\ why' = Judge(Log[sess].events[pos + 1])
             /\ pos' = pos + 1 /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
