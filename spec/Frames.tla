------------------------------- MODULE Frames -------------------------------
(* Reference frames: inertial, Earth-fixed, geodetic and an observer's local    *)
(* axes; the Doppler factor.  Vectors are << x, y, z >> in km.                  *)
EXTENDS Earth

Dot(a, b) == (a[1] ** b[1]) ++ (a[2] ** b[2]) ++ (a[3] ** b[3])
Length(a) == FSqrt(Dot(a, a))
Minus(a, b) == << a[1] -- b[1], a[2] -- b[2], a[3] -- b[3] >>
Plus(a, b) == << a[1] ++ b[1], a[2] ++ b[2], a[3] ++ b[3] >>
Distance(a, b) == Length(Minus(a, b))

(* Rotation about the polar axis by the sidereal angle. *)
ToFixed(v, g) == << (v[1] ** FCos(g)) ++ (v[2] ** FSin(g)), (v[2] ** FCos(g)) -- (v[1] ** FSin(g)), v[3] >>
ToInertial(v, g) == << (v[1] ** FCos(g)) -- (v[2] ** FSin(g)), (v[1] ** FSin(g)) ++ (v[2] ** FCos(g)), v[3] >>

(* The point at geodetic latitude, longitude and height: on the normal of the   *)
(* ellipsoid.                                                                   *)
FromGeodetic(lat, lon, h) ==
  LET n == EllA // FSqrt(One -- (EllE2 ** Sq(FSin(lat)))) IN
  << (n ++ h) ** FCos(lat) ** FCos(lon), (n ++ h) ** FCos(lat) ** FSin(lon),
     ((n ** (One -- EllE2)) ++ h) ** FSin(lat) >>

(* Local axes of an observer. *)
South(lat, lon) == << FSin(lat) ** FCos(lon), FSin(lat) ** FSin(lon), FNeg(FCos(lat)) >>
East(lat, lon)  == << FNeg(FSin(lon)), FCos(lon), Zero >>
Up(lat, lon)    == << FCos(lat) ** FCos(lon), FCos(lat) ** FSin(lon), FSin(lat) >>
Local(lat, lon, h, sat) ==
  LET d == Minus(sat, FromGeodetic(lat, lon, h)) IN
  << Dot(South(lat, lon), d), Dot(East(lat, lon), d), Dot(Up(lat, lon), d) >>

(* Does the bearing (azimuth clockwise from north, elevation, range) point along *)
(* the local offset s = << south, east, up >>?                                  *)
Horizontal(s) == FSqrt(Sq(s[1]) ++ Sq(s[2]))
Points(az, el, range, s, slack) ==
  /\ FClose(range, Length(s), slack)
  /\ FClose(range ** FSin(el), s[3], slack)
  /\ FClose(FNeg(Horizontal(s)) ** FCos(az), s[1], slack)
  /\ FClose(Horizontal(s) ** FSin(az), s[2], slack)

(* One minus the change of distance over the next second, over the speed of light. *)
RangeChange(loc, p, v) == Distance(Plus(p, v), loc) -- Distance(p, loc)
Doppler(loc, p, v) == One -- (RangeChange(loc, p, v) // SpeedOfLight)
=============================================================================
