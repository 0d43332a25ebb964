------------------------------- MODULE Earth -------------------------------
(* Gravity model and the physical constants of the orbit theory.  The crate    *)
(* uses WGS-84; WGS-72 is here because the published verification vectors of   *)
(* SGP4 are given in it (see Sgp4Vectors).                                     *)
EXTENDS Float64
CONSTANT Gravity
LOCAL W(a84, a72) == IF Gravity = "wgs84" THEN R(a84) ELSE R(a72)

Mu          == W("398600.5", "398600.8")            \* km^3 / s^2
EarthRadius == W("6378.137", "6378.135")            \* km
J2          == W("0.00108262998905", "0.001082616")
J3          == W("-0.00000253215306", "-0.00000253881")
J4          == W("-0.00000161098761", "-0.00000165597")
J3oJ2       == J3 // J2
Xke         == R("60") // FSqrt(Cube(EarthRadius) // Mu)
Tumin       == One // Xke
VKmPerSec   == (EarthRadius ** Xke) // R("60")
MinPerDay   == R("1440")
Xpdotp      == MinPerDay // TwoPi                   \* rev/day per rad/min
TwoThirds   == Two // R("3")
DegToRad    == Pi // R("180")
RadToDeg    == R("180") // Pi
SpeedOfLight == R("299792.458")                     \* km / s
RpTim       == R("4.37526908801129966e-3")          \* Earth rotation, rad / min
(* WGS-84 ellipsoid of the geodetic conversions. *)
EllA == R("6378.137")
EllB == R("6356.7523142")
EllF == (EllA -- EllB) // EllA
EllE2 == (Two ** EllF) -- Sq(EllF)
=============================================================================
