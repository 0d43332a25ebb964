------------------------------ MODULE Sidereal ------------------------------
(* Greenwich mean sidereal time (IAU 1982), and the 1970-based formula of the  *)
(* legacy operation mode.                                                      *)
EXTENDS Earth

(* Whole-turn reduction to [0, 2 pi). *)
Turn(x) == LET m == FMod(x, TwoPi) IN IF m \prec Zero THEN m ++ TwoPi ELSE m

Gmst(jd) ==
  LET tut == (jd -- R("2451545")) // R("36525")
      sec == (R("-6.2e-6") ** tut ** tut ** tut)
             ++ ((R("0.093104") ** tut ** tut)
             ++ ((((R("876600") ** R("3600")) ++ R("8640184.812866")) ** tut)
             ++ R("67310.54841")))
  IN Turn((sec ** DegToRad) // R("240"))

(* epoch: days since 1950 January 0.0 *)
GmstLegacy(epoch) ==
  LET ts70 == epoch -- R("7305")
      ds70 == FFloor(ts70 ++ R("1.0e-8"))
      frac == ts70 -- ds70
      c1   == R("1.72027916940703639e-2")
  IN Turn(R("1.7321343856509374") ++ (c1 ** ds70) ++ ((c1 ++ TwoPi) ** frac)
          ++ (ts70 ** ts70 ** R("5.07551419432269442e-15")))

Jd1950 == R("2433281.5")
EpochGmst(epoch, mode) == IF mode = "a" THEN GmstLegacy(epoch) ELSE Gmst(epoch ++ Jd1950)
=============================================================================
