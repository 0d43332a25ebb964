------------------------------ MODULE Symmetry ------------------------------
(* Symmetries of near-Earth motion: transformations of an element set that move *)
(* the orbit in a known way.  The Earth of the theory is a body of revolution    *)
(* that does not change, so                                                     *)
(*   turn    turning the node by p turns the motion by p about the polar axis;  *)
(*   epoch   neither the date nor the operation mode matters;                   *)
(*   whole   whole turns (k = p) added to node, perigee and anomaly: nothing;   *)
(*   drift   without drag, elements advanced by p minutes of their secular      *)
(*           rates give the motion p minutes later;                             *)
(*   mirror  without drag, the motion reflected in a meridian plane and run     *)
(*           backwards is a motion.                                             *)
(* The theory's formulas are not used here, only its secular rates (by drift).  *)
(* One law holds for every orbit: the velocity is the rate of change of the      *)
(* position, up to the terms of the order of the flattening which the theory     *)
(* leaves out of the velocity.                                                  *)
EXTENDS Sgp4
Laws == {"turn", "epoch", "whole", "drift", "mirror"}
Dragless(law) == law \in {"drift", "mirror"}

(* The element set law makes of el; for epoch, p is the new epoch. *)
Transformed(law, el, p) ==
  CASE law = "turn"  -> [ el EXCEPT !.nodeo = @ ++ p ]
    [] law = "epoch" -> [ el EXCEPT !.epoch = p ]
    [] law = "whole" -> LET w == p ** TwoPi IN [ el EXCEPT !.nodeo = @ ++ w, !.argpo = @ ++ w, !.mo = @ ++ w ]
    [] law = "drift" -> LET n == Init(el, "i").n IN
                        [ el EXCEPT !.mo = @ ++ (n.mdot ** p), !.argpo = @ ++ (n.argpdot ** p), !.nodeo = @ ++ (n.nodedot ** p) ]
    [] law = "mirror" -> [ el EXCEPT !.nodeo = Pi -- @, !.argpo = Pi -- @, !.mo = FNeg(@) ]
(* The time at which the transformed motion is to be compared with time t. *)
When(law, t, p) == CASE law = "drift" -> t -- p [] law = "mirror" -> FNeg(t) [] OTHER -> t
(* Where the transformed motion is, when the original one is at r with velocity v. *)
Spin(x, a) == << (x[1] ** FCos(a)) -- (x[2] ** FSin(a)), (x[1] ** FSin(a)) ++ (x[2] ** FCos(a)), x[3] >>
MovedR(law, p, r) == CASE law = "turn" -> Spin(r, p) [] law = "mirror" -> << r[1], FNeg(r[2]), r[3] >> [] OTHER -> r
MovedV(law, p, v) == CASE law = "turn" -> Spin(v, p) [] law = "mirror" -> << FNeg(v[1]), v[2], FNeg(v[3]) >> [] OTHER -> v
(* r0, r1: positions h minutes before and after. *)
Rate(r0, r1, h) == [ k \in 1..3 |-> (r1[k] -- r0[k]) // (R("120") ** h) ]
RateStep == R("0.01")
(* The terms left out: those of the flattening (J2 over the squared semi-latus  *)
(* rectum) and of the Moon (its motion over that of the satellite, squared),     *)
(* felt most where an eccentric orbit is slow.                                  *)
RateSlack(el) == LET a == FPow(Xke // el.no, TwoThirds) IN
                 R("1e-4") ++ (((R("8") ** (J2 // Sq(a ** (One -- Sq(el.ecco))))) ++ (R("0.05") ** Sq(Znl // el.no)))
                               // (One -- el.ecco))
(* Drag is left out of the velocity altogether, and the periodics are singular   *)
(* where the orbit is exactly retrograde.                                       *)
RateHolds(rec) == FEq(rec.n.bstar, Zero) /\ rec.n.inclo \prec R("3.0")
Speed(v) == FSqrt(Sq(v[1]) ++ Sq(v[2]) ++ Sq(v[3]))
Gap(a, b) == FSqrt(Sq(a[1] -- b[1]) ++ Sq(a[2] -- b[2]) ++ Sq(a[3] -- b[3]))
=============================================================================
