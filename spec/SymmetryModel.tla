--------------------------- MODULE SymmetryModel ---------------------------
(* The orbit theory of Sgp4.tla obeys the laws of Symmetry.tla: checked on a    *)
(* grid of element sets of every branch (perigees from below 98 km up, periods  *)
(* to two days, both resonances, eccentricities around 1e-4, all kinds of       *)
(* inclination).  This examines the specification independently of published    *)
(* vectors.                                                                     *)
EXTENDS Symmetry
CONSTANT Fine                                           \* TRUE: the larger grid
VARIABLE case
And(more) == IF Fine THEN more ELSE {}
Perigees == {"90", "120", "190", "230", "600"} \cup And({"97.9", "156.1", "219.9", "1500", "3000"})
Periods  == {"230", "717", "1436"} \cup And({"340", "600", "1100", "2500"})         \* minutes
Eccs == {"0", "0.0000500", "0.001", "0.15", "0.7"} \cup And({"0.00010001", "0.02", "0.3", "0.55"})
Incs == {"0", "0.3", "1.1071487", "1.5707963", "2.2", "3.1415926"} \cup And({"1e-6", "0.05", "2.0344439", "3.0"})
Angles == {<< "0", "0", "0" >>, << "0.4", "2.9", "5.9" >>} \cup And({<< "3.2", "6.1", "1.0" >>})
Drags == {"0", "1e-5"}
Element(c) ==
  LET n == IF c.kind = "near"
           THEN Xke // FPow((One ++ (R(c.size) // EarthRadius)) // (One -- R(c.ecc)), R("1.5"))
           ELSE TwoPi // R(c.size)
  IN [ epoch |-> R("20000.25"), bstar |-> R(c.drag), ecco |-> R(c.ecc), argpo |-> R(c.ang[1]), inclo |-> R(c.inc),
       mo |-> R(c.ang[2]), no |-> n, nodeo |-> R(c.ang[3]) ]
Param(law) == CASE law = "turn" -> R("2.3") [] law = "epoch" -> R("9131.7") [] law = "whole" -> R("2")
                [] law = "drift" -> R("733.3") [] law = "mirror" -> Zero
Times == {"0", "17.5", "-250", "5000"}
Obeys(c, el, a, law) ==
  LET p == Param(law)
      b == Init(Transformed(law, el, p), IF law = "epoch" THEN "a" ELSE "i")
  IN \/ Dragless(law) /\ c.drag # "0"
     \/ \A t \in Times :
          LET x == Propagate(a, R(t))
              y == Propagate(b, When(law, R(t), p))
          IN \/ x.amb \/ y.amb
             \/ x.err # 0 /\ y.err = x.err
             \/ /\ x.err = 0 /\ y.err = 0
                /\ Gap(MovedR(law, p, x.r), y.r) \preceq (x.tolr ++ y.tolr)
                /\ Gap(MovedV(law, p, x.v), y.v) \preceq (x.tolv ++ y.tolv)
Moves(el, a) ==
  \A t \in Times :
    LET x == Propagate(a, R(t))
        y == Propagate(a, R(t) -- RateStep)
        z == Propagate(a, R(t) ++ RateStep)
    IN (RateHolds(a) /\ \A k \in {x, y, z} : k.err = 0 /\ ~k.amb) =>
       Gap(Rate(y.r, z.r, RateStep), x.v) \preceq (RateSlack(el) ** Speed(x.v))
Init0 == case \in { [ kind |-> "near", size |-> p ] : p \in Perigees } \cup { [ kind |-> "deep", size |-> p ] : p \in Periods }
Next0 == /\ "ecc" \notin DOMAIN case
         /\ \E e \in Eccs, i \in Incs, g \in Angles, d \in Drags :
              case' = [ ecc |-> e, inc |-> i, ang |-> g, drag |-> d ] @@ case
Whole == "ecc" \in DOMAIN case
Lawful == Whole => LET el == Element(case)  a == Init(el, "i") IN
                   /\ Moves(el, a)
                   /\ a.deep \/ \A law \in Laws : Obeys(case, el, a, law)
=============================================================================
