------------------------------ MODULE Regimes ------------------------------
(* The orbit classes the theory distinguishes, as an abstract space: every      *)
(* branch of Sgp4.tla is a boundary of one of these classes.                    *)
EXTENDS Integers, Sequences, FiniteSets
Drags == {"none", "usual", "heavy", "negative"}
Modes == {"a", "i"}
(* Near-Earth: perigee against 98, 156 and 220 km; eccentricity against 1e-4.   *)
NearPerigees == {"below98", "98to156", "156to220", "above220", "high", "edge225"}
NearEccs     == {"zero", "tiny", "small", "mid", "large"}
NearIncs     == {"0", "180", "below3", "low", "mid", "critical", "polar", "retro", "above177"}
Near == [ kind : {"near"}, per : NearPerigees, ecc : NearEccs, inc : NearIncs, drag : Drags, mode : Modes ]
(* Deep space: period classes outside resonance; inclination against 3 and 177  *)
(* degrees and 0.2 rad; node quadrant (the node is wrapped at low inclination). *)
DeepPeriods == {"edge225", "upto12h", "between", "far", "halfdaycircular"}
DeepEccs    == {"zero", "tiny", "small", "mid", "e50", "e65", "e70", "e72", "large"}
DeepIncs    == {"0", "180", "below3", "lyddane", "edge02", "mid", "critical", "polar", "retro", "above177", "edge3"}
Nodes       == 1..4
(* Transfer and Molniya orbits: deep space, but with a perigee near or below the *)
(* thresholds of the drag terms; the eccentricity follows from the perigee.     *)
LowPerigees == {"below98", "98to156", "156to220", "above220"}
Deep == [ kind : {"deep"}, per : DeepPeriods, ecc : DeepEccs, inc : DeepIncs, node : Nodes, mode : Modes ]
        \cup
        [ kind : {"deep"}, per : {"lowperigee"}, ecc : LowPerigees, inc : DeepIncs, node : {1, 3}, mode : Modes ]
(* Resonant: the two commensurabilities, inside and close to the edges.         *)
Resonant == [ kind : {"resonant"}, per : {"oneday", "onedayedge"},
              ecc : DeepEccs, inc : DeepIncs, node : {1, 3}, mode : Modes ]
            \cup
            [ kind : {"resonant"}, per : {"halfday", "halfdayedge"},
              ecc : {"e50", "e65", "e70", "e72", "large"}, inc : DeepIncs, node : {1, 3}, mode : Modes ]
            \cup
            [ kind : {"resonant"}, per : {"halfdaylow"}, ecc : LowPerigees, inc : DeepIncs, node : {1, 3}, mode : Modes ]
Of(k) == CASE k = "near" -> Near [] k = "deep" -> Deep [] k = "resonant" -> Resonant
=============================================================================
