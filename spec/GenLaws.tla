------------------------------ MODULE GenLaws ------------------------------
(* Every law with every near-Earth class (and for the rate law every class), for replay. *)
EXTENDS Regimes, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Laws == {"turn", "epoch", "whole", "drift", "mirror"}
Moved(law) == { [ law |-> law ] @@ c : c \in { d \in Near : law \in {"drift", "mirror"} => d.drag = "none" } }
Rated == { [ law |-> "rate" ] @@ c : c \in { d \in Near : d.drag = "none" } \cup Deep \cup Resonant }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Rated \cup UNION { Moved(l) : l \in Laws }))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
