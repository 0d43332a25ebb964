------------------------------ MODULE GenTrack ------------------------------
(* Classes of tracking requests, for replay: which kind of orbit, how far from  *)
(* epoch, where the observer stands.                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Kinds == {"near", "deep", "lyddane", "oneday", "halfday", "decays", "below", "growing", "perturbed"}
Whens == {"epoch", "minutes", "hours", "days", "weeks", "years"}
Sides == {"before", "after"}
Places == {"northpole", "southpole", "equator", "dateline", "anywhere", "flying"}
Cases == { [ kind |-> k, when |-> w, side |-> s, place |-> p ] : k \in Kinds, w \in Whens, s \in Sides, p \in Places }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
