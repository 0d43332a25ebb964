----------------------------- MODULE GenStages -----------------------------
(* Every stage with every orbit class it applies to, for replay. *)
EXTENDS Regimes, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Stage(name, classes) == { [ stage |-> name ] @@ c : c \in classes }
Far == Deep \cup Resonant
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(
  Stage("recover", Near \cup Far) \cup UNION { Stage(s, Far) : s \in {"attract", "wobble", "resonate", "drift"} }))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
