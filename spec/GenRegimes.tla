----------------------------- MODULE GenRegimes -----------------------------
(* Every orbit class of the given kinds, for replay into the crate. *)
EXTENDS Regimes, TLC, Json, IOUtils, SequencesExt
CONSTANT Kinds
VARIABLE done
Cases == UNION { Of(k) : k \in Kinds }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
