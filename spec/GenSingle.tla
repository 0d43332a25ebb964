----------------------------- MODULE GenSingle -----------------------------
(* All shapes of texts offered as a single record: up to four non-blank lines,  *)
(* each starting like line 1, like line 2 or otherwise, with sound, malformed   *)
(* or uninitialisable elements.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Shapes == UNION { [ 1..n -> {"1", "2", "x"} ] : n \in 0..4 }
Cases == { [ starts |-> s, fate |-> f, rep |-> k ] : s \in Shapes, f \in {"ok", "bad", "init"}, k \in 1..6 }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
