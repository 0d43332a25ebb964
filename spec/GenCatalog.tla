----------------------------- MODULE GenCatalog -----------------------------
(* All catalogues of up to MaxRecords records over the given record kinds, with *)
(* every kind of incomplete tail, as abstract behaviours of the catalogue       *)
(* writer (CatalogModel), for replay into the crate.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxRecords, Titles, Fates, Tails,
  Kin        \* how the records are related: "strangers", "satellite" (one satellite number),
             \* "text" (the same element lines), "name" (the same title)
VARIABLE done
Kinds == { << t, f >> : t \in Titles, f \in Fates }
Bodies == UNION { [ 1..n -> Kinds ] : n \in 0..MaxRecords }
Cases == { [ recs |-> b, tail |-> t, kin |-> k ] : b \in Bodies, t \in Tails, k \in Kin }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
