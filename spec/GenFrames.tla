----------------------------- MODULE GenFrames -----------------------------
(* Classes of places, directions and angles, for replay into the crate. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Lats == {"northpole", "southpole", "nearnorth", "nearsouth", "equator", "nearequator", "north", "south"}
Lons == {"greenwich", "dateline", "minusdateline", "neardateline", "east", "west", "quarter", "nearquarter"}
Heights == {"deep", "below", "surface", "low", "leo", "meo", "geo", "lunar"}
Turns == {"zero", "small", "half", "full", "nearquarter", "negative", "several", "many"}
Cases == { [ lat |-> a, lon |-> b, h |-> c, turn |-> d ] : a \in Lats, b \in Lons, c \in Heights, d \in Turns }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
