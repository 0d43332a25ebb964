----------------------------- MODULE GenSession -----------------------------
(* Histories of one or two records, as operation sequences for replay.          *)
(*   histories : every sequence of Len times over the time classes for a slot,  *)
(*               with an optional copy or parallel call at one point            *)
(*   reuses    : first life, propagations in it, second life                    *)
(*   requests  : integrator request sequences                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS What, TimeClasses, Kinds, HistLen
VARIABLE done
Modes == {"a", "i"}
Histories == { [ kind |-> k, times |-> h, twist |-> w ] :
                 k \in Kinds, h \in [ 1..HistLen -> TimeClasses ], w \in {"plain", "copy", "parallel", "other", "date"} }
Reuses == { [ first |-> a, mode1 |-> m, second |-> b, mode2 |-> q, between |-> t ] :
              a \in Kinds, b \in Kinds, m \in Modes, q \in Modes, t \in {"nothing", "some", "failure"} }
Requests == { [ kind |-> k, times |-> h ] : k \in Kinds, h \in [ 1..HistLen -> TimeClasses ] }
Cases == CASE What = "histories" -> Histories [] What = "reuses" -> Reuses [] What = "requests" -> Requests
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
