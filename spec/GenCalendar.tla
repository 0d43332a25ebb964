---------------------------- MODULE GenCalendar ----------------------------
(* Every date of 1901-2099, for replay into the crate. *)
EXTENDS Calendar, TLC, Json, IOUtils, SequencesExt, FiniteSets
VARIABLE done
Months(y) == [ m \in 1..12 |-> [ y |-> y, m |-> m, len |-> MonthLen(y, m) ] ]
Cases == FlattenSeq([ k \in 1..(LastYear - FirstYear + 1) |-> Months(FirstYear + k - 1) ])
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
