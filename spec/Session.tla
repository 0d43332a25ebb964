------------------------------ MODULE Session ------------------------------
(* Records as state machines.  A record holds the constants derived from its    *)
(* elements and, besides, scratch state: the error flag, the time of the last   *)
(* call and the integrator state.  Slots may be initialised, re-initialised,    *)
(* copied, and propagated, by one thread or by several threads on slots of      *)
(* their own (their calls interleave).  Checked: the outcome of a propagation   *)
(* is a function of the slot's current elements, mode and the requested time,   *)
(* and the flag is that of the last call.                                       *)
EXTENDS Restart, Sequences, FiniteSets, TLC
CONSTANTS Slots, Kinds, Reach, Depth
Times == (-Reach)..Reach
VARIABLES recs,     \* slot -> record, or Empty
          seen,     \* all << constants, time, outcome >> so far
          flagok, n
vars == << recs, seen, flagok, n >>

Empty == [ kind |-> "empty" ]
Modes == {"a", "i"}
(* Which requests fail, by kind of orbit. *)
Fails(k, t) == CASE k = "fails" -> TRUE [] k = "decays" -> t > 0 [] OTHER -> FALSE
Consts(k, m) == << k, m >>
NewRecord(k, m) == [ kind |-> k, consts |-> Consts(k, m), flag |-> 0, last |-> 0, atime |-> 0, path |-> << >> ]

(* The integrator, in whole steps, as in Integrator.tla. *)
RECURSIVE Walk(_, _, _)
Walk(a, p, t) == IF Abs(t - a) >= 1 THEN Walk(a + Sign(t), Append(p, Sign(t)), t) ELSE << a, p >>
Integrated(r, t) ==
  IF r.kind # "resonant" THEN << 0, << >> >>
  ELSE IF Resume(r.atime, t) THEN Walk(r.atime, r.path, t)
  ELSE Walk(0, << >>, t)
OutcomeOf(r, t) == IF Fails(r.kind, t) THEN << "err", r.kind >>
                   ELSE << "ok", r.consts, t, Integrated(r, t)[2] >>
After(r, t) == LET g == Integrated(r, t) IN
               [ r EXCEPT !.flag = IF Fails(r.kind, t) THEN 1 ELSE 0, !.last = t, !.atime = g[1], !.path = g[2] ]

Init == recs = [ s \in Slots |-> Empty ] /\ seen = {} /\ flagok = TRUE /\ n = 0
Step == n < Depth /\ n' = n + 1
(* Initialisation replaces everything, and propagates to epoch. *)
Initialise(s, k, m) ==
  LET r == NewRecord(k, m) IN
  /\ Step
  /\ recs' = [ recs EXCEPT ![s] = After(r, 0) ]
  /\ seen' = seen \cup { << Consts(k, m), 0, OutcomeOf(r, 0) >> }
  /\ UNCHANGED flagok
Propagate(s, t) ==
  /\ Step /\ recs[s] # Empty
  /\ recs' = [ recs EXCEPT ![s] = After(recs[s], t) ]
  /\ seen' = seen \cup { << recs[s].consts, t, OutcomeOf(recs[s], t) >> }
  /\ flagok' = ((recs'[s].flag = 0) <=> OutcomeOf(recs[s], t)[1] = "ok")
Copy(s, d) == /\ Step /\ recs[s] # Empty /\ s # d
              /\ recs' = [ recs EXCEPT ![d] = recs[s] ] /\ UNCHANGED << seen, flagok >>
Next == \/ \E s \in Slots, k \in Kinds, m \in Modes : Initialise(s, k, m)
        \/ \E s \in Slots, t \in Times : Propagate(s, t)
        \/ \E s, d \in Slots : Copy(s, d)

(* C13, C14 *)
Functional == \A x, y \in seen : (x[1] = y[1] /\ x[2] = y[2]) => x[3] = y[3]
(* C15 *)
FlagFresh == flagok
=============================================================================
