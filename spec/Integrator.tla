----------------------------- MODULE Integrator -----------------------------
(* The resonance integrator as a state machine.  Times are in half steps (360   *)
(* minutes); the integrator state is the *path* of steps taken from epoch, which*)
(* determines the integrated elements exactly (steps do not commute in general, *)
(* so the path is kept uninterpreted).  A request carries the state returned by *)
(* an arbitrary earlier request.                                                *)
EXTENDS Restart, Sequences
CONSTANTS Span,        \* largest |time| requested, in half steps
          History      \* number of requests
VARIABLES atime, path, asked, answer
vars == << atime, path, asked, answer >>

Times == (-Span)..Span
Base(a, p, t) == IF Resume(a, t) THEN [ a |-> a, p |-> p ] ELSE [ a |-> 0, p |-> << >> ]
RECURSIVE Walk(_, _)
Walk(s, t) == IF Abs(t - s.a) >= 2
              THEN Walk([ a |-> s.a + 2 * Sign(t), p |-> Append(s.p, Sign(t)) ], t) ELSE s
Fresh(t) == Walk([ a |-> 0, p |-> << >> ], t)

Init == atime = 0 /\ path = << >> /\ asked = << >> /\ answer = [ a |-> 0, p |-> << >> ]
Request(t) == /\ Len(asked) < History
              /\ answer' = Walk(Base(atime, path, t), t)
              /\ atime' = answer'.a /\ path' = answer'.p
              /\ asked' = Append(asked, t)
Next == \E t \in Times : Request(t)

(* C17: resumed equals restarted, and the integrator stands on the last whole   *)
(* step before the request.                                                     *)
Last == asked[Len(asked)]
ResumedIsFresh == asked = << >> \/ answer = Fresh(Last)
WholeSteps == asked = << >> \/ answer.a = 2 * Sign(Last) * (Abs(Last) \div 2)
PathIsTime == asked = << >> \/ 2 * Sign(Last) * Len(answer.p) = answer.a
=============================================================================
