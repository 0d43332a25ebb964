------------------------------- MODULE Restart -------------------------------
(* When the resonance integrator may continue from where it stands: a time on   *)
(* the same side of epoch as the request and not beyond it.  Shared by the      *)
(* bounded model (Integrator) and the unbounded proof (IntegratorProof).        *)
EXTENDS Integers
\* @type: (Int) => Int;
Abs(x) == IF x < 0 THEN -x ELSE x
\* @type: (Int) => Int;
Sign(t) == IF t > 0 THEN 1 ELSE -1
\* @type: (Int, Int) => Bool;
SameSide(x, y) == (x > 0 /\ y > 0) \/ (x < 0 /\ y < 0)
\* @type: (Int, Int) => Bool;
Resume(a, t) == a # 0 /\ SameSide(t, a) /\ Abs(t) >= Abs(a)
=============================================================================
