--------------------------- MODULE IntegratorProof ---------------------------
(* The restart rule of Integrator.tla without bounds: times are all whole        *)
(* numbers of minutes, histories have any length.  One integration step is one   *)
(* transition; the path of steps is kept as its direction and length, and as     *)
(* whether it ever changed direction.  Apalache checks that Inv is inductive     *)
(* and implies Fresh: whatever was asked before, the answer to a request is      *)
(* reached by the steps, all of one direction, that a walk from epoch takes.     *)
EXTENDS Restart
VARIABLES
  \* @type: Int;
  atime,
  \* @type: Int;
  dir,
  \* @type: Int;
  len,
  \* @type: Bool;
  mixed,
  \* @type: Int;
  t,
  \* @type: Bool;
  walking

Step == 720

Init == atime = 0 /\ dir = 1 /\ len = 0 /\ mixed = FALSE /\ t = 0 /\ walking = FALSE
Ask == /\ ~walking /\ walking' = TRUE
       /\ \E x \in Int : t' = x
       /\ IF Resume(atime, t')
          THEN UNCHANGED << atime, dir, len, mixed >>
          ELSE atime' = 0 /\ len' = 0 /\ mixed' = FALSE /\ UNCHANGED dir
More == Abs(t - atime) >= Step
Walk == /\ walking /\ More
        /\ atime' = atime + Step * Sign(t)
        /\ mixed' = (mixed \/ (len > 0 /\ dir # Sign(t)))
        /\ dir' = Sign(t) /\ len' = len + 1
        /\ UNCHANGED << t, walking >>
Answer == walking /\ ~More /\ walking' = FALSE /\ UNCHANGED << atime, dir, len, mixed, t >>
Next == Ask \/ Walk \/ Answer

Inv == /\ atime \in Int /\ dir \in {1, -1} /\ len \in Int /\ mixed \in BOOLEAN /\ t \in Int /\ walking \in BOOLEAN
       /\ len >= 0 /\ ~mixed
       /\ atime = (IF dir = 1 THEN Step * len ELSE 0 - Step * len)
       /\ (atime # 0 => SameSide(atime, t) /\ Abs(atime) <= Abs(t))
       /\ (~walking => Abs(t - atime) < Step)
(* What a request is answered from: the whole steps towards t, in one direction. *)
Fresh == ~walking => /\ ~mixed
                     /\ (len > 0 => dir = Sign(t))
                     /\ Step * len <= Abs(t) /\ Abs(t) < Step * (len + 1)
                     /\ atime = (IF t > 0 THEN Step * len ELSE 0 - Step * len)
(* Every step brings the integrator nearer: the walk ends. *)
Nearer == (walking /\ walking') => Abs(t - atime') < Abs(t - atime)
=============================================================================
