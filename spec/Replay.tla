------------------------------- MODULE Replay -------------------------------
(* Recorded executions of the crate: a sequence of sessions, each a sequence of *)
(* events (one per call).  Trace specifications extend this module: they walk   *)
(* through every session, step by step, and judge each event.                   *)
EXTENDS Earth, TLC, Json, IOUtils
CONSTANT Prop                                  \* the property being decided
Log == ndJsonDeserialize(IOEnv.TRACE)

(* A call that never came back. *)
Lost(e) == "out" \in DOMAIN e /\ e.out.k \in {"crash", "hang", "panic"}
(* Needs in order: the first one that is not met is the complaint, and later     *)
(* ones are not looked at (they may speak of things only earlier ones ensure).   *)
Need(met, complaint) == IF met THEN "ok" ELSE complaint
first ?? then == IF first = "ok" THEN then ELSE first
=============================================================================
