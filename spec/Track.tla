------------------------------- MODULE Track -------------------------------
(* The documented use of the crate from end to end: an element set (two lines   *)
(* of text), an instant and an observer give a position, the point on the       *)
(* ground below it and the bearing in which to look.  Composes the text format, *)
(* the orbit theory, time and frames.                                           *)
EXTENDS Tle, Sgp4, Instants, Frames

ElementsIn(d) ==
  LET x == RecordOf(d) IN
  [ epoch |-> EpochJd(x.epochyr, x.epochdays) -- Jd1950, bstar |-> x.bstar, ecco |-> x.ecco,
    argpo |-> x.argpo, inclo |-> x.inclo, mo |-> x.mo, no |-> x.no, nodeo |-> x.nodeo ]

(* What the model says at an instant: the outcome of propagation, and how far    *)
(* the resolution of Julian dates may move it.                                   *)
Blur == R("2e-6")                                          \* minutes
At(rec, d, u) ==
  LET x == RecordOf(d)
      t == MinutesSince(u, EpochJd(x.epochyr, x.epochdays))
      p == Propagate(rec, t)
      lo == Propagate(rec, t -- Blur)
      hi == Propagate(rec, t ++ Blur)
      \* at 180 degrees, the last digit of the angle in radians matters: the theory divides its sine by 1.5e-12
      edge == IF ~rec.deep /\ FClose(x.inclo, Pi, R("1e-12"))
              THEN (R("3e-6") ** x.ecco ** Length(p.r)) // Sq(One -- x.ecco) ELSE Zero
      sure == ~p.amb /\ ~lo.amb /\ ~hi.amb /\ lo.err = p.err /\ hi.err = p.err
  IN [ sure |-> sure, err |-> p.err, p |-> p,
       room |-> IF sure /\ p.err = 0 THEN Distance(lo.r, hi.r) ++ p.tolr ++ edge ++ R("1e-6") ELSE Zero,
       roomv |-> IF sure /\ p.err = 0 THEN Distance(lo.v, hi.v) ++ p.tolv ++ (edge ** R("2e-3")) ++ R("1e-9") ELSE Zero ]
=============================================================================
