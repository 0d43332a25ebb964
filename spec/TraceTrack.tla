----------------------------- MODULE TraceTrack -----------------------------
(* Judges recorded runs of the whole pipeline (property C25).  TRACK l1 l2 utc  *)
(* lat lon h records                                                            *)
(*   x = << r 3, v 3, sidereal angle, fixed 3, geodetic 3, bearing 3,           *)
(*          bearing from the point below 3, back to inertial 3, doppler >>      *)
EXTENDS Replay, Track
VARIABLES sess, pos, why, judged, skipped
V(x, k) == << x[k], x[k + 1], x[k + 2] >>
Ulps(k) == FInt(k) ** R("2.3e-16")

(* The numbers agree with the model's position m.p.r and velocity m.p.v. *)
Agrees(e, m) ==
  LET x == e.out.x
      g == Gmst(UtcJd(e.utc))
      fixed == ToFixed(m.p.r, g)
      vfixed == ToFixed(m.p.v, g)
      obs == FromGeodetic(e.obs[1], e.obs[2], e.obs[3])
      room == m.room ++ (R("1.5e-8") ** Length(m.p.r))           \* the sidereal angle's resolution
      roomo == room ++ (Ulps(64) ** (Length(obs) ++ Length(fixed)))
      s == Local(e.obs[1], e.obs[2], e.obs[3], fixed)
      low == V(x, 17)
  IN  Need(Distance(V(x, 1), m.p.r) \preceq m.room, "position is not the model's at that instant")
   ?? Need(Distance(V(x, 4), m.p.v) \preceq m.roomv, "velocity is not the model's at that instant")
   ?? Need(AngleClose(x[7], g, R("1.2e-8")), "sidereal angle is not that of the instant")
   ?? Need(Distance(V(x, 8), fixed) \preceq room, "Earth-fixed position is not that of the satellite")
   ?? Need(Distance(FromGeodetic(x[11], x[12], x[13]), fixed) \preceq (room ++ R("1e-6")), "the ground point is not below the satellite")
   ?? Need(Points(x[14], x[15], x[16], s, roomo), "the bearing does not point at the satellite")
   ?? Need(Points(low[1], low[2], low[3], << Zero, Zero, x[13] >>, R("2e-6") ++ (Ulps(64) ** Length(fixed))),
           "the satellite is not overhead of the point below it")
   ?? Need(Distance(V(x, 20), V(x, 1)) \preceq (Ulps(16) ** Length(m.p.r)), "going to the Earth-fixed frame and back moves the satellite")
   ?? Need(FClose(x[23], Doppler(obs, fixed, vfixed), R("1e-15") ++ ((m.roomv ++ (Two ** roomo)) // SpeedOfLight)),
           "the Doppler factor is not that of the pass")

Followed(e) ==
  LET d == Decode(e.l1, e.l2) IN
  IF d.st # "good" THEN "skip" ELSE
  LET rec == Init(ElementsIn(d), "i")
      p0 == Propagate(rec, Zero)
      m == At(rec, d, e.utc)
      k == e.out.k
  IN IF p0.amb THEN "skip"
     ELSE IF p0.err # 0
     THEN Need(k = "init", "tracking an element set the model refuses") ?? Need(e.out.code = p0.err, "refused with the wrong code")
     ELSE Need(k \in {"val", "err"}, "a good element set is refused")
          ?? (IF ~m.sure THEN "skip"
              ELSE IF m.err # 0
              THEN Need(k = "err", "tracking where the model is undefined") ?? Need(e.out.code = m.err, "propagation fails with the wrong code")
              ELSE Need(k = "val", "no position where the model is defined") ?? Agrees(e, m))

Judge(e) == IF Lost(e) THEN "the call did not return: " \o e.out.k ELSE IF e.out.k = "lost" THEN "a catalogue of one satellite does not give one outcome" ELSE Followed(e)

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok" /\ judged = 0 /\ skipped = 0
TraceNext == /\ why = "ok"
             /\ pos < Len(Log[sess].events)
             /\ pos' = pos + 1
             /\ \E w \in { Judge(Log[sess].events[pos + 1]) } :
                  /\ why' = IF w = "skip" THEN "ok" ELSE w
                  /\ judged' = IF w = "skip" THEN judged ELSE judged + 1
                  /\ skipped' = IF w = "skip" THEN skipped + 1 ELSE skipped
             /\ (pos + 1 = Len(Log[sess].events) => PrintT(<< "TALLY", judged', skipped' >>))
             /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
