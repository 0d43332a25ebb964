----------------------------- MODULE TraceStages -----------------------------
(* Judges calls of the single stages against Stages.tla (property C27).         *)
EXTENDS Replay, Stages, Instants
VARIABLES sess, pos, why, slot, judged, skipped

ElementsOf(x) == [ epoch |-> x[1], bstar |-> x[2], ecco |-> x[3], argpo |-> x[4],
                   inclo |-> x[5], mo |-> x[6], no |-> x[7], nodeo |-> x[8] ]

(* Values that are not what the stage yields; angles only matter as directions. *)
Angular == { "nodep", "argpp", "mp", "argpm", "nodem", "mm" }
Alike(k, x, y, tol) == IF k \in Angular THEN AngleClose(x, y, tol) ELSE FClose(x, y, tol)
Wrong(got, s) == { k \in DOMAIN s.want : ~Alike(k, got[k], s.want[k], s.tol[k]) }
Agrees(got, s, what) ==
  LET bad == Wrong(got, s) IN
  Need(bad = {}, IF bad = {} THEN "" ELSE what \o ": " \o (CHOOSE k \in bad : TRUE) \o " is not the published value")
Angle(x, y, what) == Need(AngleClose(x, y, R("5e-10")), what)

JudgeRecover(e) ==
  LET x == e.in s == Recover(x[1], x[2], x[3], x[4], e.mode) IN
  IF ~(Within(x[2]) /\ x[2] \succeq Zero /\ x[4] \succ Zero /\ s.want.no \succ Zero) THEN "skip"
  ELSE Agrees(e.out.x, s, "recovered elements") ?? Angle(e.out.x.gsto, s.gsto, "recovered elements: the sidereal angle is not that of the epoch")

JudgeAttract(e) ==
  LET x == e.in s == Attract(x[1], x[2], x[3], x[4], x[5], x[6], x[7]) IN
  Agrees(e.out.x, s, "Sun and Moon")
  ?? Angle(e.out.x.zmol, s.zmol, "Sun and Moon: the anomaly of the Moon is not the published value")
  ?? Angle(e.out.x.zmos, s.zmos, "Sun and Moon: the anomaly of the Sun is not the published value")

JudgeWobble(e) ==
  IF ~slot.deep \/ slot.amb THEN "skip" ELSE
  LET x == e.in
      s == Wobble(slot.dc, e.init, x[1], e.mode, [ ep |-> x[2], inclp |-> x[3], nodep |-> x[4], argpp |-> x[5], mp |-> x[6] ])
  IN IF s.amb THEN "skip" ELSE Agrees(e.out.x, s, IF e.init THEN "periodics at initialisation" ELSE "periodics")

JudgeResonate(e) ==
  LET x == e.in
      s == Resonate([ epoch |-> x[1], ecco |-> x[2], argpo |-> x[3], inclo |-> x[4], mo |-> x[5], no |-> x[6], nodeo |-> x[7],
                      gsto |-> x[8], mdot |-> x[9], nodedot |-> x[10], xpidot |-> x[11], em |-> x[12], nm |-> x[13], inclm |-> x[14],
                      argpm |-> x[15], nodem |-> x[16], mm |-> x[17], t |-> x[18], tc |-> x[19] ])
  IN IF s.amb THEN "skip"
     ELSE Agrees(e.out.x, s, "resonance")
          ?? Angle(e.out.x.xlamo, s.xlamo, "resonance: the stroboscopic longitude is not the published value")
          ?? Angle(e.out.x.xli, s.xlamo, "resonance: the integrator does not start at the stroboscopic longitude")

JudgeDrift(e) ==
  IF ~slot.deep \/ slot.amb THEN "skip" ELSE
  LET x == e.in
      ref == DspaceAt(slot.d, EpochState(slot.d), x[1], x[2],
                      [ em |-> x[3], argpm |-> x[4], inclm |-> x[5], mm |-> x[6], nodem |-> x[7], nm |-> x[8] ])
      o == e.out.x
      fine == R("1e-11")
  IN Need(FClose(o.nm, ref.nm, fine), "update: mean motion is not the published value")
     ?? Need(FClose(o.dndt, ref.dndt, fine), "update: change of the mean motion is not the published value")
     ?? Need(FClose(o.em, ref.em, fine), "update: eccentricity is not the published value")
     ?? Need(FClose(o.inclm, ref.inclm, fine), "update: inclination is not the published value")
     ?? Need(AngleClose(o.argpm, ref.argpm, R("1e-8")), "update: argument of perigee is not the published value")
     ?? Need(AngleClose(o.nodem, ref.nodem, R("1e-8")), "update: node is not the published value")
     ?? Need(AngleClose(o.mm, ref.mm, R("1e-6")), "update: mean anomaly is not the published value")

Judge(e) ==
  IF Lost(e) THEN "the call did not return: " \o e.out.k
  ELSE CASE e.ev = "SINITL" -> JudgeRecover(e)
         [] e.ev = "SDSCOM" -> JudgeAttract(e)
         [] e.ev = "SDPPER" -> IF e.out.k = "absent" THEN "ok" ELSE JudgeWobble(e)
         [] e.ev = "SDSINIT" -> JudgeResonate(e)
         [] e.ev = "SDSPACE" -> IF e.out.k = "absent" THEN "ok" ELSE JudgeDrift(e)
         [] OTHER -> "ok"

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok" /\ slot = << >> /\ judged = 0 /\ skipped = 0
TraceNext == /\ why = "ok"
             /\ pos < Len(Log[sess].events)
             /\ LET e == Log[sess].events[pos + 1] IN
                /\ \E w \in { Judge(e) } :
                     /\ why' = IF w = "skip" THEN "ok" ELSE w
                     /\ judged' = IF w = "skip" THEN judged ELSE judged + 1
                     /\ skipped' = IF w = "skip" THEN skipped + 1 ELSE skipped
                /\ (pos + 1 = Len(Log[sess].events) => PrintT(<< "TALLY", judged', skipped' >>))
                /\ slot' = IF e.ev = "INIT" /\ ~Lost(e) THEN Init(ElementsOf(e.el), e.mode) ELSE slot
             /\ pos' = pos + 1
             /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
