----------------------------- MODULE TraceOrbit -----------------------------
(* Judges recorded histories of records: loading, initialising, propagating,    *)
(* copying, working in parallel (properties C08, C10-C17, C23, C24).            *)
(* State of the specification: what each slot currently is (its elements and    *)
(* mode - nothing else may matter), and every outcome seen so far.              *)
EXTENDS Replay, Sgp4, Instants
VARIABLES sess, pos, why, slots, seen,
          judged, skipped      \* events decided, and events left undecided (threshold or ill-conditioned)

Numeric == Prop \in {"C10", "C11", "C12", "C15", "C17", "C23", "C24"}
ElementsOf(x) == [ epoch |-> x[1], bstar |-> x[2], ecco |-> x[3], argpo |-> x[4],
                   inclo |-> x[5], mo |-> x[6], no |-> x[7], nodeo |-> x[8] ]
SlotOf(el, mode) == [ el |-> el, mode |-> mode,
                      rec |-> IF Numeric THEN Init(ElementsOf(el), mode) ELSE << >> ]
Key(sl, what) == << sl.el, sl.mode, what >>
IsOk(o) == o.k = "ok"

(* ------------------------------------------------- the orbit theory -------- *)
Dist(a, b) == FSqrt(Sq(a[1] -- b[1]) ++ Sq(a[2] -- b[2]) ++ Sq(a[3] -- b[3]))
Norm(a) == FSqrt(Sq(a[1]) ++ Sq(a[2]) ++ Sq(a[3]))
Follows(o, p) ==
  IF p.amb THEN "skip"
  ELSE IF p.err # 0 THEN "skip"                 \* which failures are due is C15
  ELSE (Need(IsOk(o), "propagation fails where the model is defined")
        ?? Need(Dist(o.r, p.r) \preceq p.tolr, "position is not that of the published model")
        ?? Need(Dist(o.v, p.v) \preceq p.tolv, "velocity is not that of the published model"))
FollowsModel(rec, t, o) == Follows(o, Propagate(rec, t))

ClassOf(rec) == IF ~rec.deep THEN "C10" ELSE IF rec.irez = 0 THEN "C11" ELSE "C12"

(* ---------------------------------------------------------------- C15 ------ *)
Reported(rec, t, o, flag) ==
  LET p == Propagate(rec, t) IN
  (Need(flag = (IF IsOk(o) THEN 0 ELSE o.code), "the error flag is not that of this call")
   ?? Need(p.amb \/ p.err = 0 \/ ~IsOk(o), "propagation succeeds outside the model's validity")
   ?? Need(p.amb \/ p.err # 0 \/ IsOk(o), "propagation fails inside the model's validity")
   ?? Need(p.amb \/ IsOk(o) \/ o.code = p.err, "failure reported with the wrong code"))

(* ---------------------------------------------------------------- C16 ------ *)
Physical(sl, t, o) ==
  LET e == sl.el
      defined == /\ FFinite(t)
                 /\ \A k \in 2..8 : FFinite(e[k])
                 /\ e[7] \succ Zero
  IN IF IsOk(o)
     THEN (Need(\A k \in 1..3 : FFinite(o.r[k]) /\ FFinite(o.v[k]), "success with an undefined vector")
           ?? Need(Norm(o.r) \succeq (EarthRadius -- R("1e-6")), "success below the surface of the Earth")
           ?? Need(defined, "success for undefined elements or time"))
     ELSE "ok"

(* ---------------------------------------------------------------- C24 ------ *)
Regime(rec, g) ==
  LET n == g.n
      per == TwoPi // n
      tight(x, thr) == FClose(x, thr, R("4e-15") ** FMax(thr, R("1e-3")))
  IN IF ~FFinite(n) \/ ~rec.proper THEN "skip" ELSE
  (Need(rec.amb \/ FClose(n, rec.n.no, R("1e-12")), "recovered mean motion is not that of the model")
   ?? Need(tight(per, DeepLimit) \/ (g.deep <=> per \succeq DeepLimit), "deep-space choice contradicts the period")
   ?? Need(rec.amb \/ g.deep = rec.deep, "deep-space choice is wrong")
   ?? Need(rec.amb \/ (g.isimp = 1) = rec.simple, "simplified-drag choice is wrong")
   ?? Need(~g.deep \/ tight(n, R("0.0034906585")) \/ tight(n, R("0.0052359877")) \/ tight(n, R("8.26e-3")) \/ tight(n, R("9.24e-3"))
             \/ g.irez = Resonance(n, rec.n.ecco), "resonance choice contradicts mean motion and eccentricity")
   ?? Need(g.deep \/ g.irez = 0, "resonance for a near-Earth orbit"))

(* ---------------------------------------------------------------- C17 ------ *)
(* Whole steps towards t, in the direction of t. *)
WholeSteps(t) == LET n == Steps(t, Zero) IN
                 IF t \succ Zero THEN FInt(n) ** StepMin ELSE FInt(0 - n) ** StepMin
(* A time next to, but not on, a multiple of the step may count as on it. *)
AtWholeSteps(x, t) ==
  LET w == WholeSteps(t)
      step == IF t \succ Zero THEN StepMin ELSE FNeg(StepMin)
  IN \/ FEq(x, w)
     \/ FEq(x, w ++ step) /\ FClose(t, w ++ step, R("1e-9"))
     \/ FEq(x, w -- step) /\ FClose(t, w, R("1e-9")) /\ ~FEq(t, w)
SameElems(a, b) ==
  /\ FClose(a[4], b[4], R("1e-12")) /\ FClose(a[6], b[6], R("1e-12"))
  /\ AngleClose(a[5], b[5], R("1e-12")) /\ AngleClose(a[7], b[7], R("1e-9")) /\ AngleClose(a[8], b[8], R("1e-12"))
  /\ FClose(a[9], b[9], R("1e-14"))

(* ---------------------------------------------------------------- C08 ------ *)
(* Events: PROPDT, then PROP at the exact offset, and slightly before and after *)
(* (the spacing of Julian dates is 40 microseconds).                            *)
Slack == R("2e-6")                                        \* minutes
DateAgrees(d, m, lo, hi) ==
  LET t == MinutesSince(d.utc, d.jd)
      all(k) == m.out.k = k /\ lo.out.k = k /\ hi.out.k = k
  IN IF ~(FClose(m.t, t, R("1e-8")) /\ FClose(lo.t, t -- Slack, R("1e-7")) /\ FClose(hi.t, t ++ Slack, R("1e-7")))
     THEN "trace: wrong offset"
     ELSE IF all("ok")
     THEN LET room == Dist(hi.out.r, lo.out.r) ++ R("1e-6")
              roomv == Dist(hi.out.v, lo.out.v) ++ R("1e-9")
          IN IF ~(room \prec R("0.1")) THEN "skip" ELSE        \* the outcome is not a smooth function of time here
             (Need(IsOk(d.out), "propagation to a date fails where the offset succeeds")
              ?? Need(Dist(d.out.r, m.out.r) \preceq room, "position at a date is not that of the offset since epoch")
              ?? Need(Dist(d.out.v, m.out.v) \preceq roomv, "velocity at a date is not that of the offset since epoch"))
     ELSE IF all("err") /\ m.out.code = lo.out.code /\ m.out.code = hi.out.code
     THEN Need(d.out = m.out, "propagation to a date does not fail like the offset")
     ELSE "ok"

(* ---------------------------------------------------------- judging events -- *)
(* C13/C14: the same elements, mode and request always had this outcome. *)
Repeats(sl, what, o) ==
  LET old == { s \in seen : s.key = Key(sl, what) }
  IN IF old = {} THEN "ok"
     ELSE Need(\A s \in old : s.out = o, "the outcome depends on something else than the elements and the time")

(* C23: for a near-Earth orbit the mode makes no difference. *)
NearKey(sl, what) == << sl.el, "near", what >>
ModeFree(sl, what, o) ==
  IF sl.rec.deep \/ sl.rec.amb THEN "ok"
  ELSE Need(\A s \in seen : s.key = NearKey(sl, what) => s.out = o, "the mode changes the results of a near-Earth orbit")

JudgeRun(sl, t, o, flag) ==
  IF o.k = "panic" THEN "propagation panicked"
  ELSE CASE Prop \in {"C10", "C11", "C12"} -> IF ClassOf(sl.rec) = Prop THEN FollowsModel(sl.rec, t, o) ELSE "ok"
         [] Prop = "C23" -> LET w == ModeFree(sl, << "prop", t >>, o) IN
                            IF w = "ok" THEN FollowsModel(sl.rec, t, o) ELSE w
         [] Prop = "C15" -> Reported(sl.rec, t, o, flag)
         [] Prop = "C17" -> IF sl.rec.irez # 0 THEN FollowsModel(sl.rec, t, o) ELSE "ok"
         [] Prop = "C16" -> Physical(sl, t, o)
         [] Prop \in {"C13", "C14"} -> Repeats(sl, << "prop", t >>, o)
         [] OTHER -> "ok"

JudgeInit(sl, e) ==
  CASE Prop = "C24" -> Regime(sl.rec, e.regime)
    [] Prop = "C14" -> Repeats(sl, << "init" >>, e.out)
    [] Prop = "C23" -> (Need(ModeFree(sl, << "init" >>, e.out) = "ok", "the mode changes the initialisation of a near-Earth orbit")
                        ?? Need(e.regime.modea = (sl.mode = "a"), "the record does not keep its mode")
                        ?? Need(~sl.rec.deep \/ AngleClose(e.regime.gsto, sl.rec.gsto, R("5e-10")), "epoch sidereal angle is not that of the mode"))
    [] OTHER -> JudgeRun(sl, Zero, e.out, e.flag)

JudgeLoad(e) ==
  LET sl == IF e.el = << >> THEN << >> ELSE SlotOf(e.el, "i") IN
  IF e.out.k = "rec"
  THEN CASE Prop = "C24" -> Regime(sl.rec, e.regime)
         [] Prop = "C15" -> LET p == Propagate(sl.rec, Zero) IN
              (Need(p.amb \/ p.err = 0, "a record was accepted whose initial propagation fails")
               ?? Need(e.flag = 0, "error flag set on an accepted record"))
         [] OTHER -> "ok"
  ELSE IF Prop \in {"C10", "C11", "C12"} /\ e.el # << >> /\ e.out.k = "init" THEN
       LET p == Propagate(sl.rec, Zero) IN
       Need(p.amb \/ p.err # 0 \/ ClassOf(sl.rec) # Prop, "initial propagation fails where the model is defined")
  ELSE IF Prop = "C15" /\ e.el # << >> THEN
       LET p == Propagate(sl.rec, Zero) IN
       (Need(e.out.k = "init", "a record was refused for another reason than its initial propagation")
        ?? Need(p.amb \/ p.err # 0, "a record was refused although its initial propagation is valid")
        ?? Need(p.amb \/ e.out.code = p.err, "parsing fails with another error than the initial propagation"))
  ELSE "ok"

JudgeIntegrator(e, before) ==
  IF e.ev = "DSR" THEN "ok"                     \* judged with its restart
  ELSE IF before[Len(before)].ev # "DSR" THEN "trace: a restart without its resumption"
  ELSE LET r == before[Len(before)] IN          \* the same request, resumed
       IF r.t # e.t \/ r.s # e.s THEN "trace: not the same request" ELSE
       LET sl == slots[e.s]
           d == sl.rec.d
           ref == Dspace(d, EpochState(d), e.t,
                         [ em |-> sl.rec.n.ecco, argpm |-> sl.rec.n.argpo, inclm |-> sl.rec.n.inclo,
                           mm |-> sl.rec.n.mo, nodem |-> sl.rec.n.nodeo, nm |-> sl.rec.n.no ])
       IN (Need(SameElems(r.out.x, e.out.x), "resuming the integrator gives other elements than restarting it")
           ?? Need(sl.rec.irez = 0 \/ AtWholeSteps(r.out.x[1], e.t), "integrator time is not the whole steps towards the time (resumed)")
           ?? Need(sl.rec.irez = 0 \/ AtWholeSteps(e.out.x[1], e.t), "integrator time is not the whole steps towards the time (restarted)")
           ?? Need(sl.rec.amb \/ FClose(e.out.x[9], ref.nm, R("1e-11")), "resonant mean motion is not that of the model")
           ?? Need(sl.rec.amb \/ FClose(e.out.x[4], ref.em, R("1e-11")), "eccentricity is not that of the model")
           ?? Need(sl.rec.amb \/ FClose(e.out.x[6], ref.inclm, R("1e-11")), "inclination is not that of the model")
           ?? Need(sl.rec.amb \/ AngleClose(e.out.x[7], ref.mm, R("1e-6")), "mean anomaly is not that of the model"))

RECURSIVE JudgeRuns(_, _)
JudgeRuns(runs, k) ==
  IF k > Len(runs) THEN "ok"
  ELSE LET w == JudgeRun(slots[runs[k].s], runs[k].t, runs[k].out, runs[k].flag)
       IN IF w \in {"ok", "skip"} THEN JudgeRuns(runs, k + 1) ELSE w

JudgeDate(e, before) ==
  LET n == Len(before) IN
  IF e.ev = "PROPDT" THEN Need(e.before = e.after, "propagation to a date changed the record")
  ELSE IF e.ev = "PROP" /\ n >= 3 /\ before[n - 2].ev = "PROPDT"
  THEN DateAgrees(before[n - 2], before[n - 1], before[n], e) ELSE "ok"

Absent(e) == "out" \in DOMAIN e /\ e.out.k = "absent"       \* the record had been refused
Judge(e, before) ==
  IF Absent(e) THEN "ok"
  ELSE IF Lost(e) THEN "the call did not return: " \o e.out.k
  ELSE IF Prop = "C08" THEN JudgeDate(e, before)
  ELSE CASE e.ev = "PROP" -> JudgeRun(slots[e.s], e.t, e.out, e.flag)
         [] e.ev = "INIT" -> JudgeInit(SlotOf(e.el, e.mode), e)
         [] e.ev = "LOAD" -> JudgeLoad(e)
         [] e.ev = "PAR"  -> JudgeRuns(e.runs, 1)
         [] e.ev = "CLONE" -> Need(e.same, "a copy differs from its original")
         [] e.ev \in {"DSR", "DSF"} -> IF Prop = "C17" THEN JudgeIntegrator(e, before) ELSE "ok"
         [] OTHER -> "ok"

(* ------------------------------------------------------- effect of events --- *)
Slots(e) ==
  CASE Lost(e) \/ Absent(e) -> slots
    [] e.ev = "INIT" -> (e.s :> SlotOf(e.el, e.mode)) @@ slots
    [] e.ev = "LOAD" -> IF e.out.k = "rec" THEN (e.s :> SlotOf(e.el, "i")) @@ slots ELSE slots
    [] e.ev = "CLONE" -> (e.d :> slots[e.s]) @@ slots
    [] OTHER -> slots
Outcome(sl, what, o) == [ key |-> IF Prop = "C23" THEN NearKey(sl, what) ELSE Key(sl, what), out |-> o ]
Seen(e) ==
  IF Lost(e) \/ Absent(e) \/ Prop \notin {"C13", "C14", "C23"} THEN seen
  ELSE CASE e.ev = "PROP" -> seen \cup { Outcome(slots[e.s], << "prop", e.t >>, e.out) }
         [] e.ev = "PAR" -> seen \cup { Outcome(slots[e.runs[k].s], << "prop", e.runs[k].t >>, e.runs[k].out) : k \in DOMAIN e.runs }
         [] e.ev = "INIT" -> seen \cup { Outcome(SlotOf(e.el, e.mode), << "init" >>, e.out) }
         [] OTHER -> seen

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok" /\ slots = << >> /\ seen = {}
             /\ judged = 0 /\ skipped = 0
TraceNext == /\ why = "ok"
             /\ pos < Len(Log[sess].events)
             /\ LET e == Log[sess].events[pos + 1]
                    before == SubSeq(Log[sess].events, 1, pos)
                IN /\ \E w \in { Judge(e, before) } :
                        /\ why' = IF w = "skip" THEN "ok" ELSE w
                        /\ judged' = IF w = "skip" THEN judged ELSE judged + 1
                        /\ skipped' = IF w = "skip" THEN skipped + 1 ELSE skipped
                   /\ (pos + 1 = Len(Log[sess].events) => PrintT(<< "TALLY", judged', skipped' >>))
                   /\ slots' = Slots(e)
                   /\ seen' = Seen(e)
             /\ pos' = pos + 1
             /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
