----------------------------- MODULE TraceLaws -----------------------------
(* Judges recorded motions against the laws of Symmetry.tla (property C26).     *)
(* A session initialises A (and B, the transformed orbit), names the law, and   *)
(* then asks: PROP A t, PROP B (the corresponding time), ...; or for the law    *)
(* "rate": PROP A t, PROP A (just before), PROP A (just after), ...             *)
(* No position of the model is used: the crate is compared with itself.  The    *)
(* model only says how far rounding may carry (tol), and where the theory is    *)
(* discontinuous (amb).                                                         *)
EXTENDS Replay, Symmetry, Instants
VARIABLES sess, pos, why, slots, law, judged, skipped

ElementsOf(x) == [ epoch |-> x[1], bstar |-> x[2], ecco |-> x[3], argpo |-> x[4],
                   inclo |-> x[5], mo |-> x[6], no |-> x[7], nodeo |-> x[8] ]
SlotOf(x, mode) == [ el |-> ElementsOf(x), rec |-> Init(ElementsOf(x), mode) ]

Same(a, b) ==
  /\ FEq(a.bstar, b.bstar) /\ FEq(a.ecco, b.ecco) /\ FEq(a.inclo, b.inclo) /\ FEq(a.no, b.no)
  /\ AngleClose(a.argpo, b.argpo, R("1e-10")) /\ AngleClose(a.mo, b.mo, R("1e-10")) /\ AngleClose(a.nodeo, b.nodeo, R("1e-10"))
LawOk(l) ==
  LET a == slots["A"] IN
  IF l.law = "rate" THEN "ok"
  ELSE IF Dragless(l.law) /\ ~FEq(a.el.bstar, Zero) THEN "trace: a law without drag for an orbit with drag"
  ELSE IF Same(Transformed(l.law, a.el, l.p), slots["B"].el) THEN "ok" ELSE "trace: the two orbits are not related by the law"

Finite(o) == \A k \in 1..3 : FFinite(o.r[k]) /\ FFinite(o.v[k])
Pair(e, o) ==                                  \* e: A at t, o: B at the corresponding time
  LET a == slots["A"]  b == slots["B"]
      x == Propagate(a.rec, e.t)
      y == Propagate(b.rec, o.t)
      both == Two ** (x.tolr ++ y.tolr)
      bothv == Two ** (x.tolv ++ y.tolv)
  IN IF ~FClose(o.t, When(law.law, e.t, law.p), R("1e-9")) THEN "trace: not the corresponding time"
     ELSE IF a.rec.deep \/ b.rec.deep \/ a.rec.amb \/ x.amb \/ y.amb THEN "skip"
     ELSE IF e.out.k # o.out.k THEN law.law \o ": one of two corresponding motions fails"
     ELSE IF e.out.k # "ok" THEN Need(e.out = o.out, law.law \o ": corresponding motions fail differently")
     ELSE IF x.err # 0 \/ y.err # 0 THEN "skip"             \* which failures are due is C15
     ELSE Need(Finite(e.out) /\ Finite(o.out), law.law \o ": an undefined vector")
          ?? Need(Gap(MovedR(law.law, law.p, e.out.r), o.out.r) \preceq both, law.law \o ": corresponding positions differ")
          ?? Need(Gap(MovedV(law.law, law.p, e.out.v), o.out.v) \preceq bothv, law.law \o ": corresponding velocities differ")

Triple(e, e0, e1) ==                           \* e: A at t, e0 and e1: just before and after
  LET a == slots["A"]
      m(t) == Propagate(a.rec, t)
      sure(p) == p.err = 0 /\ ~p.amb
  IN IF ~(FClose(e0.t, e.t -- RateStep, R("1e-9")) /\ FClose(e1.t, e.t ++ RateStep, R("1e-9"))) THEN "trace: not just before and after"
     ELSE IF ~RateHolds(a.rec) \/ ~a.rec.proper THEN "skip"
     ELSE IF ~(e.out.k = "ok" /\ e0.out.k = "ok" /\ e1.out.k = "ok") THEN "skip"
     ELSE IF ~(sure(m(e.t)) /\ sure(m(e0.t)) /\ sure(m(e1.t))) THEN "skip"
     ELSE LET slack == (RateSlack(a.el) ** Speed(e.out.v)) ++ ((m(e0.t).tolr ++ m(e1.t).tolr) // (R("120") ** RateStep))
              \* the theory itself jumps where the node of a low orbit is wrapped (legacy mode, small inclinations)
              jumps == ~(Gap(Rate(m(e0.t).r, m(e1.t).r, RateStep), m(e.t).v) \preceq (Half ** slack))
          IN IF jumps THEN "skip" ELSE
             Need(Finite(e.out) /\ Finite(e0.out) /\ Finite(e1.out), "rate: an undefined vector")
             ?? Need(Gap(Rate(e0.out.r, e1.out.r, RateStep), e.out.v) \preceq slack, "rate: the velocity is not the rate of change of the position")

Refused(s) == s \notin DOMAIN slots
Judge(e, before) ==
  IF Lost(e) THEN "the call did not return: " \o e.out.k
  ELSE IF "out" \in DOMAIN e /\ e.out.k = "absent" THEN "ok"
  ELSE CASE e.ev = "LAW" -> IF Refused("A") \/ (e.law # "rate" /\ Refused("B")) THEN "skip" ELSE LawOk(e)
         [] e.ev = "PROP" ->
              LET n == Len(before)
                  k == n - law.at IN               \* requests since the law was named
              IF law.law = "rate" THEN IF k % 3 = 2 THEN Triple(before[n - 1], before[n], e) ELSE "ok"
              ELSE IF k % 2 = 1 THEN Pair(before[n], e) ELSE "ok"
         [] OTHER -> "ok"

Slots(e) ==
  IF Lost(e) THEN slots
  ELSE CASE e.ev = "INIT" -> (e.s :> SlotOf(e.el, e.mode)) @@ slots
         [] e.ev = "LOAD" -> IF e.out.k = "rec" THEN (e.s :> SlotOf(e.el, "i")) @@ slots ELSE slots
         [] OTHER -> slots

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok" /\ slots = << >> /\ law = [ law |-> "none", p |-> Zero, at |-> 0 ]
             /\ judged = 0 /\ skipped = 0
TraceNext == /\ why = "ok"
             /\ pos < Len(Log[sess].events)
             /\ LET e == Log[sess].events[pos + 1] IN
                /\ \E w \in { Judge(e, SubSeq(Log[sess].events, 1, pos)) } :
                     /\ why' = IF w = "skip" THEN "ok" ELSE w
                     /\ judged' = IF w = "skip" THEN judged ELSE judged + 1
                     /\ skipped' = IF w = "skip" THEN skipped + 1 ELSE skipped
                /\ (pos + 1 = Len(Log[sess].events) => PrintT(<< "TALLY", judged', skipped' >>))
                /\ slots' = Slots(e)
                /\ law' = IF e.ev = "LAW" THEN [ law |-> e.law, p |-> e.p, at |-> pos + 1 ] ELSE law
             /\ pos' = pos + 1
             /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
