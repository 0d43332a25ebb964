-------------------------------- MODULE Sgp4 --------------------------------
(* The SGP4/SDP4 orbit theory (Hoots & Roehrich 1980; Vallado, Crawford, Hujsak *)
(* & Kelso 2006) as a specification: initialisation of a record from mean       *)
(* elements, and the propagation function.  The stages correspond to the        *)
(* published procedures (and to the public functions of the crate):             *)
(*   Initl, Dscom, Dpper, Dsinit, Dspace, Init, Propagate.                      *)
(* A propagation is a pure function of the elements and the time.               *)
(*                                                                              *)
(* Every comparison of a *computed* quantity with a threshold also reports      *)
(* whether the quantity is within rounding of the threshold ("amb"): there the  *)
(* theory is discontinuous and either side is an allowed behaviour.             *)
EXTENDS Sidereal, SequencesExt, TLC

(* Rounding unit used to estimate how far two correct evaluations may differ. *)
Ulp == R("4e-16")

(* Within rounding noise of a threshold (relative 1e-10). *)
Edge(x, thr) == FClose(x, thr, R("1e-10") ** FMax(FAbs(thr), R("1e-3")))

(* ------------------------------------------------------------------ Initl -- *)
(* Recovers mean motion and semi-major axis from the Kozai elements.            *)
Initl(el, mode) ==
  LET eccsq  == Sq(el.ecco)
      omeosq == One -- eccsq
      rteosq == FSqrt(omeosq)
      cosio  == FCos(el.inclo)
      cosio2 == Sq(cosio)
      ak     == FPow(Xke // el.no, TwoThirds)
      d1     == (R("0.75") ** J2 ** ((R("3") ** cosio2) -- One)) // (rteosq ** omeosq)
      delp   == d1 // Sq(ak)
      adel   == ak ** (One -- Sq(delp)
                       -- (delp ** ((One // R("3")) ++ ((R("134") ** Sq(delp)) // R("81")))))
      no     == el.no // (One ++ (d1 // Sq(adel)))
      ao     == FPow(Xke // no, TwoThirds)
      po     == ao ** omeosq
      con42  == One -- (R("5") ** cosio2)
  IN [ no |-> no, ao |-> ao, con41 |-> FNeg(con42) -- cosio2 -- cosio2, con42 |-> con42,
       cosio |-> cosio, cosio2 |-> cosio2, sinio |-> FSin(el.inclo), eccsq |-> eccsq,
       omeosq |-> omeosq, rteosq |-> rteosq, posq |-> Sq(po), rp |-> ao ** (One -- el.ecco),
       gsto |-> EpochGmst(el.epoch, mode) ]

(* ------------------------------------------------------------------ Dscom -- *)
(* Lunar and solar coefficients at epoch.                                       *)
Zes == R("0.01675")
Zel == R("0.05490")
Zns == R("1.19459e-5")
Znl == R("1.5835218e-4")

(* One body's terms from the orientation of its orbit. *)
Body(zcosg, zsing, zcosi, zsini, zcosh, zsinh, cc, em, sinim, cosim, sinomm, cosomm, nm) ==
  LET emsq == Sq(em)
      betasq == One -- emsq
      rtemsq == FSqrt(betasq)
      a1 == (zcosg ** zcosh) ++ (zsing ** zcosi ** zsinh)
      a3 == (FNeg(zsing) ** zcosh) ++ (zcosg ** zcosi ** zsinh)
      a7 == (FNeg(zcosg) ** zsinh) ++ (zsing ** zcosi ** zcosh)
      a8 == zsing ** zsini
      a9 == (zsing ** zsinh) ++ (zcosg ** zcosi ** zcosh)
      a10 == zcosg ** zsini
      a2 == (cosim ** a7) ++ (sinim ** a8)
      a4 == (cosim ** a9) ++ (sinim ** a10)
      a5 == (FNeg(sinim) ** a7) ++ (cosim ** a8)
      a6 == (FNeg(sinim) ** a9) ++ (cosim ** a10)
      x1 == (a1 ** cosomm) ++ (a2 ** sinomm)
      x2 == (a3 ** cosomm) ++ (a4 ** sinomm)
      x3 == (FNeg(a1) ** sinomm) ++ (a2 ** cosomm)
      x4 == (FNeg(a3) ** sinomm) ++ (a4 ** cosomm)
      x5 == a5 ** sinomm
      x6 == a6 ** sinomm
      x7 == a5 ** cosomm
      x8 == a6 ** cosomm
      z31 == (R("12") ** x1 ** x1) -- (R("3") ** x3 ** x3)
      z32 == (R("24") ** x1 ** x2) -- (R("6") ** x3 ** x4)
      z33 == (R("12") ** x2 ** x2) -- (R("3") ** x4 ** x4)
      z1a == (R("3") ** (Sq(a1) ++ Sq(a2))) ++ (z31 ** emsq)
      z2a == (R("6") ** ((a1 ** a3) ++ (a2 ** a4))) ++ (z32 ** emsq)
      z3a == (R("3") ** (Sq(a3) ++ Sq(a4))) ++ (z33 ** emsq)
      s3 == cc // nm
      s4 == s3 ** rtemsq
  IN [ s1 |-> R("-15") ** em ** s4,
       s2 |-> (R("-0.5") ** s3) // rtemsq,
       s3 |-> s3,
       s4 |-> s4,
       s5 |-> (x1 ** x3) ++ (x2 ** x4),
       s6 |-> (x2 ** x3) ++ (x1 ** x4),
       s7 |-> (x2 ** x4) -- (x1 ** x3),
       z1 |-> z1a ++ z1a ++ (betasq ** z31),
       z2 |-> z2a ++ z2a ++ (betasq ** z32),
       z3 |-> z3a ++ z3a ++ (betasq ** z33),
       z11 |-> (R("-6") ** a1 ** a5) ++ (emsq ** ((R("-24") ** x1 ** x7) -- (R("6") ** x3 ** x5))),
       z12 |-> (R("-6") ** ((a1 ** a6) ++ (a3 ** a5)))
               ++ (emsq ** ((R("-24") ** ((x2 ** x7) ++ (x1 ** x8)))
                            ++ (R("-6") ** ((x3 ** x6) ++ (x4 ** x5))))),
       z13 |-> (R("-6") ** a3 ** a6) ++ (emsq ** ((R("-24") ** x2 ** x8) -- (R("6") ** x4 ** x6))),
       z21 |-> (R("6") ** a2 ** a5) ++ (emsq ** ((R("24") ** x1 ** x5) -- (R("6") ** x3 ** x7))),
       z22 |-> (R("6") ** ((a4 ** a5) ++ (a2 ** a6)))
               ++ (emsq ** ((R("24") ** ((x2 ** x5) ++ (x1 ** x6)))
                            -- (R("6") ** ((x4 ** x7) ++ (x3 ** x8))))),
       z23 |-> (R("6") ** a4 ** a6) ++ (emsq ** ((R("24") ** x2 ** x6) -- (R("6") ** x4 ** x8))),
       z31 |-> z31, z32 |-> z32, z33 |-> z33 ]

(* Long-period coefficients of one body (eccentricity of its orbit: ze). *)
Periodics(b, ze, emsq) ==
  [ e2 |-> Two ** b.s1 ** b.s6,
    e3 |-> Two ** b.s1 ** b.s7,
    i2 |-> Two ** b.s2 ** b.z12,
    i3 |-> Two ** b.s2 ** (b.z13 -- b.z11),
    l2 |-> R("-2") ** b.s3 ** b.z2,
    l3 |-> R("-2") ** b.s3 ** (b.z3 -- b.z1),
    l4 |-> R("-2") ** b.s3 ** (R("-21") -- (R("9") ** emsq)) ** ze,
    gh2 |-> Two ** b.s4 ** b.z32,
    gh3 |-> Two ** b.s4 ** (b.z33 -- b.z31),
    gh4 |-> R("-18") ** b.s4 ** ze,
    h2 |-> R("-2") ** b.s2 ** b.z22,
    h3 |-> R("-2") ** b.s2 ** (b.z23 -- b.z21) ]

Dscom(epoch, ep, argpp, inclp, nodep, np) ==
  LET snodm == FSin(nodep)
      cnodm == FCos(nodep)
      sinomm == FSin(argpp)
      cosomm == FCos(argpp)
      sinim == FSin(inclp)
      cosim == FCos(inclp)
      emsq == Sq(ep)
      day == epoch ++ R("18261.5")
      xnodce == FMod(R("4.5236020") -- (R("9.2422029e-4") ** day), TwoPi)
      stem == FSin(xnodce)
      ctem == FCos(xnodce)
      zcosil == R("0.91375164") -- (R("0.03568096") ** ctem)
      zsinil == FSqrt(One -- Sq(zcosil))
      zsinhl == (R("0.089683511") ** stem) // zsinil
      zcoshl == FSqrt(One -- Sq(zsinhl))
      gam == R("5.8351514") ++ (R("0.0019443680") ** day)
      zy == (zcoshl ** ctem) ++ (R("0.91744867") ** zsinhl ** stem)
      zx == FAtan2((R("0.39785416") ** stem) // zsinil, zy) ++ (gam -- xnodce)
      sun == Body(R("0.1945905"), R("-0.98088458"), R("0.91744867"), R("0.39785416"),
                  cnodm, snodm, R("2.9864797e-6"), ep, sinim, cosim, sinomm, cosomm, np)
      moon == Body(FCos(zx), FSin(zx), zcosil, zsinil,
                   (zcoshl ** cnodm) ++ (zsinhl ** snodm), (snodm ** zcoshl) -- (cnodm ** zsinhl),
                   R("4.7968065e-7"), ep, sinim, cosim, sinomm, cosomm, np)
  IN [ sun |-> sun, moon |-> moon, emsq |-> emsq, sinim |-> sinim, cosim |-> cosim,
       ps |-> Periodics(sun, Zes, emsq), pl |-> Periodics(moon, Zel, emsq),
       zmol |-> FMod(R("4.7199672") ++ ((R("0.22997150") ** day) -- gam), TwoPi),
       zmos |-> FMod(R("6.2565837") ++ (R("0.017201977") ** day), TwoPi) ]

(* ------------------------------------------------------------------ Dpper -- *)
(* Long-period lunar-solar periodics at time t, applied to the mean elements.   *)
BodyPeriodic(p, zm0, rate, ze, t) ==
  LET zm == zm0 ++ (rate ** t)
      zf == zm ++ (Two ** ze ** FSin(zm))
      s == FSin(zf)
      f2 == (Half ** s ** s) -- R("0.25")
      f3 == R("-0.5") ** s ** FCos(zf)
  IN [ e |-> (p.e2 ** f2) ++ (p.e3 ** f3),
       i |-> (p.i2 ** f2) ++ (p.i3 ** f3),
       l |-> (p.l2 ** f2) ++ (p.l3 ** f3) ++ (p.l4 ** s),
       gh |-> (p.gh2 ** f2) ++ (p.gh3 ** f3) ++ (p.gh4 ** s),
       h |-> (p.h2 ** f2) ++ (p.h3 ** f3) ]

LyddaneLimit == R("0.2")

Dpper(dc, t, mode, ep0, incl0, node0, argp0, m0) ==
  LET s == BodyPeriodic(dc.ps, dc.zmos, Zns, Zes, t)
      l == BodyPeriodic(dc.pl, dc.zmol, Znl, Zel, t)
      pe == s.e ++ l.e
      pinc == s.i ++ l.i
      pl == s.l ++ l.l
      pgh == s.gh ++ l.gh
      ph == s.h ++ l.h
      inclp == incl0 ++ pinc
      sinip == FSin(inclp)
      cosip == FCos(inclp)
      lowamb == Edge(inclp, LyddaneLimit)
  IN IF inclp \succeq LyddaneLimit
     THEN LET phd == ph // sinip IN
          [ ep |-> ep0 ++ pe, inclp |-> inclp,
            argpp |-> argp0 ++ (pgh -- (cosip ** phd)),
            nodep |-> node0 ++ phd, mp |-> m0 ++ pl, amb |-> lowamb ]
     ELSE LET sinop == FSin(node0)
              cosop == FCos(node0)
              alfdp == (sinip ** sinop) ++ ((ph ** cosop) ++ (pinc ** cosip ** sinop))
              betdp == (sinip ** cosop) ++ ((FNeg(ph) ** sinop) ++ (pinc ** cosip ** cosop))
              norm(x) == IF mode = "a" /\ x \prec Zero THEN x ++ TwoPi ELSE x
              n0 == norm(FMod(node0, TwoPi))
              xls == (m0 ++ argp0 ++ (cosip ** n0)) ++ ((pl ++ pgh) -- (pinc ** n0 ** sinip))
              raw == FAtan2(alfdp, betdp)
              n1 == norm(raw)
              gap == FAbs(n0 -- n1)
              n2 == IF gap \succ Pi
                    THEN IF n1 \prec n0 THEN n1 ++ TwoPi ELSE n1 -- TwoPi
                    ELSE n1
              mp == m0 ++ pl
          IN [ ep |-> ep0 ++ pe, inclp |-> inclp, nodep |-> n2, mp |-> mp,
               argpp |-> xls -- mp -- (cosip ** n2),
               amb |-> \/ lowamb
                       \/ Edge(gap, Pi)
                       \/ FAbs(FMod(node0, TwoPi)) \prec R("1e-9")
                       \/ Edge(FAbs(FMod(node0, TwoPi)), TwoPi)
                       \/ (mode = "a" /\ FAbs(raw) \prec R("1e-9"))
                       \/ (FAbs(alfdp) \prec R("1e-12") /\ FAbs(betdp) \prec R("1e-12")) ]

(* ----------------------------------------------------------------- Dsinit -- *)
(* Deep-space secular rates and resonance coefficients.                         *)
NearEquator(inclm) == inclm \prec R("5.2359877e-2") \/ inclm \succ (Pi -- R("5.2359877e-2"))

OneDay(nm)      == nm \prec R("0.0052359877") /\ nm \succ R("0.0034906585")
HalfDay(nm, em) == nm \succeq R("8.26e-3") /\ nm \preceq R("9.24e-3") /\ em \succeq Half
Resonance(nm, em) == IF HalfDay(nm, em) THEN 2 ELSE IF OneDay(nm) THEN 1 ELSE 0
ResonanceAmb(nm) == \E w \in {"0.0052359877", "0.0034906585", "8.26e-3", "9.24e-3"} : Edge(nm, R(w))

Poly3(c0, c1, c2, c3, e, e2, e3) == ((R(c0) ++ (R(c1) ** e)) ++ (R(c2) ** e2)) ++ (R(c3) ** e3)

NoResonance ==
  [ irez |-> 0, del1 |-> Zero, del2 |-> Zero, del3 |-> Zero,
    d2201 |-> Zero, d2211 |-> Zero, d3210 |-> Zero, d3222 |-> Zero, d4410 |-> Zero, d4422 |-> Zero,
    d5220 |-> Zero, d5232 |-> Zero, d5421 |-> Zero, d5433 |-> Zero, xlamo |-> Zero, xfact |-> Zero ]

HalfDayTerms(dc, q, mo, nodeo, theta, mdot, nodedot, no, em, emsq, sec) ==
  LET cosim == dc.cosim
      sinim == dc.sinim
      cosisq == Sq(cosim)
      sini2 == Sq(sinim)
      eoc == em ** emsq
      P(a, b, c, d) == Poly3(a, b, c, d, em, emsq, eoc)
      low == em \preceq R("0.65")
      g201 == R("-0.306") -- ((em -- R("0.64")) ** R("0.440"))
      g211 == IF low THEN P("3.616", "-13.2470", "16.2900", "0")
                     ELSE P("-72.099", "331.819", "-508.738", "266.724")
      g310 == IF low THEN P("-19.302", "117.3900", "-228.4190", "156.5910")
                     ELSE P("-346.844", "1582.851", "-2415.925", "1246.113")
      g322 == IF low THEN P("-18.9068", "109.7927", "-214.6334", "146.5816")
                     ELSE P("-342.585", "1554.908", "-2366.899", "1215.972")
      g410 == IF low THEN P("-41.122", "242.6940", "-471.0940", "313.9530")
                     ELSE P("-1052.797", "4758.686", "-7193.992", "3651.957")
      g422 == IF low THEN P("-146.407", "841.8800", "-1629.014", "1083.4350")
                     ELSE P("-3581.690", "16178.110", "-24462.770", "12422.520")
      g520 == IF low THEN P("-532.114", "3017.977", "-5740.032", "3708.2760")
              ELSE IF em \succ R("0.715")
                   THEN P("-5149.66", "29936.92", "-54087.36", "31324.56")
                   ELSE P("1464.74", "-4664.75", "3763.64", "0")
      below7 == em \prec R("0.7")
      g533 == IF below7 THEN P("-919.22770", "4988.6100", "-9064.7700", "5542.21")
                        ELSE P("-37995.780", "161616.52", "-229838.20", "109377.94")
      g521 == IF below7 THEN P("-822.71072", "4568.6173", "-8491.4146", "5337.524")
                        ELSE P("-51752.104", "218913.95", "-309468.16", "146349.42")
      g532 == IF below7 THEN P("-853.66600", "4690.2500", "-8624.7700", "5341.4")
                        ELSE P("-40023.880", "170470.89", "-242699.48", "115605.82")
      c2 == Two ** cosim
      c4 == R("4") ** cosim
      c8 == R("8") ** cosim
      f220 == R("0.75") ** (One ++ c2 ++ cosisq)
      f221 == R("1.5") ** sini2
      f321 == R("1.875") ** sinim ** (One -- c2 -- (R("3") ** cosisq))
      f322 == R("-1.875") ** sinim ** ((One ++ c2) -- (R("3") ** cosisq))
      f441 == R("35") ** sini2 ** f220
      f442 == R("39.3750") ** sini2 ** sini2
      f522 == R("9.84375") ** sinim
              ** ((sini2 ** (One -- c2 -- (R("5") ** cosisq)))
                  ++ (R("0.33333333") ** (R("-2") ++ c4 ++ (R("6") ** cosisq))))
      f523 == sinim ** ((R("4.92187512") ** sini2 ** ((R("-2") -- c4) ++ (R("10") ** cosisq)))
                        ++ (R("6.56250012") ** ((One ++ c2) -- (R("3") ** cosisq))))
      f542 == R("29.53125") ** sinim
              ** ((Two -- c8) ++ (cosisq ** (R("-12") ++ c8 ++ (R("10") ** cosisq))))
      f543 == R("29.53125") ** sinim
              ** ((R("-2") -- c8) ++ (cosisq ** ((R("12") ++ c8) -- (R("10") ** cosisq))))
      aonv == FPow(q // Xke, TwoThirds)
      t2 == R("3") ** Sq(q) ** Sq(aonv)
      t3 == t2 ** aonv
      t4 == t3 ** aonv
      t5 == t4 ** aonv
      r22 == t2 ** R("1.7891679e-6")
      r32 == t3 ** R("3.7393792e-7")
      r44 == Two ** t4 ** R("7.3636953e-9")
      r52 == t5 ** R("1.1428639e-7")
      r54 == Two ** t5 ** R("2.1765803e-9")
  IN [ irez |-> 2, del1 |-> Zero, del2 |-> Zero, del3 |-> Zero,
       d2201 |-> r22 ** f220 ** g201, d2211 |-> r22 ** f221 ** g211,
       d3210 |-> r32 ** f321 ** g310, d3222 |-> r32 ** f322 ** g322,
       d4410 |-> r44 ** f441 ** g410, d4422 |-> r44 ** f442 ** g422,
       d5220 |-> r52 ** f522 ** g520, d5232 |-> r52 ** f523 ** g532,
       d5421 |-> r54 ** f542 ** g521, d5433 |-> r54 ** f543 ** g533,
       xlamo |-> FMod((mo ++ nodeo ++ nodeo) -- (theta ++ theta), TwoPi),
       xfact |-> (mdot ++ sec.dmdt ++ (Two ** ((nodedot ++ sec.dnodt) -- RpTim))) -- no ]

OneDayTerms(dc, q, mo, nodeo, argpo, theta, mdot, xpidot, no, emsq, sec) ==
  LET cosim == dc.cosim
      g200 == One ++ (emsq ** (R("-2.5") ++ (R("0.8125") ** emsq)))
      g310 == One ++ (Two ** emsq)
      g300 == One ++ (emsq ** (R("-6") ++ (R("6.60937") ** emsq)))
      f220 == R("0.75") ** Sq(One ++ cosim)
      f311 == (R("0.9375") ** Sq(dc.sinim) ** (One ++ (R("3") ** cosim))) -- (R("0.75") ** (One ++ cosim))
      f330 == R("1.875") ** Cube(One ++ cosim)
      aonv == FPow(q // Xke, TwoThirds)
      b == R("3") ** Sq(q) ** Sq(aonv)
  IN [ NoResonance EXCEPT
       !.irez = 1,
       !.del1 = b ** f311 ** g310 ** R("2.1460748e-6") ** aonv,
       !.del2 = Two ** b ** f220 ** g200 ** R("1.7891679e-6"),
       !.del3 = R("3") ** b ** f330 ** g300 ** R("2.2123015e-7") ** aonv,
       !.xlamo = FMod((mo ++ nodeo ++ argpo) -- theta, TwoPi),
       !.xfact = (mdot ++ xpidot ++ sec.dmdt ++ sec.domdt ++ sec.dnodt) -- (no ++ RpTim) ]

Secular(dc, inclm) ==
  LET sun == dc.sun
      moon == dc.moon
      eq == NearEquator(inclm)
      bend(z) == z -- R("14") -- (R("6") ** dc.emsq)
      ses == sun.s1 ** Zns ** sun.s5
      sis == sun.s2 ** Zns ** (sun.z11 ++ sun.z13)
      sls == FNeg(Zns) ** sun.s3 ** bend(sun.z1 ++ sun.z3)
      sghs == sun.s4 ** Zns ** ((sun.z31 ++ sun.z33) -- R("6"))
      shs0 == IF eq THEN Zero ELSE FNeg(Zns) ** sun.s2 ** (sun.z21 ++ sun.z23)
      polar == FEq(dc.sinim, Zero)
      shs == IF polar THEN shs0 ELSE shs0 // dc.sinim
      sgs == sghs -- (dc.cosim ** shs)
      sghl == moon.s4 ** Znl ** ((moon.z31 ++ moon.z33) -- R("6"))
      shl == IF eq THEN Zero ELSE FNeg(Znl) ** moon.s2 ** (moon.z21 ++ moon.z23)
  IN [ dedt |-> ses ++ (moon.s1 ** Znl ** moon.s5),
       didt |-> sis ++ (moon.s2 ** Znl ** (moon.z11 ++ moon.z13)),
       dmdt |-> sls -- (Znl ** moon.s3 ** bend(moon.z1 ++ moon.z3)),
       domdt |-> IF polar THEN sgs ++ sghl
                 ELSE (sgs ++ sghl) -- ((dc.cosim // dc.sinim) ** shl),
       dnodt |-> IF polar THEN shs ELSE shs ++ (shl // dc.sinim) ]

(* ----------------------------------------------------------------- Dspace -- *)
(* Secular deep-space update with the resonance integrator.  The integrator     *)
(* state st = [atime, xli, xni] may be the epoch state or the state returned by  *)
(* an earlier update of the same orbit; Resume says when it may be continued.    *)
StepMin == R("720")
Step2 == R("259200")

EpochState(d) == [ atime |-> Zero, xli |-> d.xlamo, xni |-> d.no ]

Dots(d, st) ==
  LET xli == st.xli
      xldot == st.xni ++ d.xfact
  IN IF d.irez = 2
     THEN LET xomi == d.argpo ++ (d.argpdot ** st.atime)
              x2omi == xomi ++ xomi
              x2li == xli ++ xli
              g22 == R("5.7686396")
              g32 == R("0.95240898")
              g44 == R("1.8014998")
              g52 == R("1.0508330")
              g54 == R("4.4108898")
              a1 == (x2omi ++ xli) -- g22
              a2 == xli -- g22
              a3 == (xomi ++ xli) -- g32
              a4 == (FNeg(xomi) ++ xli) -- g32
              a5 == (x2omi ++ x2li) -- g44
              a6 == x2li -- g44
              a7 == (xomi ++ xli) -- g52
              a8 == (FNeg(xomi) ++ xli) -- g52
              a9 == (xomi ++ x2li) -- g54
              a10 == (FNeg(xomi) ++ x2li) -- g54
          IN [ xldot |-> xldot,
               xndt |-> (d.d2201 ** FSin(a1)) ++ (d.d2211 ** FSin(a2)) ++ (d.d3210 ** FSin(a3))
                        ++ (d.d3222 ** FSin(a4)) ++ (d.d4410 ** FSin(a5)) ++ (d.d4422 ** FSin(a6))
                        ++ (d.d5220 ** FSin(a7)) ++ (d.d5232 ** FSin(a8)) ++ (d.d5421 ** FSin(a9))
                        ++ (d.d5433 ** FSin(a10)),
               xnddt |-> ((d.d2201 ** FCos(a1)) ++ (d.d2211 ** FCos(a2)) ++ (d.d3210 ** FCos(a3))
                          ++ (d.d3222 ** FCos(a4)) ++ (d.d5220 ** FCos(a7)) ++ (d.d5232 ** FCos(a8))
                          ++ (Two ** ((d.d4410 ** FCos(a5)) ++ (d.d4422 ** FCos(a6))
                                      ++ (d.d5421 ** FCos(a9)) ++ (d.d5433 ** FCos(a10)))))
                         ** xldot ]
     ELSE LET b1 == xli -- R("0.13130908")
              b2 == Two ** (xli -- R("2.8843198"))
              b3 == R("3") ** (xli -- R("0.37448087"))
          IN [ xldot |-> xldot,
               xndt |-> (d.del1 ** FSin(b1)) ++ (d.del2 ** FSin(b2)) ++ (d.del3 ** FSin(b3)),
               xnddt |-> ((d.del1 ** FCos(b1)) ++ (Two ** d.del2 ** FCos(b2))
                          ++ (R("3") ** d.del3 ** FCos(b3))) ** xldot ]

OneStep(d, st, delt) ==
  LET q == Dots(d, st) IN
  [ atime |-> st.atime ++ delt,
    xli |-> st.xli ++ (q.xldot ** delt) ++ (q.xndt ** Step2),
    xni |-> st.xni ++ (q.xndt ** delt) ++ (q.xnddt ** Step2) ]

(* May an earlier integrator state be continued towards t? *)
Resume(st, t) == /\ ~FEq(st.atime, Zero)
                 /\ (t ** st.atime) \succ Zero
                 /\ FAbs(t) \succeq FAbs(st.atime)

(* Number of whole steps between the integrator time and t. *)
Steps(t, atime) ==
  LET gap == FAbs(t -- atime)
      n == FToInt(gap // StepMin)
      left(k) == gap -- (FInt(k) ** StepMin)
  IN IF left(n) \prec Zero THEN n - 1 ELSE IF left(n) \succeq StepMin THEN n + 1 ELSE n

Integrate(d, st0, t) ==
  LET st == IF Resume(st0, t) THEN st0 ELSE EpochState(d)
      delt == IF t \succ Zero THEN StepMin ELSE FNeg(StepMin)
      n == Steps(t, st.atime)
  IN FoldLeft(LAMBDA s, k : OneStep(d, s, delt), st, [k \in 1..n |-> k])

(* m = [em, argpm, inclm, mm, nodem, nm] mean elements before the update. *)
\* tc: the time for the Earth's rotation, which the theory takes to be t.
DspaceAt(d, st0, t, tc, m) ==
  LET argpm == m.argpm ++ (d.domdt ** t)
      nodem == m.nodem ++ (d.dnodt ** t)
      theta == FMod(d.gsto ++ (tc ** RpTim), TwoPi)
      base == [ em |-> m.em ++ (d.dedt ** t), argpm |-> argpm, inclm |-> m.inclm ++ (d.didt ** t),
                mm |-> m.mm ++ (d.dmdt ** t), nodem |-> nodem, nm |-> m.nm, dndt |-> Zero, st |-> st0 ]
  IN IF d.irez = 0 THEN base
     ELSE LET st == Integrate(d, st0, t)
              q == Dots(d, st)
              ft == t -- st.atime
              nm == st.xni ++ (q.xndt ** ft) ++ (q.xnddt ** ft ** ft ** Half)
              xl == st.xli ++ (q.xldot ** ft) ++ (q.xndt ** ft ** ft ** Half)
              dndt == nm -- d.no
          IN [ base EXCEPT !.mm = IF d.irez = 1 THEN (xl -- nodem -- argpm) ++ theta
                                  ELSE (xl -- (Two ** nodem)) ++ (Two ** theta),
                           !.nm = d.no ++ dndt, !.dndt = dndt, !.st = st ]
Dspace(d, st0, t, m) == DspaceAt(d, st0, t, t, m)

(* ------------------------------------------------------------------- Init -- *)
(* el = [epoch, bstar, ecco, argpo, inclo, mo, no, nodeo]: Kozai mean elements;  *)
(* mode "a" (legacy) or "i" (improved).                                          *)
DeepLimit == R("225")

DivOnePlusCos(c) == IF FAbs(c ++ One) \succ R("1.5e-12") THEN One ++ c ELSE R("1.5e-12")
Xlcof(s, c) == (R("-0.25") ** J3oJ2 ** s ** (R("3") ++ (R("5") ** c))) // DivOnePlusCos(c)
(* How much the relative error of Xlcof exceeds the rounding unit: cancellation *)
(* in 1 + c, or where that is bounded, the angle (exact near Earth).            *)
XlcofRel(deep, s, c) ==
  IF FAbs(c ++ One) \succ R("1.5e-12") THEN One // (One ++ c)
  ELSE IF deep THEN Two // FMax(FAbs(s), Ulp) ELSE Two
Aycof(s) == R("-0.5") ** J3oJ2 ** s

Init(el, mode) ==
  LET il == Initl(el, mode)
      no == il.no
      ao == il.ao
      ecco == el.ecco
      perige == (il.rp -- One) ** EarthRadius
      low == il.rp \prec ((R("220") // EarthRadius) ++ One)
      qz(x) == Sq(Sq((R("120") -- x) // EarthRadius))
      s78 == IF perige \prec R("98") THEN R("20") ELSE perige -- R("78")
      sfour == IF perige \prec R("156") THEN (s78 // EarthRadius) ++ One
               ELSE (R("78") // EarthRadius) ++ One
      qzms24 == IF perige \prec R("156") THEN qz(s78) ELSE qz(R("78"))
      pinvsq == One // il.posq
      tsi == One // (ao -- sfour)
      eta == ao ** ecco ** tsi
      etasq == Sq(eta)
      eeta == ecco ** eta
      psisq == FAbs(One -- etasq)
      coef == qzms24 ** Sq(Sq(tsi))
      coef1 == coef // FPow(psisq, R("3.5"))
      cc2 == coef1 ** no
             ** ((ao ** (One ++ (R("1.5") ** etasq) ++ (eeta ** (R("4") ++ etasq))))
                 ++ (((R("0.375") ** J2 ** tsi) // psisq) ** il.con41
                     ** (R("8") ++ (R("3") ** etasq ** (R("8") ++ etasq)))))
      cc1 == el.bstar ** cc2
      cc3 == IF ecco \succ R("1.0e-4")
             THEN (R("-2") ** coef ** tsi ** J3oJ2 ** no ** il.sinio) // ecco ELSE Zero
      x1mth2 == One -- il.cosio2
      cc4 == Two ** no ** coef1 ** ao ** il.omeosq
             ** (((eta ** (Two ++ (Half ** etasq))) ++ (ecco ** (Half ++ (Two ** etasq))))
                 -- (((J2 ** tsi) // (ao ** psisq))
                     ** ((R("-3") ** il.con41
                          ** ((One -- (Two ** eeta)) ++ (etasq ** (R("1.5") -- (Half ** eeta)))))
                         ++ (R("0.75") ** x1mth2 ** ((Two ** etasq) -- (eeta ** (One ++ etasq)))
                             ** FCos(Two ** el.argpo)))))
      cc5 == Two ** coef1 ** ao ** il.omeosq
             ** (One ++ (R("2.75") ** (etasq ++ eeta)) ++ (eeta ** etasq))
      cosio2 == il.cosio2
      cosio4 == Sq(cosio2)
      temp1 == R("1.5") ** J2 ** pinvsq ** no
      temp2 == Half ** temp1 ** J2 ** pinvsq
      temp3 == R("-0.46875") ** J4 ** pinvsq ** pinvsq ** no
      mdot == no ++ (Half ** temp1 ** il.rteosq ** il.con41)
              ++ (R("0.0625") ** temp2 ** il.rteosq
                  ** ((R("13") -- (R("78") ** cosio2)) ++ (R("137") ** cosio4)))
      argpdot == (R("-0.5") ** temp1 ** il.con42)
                 ++ (R("0.0625") ** temp2 ** ((R("7") -- (R("114") ** cosio2)) ++ (R("395") ** cosio4)))
                 ++ (temp3 ** ((R("3") -- (R("36") ** cosio2)) ++ (R("49") ** cosio4)))
      xhdot1 == FNeg(temp1) ** il.cosio
      nodedot == xhdot1
                 ++ (((Half ** temp2 ** (R("4") -- (R("19") ** cosio2)))
                      ++ (Two ** temp3 ** (R("3") -- (R("7") ** cosio2)))) ** il.cosio)
      period == TwoPi // no
      deep == period \succeq DeepLimit
      dc == Dscom(el.epoch, ecco, el.argpo, el.inclo, el.nodeo, no)
      sec == Secular(dc, el.inclo)
      theta == FMod(il.gsto, TwoPi)
      irez == Resonance(no, ecco)
      res == IF irez = 2 THEN HalfDayTerms(dc, no, el.mo, el.nodeo, theta, mdot, nodedot, no, ecco, il.eccsq, sec)
             ELSE IF irez = 1 THEN OneDayTerms(dc, no, el.mo, el.nodeo, el.argpo, theta, mdot,
                                               argpdot ++ nodedot, no, dc.emsq, sec)
             ELSE NoResonance
      full == ~deep /\ ~low
      cc1sq == Sq(cc1)
      d2 == R("4") ** ao ** tsi ** cc1sq
      tmp == (d2 ** tsi ** cc1) // R("3")
      d3 == ((R("17") ** ao) ++ sfour) ** tmp
      d4 == Half ** tmp ** ao ** tsi ** ((R("221") ** ao) ++ (R("31") ** sfour)) ** cc1
      near ==
        [ full |-> full, mode |-> mode,
          bstar |-> el.bstar, ecco |-> ecco, argpo |-> el.argpo, inclo |-> el.inclo, mo |-> el.mo,
          nodeo |-> el.nodeo, no |-> no, mdot |-> mdot, argpdot |-> argpdot, nodedot |-> nodedot,
          nodecf |-> R("3.5") ** il.omeosq ** xhdot1 ** cc1,
          cc1 |-> cc1, cc4 |-> cc4, cc5 |-> cc5, t2cof |-> R("1.5") ** cc1, eta |-> eta,
          omgcof |-> el.bstar ** cc3 ** FCos(el.argpo),
          xmcof |-> IF ecco \succ R("1.0e-4") THEN (FNeg(TwoThirds) ** coef ** el.bstar) // eeta ELSE Zero,
          delmo |-> Cube(One ++ (eta ** FCos(el.mo))), sinmao |-> FSin(el.mo),
          d2 |-> d2, d3 |-> d3, d4 |-> d4,
          rel |-> Ulp ** (R("10") ++ (R("8") // psisq) ++ (R("8") ** FAbs(ao ** tsi))),   \* of the drag terms
          t3cof |-> d2 ++ (Two ** cc1sq),
          t4cof |-> R("0.25") ** ((R("3") ** d3) ++ (cc1 ** ((R("12") ** d2) ++ (R("10") ** cc1sq)))),
          t5cof |-> R("0.2") ** ((R("3") ** d4) ++ (R("12") ** cc1 ** d3) ++ (R("6") ** d2 ** d2)
                                 ++ (R("15") ** cc1sq ** ((Two ** d2) ++ cc1sq))) ]
      amb == \/ Edge(period, DeepLimit)
             \/ Edge(perige, R("156")) \/ Edge(perige, R("98")) \/ Edge(perige, R("220"))
             \/ (deep /\ ResonanceAmb(no))
             \/ FAbs(psisq) \prec R("1e-9")
             \/ FAbs(ao -- sfour) \prec R("1e-7")
      (* elements of an orbit at all *)
      proper == el.no \succ Zero /\ el.ecco \succeq Zero /\ el.ecco \prec One /\ FFinite(no) /\ no \succ Zero
  IN [ proper |-> proper, deep |-> deep, simple |-> ~full, irez |-> IF deep THEN irez ELSE 0, amb |-> amb,
       gsto |-> il.gsto, n |-> near,
       dc |-> IF deep THEN dc ELSE <<>>,
       d |-> IF deep
             THEN [ no |-> no, gsto |-> il.gsto, argpo |-> el.argpo, argpdot |-> argpdot ] @@ sec @@ res
             ELSE <<>> ]

(* -------------------------------------------------------------- Propagate -- *)
Fail(code, amb) == [ err |-> code, amb |-> amb, r |-> <<>>, v |-> <<>>, tolr |-> Zero, tolv |-> Zero ]

(* Newton iteration for Kepler's equation, at most ten corrections. *)
KeplerStep(u, axnl, aynl, s) ==
  IF s.done THEN s
  ELSE LET sn == FSin(s.eo1)
           cs == FCos(s.eo1)
           den == One -- (cs ** axnl) -- (sn ** aynl)
           raw == (((u -- (aynl ** cs)) ++ (axnl ** sn)) -- s.eo1) // den
           cor == IF FAbs(raw) \succeq R("0.95")
                  THEN IF raw \succ Zero THEN R("0.95") ELSE R("-0.95") ELSE raw
       IN [ eo1 |-> s.eo1 ++ cor, sn |-> sn, cs |-> cs, cor |-> FAbs(cor),
            done |-> ~(FAbs(cor) \succeq R("1.0e-12")) ]
Kepler(u, axnl, aynl) ==
  FoldLeft(LAMBDA s, k : KeplerStep(u, axnl, aynl, s),
           [ eo1 |-> u, sn |-> Zero, cs |-> Zero, cor |-> One, done |-> FALSE ], <<1,2,3,4,5,6,7,8,9,10>>)

Propagate(rec, t) ==
  LET n == rec.n
      deep == rec.deep
      (* secular gravity and drag *)
      xmdf == n.mo ++ (n.mdot ** t)
      argpdf == n.argpo ++ (n.argpdot ** t)
      t2 == Sq(t)
      t3 == t2 ** t
      t4 == t3 ** t
      nodedf == (n.nodeo ++ (n.nodedot ** t)) ++ (n.nodecf ** t2)
      delm == n.xmcof ** (Cube(One ++ (n.eta ** FCos(xmdf))) -- n.delmo)
      tmp == (n.omgcof ** t) ++ delm
      mm0 == IF n.full THEN xmdf ++ tmp ELSE xmdf
      argp0 == IF n.full THEN argpdf -- tmp ELSE argpdf
      tempa0 == One -- (n.cc1 ** t)
      tempa == IF n.full THEN tempa0 -- (n.d2 ** t2) -- (n.d3 ** t3) -- (n.d4 ** t4) ELSE tempa0
      tempe0 == n.bstar ** n.cc4 ** t
      tempe == IF n.full THEN tempe0 ++ (n.bstar ** n.cc5 ** (FSin(mm0) -- n.sinmao)) ELSE tempe0
      templ0 == n.t2cof ** t2
      templ == IF n.full THEN templ0 ++ (n.t3cof ** t3) ++ (t4 ** (n.t4cof ++ (t ** n.t5cof))) ELSE templ0
      m0 == [ em |-> n.ecco, argpm |-> argp0, inclm |-> n.inclo, mm |-> mm0, nodem |-> nodedf, nm |-> n.no ]
      m == IF deep THEN Dspace(rec.d, EpochState(rec.d), t, m0) ELSE m0
  IN
  IF ~(m.nm \succ Zero) THEN Fail(2, rec.amb) ELSE
  LET am == FPow(Xke // m.nm, TwoThirds) ** tempa ** tempa
      nm == Xke // FPow(am, R("1.5"))
      em1 == m.em -- tempe
      ambE == Edge(em1, One) \/ Edge(em1, R("-0.001"))
  IN
  IF ~(em1 \prec One /\ em1 \succeq R("-0.001")) THEN Fail(1, rec.amb \/ ambE) ELSE
  LET em == IF em1 \prec R("1.0e-6") THEN R("1.0e-6") ELSE em1
      mm1 == m.mm ++ (n.no ** templ)
      xlm == FMod(mm1 ++ m.argpm ++ m.nodem, TwoPi)
      nodem == FMod(m.nodem, TwoPi)
      argpm == FMod(m.argpm, TwoPi)
      mm == FMod(xlm -- argpm -- nodem, TwoPi)
      lp == IF deep THEN Dpper(rec.dc, t, n.mode, em, m.inclm, nodem, argpm, mm)
            ELSE [ ep |-> em, inclp |-> m.inclm, nodep |-> nodem, argpp |-> argpm, mp |-> mm, amb |-> FALSE ]
      flip == deep /\ lp.inclp \prec Zero
      incl == IF flip THEN FNeg(lp.inclp) ELSE lp.inclp
      node == IF flip THEN lp.nodep ++ Pi ELSE lp.nodep
      argp == IF flip THEN lp.argpp -- Pi ELSE lp.argpp
      ep == lp.ep
      ambP == rec.amb \/ ambE \/ lp.amb \/ (deep /\ (FAbs(ep) \prec R("1e-11") \/ Edge(ep, One)))
  IN
  IF deep /\ (ep \prec Zero \/ ep \succ One) THEN Fail(3, ambP) ELSE
  LET sinip == FSin(incl)
      cosip == FCos(incl)
      (* long-period periodics *)
      axnl == ep ** FCos(argp)
      tq == One // (am ** (One -- Sq(ep)))
      aynl == (ep ** FSin(argp)) ++ (tq ** Aycof(sinip))
      xl == lp.mp ++ argp ++ node ++ (tq ** Xlcof(sinip, cosip) ** axnl)
      u == FMod(xl -- node, TwoPi)
      k == Kepler(u, axnl, aynl)
      ecose == (axnl ** k.cs) ++ (aynl ** k.sn)
      esine == (axnl ** k.sn) -- (aynl ** k.cs)
      el2 == Sq(axnl) ++ Sq(aynl)
      pl == am ** (One -- el2)
      ambL == ambP \/ Edge(el2, One)
              \/ FClose(el2, One, FAbs(tq ** Aycof(sinip))
                                  ** (FAbs((R("1e-14") ** aynl) // (One -- Sq(ep)))
                                      ++ FAbs((R("1e-14") ** n.argpdot ** t) // (One -- Sq(n.ecco)))))
  IN
  IF pl \prec Zero THEN Fail(4, ambL) ELSE
  LET rl == am ** (One -- ecose)
      rdotl == (FSqrt(am) ** esine) // rl
      rvdotl == FSqrt(pl) // rl
      betal == FSqrt(One -- el2)
      te == esine // (One ++ betal)
      sinu == (am // rl) ** (k.sn -- aynl -- (axnl ** te))
      cosu == (am // rl) ** ((k.cs -- axnl) ++ (aynl ** te))
      sin2u == (cosu ++ cosu) ** sinu
      cos2u == One -- (Two ** sinu ** sinu)
      tp == One // pl
      temp1 == Half ** J2 ** tp
      temp2 == temp1 ** tp
      cosisq == Sq(cosip)
      con41 == (R("3") ** cosisq) -- One
      x1mth2 == One -- cosisq
      x7thm1 == (R("7") ** cosisq) -- One
      (* short-period periodics *)
      mrt == (rl ** (One -- (R("1.5") ** temp2 ** betal ** con41))) ++ (Half ** temp1 ** x1mth2 ** cos2u)
      su == FAtan2(sinu, cosu) -- (R("0.25") ** temp2 ** x7thm1 ** sin2u)
      xnode == node ++ (R("1.5") ** temp2 ** cosip ** sin2u)
      xinc == incl ++ (R("1.5") ** temp2 ** cosip ** sinip ** cos2u)
      mvt == rdotl -- ((nm ** temp1 ** x1mth2 ** sin2u) // Xke)
      rvdot == rvdotl ++ ((nm ** temp1 ** ((x1mth2 ** cos2u) ++ (R("1.5") ** con41))) // Xke)
      sinsu == FSin(su)
      cossu == FCos(su)
      snod == FSin(xnode)
      cnod == FCos(xnode)
      sini == FSin(xinc)
      cosi == FCos(xinc)
      xmx == FNeg(snod) ** cosi
      xmy == cnod ** cosi
      ux == (xmx ** sinsu) ++ (cnod ** cossu)
      uy == (xmy ** sinsu) ++ (snod ** cossu)
      uz == sini ** sinsu
      vx == (xmx ** cossu) -- (cnod ** sinsu)
      vy == (xmy ** cossu) -- (snod ** sinsu)
      vz == sini ** cossu
      (* how far rounding may carry two correct evaluations apart *)
      drag == FAbs(tempe) ++ FAbs(n.no ** n.t2cof ** t2)
              ++ (IF n.full THEN FAbs(n.no ** n.t3cof ** t3) ++ FAbs(n.no ** n.t4cof ** t4)
                                 ++ FAbs(n.no ** n.t5cof ** t4 ** t) ++ FAbs(n.omgcof ** t) ++ FAbs(delm)
                  ELSE Zero)
              ++ FAbs(n.nodecf ** t2)
      shrink == FAbs(n.cc1 ** t)
                ++ (IF n.full THEN FAbs(n.d2 ** t2) ++ FAbs(n.d3 ** t3) ++ FAbs(n.d4 ** t4) ELSE Zero)
      errA == (Ulp ** (R("10") ++ FAbs(n.mdot ** t) ++ FAbs(n.argpdot ** t) ++ FAbs(n.nodedot ** t)
                       ++ FAbs(tq ** Xlcof(sinip, cosip) ** axnl ** XlcofRel(deep, sinip, cosip))
                       ++ (temp2 // (One -- el2))
                       \* close to 180 degrees the node's periodics are divided by the sine of the inclination
                       ++ (IF deep THEN FAbs((argp -- argpm) ** tq ** Xlcof(sinip, cosip) ** ep)
                                        ** (One ++ FAbs(incl // sinip)) ELSE Zero)))
              ++ (n.rel ** drag)
      errS == ((n.rel ** shrink) ++ Ulp) // FAbs(tempa)
      err == ((errA ++ (R("4") ** errS)) ** (One ++ temp2)) // (One -- FSqrt(el2))
      errR == EarthRadius ** (am ++ mrt ++ temp1) ** err
      errV == (VKmPerSec ** (FAbs(mvt) ++ FAbs(rvdot) ++ ((nm ** temp1) // Xke)) ** err)
              ++ ((errR ** (Xke // R("60"))) // (rl ** FSqrt(rl)))
      span == IF rec.irez # 0 THEN One ++ ((R("1e-9") ** t2) // Sq(One -- n.ecco)) ELSE One   \* the integrator accumulates
      tolr == (R("1e-5") ** span) ++ (R("10") ** errR)          \* a centimetre
      tolv == (R("1e-8") ** span) ++ (R("10") ** errV)
      ambR == ambL \/ FClose(mrt, One, R("1e-10") ++ (tolr // EarthRadius))
              \/ ~(k.cor \prec R("1e-9"))              \* ten corrections were not enough
              \/ ~(tolr \prec R("0.1"))                \* numerically undefined
              \/ (~deep /\ FClose(FAbs(cosip ++ One), R("1.5e-12"), R("1e-14")))
  IN
  IF ~(mrt \succeq One) THEN Fail(6, ambR) ELSE
  [ err |-> 0, amb |-> ambR, tolr |-> tolr, tolv |-> tolv,
    r |-> << mrt ** ux ** EarthRadius, mrt ** uy ** EarthRadius, mrt ** uz ** EarthRadius >>,
    v |-> << ((mvt ** ux) ++ (rvdot ** vx)) ** VKmPerSec,
             ((mvt ** uy) ++ (rvdot ** vy)) ** VKmPerSec,
             ((mvt ** uz) ++ (rvdot ** vz)) ** VKmPerSec >> ]
=============================================================================
