------------------------------- MODULE Stages -------------------------------
(* The stages of the theory as procedures of their own, with all the arguments  *)
(* their published forms have (Sgp4.tla composes them with the arguments an      *)
(* initialisation or a propagation gives them):                                 *)
(*   recover    mean motion and geometry from Kozai elements                    *)
(*   attract    coefficients of Sun and Moon, tc minutes after the epoch        *)
(*   wobble     lunar-solar periodics of any elements; none at initialisation   *)
(*   resonate   secular rates, resonance, and the elements t minutes later      *)
(*   drift      secular update, with the Earth's rotation at its own time tc    *)
(* Each yields [ want |-> values by name, tol |-> bounds by name, amb ].         *)
EXTENDS Sgp4
Zeros(names) == [ k \in names |-> Zero ]
All(names, x) == [ k \in names |-> x ]
Rel(want, names, x) == [ k \in names |-> x ** FAbs(want[k]) ]
Within(ep) == FAbs(ep) \prec One

(* ------------------------------------------------------------- recover ------ *)
Recover(epoch, ecco, inclo, no, mode) ==
  LET il == Initl([ epoch |-> epoch, ecco |-> ecco, inclo |-> inclo, no |-> no ], mode)
      want == [ no |-> il.no, ainv |-> One // il.ao, ao |-> il.ao, con41 |-> il.con41, con42 |-> il.con42,
                cosio |-> il.cosio, cosio2 |-> il.cosio2, eccsq |-> il.eccsq, omeosq |-> il.omeosq,
                posq |-> il.posq, rp |-> il.rp, rteosq |-> il.rteosq, sinio |-> il.sinio ]
      bend == One // Cube(il.omeosq)
      scaled == { "no", "ainv", "ao", "posq", "rp", "rteosq" }
  IN [ want |-> want, gsto |-> il.gsto, amb |-> FALSE,
       tol |-> Rel(want, scaled, R("1e-13") ** bend) @@ All(DOMAIN want, R("1e-14")) ]

(* ------------------------------------------------------------- attract ------ *)
BodyNames == { "1", "2", "3", "4", "5", "6", "7" }
Attract(epoch, ep, argpp, tc, inclp, nodep, np) ==
  LET d == Dscom(epoch ++ (tc // R("1440")), ep, argpp, inclp, nodep, np)
      sun == d.sun  moon == d.moon  ps == d.ps  pl == d.pl
      day == epoch ++ R("18261.5") ++ (tc // R("1440"))
      beta == One -- Sq(ep)
      rel == R("1e-11") // beta
      rot == [ snodm |-> FSin(nodep), cnodm |-> FCos(nodep), sinim |-> d.sinim, cosim |-> d.cosim,
               sinomm |-> FSin(argpp), cosomm |-> FCos(argpp), em |-> ep, emsq |-> d.emsq, rtemsq |-> FSqrt(beta) ]
      time == [ day |-> day, gam |-> R("5.8351514") ++ (R("0.0019443680") ** day) ]
      none == Zeros({ "peo", "pgho", "pho", "pinco", "plo" })
      size == [ ss1 |-> sun.s1, ss2 |-> sun.s2, ss3 |-> sun.s3, ss4 |-> sun.s4,
                s1 |-> moon.s1, s2 |-> moon.s2, s3 |-> moon.s3, s4 |-> moon.s4, nm |-> np,
                sl4 |-> ps.l4, sgh4 |-> ps.gh4, xl4 |-> pl.l4, xgh4 |-> pl.gh4 ]
      shape == [ ss5 |-> sun.s5, ss6 |-> sun.s6, ss7 |-> sun.s7, s5 |-> moon.s5, s6 |-> moon.s6, s7 |-> moon.s7,
                 sz1 |-> sun.z1, sz2 |-> sun.z2, sz3 |-> sun.z3, sz11 |-> sun.z11, sz12 |-> sun.z12, sz13 |-> sun.z13,
                 sz21 |-> sun.z21, sz22 |-> sun.z22, sz23 |-> sun.z23, sz31 |-> sun.z31, sz32 |-> sun.z32, sz33 |-> sun.z33,
                 z1 |-> moon.z1, z2 |-> moon.z2, z3 |-> moon.z3, z11 |-> moon.z11, z12 |-> moon.z12, z13 |-> moon.z13,
                 z21 |-> moon.z21, z22 |-> moon.z22, z23 |-> moon.z23, z31 |-> moon.z31, z32 |-> moon.z32, z33 |-> moon.z33 ]
      solar == [ se2 |-> ps.e2, se3 |-> ps.e3, si2 |-> ps.i2, si3 |-> ps.i3, sl2 |-> ps.l2, sl3 |-> ps.l3,
                 sgh2 |-> ps.gh2, sgh3 |-> ps.gh3, sh2 |-> ps.h2, sh3 |-> ps.h3 ]
      lunar == [ ee2 |-> pl.e2, e3 |-> pl.e3, xi2 |-> pl.i2, xi3 |-> pl.i3, xl2 |-> pl.l2, xl3 |-> pl.l3,
                 xgh2 |-> pl.gh2, xgh3 |-> pl.gh3, xh2 |-> pl.h2, xh3 |-> pl.h3 ]
  IN [ want |-> rot @@ time @@ none @@ size @@ shape @@ solar @@ lunar, amb |-> FALSE,
       zmol |-> d.zmol, zmos |-> d.zmos,
       tol |-> All(DOMAIN rot, R("1e-14") // beta) @@ All(DOMAIN time, R("1e-10")) @@ All(DOMAIN none, Zero)
               @@ Rel(size, DOMAIN size, rel) @@ All(DOMAIN shape, R("1e-10"))
               @@ All(DOMAIN solar, R("1e-9") ** (sun.s3 // beta)) @@ All(DOMAIN lunar, R("1e-9") ** (moon.s3 // beta)) ]

(* -------------------------------------------------------------- wobble ------ *)
Wobble(dc, init, t, mode, x) ==                     \* x = [ep, inclp, nodep, argpp, mp]
  LET angles == All({ "nodep", "argpp", "mp" }, R("1e-14") ** (One ++ FAbs(x.nodep) ++ FAbs(x.argpp) ++ FAbs(x.mp)))
      given == [ ep |-> x.ep, inclp |-> x.inclp, nodep |-> x.nodep, argpp |-> x.argpp, mp |-> x.mp ]
  IN IF init THEN [ want |-> given, tol |-> angles @@ All({ "ep", "inclp" }, R("1e-15")), amb |-> FALSE ]
     ELSE LET p == Dpper(dc, t, mode, x.ep, x.inclp, x.nodep, x.argpp, x.mp)
              low == p.inclp \prec R("0.21")
              tight == R("1e-11") ** (One ++ FAbs(x.nodep) ++ FAbs(x.argpp) ++ FAbs(x.mp))
              \* in the modified form the node is a direction, of a vector this long (or a little longer)
              lean == IF low THEN FMax(FAbs(FSin(p.inclp)) -- R("0.005"), R("1e-6")) ELSE One
              \* otherwise its periodics are divided by the sine of the inclination, which is all rounding close to 180 degrees
              steep == IF low THEN Zero
                       ELSE R("8") ** Ulp ** (FAbs(p.argpp -- x.argpp) ++ FAbs(p.nodep -- x.nodep)) ** (One ++ FAbs(p.inclp // FSin(p.inclp)))
              turned == (tight // lean) ++ steep
          IN [ want |-> [ ep |-> p.ep, inclp |-> p.inclp, nodep |-> p.nodep, argpp |-> p.argpp, mp |-> p.mp ],
               tol |-> [ ep |-> R("1e-11"), inclp |-> R("1e-11"), nodep |-> turned, argpp |-> turned, mp |-> tight ],
               amb |-> p.amb ]

(* ------------------------------------------------------------ resonate ------ *)
Resonate(a) ==
  LET dc == Dscom(a.epoch, a.em, a.argpo, a.inclo, a.nodeo, a.nm)
      sec == Secular(dc, a.inclm)
      theta == FMod(a.gsto ++ (a.tc ** RpTim), TwoPi)
      irez == Resonance(a.nm, a.em)
      res == IF irez = 2 THEN HalfDayTerms(dc, a.nm, a.mo, a.nodeo, theta, a.mdot, a.nodedot, a.no, a.ecco, Sq(a.ecco), sec)
             ELSE IF irez = 1 THEN OneDayTerms(dc, a.nm, a.mo, a.nodeo, a.argpo, theta, a.mdot, a.xpidot, a.no, dc.emsq, sec)
             ELSE NoResonance
      rates == [ dedt |-> sec.dedt, didt |-> sec.didt, dmdt |-> sec.dmdt, domdt |-> sec.domdt, dnodt |-> sec.dnodt ]
      later == [ em |-> a.em ++ (sec.dedt ** a.t), inclm |-> a.inclm ++ (sec.didt ** a.t), argpm |-> a.argpm ++ (sec.domdt ** a.t),
                 nodem |-> a.nodem ++ (sec.dnodt ** a.t), mm |-> a.mm ++ (sec.dmdt ** a.t) ]
      terms == [ del1 |-> res.del1, del2 |-> res.del2, del3 |-> res.del3, d2201 |-> res.d2201, d2211 |-> res.d2211,
                 d3210 |-> res.d3210, d3222 |-> res.d3222, d4410 |-> res.d4410, d4422 |-> res.d4422,
                 d5220 |-> res.d5220, d5232 |-> res.d5232, d5421 |-> res.d5421, d5433 |-> res.d5433 ]
      state == [ irez |-> FInt(irez), dndt |-> Zero, nm |-> IF irez = 0 THEN a.nm ELSE a.no,
                 xni |-> IF irez = 0 THEN Zero ELSE a.no, atime |-> Zero ]
      beta == One -- Sq(a.em)
      eq == NearEquator(a.inclm) \/ FEq(dc.sinim, Zero)
      pull == ((dc.sun.s3 ** Zns) ++ (dc.moon.s3 ** Znl)) // (beta ** IF eq THEN One ELSE FAbs(dc.sinim))
      rate == R("1e-9") ** pull
      base == R("3e-15") ** Sq(a.nm) ** Sq(FPow(a.nm // Xke, TwoThirds))
  IN [ want |-> rates @@ later @@ terms @@ state @@ [ xfact |-> res.xfact ],
       xlamo |-> res.xlamo,
       tol |-> All(DOMAIN rates, rate) @@ All(DOMAIN terms, base) @@ All(DOMAIN state, Zero)
               @@ [ k \in DOMAIN later |-> (rate ** FAbs(a.t)) ++ (R("1e-14") ** (One ++ FAbs(later[k]))) ]
               @@ [ xfact |-> (R("4") ** rate) ++ R("1e-15") ],
       amb |-> ResonanceAmb(a.nm) \/ Edge(a.inclm, R("5.2359877e-2")) \/ Edge(Pi -- a.inclm, R("5.2359877e-2")) ]
=============================================================================
