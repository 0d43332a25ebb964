---------------------------- MODULE Sgp4Vectors ----------------------------
(* Anchors the orbit theory of Sgp4.tla to the published verification vectors  *)
(* (Vallado et al. 2006, WGS-72, improved mode): the specification itself, not *)
(* the crate, is checked here.                                                 *)
EXTENDS Sgp4

El(jd, b, inc, node, e, ap, m, n) ==
  [ epoch |-> R(jd) -- Jd1950, bstar |-> R(b), ecco |-> R(e), argpo |-> R(ap) ** DegToRad,
    inclo |-> R(inc) ** DegToRad, mo |-> R(m) ** DegToRad, no |-> R(n) // Xpdotp, nodeo |-> R(node) ** DegToRad ]

S00005 == El("2451723.28495062", "0.28098e-4", "34.2682", "348.7242", "0.1859667", "331.7664", "19.3264", "10.82419157")
S04632 == El("2453036.41070959", "0.1e-3", "11.4628", "273.1101", "0.1450506", "207.6000", "143.9350", "1.20231981")
S06251 == El("2453912.32412014", "0.12808e-3", "58.0579", "54.0425", "0.0030035", "139.1568", "221.1854", "15.56387291")
S08195 == El("2453911.83215444", "0.11873e-3", "64.1586", "279.0717", "0.6877146", "264.7651", "20.2257", "2.00491383")
S14128 == El("2453911.52844893", "0.1e-3", "11.4384", "35.2134", "0.0011562", "26.4582", "333.5652", "0.98870114")
S11801 == El("2444468.79629788", "0.14311e-1", "46.7916", "230.4354", "0.7318036", "47.4722", "10.4117", "2.28537848")

Vectors == <<
 << "00005", S00005, "0", "7022.46529266", "-1400.08296755", "0.03995155" >>,
 << "00005", S00005, "360", "-7154.03120202", "-3783.17682504", "-3536.19412294" >>,
 << "00005", S00005, "720", "-7134.59340119", "6531.68641334", "3260.27186483" >>,
 << "04632", S04632, "0", "2334.11450085", "-41920.44035349", "-0.03867437" >>,
 << "04632", S04632, "-5184", "-29020.02587128", "13819.84419063", "-5713.33679183" >>,
 << "06251", S06251, "0", "3988.31022699", "5498.96657235", "0.90055879" >>,
 << "08195", S08195, "0", "2349.89483350", "-14785.93811562", "0.02119378" >>,
 << "08195", S08195, "120", "15223.91713658", "-17852.95881713", "25280.39558224" >>,
 << "14128", S14128, "0", "34747.57932696", "24502.37114079", "-1.32832986" >>,
 << "11801", S11801, "0", "7473.37102491", "428.94748312", "5828.74846783" >>,
 << "11801", S11801, "360", "-3305.22148694", "32410.84323331", "-24697.16974954" >> >>

VARIABLE i
Init0 == i = 1
Result(k) == LET v == Vectors[k] IN Propagate(Init(v[2], "i"), R(v[3]))
Matches(k) == LET v == Vectors[k]  p == Result(k) IN
  /\ PrintT(<<v[1], v[3], FShow(p.r[1]), FShow(p.r[2]), FShow(p.r[3]), p.amb>>)
  /\ p.err = 0
  /\ \A c \in 1..3 : FClose(p.r[c], R(v[3 + c]), R("2e-5"))
Next0 == i <= Len(Vectors) /\ Matches(i) /\ i' = i + 1
AllMatch == (i <= Len(Vectors)) => ENABLED Next0
=============================================================================
