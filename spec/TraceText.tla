----------------------------- MODULE TraceText -----------------------------
(* Judges recorded calls of the text entry points (parse_satrec PS,             *)
(* twoline2satrec TL, parse PA, parse_multiple PM) for properties C01-C06 and   *)
(* the text half of C16.                                                        *)
EXTENDS Replay, Tle, Catalog
VARIABLES sess, pos, why

Errors == {"float", "int", "compound", "init", "linecheck", "linecount"}
IsRec(o) == o.k = "rec"

(* ------------------------------------------------------------------- C01 -- *)
Total(e) ==
  IF Lost(e) THEN "parsing did not return: " \o e.out.k
  ELSE IF e.ev = "PR" THEN "ok"
  ELSE IF e.ev = "PM"
  THEN (Need(\A k \in DOMAIN e.out.errs : e.out.errs[k].k = "multi" /\ e.out.errs[k].cause.k \in Errors, "a catalogue error without position or cause")
        ?? Need(\A k \in DOMAIN e.out.recs : IsRec(e.out.recs[k]), "not a record"))
  ELSE Need(e.out.k \in Errors \cup {"rec"}, "neither a record nor an error")

(* ------------------------------------------------------------------- C02 -- *)
Same(a, b) == FEq(a, b) \/ Agree(a, b, R("1e-12"), Zero)
NearZeroSafe(a, b) == FEq(a, b) \/ Agree(a, b, R("1e-12"), R("1e-14"))
Values(o, d, raw) ==
  LET x == RecordOf(d) IN
  (Need(o.satnum = x.satnum, "catalogue number differs from its columns")
   ?? Need(o.epochyr = x.epochyr, "epoch year differs from its columns")
   ?? Need(Same(o.epochdays, x.epochdays), "epoch day differs from its columns")
   ?? Need(Same(o.ndot, x.ndot), "first derivative of mean motion differs from its columns")
   ?? Need(Same(o.nddot, x.nddot), "second derivative of mean motion differs from its columns")
   ?? Need(Same(o.bstar, x.bstar), "drag term differs from its columns")
   ?? Need(Same(o.inclo, x.inclo), "inclination differs from its columns")
   ?? Need(Same(o.nodeo, x.nodeo), "node differs from its columns")
   ?? Need(Same(o.ecco, x.ecco), "eccentricity differs from its columns")
   ?? Need(Same(o.argpo, x.argpo), "argument of perigee differs from its columns")
   ?? Need(Same(o.mo, x.mo), "mean anomaly differs from its columns")
   ?? Need(raw => Same(o.no, x.no), "mean motion differs from its columns")
   ?? Need(~(x.no \succ Zero) \/ Same(o.a, x.a), "semi-major axis does not follow from the mean motion")
   ?? Need(~(x.no \succ Zero) \/ NearZeroSafe(o.alta, x.alta), "apogee altitude does not follow")
   ?? Need(~(x.no \succ Zero) \/ NearZeroSafe(o.altp, x.altp), "perigee altitude does not follow")
   ?? Need(~(x.epochyr \in 0..99 /\ x.epochdays \succeq One /\ x.epochdays \prec R("366"))
             \/ FClose(o.jd, EpochJd(x.epochyr, x.epochdays), R("1.5e-9")), "epoch is in the wrong year"))
Decoded(e) ==
  LET d == Decode(e.l1, e.l2) IN
  IF d.st # "good" THEN "ok"
  ELSE IF IsRec(e.out) THEN Values(e.out, d, e.ev = "PS")
  ELSE Need(e.ev = "TL" /\ e.out.k = "init", "a well-formed element set was rejected")

(* ------------------------------------------------------------------- C03 -- *)
NamesField(o, d) ==
  (Need(~IsRec(o), "lines with a malformed field became a record")
   ?? Need(o.k = d.kind, "malformed field reported as the wrong kind of error")
   ?? Need(o.name = d.name, "error does not name the first malformed field")
   ?? Need(d.kind = "compound" \/ (o.lo = d.lo /\ o.hi = d.hi), "error has the wrong columns")
   ?? Need(d.exact => o.text = d.text, "error does not carry the text found"))
Diagnosed(e) ==
  IF e.ev \in {"PS", "TL"}
  THEN LET d == Decode(e.l1, e.l2) IN IF d.st = "bad" THEN NamesField(e.out, d) ELSE "ok"
  ELSE LET ls == Lines(e.text)
           n == Len(ls)
           d == Decode(ls[n - 1], ls[n])
       IN IF n \notin {2, 3} \/ Class(ls[n - 1]) # "1" \/ Class(ls[n]) # "2" THEN "trace: not one record"
          ELSE IF d.st # "bad" THEN "ok"
          ELSE IF e.ev = "PA" THEN NamesField(e.out, d)
          ELSE IF e.out.recs # << >> THEN "a catalogue entry with a malformed field became a record"
          ELSE IF Len(e.out.errs) # 1 THEN "not exactly one error for one malformed record"
          ELSE NamesField(e.out.errs[1].cause, d)

(* -------------------------------------------------------------- C04, C05 -- *)
TitleName(l) ==
  LET t == Trim(l) IN IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] = 32 THEN Trim(SubSeq(t, 3, Len(t))) ELSE t
Chomp(l) == Trim(<< 33 >> \o l)                      \* without trailing white space

(* The session first parses each record on its own (TL), then the catalogue. *)
Catalogued(e, before) ==
  LET ls == Lines(e.text)
      gs == Groups(Classes(ls))
      whole == SelectSeq(gs, LAMBDA g : g.kind \in {"titled", "untitled"})
      alone(k) == before[k].out
      l1(g) == ls[g.at + g.len - 2]
      l2(g) == ls[g.at + g.len - 1]
      idx == [ k \in 1..Len(whole) |-> k ]
      okk == SelectSeq(idx, LAMBDA k : IsRec(alone(k)))
      badk == SelectSeq(idx, LAMBDA k : ~IsRec(alone(k)))
      rest == SelectSeq(gs, LAMBDA g : g.kind \in {"single", "incomplete"})
      rs == e.out.recs
      es == e.out.errs
      nb == Len(badk)
  IN IF ~(Len(before) = Len(whole) /\ \A k \in 1..Len(whole) :
            before[k].ev = "TL" /\ Chomp(before[k].l1) = Chomp(l1(whole[k])) /\ Chomp(before[k].l2) = Chomp(l2(whole[k])))
     THEN "trace: the session does not parse each record of the catalogue on its own"
     ELSE (Need(Len(rs) = Len(okk), "wrong number of records")
           ?? Need(\A k \in 1..Len(okk) : rs[k].fp = alone(okk[k]).fp, "a record differs from the one its lines denote, or is out of order")
           ?? Need(\A k \in 1..Len(okk) : rs[k].named = (whole[okk[k]].kind = "titled"), "a title was invented or lost")
           ?? Need(\A k \in 1..Len(okk) : rs[k].named => rs[k].name = TitleName(ls[whole[okk[k]].at]), "a record carries the wrong title")
           ?? Need(Len(es) = nb + Len(rest), "wrong number of errors")
           ?? Need(\A k \in DOMAIN es : es[k].k = "multi", "a catalogue error without position or cause")
           ?? Need(\A k \in 1..nb : es[k].at = whole[badk[k]].at - 1, "an error has the wrong position")
           ?? Need(\A k \in 1..nb : es[k].cause = alone(badk[k]), "an error has another cause than the record on its own")
           ?? Need(\A k \in 1..Len(rest) : es[nb + k].at = rest[k].at - 1, "an incomplete record has the wrong position")
           ?? Need(\A k \in 1..Len(rest) : rest[k].kind = "single" => es[nb + k].cause.k = "linecount", "a left-over line is not reported as a bad line count"))

(* A text of whole records repeated n times, then a tail.  By the law of        *)
(* composition (CatalogModel!Compositional) its groups are those of the text,   *)
(* shifted, then those of the tail; the session first parses each record of the *)
(* text, and each whole one of the tail, on its own.  The answer names each     *)
(* distinct record and cause once: kinds[recs[m]], causes[errs[m]] at at[m].    *)
Repeated(e, before) ==
  LET ls == Lines(e.text)
      lt == Lines(e.tail)
      gs == Groups(Classes(ls))
      gt == Groups(Classes(lt))
      IsWhole(g) == g.kind \in {"titled", "untitled"}
      w == Len(gs)
      u == Cardinality({ k \in DOMAIN gt : IsWhole(gt[k]) })
      period == Len(ls)
      o == e.out
      alone(k) == before[k].out
      (* of the period (k <= w) or of the tail *)
      grp(k) == IF k <= w THEN gs[k] ELSE gt[k - w]
      src(k) == IF k <= w THEN ls ELSE lt
      okT == TLCEval(SelectSeq([ k \in 1..w |-> k ], LAMBDA k : IsRec(alone(k))))
      okU == TLCEval(SelectSeq([ k \in 1..u |-> w + k ], LAMBDA k : IsRec(alone(k))))
      badT == TLCEval(SelectSeq([ k \in 1..w |-> k ], LAMBDA k : ~IsRec(alone(k))))
      badU == TLCEval(SelectSeq([ k \in 1..u |-> w + k ], LAMBDA k : ~IsRec(alone(k))))
      rest == { k \in 1..Len(gt) : ~IsWhole(gt[k]) }
      nr == Len(o.recs)
      ne == Len(o.errs)
      fr == e.n * Len(okT)
      fe == e.n * Len(badT)
      recAt(m) == IF m <= fr THEN okT[((m - 1) % Len(okT)) + 1] ELSE okU[m - fr]
      errAt(m) == IF m <= fe THEN badT[((m - 1) % Len(badT)) + 1] ELSE badU[m - fe]
      shift(m) == IF m <= fe THEN period * ((m - 1) \div Len(badT)) ELSE period * e.n
      same(k) == TLCEval({ j \in DOMAIN o.kinds : o.kinds[j].fp = alone(k).fp })
      titled(k) == TLCEval({ j \in DOMAIN o.kinds :
                     /\ o.kinds[j].named = (grp(k).kind = "titled")
                     /\ o.kinds[j].named => o.kinds[j].name = TitleName(src(k)[grp(k).at]) })
      cause(k) == TLCEval({ j \in DOMAIN o.causes : o.causes[j] = alone(k) })
      sames == TLCEval([ k \in 1..(w + u) |-> IF IsRec(alone(k)) THEN same(k) ELSE {} ])
      titleds == TLCEval([ k \in 1..(w + u) |-> titled(k) ])
      causes == TLCEval([ k \in 1..(w + u) |-> IF IsRec(alone(k)) THEN {} ELSE cause(k) ])
  IN IF ~(e.text # << >> /\ e.text[Len(e.text)] = LF /\ \A k \in 1..w : IsWhole(gs[k]))
        \/ Len(before) # w + u
        \/ \E k \in 1..(w + u) : LET g == grp(k) ls2 == src(k) IN
              ~(before[k].ev = "TL" /\ Chomp(before[k].l1) = Chomp(ls2[g.at + g.len - 2]) /\ Chomp(before[k].l2) = Chomp(ls2[g.at + g.len - 1]))
     THEN "trace: the session does not parse each record of the catalogue on its own"
     ELSE (Need(nr = fr + Len(okU), "wrong number of records")
           ?? Need(\A m \in 1..nr : o.recs[m] \in sames[recAt(m)], "a record differs from the one its lines denote, or is out of order")
           ?? Need(\A m \in 1..nr : o.recs[m] \in titleds[recAt(m)], "a record carries the wrong title")
           ?? Need(ne = fe + Len(badU) + Cardinality(rest), "wrong number of errors")
           ?? Need(\A m \in 1..(fe + Len(badU)) : o.at[m] = shift(m) + grp(errAt(m)).at - 1, "an error has the wrong position")
           ?? Need(\A m \in 1..(fe + Len(badU)) : o.errs[m] \in causes[errAt(m)], "an error has another cause than the record on its own")
           ?? Need(\A k \in rest : o.at[ne] = period * e.n + gt[k].at - 1, "an incomplete record has the wrong position")
           ?? Need(\A k \in rest : gt[k].kind = "single" /\ o.errs[ne] > 0 => o.causes[o.errs[ne]].k = "linecount", "a left-over line is not reported as a bad line count"))

(* ------------------------------------------------------------------- C06 -- *)
(* Session: PA text, then (if the text has element lines) TL on its last two    *)
(* non-blank lines and PM on the text.                                          *)
Routes(e, before) ==
  LET ls == Lines(IF e.ev = "TL" THEN before[1].text ELSE e.text)
      n == Len(ls)
  IN CASE e.ev = "PA" ->
            IF n \notin {2, 3} THEN Need(e.out.k = "linecount", "wrong line count not reported as such")
            ELSE IF ls[n - 1][1] # 49 \/ ls[n][1] # 50
            THEN Need(e.out.k = "linecheck", "wrong line numbers not reported as such")
            ELSE (Need(e.out.k \notin {"linecheck", "linecount"}, "line rules refused a text that satisfies them")
                  ?? Need(IsRec(e.out) => e.out.named = (n = 3), "name invented or lost")
                  ?? Need(IsRec(e.out) /\ n = 3 => e.out.name = TitleName(ls[1]), "wrong name"))
       [] e.ev = "TL" ->
            LET p == before[1].out IN
            IF e.l1 # ls[n - 1] \/ e.l2 # ls[n] THEN "trace: other lines"
            ELSE (Need(IsRec(p) <=> IsRec(e.out), "text and lines disagree on acceptance")
                  ?? Need(IsRec(p) => p.fp = e.out.fp, "text and lines give different records")
                  ?? Need(~IsRec(p) => p = e.out, "text and lines give different errors"))
       [] e.ev = "PM" ->
            LET p == before[1].out IN
            IF ~IsRec(p) THEN "ok"
            ELSE (Need(Len(e.out.recs) = 1 /\ e.out.errs = << >>, "the same text is not one record as a catalogue")
                  ?? Need(e.out.recs[1].fp = p.fp, "the same text gives another record as a catalogue")
                  ?? Need(e.out.recs[1].named = p.named /\ e.out.recs[1].name = p.name, "the same text gives another name as a catalogue"))

(* ------------------------------------------------------------ C16 (text) -- *)
FiniteRec(o) == \A f \in {"epochdays", "ndot", "nddot", "bstar", "inclo", "nodeo", "ecco", "argpo", "mo", "no"} : FFinite(o[f])
AllFinite(e) ==
  LET rs == IF e.ev = "PM" THEN e.out.recs ELSE IF IsRec(e.out) THEN << e.out >> ELSE << >>
  IN Need(\A k \in DOMAIN rs : FiniteRec(rs[k]), "a record was accepted with an element that is not a finite number")

Judge(e, before) ==
  IF Lost(e) THEN "the call did not return: " \o e.out.k
  ELSE CASE Prop = "C01" -> Total(e)
         [] Prop = "C02" -> Decoded(e)
         [] Prop = "C03" -> Diagnosed(e)
         [] Prop \in {"C04", "C05"} -> IF e.ev = "PM" THEN Catalogued(e, before) ELSE IF e.ev = "PR" THEN Repeated(e, before) ELSE "ok"
         [] Prop = "C06" -> Routes(e, before)
         [] Prop = "C16" -> AllFinite(e)

TraceInit == sess \in 1..Len(Log) /\ pos = 0 /\ why = "ok"
TraceNext == /\ why = "ok"
             /\ pos < Len(Log[sess].events)
             /\ pos' = pos + 1
             /\ why' = Judge(Log[sess].events[pos + 1], SubSeq(Log[sess].events, 1, pos))
             /\ UNCHANGED sess
Conforms == why = "ok"
=============================================================================
