-------------------------------- MODULE Tle --------------------------------
(* The fixed-column text format of two-line element sets.  Lines are sequences  *)
(* of bytes.  Decode(l1, l2) says what two element lines denote:                *)
(*   "good"  every field is well formed, and these are the values               *)
(*   "bad"   this is the first field that is not a number of its kind           *)
(*   "grey"  the lines are neither clearly well formed nor clearly malformed    *)
(*           (blanks inside implied-decimal fields, exponents in plain decimals,*)
(*           multi-byte characters before a field, ...): the format does not    *)
(*           say what they mean, so no outcome but a crash is wrong.            *)
EXTENDS Instants, FiniteSets

IsSpace(b) == b = 32 \/ b \in 9..13
IsDigit(b) == b \in 48..57
AllDigits(s) == \A k \in DOMAIN s : IsDigit(s[k])
Blank(s) == \A k \in DOMAIN s : IsSpace(s[k])

Trim(s) == IF Blank(s) THEN << >>
           ELSE LET solid == { k \in DOMAIN s : ~IsSpace(s[k]) }
                    lo == CHOOSE k \in solid : \A j \in solid : k <= j
                    hi == CHOOSE k \in solid : \A j \in solid : k >= j
                IN SubSeq(s, lo, hi)

(* Columns lo..hi-1 (counted from 0); empty if the line does not reach that far. *)
Cols(line, lo, hi) == IF Len(line) >= hi THEN SubSeq(line, lo + 1, hi) ELSE << >>

(* First column with a byte of a multi-byte character; beyond the line if none. *)
Exotic(line) == LET x == { k \in DOMAIN line : line[k] >= 128 }
                IN IF x = {} THEN 1000000 ELSE (CHOOSE k \in x : \A j \in x : k <= j) - 1

(* ------------------------------------------------------------ plain numbers *)
MinusSign == 45
PlusSign  == 43
Point == 46
Signed(s)   == s # << >> /\ s[1] \in {MinusSign, PlusSign}
Magnitude(s) == IF Signed(s) THEN Tail(s) ELSE s
Negative(s) == s # << >> /\ s[1] = MinusSign
Digits(s) == [ k \in DOMAIN s |-> s[k] - 48 ]

IntShape(s) == LET m == Magnitude(s) IN m # << >> /\ AllDigits(m)
RECURSIVE NatOf(_)
NatOf(m) == IF m = << >> THEN 0 ELSE (10 * NatOf(SubSeq(m, 1, Len(m) - 1))) + (m[Len(m)] - 48)
IntOf(s) == IF Negative(s) THEN -NatOf(Magnitude(s)) ELSE NatOf(Magnitude(s))

PointsIn(m) == { k \in DOMAIN m : m[k] = Point }
PlainShape(m) == /\ \A k \in DOMAIN m : IsDigit(m[k]) \/ m[k] = Point
                 /\ \E k \in DOMAIN m : IsDigit(m[k])
                 /\ Cardinality(PointsIn(m)) <= 1
DecShape(s) == PlainShape(Magnitude(s))
ExpShape(s) == LET m == Magnitude(s) IN
  \E k \in DOMAIN m : /\ m[k] \in {69, 101}
                      /\ PlainShape(SubSeq(m, 1, k - 1))
                      /\ IntShape(SubSeq(m, k + 1, Len(m)))
DecOf(s) ==
  LET m == Magnitude(s)
      p == IF PointsIn(m) = {} THEN Len(m) + 1 ELSE CHOOSE k \in PointsIn(m) : TRUE
      whole == SubSeq(m, 1, p - 1)
      frac  == SubSeq(m, p + 1, Len(m))
  IN FDec(Negative(s), Digits(whole \o frac), 0 - Len(frac))

(* ------------------------------------------------------------ field verdicts *)
Good(v) == [ st |-> "good", v |-> v ]
Grey    == [ st |-> "grey" ]
Bad(kind, name, lo, hi, text, exact) ==
  [ st |-> "bad", kind |-> kind, name |-> name, lo |-> lo, hi |-> hi, text |-> text, exact |-> exact ]

(* Is the character at column x white space outside ASCII? (may count as blank) *)
ExoticSpace(line, x) ==
  LET b == line[x + 1]
      c == IF x + 2 <= Len(line) THEN line[x + 2] ELSE 0
  IN (b = 194 /\ c \in {133, 160}) \/ (b = 225 /\ c = 154) \/ (b = 226 /\ c \in {128, 129}) \/ (b = 227 /\ c = 128)
(* Non-ASCII text: before the field the columns are not defined; inside it, the *)
(* field is not a number, and its text may be cut anywhere.                     *)
Guarded(line, lo, hi, bad, verdict) ==
  LET x == Exotic(line) IN
  IF x >= hi THEN verdict
  ELSE IF x < lo \/ ExoticSpace(line, x) THEN Grey
  ELSE [ bad EXCEPT !.exact = FALSE ]

IntField(line, name, lo, hi) ==
  LET raw == Cols(line, lo, hi)
      t == Trim(raw)
      bad == Bad("int", name, lo, hi, raw, Len(line) >= hi)
  IN Guarded(line, lo, hi, bad, IF IntShape(t) THEN Good(IntOf(t)) ELSE bad)

DecField(line, name, lo, hi) ==
  LET raw == Cols(line, lo, hi)
      t == Trim(raw)
      bad == Bad("float", name, lo, hi, raw, Len(line) >= hi)
  IN Guarded(line, lo, hi, bad,
             IF DecShape(t) THEN Good(DecOf(t)) ELSE IF ExpShape(t) THEN Grey ELSE bad)

(* Sign, five digits with an implied leading decimal point, and an exponent of  *)
(* ten: columns at..at+7. Blanks around the digits stand for zeros.             *)
DragField(line, name, at) ==
  LET raw  == Cols(line, at, at + 8)
      sign == raw[1]
      mant == SubSeq(raw, 2, 6)
      ex   == SubSeq(raw, 7, 8)
      bad  == Bad("compound", name, 0, 0, << >>, FALSE)
      full == [ k \in DOMAIN mant |-> IF mant[k] = 32 THEN 48 ELSE mant[k] ]
      clean == /\ sign \in {32, PlusSign, MinusSign}
               /\ AllDigits(full) /\ AllDigits(Trim(mant))
               /\ ex[1] \in {PlusSign, MinusSign} /\ IsDigit(ex[2])
      hopeless == \/ ~IntShape(Trim(ex))
                  \/ ~(IsSpace(sign) \/ sign \in {PlusSign, MinusSign} \/ IsDigit(sign))
  IN Guarded(line, at, at + 8, bad,
             IF raw = << >> THEN bad
             ELSE IF clean
             THEN Good(FDec(sign = MinusSign, Digits(full), IntOf(ex) - 5))
             ELSE IF hopeless THEN bad ELSE Grey)

EccField(line) ==
  LET raw == Cols(line, 26, 33)
      bad == Bad("compound", "ecco", 0, 0, << >>, FALSE)
      odd(b) == ~(IsDigit(b) \/ IsSpace(b) \/ b \in {69, 101, PlusSign, MinusSign})
  IN Guarded(line, 26, 33, bad,
             IF raw = << >> \/ Blank(raw) THEN bad
             ELSE IF AllDigits(raw) THEN Good(FDec(FALSE, Digits(raw), -7))
             ELSE IF \E k \in DOMAIN raw : odd(raw[k]) THEN bad ELSE Grey)

SatnumField(line) ==
  LET x == Exotic(line)
      bad == Bad("compound", "satnum", 0, 0, << >>, FALSE)
  IN IF x < 7 THEN Grey ELSE IF Len(line) < 7 THEN bad ELSE Good(Trim(Cols(line, 2, 7)))

(* ------------------------------------------------------------ two lines *)
Fields(l1, l2) == <<
  SatnumField(l1),
  IntField(l1, "epochyr", 18, 20),
  DecField(l1, "epochdays", 20, 32),
  DecField(l1, "ndot", 33, 43),
  IntField(l1, "nndot frac", 44, 50),
  DragField(l1, "nndot", 44),
  IntField(l1, "bstar frac", 54, 59),
  DragField(l1, "bstr", 53),
  DecField(l2, "inclo", 8, 16),
  DecField(l2, "nodeo", 17, 25),
  EccField(l2),
  DecField(l2, "argpo", 34, 42),
  DecField(l2, "mo", 43, 51),
  DecField(l2, "no", 52, 63) >>

Decode(l1, l2) ==
  LET f == Fields(l1, l2)
      notgood == { k \in DOMAIN f : f[k].st # "good" }
  IN IF notgood = {}
     THEN [ st |-> "good", satnum |-> f[1].v, epochyr |-> f[2].v, epochdays |-> f[3].v, ndot |-> f[4].v,
            nddot |-> f[6].v, bstar |-> f[8].v, inclo |-> f[9].v, nodeo |-> f[10].v, ecco |-> f[11].v,
            argpo |-> f[12].v, mo |-> f[13].v, no |-> f[14].v ]
     ELSE f[CHOOSE k \in notgood : \A j \in notgood : k <= j]

(* The record two well-formed lines denote, in the units of the crate. *)
RecordOf(d) ==
  LET no == d.no // Xpdotp
      a == FPow(no ** Tumin, FNeg(TwoThirds))
  IN [ satnum |-> d.satnum, epochyr |-> d.epochyr, epochdays |-> d.epochdays,
       ndot |-> d.ndot // (Xpdotp ** R("1440")),
       nddot |-> d.nddot // (Xpdotp ** R("1440") ** R("1440")),
       bstar |-> d.bstar, inclo |-> d.inclo ** DegToRad, nodeo |-> d.nodeo ** DegToRad,
       ecco |-> d.ecco, argpo |-> d.argpo ** DegToRad, mo |-> d.mo ** DegToRad, no |-> no,
       a |-> a, alta |-> (a ** (One ++ d.ecco)) -- One, altp |-> (a ** (One -- d.ecco)) -- One ]
=============================================================================
