------------------------------ MODULE Catalog ------------------------------
(* How a text is divided into lines and a catalogue into records.               *)
(* The reader is a left-to-right machine over the non-blank lines: an element   *)
(* line 1 directly followed by an element line 2 is a record without a title;   *)
(* otherwise the line is the title of the record made of the next two lines.    *)
EXTENDS Integers, Sequences, SequencesExt

(* ---- abstract reader: works on any sequence of lines, given a classifier    *)
(* cls[k] = "1", "2" (starts like that element line) or "t" (anything else).    *)
GroupAt(cls, i) ==
  IF i + 1 <= Len(cls) /\ cls[i] = "1" /\ cls[i + 1] = "2"
  THEN [ at |-> i, kind |-> "untitled", len |-> 2 ]
  ELSE IF i + 2 <= Len(cls) THEN [ at |-> i, kind |-> "titled", len |-> 3 ]
  ELSE [ at |-> i, kind |-> IF i = Len(cls) THEN "single" ELSE "incomplete", len |-> Len(cls) - i + 1 ]

RECURSIVE GroupsFrom(_, _)
GroupsFrom(cls, i) ==
  IF i > Len(cls) THEN << >>
  ELSE LET g == GroupAt(cls, i) IN << g >> \o GroupsFrom(cls, i + g.len)
Groups(cls) == GroupsFrom(cls, 1)

(* ---- concrete lines *)
LF == 10
LOCAL IsSpace2(b) == b = 32 \/ b \in 9..13
BlankLine(s) == \A k \in DOMAIN s : IsSpace2(s[k])
SplitLines(text) ==
  LET n == Len(text)
      cuts == << 0 >> \o SelectSeq([ k \in 1..n |-> k ], LAMBDA k : text[k] = LF) \o << n + 1 >>
  IN [ j \in 1..(Len(cuts) - 1) |-> SubSeq(text, cuts[j] + 1, cuts[j + 1] - 1) ]
Lines(text) == SelectSeq(SplitLines(text), LAMBDA l : ~BlankLine(l))
Starts(l, c) == Len(l) >= 2 /\ l[1] = c /\ l[2] = 32
Class(l) == IF Starts(l, 49) THEN "1" ELSE IF Starts(l, 50) THEN "2" ELSE "t"
Classes(ls) == [ k \in DOMAIN ls |-> Class(ls[k]) ]
=============================================================================
