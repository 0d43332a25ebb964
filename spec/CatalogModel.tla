---------------------------- MODULE CatalogModel ----------------------------
(* A writer emits any mixture of records (with and without title, sound or      *)
(* damaged in their fields, with titles of every kind, of different satellites  *)
(* or of one and the same), blank lines, and at the end possibly an incomplete  *)
(* record; the reader then reads line by line.                                  *)
(* Checked: each record is recovered exactly once, in order, and a damaged one  *)
(* costs only itself.                                                           *)
EXTENDS Catalog, TLC
CONSTANT MaxRecords

(* kind: title of the record; state: fate of its fields *)
Titles == {"none", "plain", "zero", "one", "two"}     \* "0 ..", "1 ..", "2 .." titles
Fates  == {"ok", "bad"}
Sats   == 1..2                                       \* whose element set it is
TitleClass(t) == CASE t = "one" -> "1" [] t = "two" -> "2" [] OTHER -> "t"

(* The step on which catalogues of any length rest: a record is consumed whole,  *)
(* and as what it is, whatever follows it.  GroupAt looks at two lines and at    *)
(* whether a third exists, so what follows matters by at most its first line.    *)
RecordClasses(t) == (IF t = "none" THEN << >> ELSE << TitleClass(t) >>) \o << "1", "2" >>
Following == { << >> } \cup [ 1..1 -> {"1", "2", "t"} ] \cup [ 1..2 -> {"1", "2", "t"} ]
ASSUME \A t \in Titles, f \in Following :
         GroupAt(RecordClasses(t) \o f, 1) =
           [ at |-> 1, kind |-> IF t = "none" THEN "untitled" ELSE "titled", len |-> Len(RecordClasses(t)) ]

VARIABLES written,    \* records written, in order
          lines,      \* << [cls, rec, part] >> non-blank lines written
          tail,       \* incomplete trailing lines
          phase, cur, recs, errs
vars == << written, lines, tail, phase, cur, recs, errs >>

LineOf(id, part, cls, fate, sat) == [ rec |-> id, part |-> part, cls |-> cls, fate |-> fate, sat |-> sat ]
Emit(id, title, fate, sat) ==
  (IF title = "none" THEN << >> ELSE << LineOf(id, "title", TitleClass(title), fate, sat) >>)
  \o << LineOf(id, "l1", "1", fate, sat), LineOf(id, "l2", "2", fate, sat) >>

Init == /\ written = << >> /\ lines = << >> /\ tail = << >> /\ phase = "write"
        /\ cur = 1 /\ recs = << >> /\ errs = << >>

Write == /\ phase = "write" /\ Len(written) < MaxRecords
         /\ \E t \in Titles, f \in Fates, w \in Sats :
              /\ written' = Append(written, [ title |-> t, fate |-> f, sat |-> w, at |-> Len(lines) + 1 ])
              /\ lines' = lines \o Emit(Len(written) + 1, t, f, w)
         /\ UNCHANGED << tail, phase, cur, recs, errs >>
(* An incomplete record at the end: a title, a line 1, or a title and a line 1. *)
Tails == { << >>, << LineOf(0, "title", "t", "ok", 0) >>, << LineOf(0, "l1", "1", "ok", 0) >>,
           << LineOf(0, "title", "t", "ok", 0), LineOf(0, "l1", "1", "ok", 0) >> }
Finish == /\ phase = "write"
          /\ \E t \in Tails : tail' = t /\ lines' = lines \o t
          /\ phase' = "read"
          /\ UNCHANGED << written, cur, recs, errs >>

Cls == [ k \in DOMAIN lines |-> lines[k].cls ]
Read == /\ phase = "read" /\ cur <= Len(lines)
        /\ LET g == GroupAt(Cls, cur)
               l1 == lines[cur + g.len - 2]
               l2 == lines[cur + g.len - 1]
           IN /\ cur' = cur + g.len
              /\ IF g.kind \in {"single", "incomplete"}
                 THEN errs' = Append(errs, [ at |-> cur, rec |-> 0 ]) /\ recs' = recs
                 ELSE IF l1.part = "l1" /\ l2.part = "l2" /\ l1.rec = l2.rec /\ l1.fate = "ok"
                 THEN /\ recs' = Append(recs, [ rec |-> l1.rec,
                                                title |-> IF g.kind = "titled" THEN lines[cur].rec ELSE 0,
                                                sat |-> l1.sat ])
                      /\ errs' = errs
                 ELSE errs' = Append(errs, [ at |-> cur, rec |-> l1.rec ]) /\ recs' = recs
        /\ UNCHANGED << written, lines, tail, phase >>
Next == Write \/ Finish \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

Finished == phase = "read" /\ cur > Len(lines)
Ids == [ k \in 1..Len(written) |-> k ]
Sound == SelectSeq(Ids, LAMBDA k : written[k].fate = "ok")
Broken == SelectSeq(Ids, LAMBDA k : written[k].fate = "bad")

(* each sound record exactly once, in order, with its own title *)
Recovered == Finished =>
  recs = [ k \in 1..Len(Sound) |-> [ rec |-> Sound[k],
            title |-> IF written[Sound[k]].title = "none" THEN 0 ELSE Sound[k],
            sat |-> written[Sound[k]].sat ] ]
(* exactly one error per damaged record, at its first line, plus one for a tail *)
Isolated == Finished =>
  errs = [ k \in 1..Len(Broken) |-> [ at |-> written[Broken[k]].at, rec |-> Broken[k] ] ]
         \o (IF tail = << >> THEN << >> ELSE << [ at |-> Len(lines) - Len(tail) + 1, rec |-> 0 ] >>)
(* the step-by-step reader is the closed form used by the trace specification *)
SameGroups == phase = "read" => \A g \in Range(Groups(Cls)) : g = GroupAt(Cls, g.at)
(* A catalogue of whole records followed by anything reads as the one and then   *)
(* the other: what a trace of a text repeated many times is judged by.          *)
Shifted(gs, by) == [ k \in DOMAIN gs |-> [ gs[k] EXCEPT !.at = @ + by ] ]
Compositional == phase = "read" =>
  \A k \in 0..Len(Cls) :
     LET a == SubSeq(Cls, 1, k)
         b == SubSeq(Cls, k + 1, Len(Cls))
     IN (\A g \in Range(Groups(a)) : g.kind \in {"titled", "untitled"})
        => Groups(Cls) = Groups(a) \o Shifted(Groups(b), k)
Progress == [][phase = "read" /\ phase' = "read" => cur' > cur]_vars
=============================================================================
