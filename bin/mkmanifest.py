#!/usr/bin/env python3
"""Writes MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+/TLC: trace validation of the real crate"
GEN = " + TLC-generated behaviours replayed into it"
MC = " + exhaustive model check of %s"
NUM = ("Numbers in the specification are IEEE doubles (TLC operator overrides in java/Float64.java, trusted); tolerances come from the specification's own "
       "rounding-error estimate. Assurance is for the inputs explored, chosen by class by TLC and concretised from VERIF_SEED; calls sitting on a threshold of the theory are counted as undecided.")
T = {
 "C01": (TV + " (text)", "Every recorded call must end in a record or an error. Systematic damage to every column, every truncation, all short line heads, and random texts; inputs outside those classes are sampled only."),
 "C02": (TV + " against Tle.tla", "Values compared with the column grammar of Tle.tla, evaluated with exact decimal conversion. Grey (non-standard) texts are left open."),
 "C03": (TV + " against Tle.tla", "First offending field, kind, range and text are those of the grammar, for every column, field and truncation and for random multiple damage."),
 "C04": (TV + GEN + MC % "CatalogModel", "All catalogues of up to 4 (thorough: 5) records over 5 title kinds, generated by TLC, plus long random ones and texts of more than 65536 lines or records; line reader model checked exhaustively in the same bounds, with the induction step that extends it to any length."),
 "C05": (TV + GEN + MC % "CatalogModel", "All catalogues of up to 3 (thorough: 4) records over fates and tails, generated by TLC, plus long random ones and texts of more than 65536 records."),
 "C06": (TV + GEN + MC % "CatalogModel", "All line-count/leading-character/title/fate combinations generated by TLC; routes compared with one another."),
 "C07": (TV + GEN + MC % "CalendarModel", "Every date 1901-2099 and every day of every year is replayed; times of day are sampled. The calendar itself is model checked day by day over the range."),
 "C08": (TV + " (date against offset)", "Offsets since epoch are computed exactly (integer days and nanoseconds) in Instants.tla; the outcome at a date must lie within the resolution of a Julian date of the outcome at that offset."),
 "C09": (TV + " against Sidereal.tla", "IAU-1982 polynomial in the specification; Julian dates and instants sampled over 1900-2100, all midnights (thorough) and neighbourhoods of the wrap."),
 "C10": (TV + " against Sgp4.tla" + GEN, NUM + " Sgp4.tla is anchored to the published verification vectors (Sgp4Vectors, checked on each run)."),
 "C11": (TV + " against Sgp4.tla" + GEN, NUM + " Sgp4.tla is anchored to the published verification vectors (Sgp4Vectors, checked on each run)."),
 "C12": (TV + " against Sgp4.tla" + GEN + MC % "Integrator", NUM + " Sgp4.tla is anchored to the published verification vectors (Sgp4Vectors, checked on each run)."),
 "C13": (TV + GEN + MC % "Session and Integrator", "TLC enumerates histories (orders of times, copies, other records, threads, dates); each is replayed and every outcome must be bit-identical to that of a record without a past. Thread schedules are those the machine happened to produce."),
 "C14": (TV + GEN + MC % "Session", "TLC enumerates (first life, second life, modes, use in between); each is replayed and compared bit for bit with a fresh record."),
 "C15": (TV + " against Sgp4.tla" + MC % "Session", NUM),
 "C16": (TV + MC % "Session", "Structural judgement of every recorded outcome (finite, above the surface, defined inputs) over wild elements and times; no tolerance other than 1 mm on the radius."),
 "C17": (TV + GEN + MC % "Integrator" + " + Apalache: inductive invariant of IntegratorProof", "TLC enumerates request sequences; each is replayed both resumed and restarted. The restart rule is model checked exhaustively in small bounds, and proved without bounds on times and histories (in the specification; the crate is bound to it by the replayed sequences)."),
 "C18": (TV + " against Frames.tla" + MC % "FramesModel", "Rotation laws model checked on exact rational rotations; calls compared with the specification to 8 units in the last place."),
 "C19": (TV + " against Frames.tla" + GEN, "The returned coordinates are mapped back by the specification and must denote the same point within 1 mm plus rounding."),
 "C20": (TV + " against Frames.tla" + GEN + MC % "FramesModel", "Bearings are judged by where they point, not by formula."),
 "C21": (TV + " against Frames.tla" + GEN + MC % "FramesModel", "Sign and value judged against the change of distance; differences below rounding of the distances are left open."),
 "C22": (TV + " against Frames.tla", "All helpers at bounds, floating-point neighbours of the bounds, and random values."),
 "C23": (TV + " against Sgp4.tla" + GEN, NUM),
 "C24": (TV + " against Sgp4.tla" + GEN, NUM + " Thresholds are approached down to a few units in the last place."),
 "C25": (TV + " against Track.tla (text, orbit, time and frames composed)" + GEN, NUM + " The whole documented sequence is one event, judged by the composed specification; positions within the resolution of a Julian date."),
 "C26": (TV + " against Symmetry.tla" + GEN + MC % "SymmetryModel (the laws on Sgp4.tla)", "The crate is compared with itself, not with reference positions; the specification supplies rounding bounds and discontinuities only. The same laws are model checked on Sgp4.tla over a grid of every branch, which examines the specification independently of published vectors."),
 "C27": (TV + " against Stages.tla" + GEN, NUM + " Each stage is called on its own with arguments a propagation would not give it; the specification composes the same stages into the theory, which is anchored to the published vectors."),
}
m = {"version": 1, "setup_cmd": "python3 bin/check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(T.items())],
     "not_applicable": [],
     "notes": "Specification language: TLA+, checked with TLC (see DESIGN.md). No hooks in /repo are needed. Known and fixed defects: KNOWN_FINDINGS.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
