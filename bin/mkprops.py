#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

IO = "src/io.rs"; SG = "src/propogation/sgp4.rs"; SI = "src/propogation/sgp4init.rs"
DP = "src/propogation/dpper.rs"; DC = "src/propogation/dscom.rs"; DI = "src/propogation/dsinit.rs"; DS = "src/propogation/dspace.rs"
IN = "src/propogation/initl.rs"; EX = "src/ext.rs"; GS = "src/propogation/gstime.rs"; MO = "src/propogation/mod.rs"; TR = "src/transforms.rs"

prop("C01", "Parsing is total: any text yields a record or an error, never a crash",
 "For any text whatsoever - empty, truncated, over-long, non-ASCII, with any mixture of line endings and blank lines - every parsing entry point (single record, two separate lines, catalogue) returns a record or an error. It never panics and always terminates.",
 ["inputs"], "every pair of lines and every text handed to any parsing entry point",
 "The tests parse five well-formed element sets and the text \"Test\"; a crash needs a particular length or a multi-byte character on a particular column.",
 [IO, EX], [("columns are taken with checked slicing", "io.rs columns()/parse_satrec"), ("line filtering and grouping", "io.rs parse, parse_multiple"), ("day-of-year split", "ext.rs days2mdhms")],
 ["io::parse", "io::parse_multiple", "io::twoline2satrec", "io::parse_satrec"])
prop("C02", "Element sets decode to exactly the values written in their columns",
 "For every element set in the standard fixed-column layout, the parsed record carries the catalogue number, epoch, drag terms and mean elements its columns denote, including signs, implied decimal points, leading zeros and exponents. Angles are in radians, mean motion in radians per minute, two-digit years 57-99 mean 1957-1999 and 00-56 mean 2000-2056, and the semi-major axis and apogee and perigee altitudes (in Earth radii) follow from mean motion and eccentricity.",
 ["inputs"], "every well-formed two-line element set",
 "One fully asserted element set: one year, one sign pattern, no leading zeros in any mantissa, no negative drag term.",
 [IO], [("fixed-column field decoding and unit conversion", "io.rs parse_satrec"), ("implied decimal point and exponent of drag terms", "io.rs parse_satrec"), ("year pivot", "io.rs parse_satrec")],
 ["io::parse_satrec", "io::twoline2satrec"])
prop("C03", "Malformed fields are rejected, and the error names the first offending field",
 "Lines in which some numeric field is not a number of the expected kind never become a record. The error identifies the first such field in the order the fields appear (line 1 before line 2): an integer field and a decimal field are reported as such with field name, column range and the text found, a composed field (implied-decimal drag terms and eccentricity) with its name.",
 ["inputs"], "every element set with one or more corrupted fields, over all fields, corruption kinds and pairs of fields",
 "No test feeds a malformed element set to the field decoder and none looks at an error value other than the bad line count.",
 [IO], [("early return on the first field that fails", "io.rs parse_satrec"), ("error construction", "io.rs parse_float, parse_int")],
 ["io::parse_satrec", "io::twoline2satrec", "io::parse", "io::parse_multiple"])
prop("C04", "A catalogue is split into its records: each exactly once, in order, named",
 "Parsing a catalogue made of well-formed records, each either two element lines or a title line followed by two element lines, in any mixture, returns exactly those records in order and no errors. Titled records carry their title (without an optional leading line number 0, trimmed), untitled ones carry no name, and blank lines and the line-ending style (LF or CRLF) make no difference.",
 ["inputs", "histories"], "every sequence of titled and untitled records with any placement of blank lines and either line ending",
 "The only catalogue test parses the single word \"Test\"; record-boundary behaviour depends on the whole sequence of line kinds.",
 [IO], [("grouping loop over non-blank lines", "io.rs parse_multiple"), ("title handling", "io.rs title_name")],
 ["io::parse_multiple"], [("line cursor", "first line of the group being read", "io.rs parse_multiple")])
prop("C05", "A malformed record in a catalogue costs only itself",
 "In a catalogue where some records contain malformed fields or orbits that cannot be initialised, every other record is returned exactly as if the bad ones were absent. Each bad record yields exactly one error, which carries the position of that record's first line among the non-blank lines and the same cause that parsing the record on its own reports; a left-over incomplete record at the end yields one error at its position, a bad line count if it is a single line.",
 ["inputs", "histories"], "every catalogue with any subset of its records malformed, and any incomplete tail",
 "No test mixes good and bad records; position accounting depends on everything before the bad record.",
 [IO], [("error accumulation with position", "io.rs parse_multiple"), ("cursor advance after a failed group", "io.rs parse_multiple")],
 ["io::parse_multiple"])
prop("C06", "Single-record parsing enforces its line rules and agrees with other routes",
 "Parsing a text as one record succeeds only if it has exactly two or exactly three non-blank lines and the last two start with 1 and 2; other line counts and wrong line numbers give their own distinct errors before any field is looked at. On success the record and its name are the same as those obtained by parsing the two lines directly, or the text as a catalogue.",
 ["inputs", "histories"], "every text, over line counts, leading characters, titles, blank lines and line endings",
 "Two texts (one titled, one not) are tested, and only the name is compared.",
 [IO], [("line count and line number checks", "io.rs parse"), ("shared decoder", "io.rs twoline2satrec")],
 ["io::parse", "io::twoline2satrec", "io::parse_multiple"])
prop("C07", "Dates and Julian dates follow the calendar",
 "For every year from 1901 to 2099 and every day of year with fraction, the split into month, day, hour, minute and second names the same instant, with every component in range. For every date from 1901 to 2099 the Julian date is that of the Gregorian calendar, advancing by exactly one per day and in proportion within the day, and the epoch stored for a parsed element set is the Julian date of its year and day.",
 ["inputs"], "every year 1901-2099, every day of the year including leap days, every time of day",
 "One epoch is checked, in a leap year after February.",
 [EX, IO], [("month table and leap rule", "ext.rs days2mdhms"), ("Julian date formula", "ext.rs jday"), ("epoch computation", "io.rs parse_satrec")],
 ["ext::days2mdhms", "ext::jday", "ext::jday_datetime", "io::parse_satrec"])
prop("C08", "Propagating to a date equals propagating by the minutes since epoch",
 "For every record and every UTC instant from 1901 to 2099, propagating to the instant gives the same outcome as propagating by the exact number of minutes between the record's epoch and that instant, sub-second part included and also for instants before the epoch. It never changes the record, whatever the outcome.",
 ["inputs", "histories"], "every record and every instant within 1957-2099, in any order of calls",
 "No test calls the datetime entry points at all.",
 [MO, EX], [("instant to Julian date to minutes", "mod.rs propogate_datetime"), ("work on a private copy", "mod.rs propogate_datetime")],
 ["propogation::propogate_datetime", "ext::jday_datetime"])
prop("C09", "Sidereal time is the standard function of the Julian date, in one turn",
 "For every Julian date from 1900 to 2100 the Greenwich sidereal angle equals the IAU-1982 value and lies in [0, 2*pi]; it advances by 1.0027379 turns per day with no jumps other than the wrap. The datetime variant gives the angle of that instant, sub-second part included.",
 ["inputs"], "every Julian date and UTC instant between 1900 and 2100",
 "One Julian date (after 1980, positive before the wrap correction is needed) is tested.",
 [GS, EX], [("polynomial and reduction to one turn", "gstime.rs gstime"), ("datetime variant", "gstime.rs gstime_datetime")],
 ["propogation::gstime::gstime", "propogation::gstime::gstime_datetime"])
prop("C10", "Near-Earth propagation follows the published SGP4 theory",
 "For every element set with a period under 225 minutes and every time offset (positive or negative), the propagated position and velocity are those of the published SGP4 model with WGS-84 constants, to well below a metre. This covers low and very low perigees, near-circular and eccentric orbits, all inclinations including 0 and 180 degrees, and any drag term.",
 ["inputs"], "all near-Earth element sets and time offsets within about +-60 days",
 "One orbit at two times with a tolerance of 100 m; drag regimes, perigee classes, retrograde and near-circular special cases are not reached.",
 [SG, SI, IN], [("mean motion recovery", "initl.rs"), ("drag and secular coefficients", "sgp4init.rs"), ("secular, long and short period update, Kepler solution", "sgp4.rs")],
 ["propogation::sgp4::sgp4", "propogation::sgp4init::sgp4init"])
prop("C11", "Deep-space propagation follows the published SDP4 lunar-solar theory",
 "For every non-resonant element set with a period of at least 225 minutes and every time offset, the propagated position and velocity are those of the published deep-space model: lunar and solar secular rates and long-period terms applied to all orbital elements, with the low-inclination treatment below 0.2 rad and the equatorial exclusions at 3 degrees of 0 and 180. Accuracy is well below a metre.",
 ["inputs"], "all non-resonant deep-space element sets and time offsets within about +-1 year",
 "One orbit at two times with a tolerance of 50 km; the low-inclination branch, retrograde and near-equatorial cases are not reached.",
 [SG, SI, DC, DP, DI, DS], [("lunar-solar coefficients", "dscom.rs"), ("secular rates", "dsinit.rs"), ("secular application", "dspace.rs"), ("long-period terms", "dpper.rs")],
 ["propogation::sgp4::sgp4", "propogation::dpper::dpper", "propogation::dscom::dscom"])
prop("C12", "Resonant orbits follow the published resonance theory",
 "For one-day (synchronous) and half-day eccentric orbits and every time offset forwards or backwards, the propagated position and velocity are those of the published resonance integration in 720-minute steps from epoch. This holds over all eccentricity bands of the half-day coefficients and across step boundaries, to well below a metre.",
 ["inputs"], "all synchronous and half-day resonant element sets, time offsets over hundreds of integration steps in both directions, including exact multiples of the step",
 "No test reaches a resonant orbit: the resonance initialisation and integrator run with the resonance flag off only.",
 [DI, DS, SG], [("resonance selection and coefficients", "dsinit.rs"), ("numerical integration", "dspace.rs")],
 ["propogation::sgp4::sgp4", "propogation::dsinit::dsinit", "propogation::dspace::dspace"])
prop("C13", "Propagation results do not depend on what was asked before",
 "The outcome of propagating a record to a time depends only on the element set and that time: not on earlier propagations of the same record (forwards, backwards, repeated or failed), on copies made of it, on other records, or on other threads working on other records. Results are identical, not merely close, and a copy behaves exactly like the original.",
 ["histories", "schedules"], "every interleaving of loads, copies, propagations and datetime propagations over several records and threads",
 "Tests propagate one record forward at two increasing times; no test goes back, retries after a failure, copies, or interleaves records.",
 [SG, MO, IO], [("per-call recomputation of all time-dependent state", "sgp4.rs sgp4"), ("copy before datetime propagation", "mod.rs")],
 ["propogation::sgp4::sgp4", "propogation::propogate_datetime"],
 [("cached deep-space coefficients", "aycof, xlcof, con41, x1mth2, x7thm1 rewritten on each deep-space call", "sgp4.rs"), ("integrator state", "atime, xli, xni", "io.rs Satrec")])
prop("C14", "Re-initialising a record leaves nothing of its previous satellite",
 "Initialising a record that has already been used - for another satellite, another orbit regime, another operation mode, after any propagations or failures - makes it behave exactly like a freshly created record initialised with the same elements, both in the outcome of the initialisation and in every later propagation by a time offset.",
 ["histories"], "every sequence of initialisations and propagations on one record, over pairs of orbit regimes",
 "No test initialises a record twice.",
 [SI], [("reset of all derived fields", "sgp4init.rs"), ("regime flags set afresh", "sgp4init.rs")],
 ["propogation::sgp4init::sgp4init", "propogation::sgp4::sgp4"],
 [("regime flags", "method, isimp, irez", "io.rs Satrec")])
prop("C15", "Failures are reported by the documented code, and the flag is never stale",
 "A propagation fails exactly when the model's validity conditions fail, checked in the documented order: mean motion not positive (2), mean eccentricity outside [-0.001, 1) (1), perturbed eccentricity outside [0, 1] (3), negative semi-latus rectum (4), radius below the Earth's surface (6). After every call the record's error code is that of the returned error, or 0 on success, whatever happened before; a failing initial propagation makes parsing fail with that same error.",
 ["inputs", "histories"], "every record and time, in every order of failing and succeeding calls",
 "No test makes a propagation fail or reads an error code afterwards.",
 [SG, SI, IO], [("validity checks and code table", "sgp4.rs sgp4, SGP4Error::code"), ("flag reset on entry", "sgp4.rs"), ("initial propagation", "sgp4init.rs, io.rs twoline2satrec")],
 ["propogation::sgp4::sgp4", "Satrec.error", "SGP4Error::code", "io::twoline2satrec"])
prop("C16", "A successful propagation is physically meaningful",
 "Whenever propagation succeeds, every component of position and velocity is a finite number and the satellite is not below the Earth's equatorial radius; undefined inputs (a NaN or infinite time, NaN elements, non-positive mean motion) give an error, never undefined vectors. No record is ever accepted from text with an element that is not a finite number.",
 ["inputs"], "every element set, including degenerate ones, and every time offset up to 1e9 minutes, plus NaN times",
 "The tests only look at valid orbits near epoch.",
 [SG, IO], [("range checks that also reject NaN", "sgp4.rs"), ("finite-number check on decimal fields", "io.rs parse_float")],
 ["propogation::sgp4::sgp4", "io::parse_satrec"])
prop("C17", "The resonance integrator gives the same answer resumed or restarted",
 "Feeding the integrator state returned by one deep-space secular update into the next, in any sequence of times forwards, backwards and across the epoch, gives the same elements as starting afresh from epoch for each time. The returned integrator time is always the whole number of 720-minute steps towards the requested time that is nearest below it in magnitude.",
 ["histories"], "every sequence of requested times, for one-day, half-day and non-resonant orbits",
 "The single test runs the update once at time zero with resonance off.",
 [DS], [("restart condition and stepping loop", "dspace.rs dspace")],
 ["propogation::dspace::dspace"], [("integrator state", "atime, xli, xni passed in and returned", "dspace.rs")])
prop("C18", "Inertial and Earth-fixed frames are related by a pure rotation about the pole",
 "For every vector and sidereal angle, converting inertial to Earth-fixed coordinates rotates by minus the angle about the polar axis and the reverse conversion undoes it (to rounding): lengths and the polar component are preserved, angles add under composition, and whole turns make no difference. A point fixed on the Earth moves eastward in inertial space as the angle grows.",
 ["inputs"], "every vector and every angle",
 "Both directions are tested at angle zero only, where any rotation or even the identity passes.",
 [TR], [("rotation matrices", "transforms.rs eci_to_ecf, ecf_to_eci")],
 ["transforms::eci_to_ecf", "transforms::ecf_to_eci"])
prop("C19", "Geodetic coordinates describe the same point and invert each other",
 "For every point from 100 km below to 500000 km above the WGS-84 ellipsoid - poles, equator and date line included - and any sidereal angle, the geodetic latitude, longitude and height computed from its inertial position denote that same point to better than a millimetre-scale tolerance. Latitude lies in [-pi/2, pi/2] and longitude in [-pi, pi], and converting geodetic coordinates to Earth-fixed ones lands on the ellipsoid normal at the given height.",
 ["inputs"], "every geodetic position and every sidereal angle, also outside one turn",
 "No test calls the inertial-to-geodetic conversion; the forward conversion is tested through one look-angle case.",
 [TR], [("latitude iteration, height, longitude wrap", "transforms.rs eci_to_geodedic"), ("ellipsoid forward formula", "transforms.rs geodedic_to_ecf")],
 ["transforms::eci_to_geodedic", "transforms::geodedic_to_ecf"])
prop("C20", "Look angles point from the observer to the satellite",
 "For every observer and every satellite position other than the observer's own, the south-east-up components are the satellite's offset expressed in the observer's local axes, the range is the straight-line distance, elevation lies in [-pi/2, pi/2] and azimuth in [0, 2*pi] clockwise from north. Going the given range in the given direction from the observer arrives at the satellite.",
 ["inputs"], "every observer (all latitudes, longitudes and heights) and satellite position, including straight overhead and each cardinal direction",
 "One observer and one position, below the horizon to the east-south-east, are tested.",
 [TR, "src/lib.rs"], [("local axes and offset", "transforms.rs topocentric"), ("angles", "transforms.rs topocentric_to_look_angles")],
 ["transforms::topocentric", "transforms::topocentric_to_look_angles", "transforms::ecf_to_look_angles"])
prop("C21", "The Doppler factor rises on approach and falls on recession",
 "The Doppler factor equals one minus the change of observer-satellite distance over the next second divided by the speed of light: above one exactly when the satellite approaches, below one exactly when it recedes, one when the distance does not change. It depends only on the relative geometry, so moving or rotating observer, position and velocity together changes nothing.",
 ["inputs"], "every observer, satellite position and velocity",
 "No test calls it.",
 ["src/doppler_factor.rs", "src/lib.rs", "src/constants.rs"], [("range difference over one second", "doppler_factor.rs"), ("vector distance", "lib.rs Vec3::range")],
 ["doppler_factor::doppler_factor", "Vec3::range"])
prop("C22", "Angle and unit conversions are exact inverses and guard their ranges",
 "Degree-radian conversions are inverse to each other and linear, and kilometre-mile factors are inverse to each other. The latitude helpers accept exactly the numbers in [-90, 90] degrees (or the same range in radians), the longitude helpers exactly those in [-180, 180], bounds included, and refuse every number outside instead of returning a value.",
 ["inputs"], "every finite angle, in particular the bounds and their floating-point neighbours",
 "No test calls the conversion helpers.",
 [TR, "src/constants.rs"], [("range guards", "transforms.rs degrees_lat, degrees_long, radians_lat, radians_long"), ("factors", "constants.rs")],
 ["transforms::degrees_lat", "transforms::degrees_long", "transforms::radians_lat", "transforms::radians_long", "constants"])
prop("C23", "The operation mode selects its two documented differences and nothing else",
 "Initialising the same elements in the legacy (AFSPC) and the improved mode gives identical results for near-Earth orbits. For deep-space orbits the legacy mode differs only by computing the epoch sidereal angle with the 1970-based formula and by normalising negative node angles to [0, 2*pi) in the low-inclination treatment, and each mode's results are those of the published model in that mode.",
 ["inputs", "configurations"], "every element set, both modes, all times",
 "Every test uses the improved mode.",
 [IN, DP, SI], [("sidereal angle at epoch", "initl.rs"), ("node normalisation", "dpper.rs"), ("mode stored in the record", "sgp4init.rs")],
 ["propogation::sgp4init::sgp4init", "propogation::sgp4::sgp4", "propogation::dpper::dpper"])
prop("C24", "The orbit regime is chosen by the documented thresholds",
 "A record is deep-space exactly when its recovered period is at least 225 minutes; resonance is one-day exactly when the mean motion lies strictly between 0.0034906585 and 0.0052359877 rad/min, half-day exactly when it lies in [8.26e-3, 9.24e-3] with eccentricity at least 0.5, and none otherwise. Simplified drag is used exactly for deep-space orbits and perigees below 220 km, and the record reports these choices.",
 ["inputs"], "every element set, densely around each threshold",
 "Two orbits, both far from every threshold; the flags are not read back.",
 [SI, DI], [("period and perigee thresholds", "sgp4init.rs"), ("resonance windows", "dsinit.rs")],
 ["Satrec.method", "Satrec.isimp", "Satrec.irez"])
prop("C25", "Tracking a satellite from text to bearing follows the model end to end",
 "For every well-formed element set, however it is loaded (as two lines, as one text, from a catalogue), every instant and every observer, the documented sequence - load, propagate to a date, sidereal angle, Earth-fixed position, ground point, look angles, Doppler factor - fails exactly where and how the published model fails, and otherwise its numbers denote one consistent situation: the satellite is where the model puts it at that instant, the ground point lies below it, it stands overhead of that point, the bearing points from the observer to it, and the Doppler factor is that of the pass.",
 ["inputs", "programs"], "every element set, every instant from years before to years after the epoch (midnights and turns of years included), every observer including poles, date line and heights off the ground",
 "No test combines the modules; the documented example is not run.",
 [IO, MO, SG, GS, TR, "src/doppler_factor.rs", "README.md"],
 [("loading", "io.rs twoline2satrec, parse, parse_multiple"), ("date to offset", "propogation/mod.rs propogate_datetime"), ("frames", "transforms.rs")],
 ["io::twoline2satrec", "propogation::propogate_datetime", "propogation::gstime::gstime_datetime", "transforms::eci_to_geodedic", "transforms::ecf_to_look_angles", "doppler_factor::doppler_factor"])
prop("C26", "Orbital motion has the symmetries of a round, unchanging Earth",
 "For every near-Earth element set: turning the node by any angle turns the motion by that angle about the polar axis; the date of the epoch and the operation mode make no difference; whole turns added to the angles make no difference; and without drag, elements advanced along their secular rates give the motion that much later, and the motion mirrored in a meridian plane and run backwards is the motion of the mirrored elements. For every orbit without drag the velocity is the rate of change of the position, up to the terms the theory neglects.",
 ["inputs"], "every near-Earth element set (for the velocity: every drag-free orbit), every turn, epoch and time",
 "The tests look at one orbit of each kind on its own; a law relates the outcomes of two different element sets or of neighbouring times.",
 [SG, SI, IN, DP, DS], [("secular update, periodics and orientation", "sgp4.rs sgp4"), ("constants derived from the elements", "sgp4init.rs sgp4init")],
 ["propogation::sgp4::sgp4", "propogation::sgp4init::sgp4init"])
prop("C27", "Each stage of the theory is the published procedure, whatever it is given",
 "The stages the library exposes on their own yield the published values for all their arguments, not only for those a propagation passes them: recovering the elements (initl); the coefficients of Sun and Moon any number of minutes after the epoch (dscom); the lunar-solar periodics of any elements at any time, which leave elements untouched when called for initialisation (dpper); rates and resonance terms together with the elements they imply any time later (dsinit); and the secular update with the Earth's rotation at a time of its own (dspace).",
 ["inputs"], "every orbit the stage applies to, every time and time offset, both modes, initialising or not, elements other than those at epoch",
 "The tests call each stage once, with the arguments of one propagation of one orbit, and several arguments zero.",
 [IN, DC, DP, DI, DS], [("recovered elements", "initl.rs"), ("tc and lunar-solar geometry", "dscom.rs"), ("init branch and low inclinations", "dpper.rs"), ("secular elements and sidereal angle", "dsinit.rs"), ("sidereal angle at tc", "dspace.rs")],
 ["propogation::initl::initl", "propogation::dscom::dscom", "propogation::dpper::dpper", "propogation::dsinit::dsinit", "propogation::dspace::dspace"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
