"""C08, C10-C17, C23, C24: propagation."""
import json, math
from vlib import hx, tx, num, chunks
import orbits, tle
from props_time import GEN, rand_utc

VECTORS = "INIT Init0\nNEXT Next0\nINVARIANT AllMatch\nCHECK_DEADLOCK FALSE\nCONSTANT Gravity = \"wgs72\"\n"
q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)


def regimes(ctx, *kinds):
    return ctx.generate("GenRegimes", "CONSTANT Kinds = %s\n%s" % (q(kinds), GEN))


def theory(ctx, kind, per_class, far):
    """One session per concretisation of every orbit class: initialise or load, then propagate."""
    rng = ctx.rng
    ctx.model("Sgp4Vectors", VECTORS)
    sessions = []
    for c in regimes(ctx, kind):
        for k in range(per_class):
            el = orbits.concrete(rng, c)
            if c["mode"] == "i" and rng.random() < 0.5:
                s = [orbits.load("A", el)]
                ctx.tally("loaded from text")
            else:
                s = ["NEW A", orbits.init("A", c["mode"], el)]
                ctx.tally("initialised from elements")
            s += ["PROP A " + hx(t) for t in orbits.times(rng, c["kind"], far)]
            if rng.random() < 0.02:
                s += ["PROP A " + hx(rng.choice([1, -1]) * 10 ** rng.uniform(6.3, 7.6))]
                ctx.tally("decades away")
            sessions.append(s)
            for f in ("per", "ecc", "inc", "drag", "mode", "node"):
                if f in c:
                    ctx.tally("%s=%s" % (f, c[f]))
    rng.shuffle(sessions)
    return sessions


def n_of(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def c10(ctx):
    ctx.conform("TraceOrbit", theory(ctx, "near", n_of(ctx, 2, 20), 3e5))


def c11(ctx):
    ctx.conform("TraceOrbit", theory(ctx, "deep", n_of(ctx, 2, 8), 5e5))


def c12(ctx):
    ctx.model("Integrator", INTEGRATOR % (7, 3))
    ctx.conform("TraceOrbit", theory(ctx, "resonant", n_of(ctx, 2, 8), 2e5))


INTEGRATOR = ("CONSTANTS Span = %d\nHistory = %d\nINIT Init\nNEXT Next\n"
              "INVARIANTS ResumedIsFresh WholeSteps PathIsTime\nCHECK_DEADLOCK FALSE\n")
SESSION = ("CONSTANTS Slots = {s1, s2}\nKinds = {\"near\", \"resonant\", \"decays\", \"fails\"}\nReach = 2\nDepth = %d\n"
           "INIT Init\nNEXT Next\nINVARIANTS Functional FlagFresh\nCHECK_DEADLOCK FALSE\n")


# ------------------------------------------------------------------ named kinds of orbit
def kind_of(rng, k):
    """Elements of a named kind; the failing kinds reach each documented error."""
    c = lambda **kw: orbits.concrete(rng, kw)
    any_inc = rng.choice(["0", "below3", "lyddane", "edge02", "mid", "critical", "polar", "retro", "above177"])
    node = rng.randint(1, 4)
    if k == "near":
        return c(kind="near", per=rng.choice(["below98", "98to156", "156to220", "above220", "above220", "high"]), ecc=rng.choice(["zero", "tiny", "small", "mid", "large"]),
                 inc=rng.choice(["0", "180", "low", "mid", "mid", "critical", "polar", "retro"]), drag=rng.choice(["none", "usual", "usual", "negative"]))
    if k == "deep":
        if rng.random() < 0.2:
            return c(kind="deep", per="lowperigee", ecc=rng.choice(["below98", "98to156", "156to220", "above220"]), inc=any_inc, node=node)
        return c(kind="deep", per=rng.choice(["edge225", "upto12h", "between", "far"]), ecc=rng.choice(["zero", "tiny", "small", "mid", "mid", "e50", "e70"]), inc=any_inc, node=node)
    if k == "lyddane":
        return c(kind="deep", per=rng.choice(["upto12h", "between"]), ecc=rng.choice(["zero", "small", "small", "mid", "e50"]), inc=rng.choice(["below3", "lyddane", "edge02", "0"]), node=node)
    if k == "oneday":
        return c(kind="resonant", per="oneday", ecc=rng.choice(["zero", "tiny", "small", "mid", "e50"]), inc=any_inc, node=node)
    if k == "halfday":
        if rng.random() < 0.2:
            return c(kind="resonant", per="halfdaylow", ecc=rng.choice(["98to156", "156to220", "above220"]), inc=any_inc, node=node)
        return c(kind="resonant", per="halfday", ecc=rng.choice(["e50", "e65", "e70", "e72"]), inc=any_inc, node=node)
    if k == "decays":                      # errors 1 and 6 after a while, forwards
        return c(kind="near", per=rng.choice(["98to156", "156to220", "above220"]), ecc=rng.choice(["small", "mid"]), inc="mid", drag="heavy")
    if k == "growing":                     # eccentricity leaves its range backwards (error 1)
        el = c(kind="near", per="above220", ecc=rng.choice(["zero", "small", "mid", "large"]), inc="mid", drag="usual")
        el[1] = rng.choice([1, -1]) * 10 ** rng.uniform(-3, -0.5)
        return el
    if k == "below":                       # below the surface at epoch or around perigee (error 6)
        el = c(kind="near", per="below98", ecc=rng.choice(["mid", "large"]), inc="mid", drag="usual")
        el[6] *= rng.uniform(1.03, 1.4)
        el[5] = rng.choice([0.0, math.pi, rng.uniform(0, 6.28)])
        return el
    if k == "parabolic":                   # negative semi-latus rectum (error 4)
        return [orbits.epoch(rng), 0.0, 1 - 10 ** rng.uniform(-7, -3.5), rng.choice([math.pi / 2, 3 * math.pi / 2, rng.uniform(0, 6.28)]),
                rng.uniform(0.3, 2.8), rng.uniform(0, 6.28), rng.uniform(3, 16) * orbits.REV, rng.uniform(0, 6.28)]
    if k == "perturbed":                   # perturbed eccentricity leaves [0, 1] (error 3)
        return [orbits.epoch(rng), 0.0, rng.choice([10 ** rng.uniform(-5, -1), rng.uniform(0.9, 0.999)]), rng.uniform(0, 6.28), rng.uniform(0.1, 3.0),
                rng.uniform(0, 6.28), 10 ** rng.uniform(-5.2, -3), rng.uniform(0, 6.28)]
    if k == "motionless":                  # mean motion not positive (error 2)
        el = c(kind="near", per="above220", ecc="small", inc="mid", drag="usual")
        el[6] = rng.choice([0.0, -0.0, -el[6], -1e-9, float("nan")])
        return el
    if k == "undefined":                   # not a number somewhere
        el = kind_of(rng, rng.choice(["near", "deep", "oneday", "halfday"]))
        el[rng.choice([1, 2, 3, 4, 5, 6, 7])] = rng.choice([float("nan"), float("inf"), float("-inf")])
        return el
    raise KeyError(k)


def relative(rng, el, other):
    """Elements that share some of another satellite's: all but one or two, only one, or only the epoch."""
    pick = rng.choice(["few", "few", "most", "epoch", "all"])
    if pick == "all":
        return list(el)
    new = {"few": lambda: rng.sample(range(8), rng.choice([1, 1, 2])), "most": lambda: rng.sample(range(8), 7), "epoch": lambda: range(1, 8)}[pick]()
    return [other[k] if k in new else el[k] for k in range(8)]


GOOD = ["near", "deep", "lyddane", "oneday", "halfday"]
BAD = ["decays", "growing", "below", "parabolic", "perturbed", "motionless"]


def time_of(rng, c):
    return float({"zero": lambda: 0.0, "f1": lambda: rng.uniform(1, 719), "f2": lambda: rng.choice([720.0, 1440.0, rng.uniform(720, 3000)]),
                  "f3": lambda: rng.uniform(3000, 60000), "b1": lambda: -rng.uniform(1, 719), "b2": lambda: -rng.choice([720.0, rng.uniform(720, 9000)]),
                  "b3": lambda: -rng.uniform(9000, 60000), "far": lambda: rng.choice([1, -1]) * rng.uniform(1e5, 5e5),
                  "edge": lambda: 720.0 * rng.randint(-9, 9), "in": lambda: math.nextafter(720.0 * rng.randint(1, 9), 0),
                  "out": lambda: math.nextafter(720.0 * rng.randint(1, 9), 1e9), "nan": lambda: float("nan"),
                  "inf": lambda: rng.choice([float("inf"), float("-inf")])}[c]())


def sessions_cfg(what, times, kinds, n):
    return "CONSTANTS\nWhat = \"%s\"\nTimeClasses = %s\nKinds = %s\nHistLen = %d\n%s" % (what, q(times), q(kinds), n, GEN)


# ------------------------------------------------------------------ C13
def nudge(rng, t):
    return rng.choice([t, -t, math.nextafter(t, 1e9), math.nextafter(t, -1e9), t + rng.choice([1, -1]) * 10 ** rng.uniform(-9, -1)])


def long_history(rng, kinds):
    """Hundreds of requests to one record or to dozens of them, then a few of them to records without a past."""
    n = rng.choice([1, 2, 12, 40])
    sats, s = [], []
    for k in range(n):
        el = kind_of(rng, rng.choice(kinds))
        if sats and rng.random() < 0.3:
            el = relative(rng, rng.choice(sats)[1], el)
        sats.append(("R%d" % k, el, rng.choice("ai")))
        s += ["NEW R%d" % k, orbits.init("R%d" % k, sats[k][2], el)]
    ts = [time_of(rng, rng.choice(["zero", "f1", "f2", "f3", "b1", "b2", "b3", "edge", "nan"])) for _ in range(rng.choice([4, 12, 40]))]
    asked = []
    for _ in range(rng.choice([150, 300, 600 if n < 12 else 300])):
        asked.append((rng.choice(sats), rng.choice(ts)))
        s.append("PROP %s %s" % (asked[-1][0][0], hx(asked[-1][1])))
    for (name, el, mode), t in rng.sample(asked, 40) + asked[-10:]:
        s += ["NEW F", orbits.init("F", mode, el), "PROP F " + hx(t)]
    return s


def c13(ctx):
    rng = ctx.rng
    ctx.model("Session", SESSION % n_of(ctx, 5, 6))
    ctx.model("Integrator", INTEGRATOR % n_of(ctx, (7, 3), (9, 4)))
    kinds = ["near", "deep", "lyddane", "oneday", "halfday", "decays", "growing"]
    cases = ctx.generate("GenSession", sessions_cfg("histories", ["zero", "f1", "f2", "f3", "b1", "b2", "again", "nan"], kinds, 3))
    if not ctx.thorough:
        cases = rng.sample(cases, 4000)
    else:
        extra = ctx.generate("GenSession", sessions_cfg("histories", ["f1", "f2", "f3", "b2", "far"], kinds, 5))
        cases += rng.sample(extra, 25000)
    out = []
    for c in cases:
        el, other = kind_of(rng, c["kind"]), kind_of(rng, rng.choice(kinds))
        if rng.random() < 0.5:
            other = relative(rng, el, other)
        mode = rng.choice("aai")
        ts = {k: time_of(rng, k) for k in set(c["times"]) - {"again"}}
        t = []
        for k in c["times"]:             # "again": the previous time once more, give or take next to nothing
            t.append(ts[k] if k != "again" else 0.0 if not t else nudge(rng, t[-1]))
        w = c["twist"]
        make = (lambda s, e: [orbits.load(s, e)]) if w == "date" else (lambda s, e: ["NEW " + s, orbits.init(s, mode, e)])
        s = make("A", el)
        if w == "plain":
            s += ["PROP A " + hx(x) for x in t]
        elif w == "copy":
            s += ["PROP A " + hx(t[0]), "CLONE A C"]
            for x in t[1:]:
                s += ["PROP %s %s" % (k, hx(x)) for k in rng.sample(["A", "C"], 2)]
        elif w == "other":
            s += make("B", other)
            for x in t:
                s += ["PROP A " + hx(x), "PROP B " + hx(rng.choice(t))]
        elif w == "parallel":
            s += ["PROP A " + hx(t[0]), "CLONE A C"] + make("B", other)
            tl = lambda: ",".join(hx(rng.choice(t)) for _ in range(6))
            if "threads" in ctx.parts:
                s += ["PAR A:%s B:%s C:%s" % (tl(), tl(), tl())]
            else:
                s += ["PROP %s %s" % (k, hx(rng.choice(t))) for k in "ABCABCABC"]
        else:
            for x in t:
                s += ["PROP A " + hx(x), "PROPDT A %d %d %d %d %d %d %d" % (rng.randint(1960, 2050), rng.randint(1, 12), rng.randint(1, 28),
                                                                      rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 10 ** 9 - 1))]
            s += ["PROP A " + hx(t[0])]
        # what a record without a past answers
        for x in sorted(set(t)):
            s += make("F", el) + ["PROP F " + hx(x)]
        if w in ("other", "parallel"):
            s += make("F", other) + ["PROP F " + hx(rng.choice(t))]
        out.append(s)
        ctx.tally("kind=" + c["kind"])
        ctx.tally("twist=" + w)
    for _ in range(n_of(ctx, 40, 400)):
        out.append(long_history(rng, kinds))
        ctx.tally("twist=long")
    ctx.conform("TraceOrbit", out)


# ------------------------------------------------------------------ C14
def c14(ctx):
    rng = ctx.rng
    ctx.model("Session", SESSION % n_of(ctx, 5, 6))
    cases = ctx.generate("GenSession", sessions_cfg("reuses", ["zero"], GOOD + BAD + ["undefined"], 1))
    out = []
    for c in cases * n_of(ctx, 1, 12):
        one, two = kind_of(rng, c["first"]), kind_of(rng, c["second"])
        if rng.random() < 0.4:           # two lives that have much in common
            two = relative(rng, one, two)
        if c["mode1"] == "i" and c["first"] != "undefined" and 0 < one[6] < 0.4 and 0 <= one[2] < 1 and rng.random() < 0.5:
            # the first life comes from text, at an epoch that text and number share
            one[0] = math.floor(one[0]) + rng.randint(0, 255) / 256
            if rng.random() < 0.6:
                two[0] = one[0]
            s = [orbits.load("A", one)]
            ctx.tally("first life from text")
        else:
            s = ["NEW A", orbits.init("A", c["mode1"], one)]
        if c["between"] != "nothing":
            ks = ["f2", "b2", "f3"] if c["between"] == "some" else ["far", rng.choice(["nan", "f3"])]
            s += ["PROP A " + hx(time_of(rng, k)) for k in ks]
        ts = [time_of(rng, k) for k in rng.sample(["f1", "f2", "f3", "b1", "b2", "b3"], 3)] + [0.0]
        if rng.random() < 0.2:          # a third life, and back to the second
            s += [orbits.init("A", c["mode2"], two), "PROP A " + hx(ts[0]), orbits.init("A", c["mode1"], one)]
        if rng.random() < 0.1:           # many lives
            for _ in range(rng.choice([10, 40])):
                s += [orbits.init("A", rng.choice("ai"), rng.choice([one, two, kind_of(rng, rng.choice(GOOD + BAD))]))]
                if rng.random() < 0.5:
                    s += ["PROP A " + hx(rng.choice(ts))]
            ctx.tally("many lives")
        s += [orbits.init("A", c["mode2"], two)] + ["PROP A " + hx(x) for x in ts]
        s += ["NEW F", orbits.init("F", c["mode2"], two)] + ["PROP F " + hx(x) for x in ts]
        out.append(s)
        ctx.tally("first=" + c["first"])
        ctx.tally("second=" + c["second"])
    ctx.conform("TraceOrbit", out)


# ------------------------------------------------------------------ C15
def c15(ctx):
    rng = ctx.rng
    ctx.model("Session", SESSION % 5)
    out = []
    for k in GOOD + BAD * 3:
        for _ in range(n_of(ctx, 90, 1500)):
            el = kind_of(rng, k)
            mode = rng.choice("ai")
            if mode == "i" and rng.random() < 0.4 and el[6] > 0 and el[6] < 0.4:
                s = [orbits.load("A", el)]
            else:
                s = ["NEW A", orbits.init("A", mode, el)]
            ts = [time_of(rng, rng.choice(["zero", "f1", "f2", "f3", "b1", "b2", "b3", "far"])) for _ in range(6)]
            s += ["PROP A " + hx(x) for x in ts]
            if rng.random() < 0.3:      # the flag after another life
                s += [orbits.init("A", mode, kind_of(rng, rng.choice(GOOD)))] if s[0].startswith("NEW") else []
            out.append(s)
            ctx.tally("kind=" + k)
    # element sets whose initial propagation fails
    for _ in range(n_of(ctx, 500, 8000)):
        f = tle.rand_fields(rng)
        l1, l2 = tle.uninitialisable(rng, f) if rng.random() < 0.5 else tle.lines(**f)
        out.append(["LOAD A %s %s" % (tx(l1), tx(l2)), "PROP A " + hx(0), "PROP A " + hx(time_of(rng, "f3"))])
        ctx.tally("texts")
    rng.shuffle(out)
    ev = ctx.conform("TraceOrbit", out)
    for s in ev:
        for e in s:
            o = json.loads(e).get("out", {})
            if o.get("k") in ("err", "init"):
                ctx.tally("error %d seen" % o["code"])


# ------------------------------------------------------------------ C16
def wild(rng):
    c = rng.random()
    if c < 0.3:
        return rng.choice([0.0, -0.0, 1.0, -1.0, float("nan"), float("inf"), float("-inf"), 1e308, -1e308, 5e-324, 1e-300, 1e16, -1e16])
    return rng.choice([1, -1]) * 10 ** rng.uniform(-12, rng.choice([1, 1, 6, 30]))


def c16(ctx):
    rng = ctx.rng
    ctx.model("Session", SESSION % 5)
    out = []
    for _ in range(n_of(ctx, 5000, 80000)):
        c = rng.random()
        if c < 0.3:
            el = kind_of(rng, rng.choice(GOOD + BAD + ["undefined"]))
        elif c < 0.75:
            el = kind_of(rng, rng.choice(GOOD + BAD))
            for k in rng.sample(range(8), rng.choice([1, 1, 2])):
                el[k] = wild(rng)
        else:
            el = [wild(rng) for _ in range(8)]
            el[6] = rng.choice([abs(el[6]), rng.uniform(0.001, 0.08)])
            el[2] = rng.choice([el[2], rng.random()])
        s = ["NEW A", orbits.init("A", rng.choice("ai"), el)]
        for _ in range(4):
            t = rng.choice([time_of(rng, rng.choice(["zero", "f1", "f3", "b3", "far", "nan", "inf"])), rng.choice([1, -1]) * 10 ** rng.uniform(-3, 8)])
            s.append("PROP A " + hx(t))
        out.append(s)
    ctx.conform("TraceOrbit", out)
    # no record from a text with an element that is not a finite number
    words = ["nan", "NaN", "inf", "-inf", "+inf", "Inf", "infinity", "-nan", "1e400", "1e999", "-1e999", "NAN", "INF"]
    cmds = []
    for name, (lo, hi) in list(tle.SPANS1.items()) + list(tle.SPANS2.items()):
        for w in words:
            for _ in range(n_of(ctx, 3, 20)):
                l1, l2 = tle.lines(**tle.rand_fields(rng))
                d = w[:hi - lo]
                d = rng.choice([d.rjust(hi - lo), d.ljust(hi - lo), d.center(hi - lo)])
                if name in tle.SPANS1:
                    l1 = tle.splice(l1, lo, hi, d)
                else:
                    l2 = tle.splice(l2, lo, hi, d)
                cmds.append("%s %s %s" % (rng.choice(["PS", "TL"]), tx(l1), tx(l2)))
                if rng.random() < 0.3:
                    cmds.append("PA " + tx(l1 + "\n" + l2))
                    cmds.append("PM " + tx(l1 + "\n" + l2))
                ctx.tally("texts with a non-finite field")
    ctx.conform("TraceText", list(chunks(cmds, 20)))


# ------------------------------------------------------------------ C17
def c17(ctx):
    rng = ctx.rng
    ctx.model("Integrator", INTEGRATOR % n_of(ctx, (7, 3), (9, 4)))
    ctx.model("Integrator", INTEGRATOR % n_of(ctx, (3, 5), (4, 6)))
    ctx.prove("IntegratorProof", [("Init", "Inv", 0), ("Inv", "Inv", 1), ("Inv", "Fresh", 0), ("Inv", "Nearer", 1)])
    cls = ["zero", "f1", "f2", "f3", "b1", "b2", "edge", "in", "out"]
    cases = ctx.generate("GenSession", sessions_cfg("requests", cls, ["oneday", "halfday"], 3))
    if ctx.thorough:
        cases += ctx.generate("GenSession", sessions_cfg("requests", cls, ["oneday", "halfday"], 4))
        cases += ctx.generate("GenSession", sessions_cfg("requests", cls, ["deep"], 2))
    else:
        cases += ctx.generate("GenSession", sessions_cfg("requests", cls[:6], ["deep"], 2))
    out = []
    for c in cases:
        el = kind_of(rng, c["kind"])
        s = ["NEW A", orbits.init("A", rng.choice("ai"), el)]
        for k in c["times"]:
            t = time_of(rng, k)
            if "integrator" in ctx.parts:
                s += ["DSR A " + hx(t), "DSF A " + hx(t)]
            if rng.random() < (0.1 if "integrator" in ctx.parts else 1):
                s += ["PROP A " + hx(t)]
        out.append(s)
        ctx.tally("kind=" + c["kind"])
    if "integrator" in ctx.parts:
        for k in ["oneday", "halfday"] * n_of(ctx, 6, 60):      # and long ones
            s = ["NEW A", orbits.init("A", rng.choice("ai"), kind_of(rng, k))]
            for _ in range(150):
                t = time_of(rng, rng.choice(cls + ["f3", "b3", "b2", "f2"]))
                s += ["DSR A " + hx(t)] + (["DSF A " + hx(t)] if rng.random() < 0.7 else [])
            out.append(s)
            ctx.tally("150 requests in a row")
        for k in ["oneday", "halfday"] * n_of(ctx, 3, 30):      # and decades away
            s = ["NEW A", orbits.init("A", rng.choice("ai"), kind_of(rng, k))]
            t = rng.choice([1, -1]) * 10 ** rng.uniform(6, 7.5)
            for x in [t, t + math.copysign(rng.uniform(0, 5000), t), rng.uniform(-3000, 3000), t]:
                s += ["DSR A " + hx(x), "DSF A " + hx(x)]
            out.append(s)
            ctx.tally("decades away")
    ctx.conform("TraceOrbit", out)


# ------------------------------------------------------------------ C08
def minutes(utc, jd):
    """Same arithmetic as Instants.tla's MinutesSince; the specification checks it."""
    import datetime
    y, mo, d, h, mi, s, ns = utc
    jdn = datetime.date(y, mo, d).toordinal() + 1721425
    fr = ((ns / 1e6 / 60000 + s / 60 + mi) / 60 + h) / 24
    return ((jdn - 0.5) - jd) * 1440.0 + fr * 1440.0


def c08(ctx):
    rng = ctx.rng
    ctx.model("CalendarModel", "INIT Init\nNEXT Next\nINVARIANTS ClosedForms KnownDates FourYearRule\nCHECK_DEADLOCK FALSE\n")
    months = ctx.generate("GenCalendar", GEN)
    first = []
    for _ in range(n_of(ctx, 900, 14000)):
        k = rng.choice(GOOD * 3 + ["decays", "growing", "below"])
        el = kind_of(rng, k)
        l1, l2 = orbits.text(el)
        yy = int(l1[18:20])
        year = 2000 + yy if yy < 57 else 1900 + yy
        load = "LOAD A %s %s" % (tx(l1), tx(l2))
        near = [m for m in months if abs(m["y"] - year) <= 1]
        for _ in range(3):
            c = rng.random()
            if c < 0.75:
                u = rand_utc(rng, near)
            elif c < 0.85:           # within minutes of the epoch
                import datetime
                d = datetime.datetime(year, 1, 1) + datetime.timedelta(days=float(l1[20:32]) - 1, seconds=rng.choice([0, rng.uniform(-3, 3), rng.uniform(-600, 600)]))
                u = "%d %d %d %d %d %d %d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond * 1000 + rng.randint(0, 999))
            else:
                u = rand_utc(rng, months) if k in ("near", "deep", "lyddane") else rand_utc(rng, near)
            first.append([load, "PROPDT A " + u])
        ctx.tally("kind=" + k)
    ev = ctx.run(first)
    sessions = []
    for s, e in zip(first, ev):
        last = json.loads(e[-1])
        s = list(s)
        if last.get("jd"):
            t = minutes(last["utc"], num(last["jd"]))
            s += ["PROP A " + hx(t), "PROP A " + hx(t - 2e-6), "PROP A " + hx(t + 2e-6)]
            ctx.tally("before the epoch" if t < 0 else "after the epoch")
        sessions.append(s)
    ctx.conform("TraceOrbit", sessions)


# ------------------------------------------------------------------ C23
def c23(ctx):
    rng = ctx.rng
    ctx.model("Sgp4Vectors", VECTORS)
    sessions = []
    cases = regimes(ctx, "near", "deep", "resonant")
    low = [c for c in cases if c["kind"] != "near" and c["inc"] in ("0", "below3", "lyddane", "edge02", "edge3")]
    cases = [c for c in cases if c["mode"] == "a"]
    cases = (cases if ctx.thorough else rng.sample(cases, 1300)) + (low * 4 if ctx.thorough else rng.sample(low, 700))
    for c in cases:
        el = orbits.concrete(rng, c)
        ts = orbits.times(rng, c["kind"], 1e5)[:7]
        s = ["NEW A", "NEW I", orbits.init("A", "a", el), orbits.init("I", "i", el)]
        for t in ts:
            s += ["PROP A " + hx(t), "PROP I " + hx(t)]
        sessions.append(s)
        ctx.tally("kind=" + c["kind"])
        ctx.tally("inc=" + c["inc"])
    ctx.conform("TraceOrbit", sessions)


# ------------------------------------------------------------------ C24
def c24(ctx):
    rng = ctx.rng
    ctx.model("Sgp4Vectors", VECTORS)
    cmds = []
    one = lambda el: (["NEW A", orbits.init("A", rng.choice("ai"), el)] if rng.random() < 0.7 else [orbits.load("A", el)])
    for c in regimes(ctx, "near", "deep", "resonant"):
        cmds.append(one(orbits.concrete(rng, c)))
        ctx.tally("kind=" + c["kind"])
    # every threshold from both sides, at distances from 1e-3 down to the spacing of numbers
    thr = [("period", orbits.TWOPI / 225), ("oneday", 0.0034906585), ("oneday", 0.0052359877), ("halfday", 8.26e-3), ("halfday", 9.24e-3)]
    for name, n in thr:
        for _ in range(n_of(ctx, 400, 6000)):
            e = rng.choice([0.0, rng.uniform(0, 0.1), rng.uniform(0, 0.9), 0.5, 0.4999999, 0.5000001, math.nextafter(0.5, 0), rng.uniform(0.5, 0.75)])
            i = rng.uniform(0, math.pi)
            el = [orbits.epoch(rng), rng.choice([0.0, 1e-4]), e, orbits.angle(rng), i, orbits.angle(rng),
                  orbits.kozai(n * (1 + rng.choice([0, 1, -1, 1, -1]) * 10 ** rng.uniform(-16, -2)), e, i), orbits.angle(rng)]
            cmds.append(["NEW A", orbits.init("A", rng.choice("ai"), el)])
            ctx.tally("around the %s threshold" % name)
    for _ in range(n_of(ctx, 1500, 20000)):
        e = rng.choice([0.0, rng.uniform(0, 0.05), rng.uniform(0, 0.5)])
        i = rng.uniform(0, math.pi)
        h = 220 * (1 + rng.choice([1, -1]) * 10 ** rng.uniform(-8, -1))
        n = orbits.XKE / ((1 + h / orbits.RE) / (1 - e)) ** 1.5
        cmds.append(["NEW A", orbits.init("A", "i", [orbits.epoch(rng), 1e-5, e, 1.0, i, 2.0, orbits.kozai(n, e, i), 3.0])])
        ctx.tally("around a perigee of 220 km")
    ctx.conform("TraceOrbit", cmds)


PROPS = {"C08": c08, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17,
         "C23": c23, "C24": c24}
