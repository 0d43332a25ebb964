"""C26: laws of motion that need no reference position."""
import math
from vlib import hx
import orbits
from props_time import GEN
from props_orbit import n_of

SYM = ("CONSTANT Gravity = \"wgs84\"\nCONSTANT Fine = %s\nINIT Init0\nNEXT Next0\nINVARIANT Lawful\nCHECK_DEADLOCK FALSE\n")


def rates(el):
    """Secular rates of anomaly, perigee and node, to aim the drift law (the specification checks the result)."""
    e, i, no = el[2], el[4], el[6]
    J4 = -0.00000161098761
    n = orbits.recovered(no, e, i)
    a = (orbits.XKE / n) ** (2 / 3)
    om, c2 = 1 - e * e, math.cos(i) ** 2
    pinv = 1 / (a * om) ** 2
    t1 = 1.5 * orbits.J2 * pinv * n
    t2 = 0.5 * t1 * orbits.J2 * pinv
    t3 = -0.46875 * J4 * pinv * pinv * n
    md = n + 0.5 * t1 * math.sqrt(om) * (3 * c2 - 1) + 0.0625 * t2 * math.sqrt(om) * (13 - 78 * c2 + 137 * c2 * c2)
    ad = -0.5 * t1 * (1 - 5 * c2) + 0.0625 * t2 * (7 - 114 * c2 + 395 * c2 * c2) + t3 * (3 - 36 * c2 + 49 * c2 * c2)
    nd = -t1 * math.cos(i) + (0.5 * t2 * (4 - 19 * c2) + 2 * t3 * (3 - 7 * c2)) * math.cos(i)
    return md, ad, nd


def related(rng, law, el):
    """(the transformed element set, the parameter, the corresponding time)"""
    b, same = list(el), lambda t: t
    if law == "turn":
        p = rng.choice([math.pi, math.pi / 2, rng.uniform(0, 6.28), rng.uniform(-6.28, 0), 1e-6])
        b[7] += p
    elif law == "epoch":
        p = b[0] = orbits.epoch(rng)
    elif law == "whole":
        p = float(rng.choice([1, 1, -1, 2, -2, 5]))
        for k in (3, 5, 7):
            b[k] += p * orbits.TWOPI
    elif law == "drift":
        p = rng.choice([1, -1]) * rng.choice([rng.uniform(0, 200), rng.uniform(0, 5000), rng.uniform(0, 1e5)])
        md, ad, nd = rates(el)
        b[5] += md * p
        b[3] += ad * p
        b[7] += nd * p
        if rng.random() < 0.7:
            for k in (3, 5, 7):
                b[k] %= orbits.TWOPI
        return b, p, lambda t: t - p
    else:
        p = 0.0
        b[7], b[3], b[5] = math.pi - b[7], math.pi - b[3], -b[5]
        if rng.random() < 0.7:
            for k in (3, 5, 7):
                b[k] %= orbits.TWOPI
        return b, p, lambda t: -t
    return b, p, same


def c26(ctx):
    rng = ctx.rng
    ctx.model("SymmetryModel", SYM % ("TRUE" if ctx.thorough else "FALSE"))
    cases = ctx.generate("GenLaws", GEN)
    rng.shuffle(cases)
    sessions = []
    for c in cases[:n_of(ctx, 4200, len(cases))] * n_of(ctx, 1, 3):
        el, law = orbits.concrete(rng, c), c["law"]
        ts = orbits.times(rng, c["kind"], 1e5)
        if law == "rate":
            el[1] = 0.0
            if c["mode"] == "i" and rng.random() < 0.5:
                s = [orbits.load("A", el)]
            else:
                s = ["NEW A", orbits.init("A", c["mode"], el)]
            s.append("LAW rate " + hx(0))
            for t in rng.sample(ts, 4):
                s += ["PROP A " + hx(x) for x in (t, t - 0.01, t + 0.01)]
        else:
            b, p, when = related(rng, law, el)
            other = c["mode"] if law != "epoch" else rng.choice("ai")
            s = ["NEW A", orbits.init("A", c["mode"], el), "NEW B", orbits.init("B", other, b), "LAW %s %s" % (law, hx(p))]
            for t in rng.sample(ts, 5):
                s += ["PROP A " + hx(t), "PROP B " + hx(when(t))]
        sessions.append(s)
        ctx.tally("law=%s, %s" % (law, c["kind"]))
    ctx.conform("TraceLaws", sessions)


PROPS = {"C26": c26}
