"""C27: the stages of the theory, called on their own with arguments of their own."""
import math
from vlib import hx
import orbits
from props_time import GEN
from props_orbit import VECTORS, n_of


def cmd(*a):
    return " ".join(hx(x) if isinstance(x, (int, float)) else x for x in a)


def clock(rng):
    """Minutes: none, little, much, either sign."""
    return float(rng.choice([0.0, 10 ** rng.uniform(-3, 2), rng.uniform(0, 1440), rng.uniform(0, 30000), 1440.0 * rng.randint(1, 400),
                             rng.uniform(0, 1e6)]) * rng.choice([1, -1]))


def nearby(rng, el):
    """Eccentricity, inclination and angles the secular update might have arrived at."""
    ep = el[2] if rng.random() < 0.3 else min(0.95, abs(el[2] + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -2)))
    ip = el[4] if rng.random() < 0.3 else min(math.pi, abs(el[4] + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -2)))
    return ep, ip, orbits.angle(rng), orbits.angle(rng), orbits.angle(rng)


def session(rng, c, el):
    ep0, b, ecco, argpo, inclo, mo, no, nodeo = el
    n = orbits.recovered(no, ecco, inclo)
    st = c["stage"]
    if st == "recover":
        return [cmd("SINITL", c["mode"], ep0, ecco, inclo, no)]
    if st == "attract":
        return [cmd("SDSCOM", ep0, ecco, argpo, tc, inclo, nodeo, n) for tc in (0.0, clock(rng), clock(rng))]
    slot = ["NEW A", orbits.init("A", c["mode"], el)]
    if st == "wobble":
        for init in "nny":
            ep, ip, o, w, m = nearby(rng, el)
            mode = c["mode"] if rng.random() < 0.7 else rng.choice("ai")
            slot.append(cmd("SDPPER", "A", init, mode, clock(rng), ep, ip, o, w, m))
        return slot
    if st == "resonate":
        out = []
        for _ in range(2):
            em, im, w, o, m = nearby(rng, el)
            if rng.random() < 0.5:
                em, im = ecco, inclo
            nm = n if rng.random() < 0.7 else n * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2))
            md, xp = n * (1 + rng.uniform(-1, 1) * 1e-3), rng.uniform(-1, 1) * 1e-4
            out.append(cmd("SDSINIT", ep0, ecco, argpo, inclo, mo, n, nodeo, rng.uniform(0, orbits.TWOPI), md, rng.uniform(-1, 1) * 1e-4, xp,
                           em, nm, im, w, o, m, rng.choice([0.0, clock(rng)]), rng.choice([0.0, clock(rng), clock(rng)])))
        return out
    for t in rng.sample(orbits.times(rng, c["kind"], 2e5), 3):
        ep, ip, w, o, m = nearby(rng, el)
        tc = t if rng.random() < 0.3 else clock(rng)
        slot.append(cmd("SDSPACE", "A", t, tc, ep, w, ip, m, o, n))
    return slot


def c27(ctx):
    rng = ctx.rng
    if "stages" not in ctx.parts:
        return
    ctx.model("Sgp4Vectors", VECTORS)
    cases = ctx.generate("GenStages", GEN)
    rng.shuffle(cases)
    sessions = []
    for c in cases[:n_of(ctx, 6000, len(cases))] * n_of(ctx, 1, 4):
        sessions.append(session(rng, c, orbits.concrete(rng, c)))
        ctx.tally("stage=%s, %s" % (c["stage"], c["kind"]))
    ctx.conform("TraceStages", sessions)


PROPS = {"C27": c27}
