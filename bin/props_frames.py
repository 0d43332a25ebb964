"""C18-C22: frames, bearings, Doppler, units."""
import math
from vlib import hx, chunks
from props_time import GEN, kin, num

MODEL = ("CONSTANT Reach = %d\nINIT Init\nNEXT Next\nINVARIANTS Inverse Isometry AnglesAdd Eastward Axes LocalKeepsLength RotationFree\n"
         "CHECK_DEADLOCK FALSE\n")
A, B = 6378.137, 6356.7523142
E2 = 1 - (B / A) ** 2


def pick(rng, c):
    """Concrete latitude, longitude, height and sidereal angle of a class."""
    tiny = lambda: 10 ** rng.uniform(-12, -3)
    lat = {"northpole": lambda: math.pi / 2, "southpole": lambda: -math.pi / 2, "nearnorth": lambda: math.pi / 2 - tiny(),
           "nearsouth": lambda: -math.pi / 2 + tiny(), "equator": lambda: 0.0, "nearequator": lambda: rng.choice([1, -1]) * tiny(),
           "north": lambda: rng.uniform(0, math.pi / 2), "south": lambda: -rng.uniform(0, math.pi / 2)}[c["lat"]]()
    lon = {"greenwich": lambda: 0.0, "dateline": lambda: math.pi, "minusdateline": lambda: -math.pi,
           "neardateline": lambda: rng.choice([math.pi - tiny(), -math.pi + tiny()]), "east": lambda: rng.uniform(0, math.pi),
           "west": lambda: -rng.uniform(0, math.pi), "quarter": lambda: rng.choice([1, -1]) * math.pi / 2,
           "nearquarter": lambda: rng.choice([-1, 0, 0, 1]) * math.pi / 2 + rng.choice([1, -1]) * tiny()}[c["lon"]]()
    h = {"deep": lambda: rng.uniform(-100, -12), "below": lambda: rng.uniform(-12, 0), "surface": lambda: 0.0, "low": lambda: rng.uniform(0, 10),
         "leo": lambda: rng.uniform(100, 2000), "meo": lambda: rng.uniform(2000, 35000), "geo": lambda: 35786.0,
         "lunar": lambda: rng.uniform(36000, 500000)}[c["h"]]()
    g = {"zero": lambda: 0.0, "small": lambda: rng.uniform(0, math.pi), "half": lambda: rng.choice([math.pi, math.pi / 2]),
         "full": lambda: rng.choice([2 * math.pi, rng.uniform(math.pi, 2 * math.pi)]),
         "nearquarter": lambda: rng.choice([0, 0, 4, rng.randint(-8, 8)]) * math.pi / 2 + rng.choice([1, -1]) * tiny(), "negative": lambda: -rng.uniform(0, 7),
         "several": lambda: rng.choice([1, -1]) * rng.uniform(7, 200), "many": lambda: rng.choice([1, -1]) * 10 ** rng.uniform(2, 5)}[c["turn"]]()
    return lat, lon, h, g


def forward(lat, lon, h):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return [(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + h) * math.sin(lat)]


def spin(p, g):
    return [p[0] * math.cos(g) - p[1] * math.sin(g), p[0] * math.sin(g) + p[1] * math.cos(g), p[2]]


def cases(ctx):
    ctx.model("FramesModel", MODEL % (4 if ctx.thorough else 3))
    cs = ctx.generate("GenFrames", GEN)
    for c in cs:
        for f in ("lat", "lon", "h", "turn"):
            ctx.tally("%s=%s" % (f, c[f]))
    return cs * (12 if ctx.thorough else 2)


def related(rng, a, b):
    """A call that shares numbers with another one: a component or a whole point of it, its mirror image, or its neighbour."""
    op, n = a[0], len(a)
    if op in ("CONST", "ANG"):
        return None
    pts = {"E2F": [(1, 4), (4, 5)], "F2E": [(1, 4), (4, 5)], "E2G": [(4, 5)], "DOP": [(1, 4), (4, 7), (7, 10)],
           "TOPO": [(1, 2), (2, 3), (3, 4), (4, 7)], "LOOK": [(1, 2), (2, 3), (3, 4), (4, 7)], "VEC": [(1, 4), (4, 7)],
           "G2F": [(1, 2), (2, 3), (3, 4)], "T2L": [(1, 2), (2, 3), (3, 4)]}[op]
    r = list(a)
    c = rng.random()
    if c < 0.5:
        for lo, hi in rng.sample(pts, rng.randint(1, len(pts)) if len(pts) == 1 else rng.randint(1, len(pts) - 1)):
            r[lo:hi] = b[lo:hi]
    elif c < 0.8:                        # one number of the other sign
        k = rng.randrange(1, n)
        r[k] = "%016x" % (int(r[k], 16) ^ (1 << 63))
        if op in ("TOPO", "LOOK", "G2F") and k == 3:
            return None
    else:                                # one number next to it
        k = rng.randrange(1, n)
        r[k] = hx(nudged(rng, num(r[k])))
    if op in ("G2F", "TOPO", "LOOK") and abs(num(r[1])) > math.pi / 2:
        return None
    return r


def nudged(rng, x):
    return rng.choice([x * (1 + rng.choice([1, -1]) * 10 ** rng.uniform(-15, -4)), math.nextafter(x, 1e9), x + rng.choice([1, -1]) * 10 ** rng.uniform(-9, -4)])


def go(ctx, cmds):
    ctx.rng.shuffle(cmds)
    cmds = kin(ctx.rng, cmds, related)
    ctx.conform("TraceFrames", list(chunks(cmds, 100)), chunk=60000)


def line(op, *xs):
    return op + " " + " ".join(hx(x) for x in xs)


def direction(rng):
    while True:
        d = [rng.gauss(0, 1) for _ in range(3)]
        if rng.random() < 0.3:
            d = [rng.choice([-1.0, 0.0, 1.0]) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in d))
        if n > 0:
            return [x / n for x in d]


def c18(ctx):
    rng = ctx.rng
    cmds = []
    for c in cases(ctx):
        lat, lon, h, g = pick(rng, c)
        p = forward(lat, lon, h)
        if rng.random() < 0.3:
            k = 10 ** rng.choice([rng.uniform(-6, 8), rng.uniform(-6, 8), rng.uniform(-100, 100)])
            p = [x * k for x in direction(rng)]
        cmds.append(line("E2F", *p, g))
        cmds.append(line("F2E", *p, g))
    # chained conversions: what one returns is given to the other
    import json
    from vlib import num
    trips = rng.sample(cmds, 6000 if ctx.thorough else 1500)
    ev = ctx.run(list(chunks(trips, 100)))
    for s, e in zip(chunks(trips, 100), ev):
        for c, r in zip(s, e):
            r = json.loads(r)
            if r["out"]["k"] == "val":
                g = rng.choice([c.split()[4], c.split()[4], hx(rng.uniform(-10, 10))])
                cmds.append("%s %s %s" % ("F2E" if c.startswith("E2F") else "E2F", " ".join(hx(num(x)) for x in r["out"]["x"]), g))
                ctx.tally("chained")
    go(ctx, cmds)


def c19(ctx):
    rng = ctx.rng
    cmds = []
    for c in cases(ctx):
        lat, lon, h, g = pick(rng, c)
        cmds.append(line("E2G", *spin(forward(lat, lon, h), g), g))
        cmds.append(line("G2F", lat, lon, h))
        if c["lat"] in ("northpole", "southpole"):         # exactly on the axis
            z = (B + h) * (1 if lat > 0 else -1)
            cmds.append(line("E2G", 0.0, 0.0, z, g))
        if c["lon"] in ("dateline", "minusdateline"):      # exactly on the date line
            p = forward(lat, 0.0, h)
            cmds.append(line("E2G", -p[0], rng.choice([0.0, -0.0]), p[2], rng.choice([0.0, 2 * math.pi, math.pi, -math.pi])))
    for g in (1e12, -1e17, 1e300, float("inf"), float("nan")):
        cmds.append(line("E2G", 7000.0, 100.0, 200.0, g))  # must come back, whatever the angle
    go(ctx, cmds)


def c20(ctx):
    rng = ctx.rng
    cmds = []
    for c in cases(ctx):
        lat, lon, h, g = pick(rng, c)
        o = forward(lat, lon, h)
        d = direction(rng)
        k = rng.random()
        if k < 0.5:
            k2 = rng.choice([rng.uniform(6400, 45000), rng.uniform(45000, 500000)])
            p = [x * k2 for x in d]
        elif k < 0.8:                                       # close to the observer
            r = 10 ** rng.uniform(-2, 4)
            p = [x + r * y for x, y in zip(o, d)]
        else:                                               # along a local axis of the observer
            s, e, z = ((math.sin(lat) * math.cos(lon), math.sin(lat) * math.sin(lon), -math.cos(lat)), (-math.sin(lon), math.cos(lon), 0.0),
                       (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)))
            ax = rng.choice([s, e, z])
            if rng.random() < 0.6:                          # or nearly so
                off = 10 ** rng.uniform(-12, -2)
                ax = [x + off * y for x, y in zip(ax, direction(rng))]
            r = rng.choice([1, -1]) * rng.uniform(100, 40000)
            p = [x + r * y for x, y in zip(o, ax)]
        cmds.append(line("TOPO", lat, lon, h, *p))
        cmds.append(line("LOOK", lat, lon, h, *p))
        r = 10 ** rng.uniform(-3, 6)
        cmds.append(line("T2L", *[x * r for x in d]))
        if rng.random() < 0.2:                              # nearly on an axis or in a plane of axes
            near = [x + rng.choice([0.0, 1, -1]) * 10 ** rng.uniform(-17, -2) for x in rng.choice([(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0),
                                                                                             (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (0.6, 0.0, 0.8), (0.6, -0.8, 0.0), (0.0, 0.6, 0.8)])]
            cmds.append(line("T2L", *[x * r for x in near]))
        if rng.random() < 0.5:
            cmds.append(line("VEC", *(o + p)))
        if rng.random() < 0.2:                              # exact axes and signed zeros
            cmds.append(line("T2L", *[rng.choice([0.0, -0.0, 1.0, -1.0, 500.0]) for _ in range(3)]))
    go(ctx, cmds)


def c21(ctx):
    rng = ctx.rng
    cmds = []
    for c in cases(ctx):
        lat, lon, h, g = pick(rng, c)
        loc = forward(lat, lon, rng.choice([0.0, rng.uniform(0, 5), rng.uniform(0, 36000)]))
        p = [x * rng.choice([rng.uniform(6500, 45000), rng.uniform(45000, 500000)]) for x in direction(rng)]
        if rng.random() < 0.15:                             # close to the observer
            r = 10 ** rng.uniform(0.5, 3)
            p = [a + r * b for a, b in zip(loc, direction(rng))]
        los = [a - b for a, b in zip(p, loc)]
        n = math.sqrt(sum(x * x for x in los))
        los = [x / n for x in los]
        d = direction(rng)
        k = rng.random()
        sp = rng.choice([rng.uniform(0.5, 11), rng.uniform(0.5, 11), 10 ** rng.uniform(-4, 1), 10 ** rng.uniform(-4, 1), 10 ** rng.uniform(1, 5)])
        if k < 0.15:
            v = [x * sp for x in los]
        elif k < 0.3:
            v = [-x * sp for x in los]
        elif k < 0.45:                                      # across the line of sight
            dot = sum(a * b for a, b in zip(d, los))
            v = [sp * (a - dot * b) for a, b in zip(d, los)]
        elif k < 0.5:
            v = [0.0, 0.0, 0.0]
        else:
            v = [x * sp for x in d]
        cmds.append(line("DOP", *(loc + p + v)))
        if rng.random() < 0.06:                             # at the observer, arriving there, or just as far beyond
            a = [float(rng.randint(-9000, 9000)) for _ in range(3)]
            w = [float(rng.randint(-12, 12)) for _ in range(3)]
            m = rng.choice([0, 1, 2])
            cmds.append(line("DOP", *(a + [x - m / 2 * y for x, y in zip(a, w)] + w)))
            ctx.tally("coincidences")
        if rng.random() < 0.4:                              # the same situation, moved and turned
            sh = [rng.uniform(-3e4, 3e4) for _ in range(3)]
            mv = lambda q, t: spin([a + b for a, b in zip(q, t)], g)
            cmds.append(line("DOP", *(mv(loc, sh) + mv(p, sh) + mv(v, [0, 0, 0]))))
            ctx.tally("moved and turned")
    go(ctx, cmds)


def c22(ctx):
    rng = ctx.rng
    ctx.model("FramesModel", MODEL % 2)
    cmds = ["CONST"]
    fns = {"radians_to_degrees": None, "degrees_to_radians": None, "degrees_lat": math.pi / 2, "degrees_long": math.pi,
           "radians_lat": 90.0, "radians_long": 180.0}
    for fn, b in fns.items():
        xs = [0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), 5e-324, 1e-300, 1e300, -1e300]
        for _ in range(8000 if ctx.thorough else 1200):
            xs.append(rng.choice([rng.uniform(-360, 360), rng.uniform(-4, 4), rng.choice([1, -1]) * 10 ** rng.uniform(-20, 20),
                                  rng.choice([1, -1]) * 10 ** rng.uniform(-307, 300), float(rng.randint(-400, 400))]))
        for k in ([b] if b else []) + [90.0, 180.0, 270.0, 360.0, math.pi / 2, math.pi, 2 * math.pi]:
            for s in (1, -1):
                xs += [s * k, s * math.nextafter(k, 0), s * math.nextafter(k, 1e9)]
                for e in range(1, 16):
                    xs += [s * k * (1 + 10.0 ** -e), s * k * (1 - 10.0 ** -e)]
        cmds += ["ANG %s %s" % (fn, hx(x)) for x in xs]
        ctx.tally(fn, len(xs))
    go(ctx, cmds)


PROPS = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22}
