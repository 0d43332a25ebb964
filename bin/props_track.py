"""C25: the documented use from text to bearing."""
import datetime, json, math
from vlib import hx, tx, chunks
import orbits
from props_time import GEN, kin
from props_orbit import kind_of, n_of, VECTORS
from props_frames import MODEL

SPAN = {"epoch": 0.01, "minutes": 90, "hours": 1440, "days": 20 * 1440, "weeks": 200 * 1440, "years": 9 * 525960}


def instant(rng, l1, when, side):
    """A calendar instant the given way from the epoch of the element set."""
    yy = int(l1[18:20])
    epoch = datetime.datetime(2000 + yy if yy < 57 else 1900 + yy, 1, 1) + datetime.timedelta(days=float(l1[20:32]) - 1)
    off = SPAN[when] * rng.choice([rng.random(), rng.random() ** 3]) * (1 if side == "after" else -1)
    d = epoch + datetime.timedelta(minutes=off)
    c = rng.random()
    if when not in ("epoch", "minutes"):
        if c < 0.15:                       # midnight, the end of a day, the turn of a year
            d = d.replace(hour=0, minute=0, second=0, microsecond=0)
        elif c < 0.3:
            d = d.replace(hour=23, minute=59, second=59, microsecond=999999)
        elif c < 0.4:
            d = d.replace(month=rng.choice([1, 2, 12]), day=1) + datetime.timedelta(days=rng.choice([-1, 0]))
    ns = rng.choice([0, 999, rng.randint(0, 999)]) + d.microsecond * 1000
    return d, "%d %d %d %d %d %d %d" % (d.year, d.month, d.day, d.hour, d.minute, d.second, ns)


def place(rng, p, d, el):
    any_h = rng.choice([0.0, rng.uniform(-0.4, 9), rng.uniform(0, 9)])
    lat, lon = math.asin(rng.uniform(-1, 1)), rng.uniform(-math.pi, math.pi)
    if p == "northpole":
        lat = math.pi / 2
    elif p == "southpole":
        lat = -math.pi / 2
    elif p == "equator":
        lat = 0.0
    elif p == "dateline":
        lon = rng.choice([1, -1]) * math.pi
    elif p == "flying":                    # an observer off the ground
        any_h = rng.uniform(9, 400)
    return lat, lon, any_h


def related(rng, a, b):
    """The same satellite at another time of the day or month, from another place, or loaded another way."""
    r = list(a)
    c = rng.random()
    if c < 0.4:
        k = rng.choice([7, 8, 9, 10])
        r[k:11] = b[k:11]
        if r[9] != "59":
            r[10] = "%d" % (int(r[10]) % 10 ** 9)
    elif c < 0.5:
        r[6] = "%d" % rng.randint(1, 28)
    elif c < 0.9:
        for k in rng.sample([11, 12, 13], rng.choice([1, 1, 2])):
            r[k] = b[k]
    else:
        r[1] = rng.choice(["two", "one", "cat"])
    return r


def c25(ctx):
    rng = ctx.rng
    ctx.model("Sgp4Vectors", VECTORS)
    ctx.model("FramesModel", MODEL % n_of(ctx, 2, 3))
    cmds = []
    for c in ctx.generate("GenTrack", GEN) * n_of(ctx, 4, 50):
        el = kind_of(rng, c["kind"])
        l1, l2 = orbits.text(el)
        d, u = instant(rng, l1, c["when"], c["side"])
        lat, lon, h = place(rng, c["place"], d, el)
        cmds.append("TRACK %s %s %s %s %s %s %s" % (rng.choice(["two", "one", "cat"]), tx(l1), tx(l2), u, hx(lat), hx(lon), hx(h)))
        for f in ("kind", "when", "place"):
            ctx.tally("%s=%s" % (f, c[f]))
    rng.shuffle(cmds)
    cmds = kin(rng, cmds, related)
    ev = ctx.conform("TraceTrack", list(chunks(cmds, 8)))
    for s in ev:
        for e in s:
            o = json.loads(e)["out"]
            ctx.tally("outcome " + o["k"] + (" %d" % o["code"] if "code" in o else ""))


PROPS = {"C25": c25}
