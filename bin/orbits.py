"""Concrete element sets for the abstract orbit classes of Regimes.tla.
The arithmetic here only aims inputs at a class; what is right is decided by Sgp4.tla."""
import datetime, math
from vlib import hx, tx
import tle

MU, RE, J2 = 398600.5, 6378.137, 0.00108262998905
XKE = 60.0 / math.sqrt(RE ** 3 / MU)
TWOPI = 2 * math.pi
REV = TWOPI / 1440.0                       # rad/min per rev/day


def recovered(no, e, i):
    """Mean motion the theory recovers from the Kozai mean motion."""
    om = 1 - e * e
    ak = (XKE / no) ** (2 / 3)
    d1 = 0.75 * J2 * (3 * math.cos(i) ** 2 - 1) / (math.sqrt(om) * om)
    d = d1 / ak ** 2
    ad = ak * (1 - d * d - d * (1 / 3 + 134 * d * d / 81))
    return no / (1 + d1 / ad ** 2)


def kozai(n, e, i):
    """Kozai mean motion whose recovered mean motion is n, as closely as numbers allow."""
    x = n
    for _ in range(60):
        y = recovered(x, e, i)
        if not (0 < y < 1) or y == n:
            break
        nx = x * (n / y)
        if nx == x:
            break
        x = nx
    return x


def incl(rng, c):
    d = math.radians
    near = lambda v: v + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -3)
    return {"0": lambda: 0.0, "180": lambda: rng.choice([math.pi, math.pi - 1.73e-6 * rng.random(), math.pi - 10 ** rng.uniform(-10, -5)]), "below3": lambda: d(rng.choice([1e-4, rng.uniform(0, 3)])),
            "low": lambda: d(rng.uniform(3, 20)), "lyddane": lambda: rng.uniform(0.0524, 0.2), "mid": lambda: d(rng.uniform(20, 88)),
            "critical": lambda: d(rng.choice([63.4349, 116.5651])) + rng.uniform(-1e-3, 1e-3), "polar": lambda: d(rng.choice([90.0, rng.uniform(89, 91)])),
            "retro": lambda: d(rng.uniform(92, 176)), "above177": lambda: d(rng.uniform(177.01, 179.9)),
            "edge02": lambda: max(0.0, 0.2 + rng.uniform(-4e-3, 4e-3)),
            "edge3": lambda: near(rng.choice([5.2359877e-2, math.pi - 5.2359877e-2]))}[c]()


def ecc(rng, c):
    return {"zero": lambda: 0.0, "tiny": lambda: rng.choice([1e-7, 1e-6, 1e-4, 9.99e-5, rng.uniform(0, 1e-4)]),
            "small": lambda: rng.choice([1.001e-4, rng.uniform(1e-4, 0.02), rng.uniform(1e-3, 0.05)]), "mid": lambda: rng.uniform(0.02, 0.2),
            "e50": lambda: rng.choice([0.5, 0.4999999, 0.65, rng.uniform(0.5, 0.65), rng.uniform(0.5, 0.65)]),
            "e65": lambda: rng.choice([0.6500001, rng.uniform(0.65, 0.7), rng.uniform(0.65, 0.7)]),
            "e70": lambda: rng.choice([0.7, 0.715, 0.6999999, rng.uniform(0.7, 0.715)]),
            "e72": lambda: rng.choice([0.7150001, rng.uniform(0.715, 0.75), rng.uniform(0.72, 0.75)]),
            "large": lambda: rng.uniform(0.75, 0.9)}[c]()


def bstar(rng, c):
    return {"none": lambda: 0.0, "usual": lambda: 10 ** rng.uniform(-6, -3.3), "heavy": lambda: 10 ** rng.uniform(-3.3, -1.5),
            "negative": lambda: -10 ** rng.uniform(-6, -3)}[c]()


def angle(rng):
    if rng.random() < 0.6:
        return rng.uniform(0, TWOPI)
    return rng.choice([0.0, math.pi, math.radians(90), math.radians(270), TWOPI, 10 ** rng.uniform(-9, -2), TWOPI - 10 ** rng.uniform(-9, -2),
                       math.radians(15 * rng.randint(0, 24)), -rng.uniform(0, TWOPI), rng.uniform(1, 3) * TWOPI])


def epoch(rng):
    return rng.choice([rng.uniform(2500, 38700), rng.uniform(18000, 27500), float(rng.randint(2500, 38700))])


def edge(rng, v):
    """A value at or close to a threshold, on either side."""
    return v * (1 + rng.choice([0, 1, -1, 1, -1]) * 10 ** rng.uniform(-15, -3))


PERIGEE = {"below98": (60, 98), "98to156": (98, 156), "156to220": (156, 220), "above220": (220, 700), "high": (700, 6000)}


def concrete(rng, c):
    """[epoch, bstar, ecco, argpo, inclo, mo, no, nodeo] for an abstract class."""
    i = incl(rng, c["inc"])
    kind, per = c["kind"], c["per"]
    node = angle(rng)
    if "node" in c:
        quarter = c["node"] - 1
        if kind == "resonant" or per == "lowperigee":
            quarter += rng.randint(0, 1)
        node = rng.choice([quarter * math.pi / 2 + rng.uniform(0, math.pi / 2)] * 4 + [quarter * math.pi / 2])
    if kind == "near":
        e = ecc(rng, c["ecc"]) if c["ecc"] != "large" else rng.uniform(0.2, 0.6)
        if per == "edge225":
            n = TWOPI / 225 * (1 + 10 ** rng.uniform(-8, -2))
        else:
            lo, hi = PERIGEE[per]
            h = rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), lo + 1e-4, hi - 1e-4])
            n = XKE / ((1 + h / RE) / (1 - e)) ** 1.5
            if n < TWOPI / 225 * 1.0001:
                # too eccentric to stay near-Earth: reduce eccentricity, keep the perigee
                amax = (XKE / (TWOPI / 225 * rng.uniform(1.001, 1.1))) ** (2 / 3)
                e = max(0.0, 1 - (1 + h / RE) / amax)
                n = XKE / amax ** 1.5
        b = bstar(rng, c["drag"])
    else:
        low = per in ("lowperigee", "halfdaylow")
        e = 0.0 if low else ecc(rng, c["ecc"])
        b = rng.choice([0.0, 1e-4, 10 ** rng.uniform(-6, -2), -1e-4])
        if low:
            if per == "halfdaylow":
                n = rng.choice([rng.uniform(8.27e-3, 9.23e-3), rng.uniform(1.99, 2.02) * REV])
            else:
                n = rng.choice([rng.uniform(2.13, 6.39), rng.uniform(2.13, 2.6), rng.uniform(2.13, 3)]) * REV
            lo, hi = PERIGEE[c["ecc"]]
            h = rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), lo + 1e-4, hi - 1e-4])
            e = 1 - (1 + h / RE) / (XKE / n) ** (2 / 3)
        elif per == "edge225":
            n = TWOPI / 225 * (1 - 10 ** rng.uniform(-8, -2))
        elif per == "upto12h":
            n = rng.uniform(2.13, 6.39) * REV
        elif per == "halfdaycircular":
            n, e = rng.uniform(8.26e-3, 9.24e-3), min(e, 0.4999999)
        elif per == "between":
            n = rng.uniform(1.2001, 1.892) * REV
        elif per == "far":
            n = rng.uniform(0.05, 0.7999) * REV
        elif per == "oneday":
            n = rng.choice([rng.uniform(0.81, 1.19) * REV, rng.uniform(0.99, 1.01) * REV, 1.0027 * REV])
        elif per == "onedayedge":
            n = edge(rng, rng.choice([0.0034906585, 0.0052359877]))
        elif per == "halfday":
            n, e = rng.choice([rng.uniform(8.27e-3, 9.23e-3), 2.0056 * REV, rng.uniform(1.99, 2.02) * REV]), max(e, 0.5)
        else:
            n, e = edge(rng, rng.choice([8.26e-3, 9.24e-3])), max(e, 0.5)
    return [epoch(rng), b, e, angle(rng), i, angle(rng), kozai(n, e, i), node]


def init(slot, mode, el):
    return "INIT %s %s %s" % (slot, mode, " ".join(hx(x) for x in el))


def fmt_exp(x):
    if x == 0:
        return " 00000-0"
    s = "-" if x < 0 else " "
    k = math.floor(math.log10(abs(x))) + 1
    m = round(abs(x) / 10.0 ** k * 1e5)
    if m == 100000:
        m, k = 10000, k + 1
    if k < -9:
        return " 00000-0"
    return "%s%05d%s%d" % (s, m, "+" if k > 0 else "-", min(abs(k), 9))


def text(el):
    """The element set as two lines (rounded to the columns)."""
    ep, b, e, argp, i, m, no, node = el
    # days are counted from 1949-12-31; the columns reach from 1957 to 2056
    whole = math.floor(ep)
    date = datetime.date(1949, 12, 31) + datetime.timedelta(whole if 2558 <= whole <= 39081 else 2558 + whole % 36000)
    yr, day = date.year, date.timetuple().tm_yday + ep - whole
    deg = lambda a: "%8.4f" % (math.degrees(a) % 360.0 if a != TWOPI else 360.0)
    return tle.lines(epochyr="%02d" % (yr % 100), epochdays="%012.8f" % day, bstar=fmt_exp(b),
                     inclo="%8.4f" % math.degrees(i), nodeo=deg(node), ecco="%07d" % min(9999999, round(e * 1e7)),
                     argpo=deg(argp), mo=deg(m), no="%11.8f" % (no / REV))


def load(slot, el):
    l1, l2 = text(el)
    return "LOAD %s %s %s" % (slot, tx(l1), tx(l2))


def times(rng, kind, far):
    """Offsets covering every class of time: both signs, step boundaries, near and far."""
    t = [0.0, rng.uniform(0, 720), -rng.uniform(0, 720), rng.uniform(720, 20000), -rng.uniform(720, 20000),
         rng.choice([1, -1]) * 720.0 * rng.randint(1, 12), rng.choice([1, -1]) * rng.uniform(2e4, far),
         rng.choice([1, -1]) * rng.choice([10 ** rng.uniform(-9, 0), float(rng.randint(1, 20000)), 1440.0 * rng.randint(1, 40), 10 ** rng.uniform(4, 6.3)])]
    if kind == "resonant":
        k = 720.0 * rng.randint(1, 40)
        t += [k, -k, math.nextafter(k, 0), math.nextafter(k, 1e9), rng.choice([1, -1]) * rng.uniform(5e4, far)]
    return [float(x) for x in t]
