"""C07 (calendar and Julian dates) and C09 (sidereal time)."""
import calendar, math, struct
from vlib import hx, tx, chunks
import tle

MODEL = "INIT Init\nNEXT Next\nINVARIANTS ClosedForms KnownDates FourYearRule\nCHECK_DEADLOCK FALSE\n"
GEN = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def rand_utc(rng, months):
    """A random instant; extremes of every component are drawn often."""
    c = rng.choice(months)
    d = rng.choice([1, c["len"], rng.randint(1, c["len"])])
    pick = lambda n: rng.choice([0, n - 1, rng.randint(0, n - 1), rng.randint(0, n - 1)])
    ns = rng.choice([0, 1, 999999999, 500000000, 1000000 * rng.randint(0, 999), rng.randint(0, 999999999)])
    h, mi, sec = pick(24), pick(60), pick(60)
    if sec == 59 and rng.random() < 0.25:      # within a leap second: counted on from second 59
        ns += 1000000000
        if rng.random() < 0.5:
            h, mi = 23, 59
    return "%d %d %d %d %d %d %d" % (c["y"], c["m"], d, h, mi, sec, ns)


def kin(rng, cmds, relative, share=0.3):
    """Some calls are followed by one that has much in common with them (and some by themselves once more),
    so that anything remembered from one call to the next shows."""
    by = {}
    for c in cmds:
        by.setdefault(c.split(" ", 1)[0], []).append(c)
    out = []
    for c in cmds:
        out.append(c)
        if rng.random() < share:
            r = relative(rng, c.split(" "), rng.choice(by[c.split(" ", 1)[0]]).split(" "))
            if r:
                out.append(" ".join(r))
                if rng.random() < 0.3:
                    out.append(c)
    return out


def related(rng, a, b):
    """Calls about the same day, time of day, year or day of year; or about next to the same number."""
    if a[0] == "JDAY":                   # the date of one, the time of the other
        return a[:4] + b[4:] if rng.random() < 0.6 else b[:4] + a[4:]
    if a[0] in ("JDDT", "GSTDT"):
        k = rng.choice([3, 4, 5, 6, 7])  # the first k - 1 components of one
        r = a[:3] + ["%d" % rng.randint(1, 28)] + a[4:] if k == 3 else a[:k] + b[k:]
        if r[6] != "59":                 # a leap second is counted on from second 59
            r[7] = "%d" % (int(r[7]) % 10 ** 9)
        if r[1] != a[1] or r[2] != a[2]:
            r[3] = "%d" % min(28, int(r[3]))
        return r
    if a[0] == "D2M":
        return [a[0], a[1], b[2]] if float(num(b[2])) < 366 else [a[0], b[1], a[2]] if float(num(a[2])) < 366 else None
    if a[0] == "GST":
        j = num(a[1])
        return ["GST", hx(rng.choice([math.floor(j) + rng.random(), j + rng.choice([1, -1]) * 10 ** rng.uniform(-9, 0), j + rng.randint(-400, 400), j]))]
    return None


def num(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def c07(ctx):
    rng = ctx.rng
    ctx.model("CalendarModel", MODEL)
    months = ctx.generate("GenCalendar", GEN)
    cmds = []
    # every date of the range: Julian date at 0h and at a random time, and the day-of-year split
    reps = 4 if ctx.thorough else 1
    for c in months:
        for d in range(1, c["len"] + 1):
            date = [hx(c["y"]), hx(c["m"]), hx(d)]
            cmds.append("JDAY " + " ".join(date + [hx(0)] * 4))
            ctx.tally("dates")
    for y in range(1901, 2100):
        n = 366 if calendar.isleap(y) else 365
        for k in range(1, n + 1):
            for _ in range(reps):
                fr = rng.choice([0.0, 0.5, rng.random(), rng.random(), round(rng.random(), 8),
                                 rng.randint(0, 86399) / 86400.0, rng.randint(0, 1439) / 1440.0,
                                 rng.randint(0, 23) / 24.0, 0.99999999, 1e-9, 1.0, rng.randint(1, 24) / 24.0, rng.randint(1, 1440) / 1440.0])
                days = k + fr
                if fr > 0 and (days >= k + 1 or rng.random() < 0.2):      # the last number before the boundary
                    days = math.nextafter(days, 0)
                if not k <= days < k + 1:
                    days = float(k)
                cmds.append("D2M %d %s" % (y, hx(days)))
                ctx.tally("days of year")
    for _ in range(80000 if ctx.thorough else 12000):
        u = rand_utc(rng, months)
        cmds.append("JDDT " + u)
        y, mo, d, h, mi, s, ns = map(int, u.split())
        sec = rng.choice([s, s, rng.random() * 60, 59.999])
        cmds.append("JDAY " + " ".join(hx(v) for v in (y, mo, d, h, mi, sec, rng.choice([0, 999, rng.random() * 1000]))))
    # epochs of parsed element sets: every two-digit year, boundary and random days
    for yy in range(100):
        full = 2000 + yy if yy < 57 else 1900 + yy
        n = 366 if calendar.isleap(full) else 365
        starts = [sum(calendar.monthrange(full, m)[1] for m in range(1, k)) for k in range(1, 14)]
        turns = [d + rng.choice([0.0, rng.random()]) for m in starts for d in (m, m + 1) if 1 <= d <= n]
        for day in turns + [1.0, 59.5, 60.0, 60.99999999, 61.25, n + 0.99999999] + [1 + rng.random() * (n - 1) for _ in range(40 if ctx.thorough else 10)]:
            l1, l2 = tle.lines(epochyr="%02d" % yy, epochdays="%012.8f" % day)
            cmds.append("PS %s %s" % (tx(l1), tx(l2)))
            ctx.tally("element-set epochs")
    rng.shuffle(cmds)
    cmds = kin(rng, cmds, related)
    ctx.conform("TraceTime", list(chunks(cmds, 200)), chunk=60000)


def c09(ctx):
    rng = ctx.rng
    ctx.model("CalendarModel", MODEL)
    months = ctx.generate("GenCalendar", GEN)
    cmds = []
    n = 60000 if ctx.thorough else 8000
    for _ in range(n):
        cmds.append("GST " + hx(rng.uniform(2415020.5, 2488069.5)))
        ctx.tally("Julian dates")
    # every midnight of the range, and the neighbourhood of the daily wrap
    for j in range(2415021, 2488070, 1 if ctx.thorough else 5):
        cmds.append("GST " + hx(j - 0.5))
        cmds.append("GST " + hx(float(j)))
        th = gmst_turns(j - 0.5)
        w = (j - 0.5) + (1 - th % 1) / 1.00273790935
        for eps in (-2e-9, -5e-10, 0, 5e-10, 2e-9):
            cmds.append("GST " + hx(w + eps))
            ctx.tally("around the wrap")
    for _ in range(n):
        cmds.append("GSTDT " + rand_utc(rng, months))
        ctx.tally("UTC instants")
    rng.shuffle(cmds)
    cmds = kin(rng, cmds, related)
    ctx.conform("TraceTime", list(chunks(cmds, 200)), chunk=60000)


def gmst_turns(jd):
    """Only used to aim inputs at the wrap; the oracle is Sidereal.tla."""
    t = (jd - 2451545.0) / 36525.0
    return (67310.54841 + (876600 * 3600 + 8640184.812866) * t + 0.093104 * t * t - 6.2e-6 * t ** 3) / 86400.0


PROPS = {"C07": c07, "C09": c09}
