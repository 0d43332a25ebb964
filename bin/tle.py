"""Writing element sets in the standard fixed-column layout."""


def put(buf, col, text):
    buf[col:col + len(text)] = list(text)


def lines(satnum="25544", epochyr="19", epochdays="085.83761025", ndot=" .00001292", nddot=" 00000-0",
          bstar=" 28282-4", inclo=" 51.6446", nodeo=" 50.5941", ecco="0002332", argpo="117.0184",
          mo="328.1109", no="15.52438493", cls="U", desig="98067A  ", elnum=" 999", rev="16246", length=None):
    l1 = [" "] * 69
    put(l1, 0, "1 "); put(l1, 2, satnum); put(l1, 7, cls); put(l1, 9, desig)
    put(l1, 18, epochyr); put(l1, 20, epochdays); put(l1, 33, ndot); put(l1, 44, nddot); put(l1, 53, bstar)
    put(l1, 62, "0"); put(l1, 64, elnum)
    l2 = [" "] * 69
    put(l2, 0, "2 "); put(l2, 2, satnum); put(l2, 8, inclo); put(l2, 17, nodeo); put(l2, 26, ecco)
    put(l2, 34, argpo); put(l2, 43, mo); put(l2, 52, no); put(l2, 63, rev)
    for l in (l1, l2):
        s = sum(int(c) if c.isdigit() else 1 if c == "-" else 0 for c in l[:68])
        l[68] = str(s % 10)
    return "".join(l1), "".join(l2)


# ------------------------------------------------------------------ random well-formed fields
def rand_fields(rng):
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    f = {}
    f["satnum"] = rng.choice([d(5), "%5d" % rng.randint(1, 99999), "%-5d" % rng.randint(1, 9999), "T" + d(4), "00" + d(3)])
    f["epochyr"] = rng.choice(["00", "56", "57", "99", "%02d" % rng.randint(0, 99), "%02d" % rng.randint(0, 99), "%2d" % rng.randint(0, 9)])
    day = rng.choice([1, 365, rng.randint(1, 365), rng.randint(1, 365)])
    f["epochdays"] = rng.choice(["%03d.%s" % (day, d(8)), "%3d.%s" % (day, d(8)), "%d.%s" % (day, d(4)), "%03d." % day, "%d" % day]).ljust(12)
    s = rng.choice(" -+")
    f["ndot"] = rng.choice([s + "." + d(8), s + "." + "0" * 4 + d(4), (s + "0." + d(7)), (s.strip() + "." + d(3)).rjust(10)])
    for k in ("nddot", "bstar"):
        mant = rng.choice([d(5), "00000", "0" + d(4), "000" + d(2), "00001", "99999", "%5d" % rng.randint(0, 9999)])
        f[k] = rng.choice(" +-") + mant + rng.choice("-+--") + rng.choice("0123456789")
    for k, top in (("inclo", 180), ("nodeo", 360), ("argpo", 360), ("mo", 360)):
        v = rng.choice([0, top, rng.random() * top, rng.random() * top, rng.random() * top])
        f[k] = rng.choice(["%8.4f", "%08.4f", "%8.4f", "%-8.3f"]) % v
    f["ecco"] = rng.choice([d(7), "0000000", "0000001", "00" + d(5), "9999999"])
    n = rng.choice([rng.uniform(0.5, 17), rng.uniform(11, 16.5), rng.uniform(0.9, 2.4)])
    f["no"] = rng.choice(["%11.8f" % n, "%011.8f" % n, "%-11.6f" % n])
    f["cls"] = rng.choice("USC ")
    f["desig"] = rng.choice(["98067A  ", "        ", "58002B  "])
    f["elnum"] = "%4d" % rng.randint(0, 9999)
    f["rev"] = "%5d" % rng.randint(0, 99999)
    return f


def rand(rng):
    l1, l2 = lines(**rand_fields(rng))
    c = rng.random()
    if c < 0.1:
        l1 = l1[:rng.randint(61, 69)]
        l2 = l2[:rng.randint(63, 69)]
    elif c < 0.15:
        l1 += rng.choice(["  ", " trailing", "é", "\r"])
        l2 += rng.choice(["  ", " 123", "日", "\r"])
    return l1, l2


SPANS1 = {"epochyr": (18, 20), "epochdays": (20, 32), "ndot": (33, 43), "nddot": (44, 52), "bstar": (53, 61)}
SPANS2 = {"inclo": (8, 16), "nodeo": (17, 25), "ecco": (26, 33), "argpo": (34, 42), "mo": (43, 51), "no": (52, 63)}
JUNK = list("xX,:/_-+. eEOol") + ["é", "日", "\u00a0", "١", "\t", "\0"]
WORDS = ["nan", "inf", "-inf", "NaN", "infinity", "1e5", "1E-3", "--1", "1.2.3", "0x10", "1_0", "", ".", "-", "+", "e5", "1 2", "12a", "٣"]


def splice(line, lo, hi, text):
    """Replaces columns lo..hi by text (cut or padded), keeping the columns after them in place if possible."""
    b = text[:hi - lo].ljust(hi - lo)
    return line[:lo] + b + line[hi:]


def damage(rng, l1, l2, n=1, keep_len=True):
    for _ in range(n):
        spans, which = rng.choice([(SPANS1, 1), (SPANS2, 2)])
        lo, hi = spans[rng.choice(sorted(spans))]
        l = l1 if which == 1 else l2
        c = rng.random()
        if c < 0.55:
            p = rng.randint(lo, hi - 1)
            l = l[:p] + rng.choice(JUNK) + l[p + 1:]
        elif c < 0.75:
            w = rng.choice(WORDS)
            l = splice(l, lo, hi, rng.choice([w.rjust(min(hi - lo, 8)), w]))
        elif c < 0.85:
            l = splice(l, lo, hi, "")
        elif keep_len or c < 0.93:
            p = rng.randint(lo, hi - 1)
            l = l[:p] + l[p + 1:] + " "
        else:
            l = l[:rng.randint(2, len(l))]
        if which == 1:
            l1 = l
        else:
            l2 = l
    return l1, l2


def uninitialisable(rng, f):
    """An element set whose fields are fine but whose orbit cannot be propagated to epoch."""
    f = dict(f)
    f.update(rng.choice([{"no": " 0.00000000"}, {"no": "00.00000000"}, {"ecco": "9999999", "no": "15.50000000"},
                         {"ecco": "7500000", "no": "14.00000000", "mo": "  0.0000"}, {"no": "-1.00000000"},
                         {"no": "17.90000000", "ecco": "1000000", "mo": "  0.0000", "inclo": " 51.0000"}]))
    return lines(**f)
