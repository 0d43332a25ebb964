"""C01-C06: the text entry points."""
from vlib import hx, tx, chunks
import tle

CAT_MODEL = ("CONSTANT MaxRecords = %d\nSPECIFICATION Spec\nINVARIANTS Recovered Isolated SameGroups Compositional\n"
             "PROPERTY Progress\nCHECK_DEADLOCK FALSE\n")
GEN = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"

TITLES = {
    "plain": ["ISS (ZARYA)", "NOAA 15 [B]", "  PADDED NAME   ", "OBJET \u00c9T\u00c9", "\u65e5\u672c\u885b\u661f", "0", "00ABC",
              "12345", "0-1", "1", "2", "A" * 90, "X", "\tTABBED\t", "1X", "COSMOS 2251 DEB", "TWO  BLANKS   INSIDE", "TAB\tINSIDE", "0 ", "-", "A" * 300,
              "0\u00a0NBSP", "00 ZEROS", "0.5", "# HASH", "#1", "// SLASHES", "\"QUOTED\"", "'Q'", "; SEMI", "* STAR", "A,B", "NAME #2", "TRAILING 0 "],
    "zero": ["0 COSMOS 1", "0  TWO BLANKS", "0 0 A", "0 \u00c9TOILE", " 0 INDENTED", "0 1 WORLD", "0 VANGUARD 1  ", "0 00", "0 TWO  BLANKS", "0 " + "Z" * 100],
    "one": ["1 WORLDVIEW", "1 1", "1 25544U BUT A TITLE", "1  ",
            "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995"],
    "two": ["2 BETA", "2 25544", "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461"],
}


def record(rng, fate, serial):
    f = tle.rand_fields(rng)
    f.update(no="%11.8f" % rng.uniform(12, 15.5), ecco="00%05d" % rng.randint(0, 99999), inclo="%8.4f" % rng.uniform(1, 170))
    f["bstar"] = " 28282-4"
    f["satnum"] = "%05d" % (serial % 100000)
    if fate == "ok":
        return tle.lines(**f)
    if fate == "init":
        return tle.uninitialisable(rng, f)
    while True:
        l1, l2 = tle.lines(**f)
        m1, m2 = tle.damage(rng, l1, l2, rng.choice([1, 1, 2]))
        if m1[:2] == "1 " and m2[:2] == "2 ":
            if (fate == "bad1" and m1 != l1) or (fate == "bad2" and m2 != l2 and m1 == l1) or fate == "bad":
                return m1, m2


def assemble(rng, lines):
    """Joins lines with random line endings and blank lines."""
    style = rng.choice(["lf", "lf", "crlf", "mixed"])
    eol = lambda: {"lf": "\n", "crlf": "\r\n"}.get(style) or rng.choice(["\n", "\r\n"])
    blank = lambda: "".join(rng.choice(["", "  ", "\t", "   \t "]) + eol() for _ in range(rng.choice([0, 0, 0, 1, 2])))
    out = blank()
    for k, l in enumerate(lines):
        out += l
        if k < len(lines) - 1:
            out += eol() + blank()
    if rng.random() < 0.7:
        out += eol() + blank()
    return out


KIN = ["strangers", "satellite", "text", "name"]


def catalogue(rng, case, serial):
    recs, lines, seen, names = [], [], {}, {}
    kin = case.get("kin") or rng.choice(KIN)
    for t, fate in case["recs"]:
        l1, l2 = record(rng, fate, serial + (0 if kin == "satellite" else len(recs)))
        if kin == "text":
            l1, l2 = seen.setdefault(fate, (l1, l2))
        if t != "none":
            name = rng.choice(TITLES[t])
            lines.append(names.setdefault(t, name) if kin in ("name", "text") else name)
        lines += [l1, l2]
        recs.append((l1, l2))
    l1, _ = record(rng, "ok", serial)
    tail = {"none": [], "title": ["LONE TITLE"], "line1": [l1], "both": ["LONE TITLE", l1]}[case["tail"]]
    return recs, assemble(rng, lines + tail)


def catalogue_sessions(ctx, cases):
    out = []
    for n, case in enumerate(cases):
        recs, text = catalogue(ctx.rng, case, 10 * n + 1)
        out.append(["TL %s %s" % (tx(a), tx(b)) for a, b in recs] + ["PM " + tx(text)])
        ctx.tally("%d records" % len(recs))
        ctx.tally("tail " + case["tail"])
        ctx.tally("kin " + case.get("kin", "mixed"))
        for t, f in case["recs"]:
            ctx.tally("record %s/%s" % (t, f))
    return out


def repeated_sessions(ctx, fates, titles=("none", "plain", "zero", "one", "two")):
    """Catalogues too long to write out: more lines, records or errors than 16 bits count."""
    rng, out = ctx.rng, []
    for unit, tail in [("lines", "none"), ("records", "none"), ("lines", "line1"), ("lines", "both")][:4 if len(fates) > 1 else 2]:
        case = {"recs": [(rng.choice(titles), rng.choice(fates)) for _ in range(rng.randint(2, 25))], "tail": "none", "kin": "strangers"}
        case["recs"].append(("none", "ok"))
        if len(fates) > 1:
            case["recs"].insert(0, ("none", "bad2"))
        recs, text = catalogue(rng, case, rng.randint(1, 900))
        if not text.rstrip(" \t").endswith("\n"):
            text += "\n"
        text = text.rstrip(" \t")
        last = {"recs": [(rng.choice(titles), rng.choice(fates)) for _ in range(rng.randint(1, 4))], "tail": tail, "kin": "strangers"}
        lrecs, ltext = catalogue(rng, last, 950)
        nlines = len([l for l in text.split("\n") if l.strip()])
        n = 66500 // (nlines if unit == "lines" else len(recs)) + 2
        if ctx.thorough:
            n *= 4
        out.append(["TL %s %s" % (tx(a), tx(b)) for a, b in recs + lrecs] + ["PR %d %s %s" % (n, tx(text), tx(ltext))])
        ctx.tally("catalogues of more than 65536 " + unit)
    return out


def gen_catalogues(ctx, maxrec, titles, fates, tails, kin=("strangers",)):
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    return ctx.generate("GenCatalog", "CONSTANTS\nMaxRecords = %d\nTitles = %s\nFates = %s\nTails = %s\nKin = %s\n%s"
                        % (maxrec, q(titles), q(fates), q(tails), q(kin), GEN))


def c04(ctx):
    ctx.model("CatalogModel", CAT_MODEL % (4 if ctx.thorough else 3))
    cases = gen_catalogues(ctx, 5 if ctx.thorough else 4, ["none", "plain", "zero", "one", "two"], ["ok"], ["none"], KIN)
    for n in [300, 1500] + [8000] * ctx.thorough:      # more lines than a small counter holds
        cases.append({"recs": [(ctx.rng.choice(["none", "plain", "zero", "one", "two"]), "ok") for _ in range(n)], "tail": "none"})
    for _ in range(60):      # and long random mixtures
        cases.append({"recs": [(ctx.rng.choice(["none", "plain", "zero", "one", "two"]), "ok")
                               for _ in range(ctx.rng.randint(6, 40))], "tail": "none"})
    ctx.conform("TraceText", catalogue_sessions(ctx, cases) + repeated_sessions(ctx, ["ok"]), chunk=6000)


def c05(ctx):
    rng = ctx.rng
    ctx.model("CatalogModel", CAT_MODEL % (4 if ctx.thorough else 3))
    fates = ["ok", "bad1", "bad2", "init"]
    tails = ["none", "title", "line1", "both"]
    cases = gen_catalogues(ctx, 3, ["none", "plain"], fates, tails, KIN if ctx.thorough else ["strangers", "satellite"])
    if ctx.thorough:
        cases += gen_catalogues(ctx, 4, ["none", "plain"], fates, ["none"])
        cases += gen_catalogues(ctx, 4, ["none", "zero", "two"], ["ok", "bad2"], tails)
    else:
        cases += rng.sample(gen_catalogues(ctx, 4, ["none", "one", "zero"], ["ok", "bad"], tails, KIN), 1500)
    for n in [300, 1500] + [5000] * ctx.thorough:      # more lines than a small counter holds
        cases.append({"recs": [(rng.choice(["none", "plain", "zero", "one", "two"]), rng.choice(fates)) for _ in range(n)], "tail": "line1"})
    for _ in range(60):
        cases.append({"recs": [(rng.choice(["none", "plain", "zero", "one", "two"]), rng.choice(fates + ["ok", "ok"]))
                               for _ in range(rng.randint(5, 30))], "tail": rng.choice(tails)})
    ctx.conform("TraceText", catalogue_sessions(ctx, cases) + repeated_sessions(ctx, fates), chunk=6000)


def c02(ctx):
    rng = ctx.rng
    cmds = []

    def add(l1, l2):
        cmds.append("PS %s %s" % (tx(l1), tx(l2)))
        if rng.random() < 0.3:
            cmds.append("TL %s %s" % (tx(l1), tx(l2)))
    for _ in range(40000 if ctx.thorough else 6000):
        add(*tle.rand(rng))
        ctx.tally("random element sets")
    base = tle.rand_fields(rng)
    # each field swept over its written forms with the others fixed
    for yy in range(100):
        add(*tle.lines(**dict(base, epochyr="%02d" % yy)))
        ctx.tally("years")
    for key in ("nddot", "bstar"):
        for sign in " +-":
            for mant in ("    0", "    1", "  123", "1    ", " 12  ", "12345", "00000", "00001", "00012", "00123", "01234", "90000", "99999", "10000"):
                for ex in ("-0", "+0", "-1", "-3", "-4", "-9", "+1", "+9"):
                    add(*tle.lines(**dict(base, **{key: sign + mant + ex})))
                    ctx.tally("drag forms")
    for e in ("0000000", "0000001", "0000010", "0100000", "1000000", "9999999", "0012300"):
        add(*tle.lines(**dict(base, ecco=e)))
    for key in ("inclo", "nodeo", "argpo", "mo"):
        for v in ("  0.0000", "000.0000", "180.0000", " 90.0000", "  0.0001", "359.9999", "  1.5   ", "12      ", "   .5   ", "-12.5000", "+12.5000"):
            add(*tle.lines(**dict(base, **{key: v})))
            ctx.tally("angle forms")
    for v in (" .00000000", "-.00000001", " .99999999", "+.12345678", "0.00000000", "-0.1234567", "         0", "1.        "):
        add(*tle.lines(**dict(base, ndot=v)))
    for v in ("001.00000000", "366.99999999", "  1.00000000", "85.5        ", "100         ", "1.          "):
        add(*tle.lines(**dict(base, epochdays=v)))
    ctx.conform("TraceText", list(chunks(cmds, 50)), chunk=30000)


def c03(ctx):
    rng = ctx.rng
    sessions = []

    def add(l1, l2):
        s = ["PS %s %s" % (tx(l1), tx(l2)), "TL %s %s" % (tx(l1), tx(l2))]
        if l1[:2] == "1 " and l2[:2] == "2 " and "\n" not in l1 + l2:
            text = ([rng.choice(["NAME", "0 NAME"])] if rng.random() < 0.5 else []) + [l1, l2]
            s += ["PA " + tx("\n".join(text)), "PM " + tx("\n".join(text))]
        sessions.append(s)
    base1, base2 = tle.rand(rng)
    base1, base2 = base1.ljust(69)[:69], base2.ljust(69)[:69]
    # every column of both lines, damaged in turn
    junk = tle.JUNK if ctx.thorough else ["x", "é", " ", "-", "."]
    for which in (1, 2):
        for p in range(2, 69):
            for j in junk:
                l = base1 if which == 1 else base2
                l = l[:p] + j + l[p + 1:]
                add(*((l, base2) if which == 1 else (base1, l)))
                ctx.tally("single-column damage")
    # every truncation
    for n in range(2, 69):
        add(base1[:n], base2)
        add(base1, base2[:n])
        ctx.tally("truncations", 2)
    # every field emptied or replaced by a word
    for spans, which in ((tle.SPANS1, 1), (tle.SPANS2, 2)):
        for k, (lo, hi) in spans.items():
            for w in tle.WORDS:
                l = tle.splice(base1 if which == 1 else base2, lo, hi, w.rjust(hi - lo) if rng.random() < .5 else w)
                add(*((l, base2) if which == 1 else (base1, l)))
                ctx.tally("field replaced")
    # random multiple damage
    for _ in range(16000 if ctx.thorough else 1500):
        l1, l2 = tle.rand(rng)
        add(*tle.damage(rng, l1, l2, rng.choice([1, 1, 2, 3]), keep_len=False))
        ctx.tally("random damage")
    ctx.conform("TraceText", sessions, chunk=15000)


def single_lines(rng, case):
    """Concrete lines of an abstract single-record text (GenSingle)."""
    out = []
    l1, l2 = record(rng, {"ok": "ok", "bad": "bad", "init": "init"}[case["fate"]], rng.randint(1, 99999))
    n = len(case["starts"])
    for k, s in enumerate(case["starts"]):
        if k == n - 2:
            l = l1
        elif k == n - 1:
            l = l2
        else:
            l = rng.choice(TITLES["plain"] + TITLES["zero"])
        if k >= n - 2:
            l = s + l[1:] if s in "12" else rng.choice("0 3xA\u00e9") + l[1:]
            if l.strip() == "":
                l = "x"
        elif s in "12":
            l = s + " TITLE"
        out.append(l)
    return out


def c06(ctx):
    rng = ctx.rng
    ctx.model("CatalogModel", CAT_MODEL % 3)
    cases = ctx.generate("GenSingle", GEN)
    sessions = []
    for _ in range(3 if ctx.thorough else 1):
        for c in cases:
            ls = single_lines(rng, c)
            text = assemble(rng, ls)
            s = ["PA " + tx(text)]
            real = [l for l in text.split("\n") if l.strip()]
            if len(real) in (2, 3) and real[-2][0] == "1" and real[-1][0] == "2":
                s += ["TL %s %s" % (tx(real[-2]), tx(real[-1])), "PM " + tx(text)]
                ctx.tally("compared with the other routes")
            ctx.tally("%d lines" % len(real))
            sessions.append(s)
    # titles of every kind
    for kind in TITLES:
        for t in TITLES[kind]:
            for fate in ("ok", "bad", "init"):
                text = assemble(rng, [t] + list(record(rng, fate, 7)))
                real = [l for l in text.split("\n") if l.strip()]
                sessions.append(["PA " + tx(text), "TL %s %s" % (tx(real[-2]), tx(real[-1])), "PM " + tx(text)])
    ctx.conform("TraceText", sessions, chunk=12000)


ODD = ["\u00e9", "\u65e5", "\U0001f680", "\u00a0", "\u2028", "\u0085", "\0", "\t", "\r", "\x0b", "\ufeff", "\u0663", "e\u0301", "-", "+", ".", "E", " "]


def c01(ctx):
    rng = ctx.rng
    sessions = []

    def two(l1, l2):
        return ["PS %s %s" % (tx(l1), tx(l2)), "TL %s %s" % (tx(l1), tx(l2))]

    def text(t):
        return ["PA " + tx(t), "PM " + tx(t)]
    base1, base2 = tle.lines()
    # every column replaced by, or shifted by, an odd character
    for which in (1, 2):
        for p in range(70):
            for c in ODD:
                for ins in (0, 1):
                    l = base1 if which == 1 else base2
                    l = l[:p] + c + l[p + 1 - ins:]
                    a, b = (l, base2) if which == 1 else (base1, l)
                    s = two(a, b)
                    if rng.random() < (1 if ctx.thorough else 0.2):
                        s += text(a + "\n" + b) + text("T\n" + a + "\n" + b)
                    sessions.append(s)
                    ctx.tally("odd character at a column")
    # every truncation of either line, and of whole texts
    for n in range(70):
        for m in ((n, 69), (69, n), (n, n)):
            sessions.append(two(base1[:m[0]], base2[:m[1]]) + text(base1[:m[0]] + "\n" + base2[:m[1]]))
            ctx.tally("truncations")
    full = "0 ISS (ZARYA)\r\n" + base1 + "\r\n" + base2 + "\r\n\r\n" + base1 + "\n" + base2 + "\n"
    for n in range(len(full) + 1):
        sessions.append(text(full[:n]) + text(full[n:]))
        ctx.tally("cut texts")
    # titles and short lines of every shape
    heads = ["", "0", "0 ", "1", "1 ", "2", "2 ", "\u00e9", "0\u00e9", "1\u00e9", "2\u65e5", " ", "\t", "\r", "\u00a0", "\u2003", "0\u00a0", "x" * 300, "1" * 200]
    for a in heads:
        sessions.append(text(a))
        for b in heads:
            sessions.append(text(a + "\n" + b) + two(a, b))
            for c in heads:
                sessions.append(text(a + "\n" + b + "\n" + c))
                ctx.tally("line heads")
    # very long texts: lines, blank lines, records, garbage, a single line, all heads in turn
    for t in ["\n", "x\n", "1 \n", "\u00e9", "\r\n \n", "1 \n2 \n", base1 + "\n", base2 + "\n", full, full[:-40] + "\n",
              "".join(h + "\n" for h in heads)]:
        for tail in ("", "T", base1):
            sessions.append(["PR %d %s %s" % (70000 if len(t) < 200 else 40000, tx(t), tx(tail))])
            ctx.tally("very long texts")
    # random texts
    alphabet = list("0123456789 .-+E12\n\n\r") + ["\u00e9", "\u65e5", "\U0001f680", "\u00a0"]
    for _ in range(8000 if ctx.thorough else 1200):
        t = "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 250)))
        sessions.append(text(t))
        ctx.tally("random texts")
    # element sets with extreme numbers
    for _ in range(12000 if ctx.thorough else 2000):
        l1, l2 = tle.rand(rng)
        l1, l2 = tle.damage(rng, l1, l2, rng.choice([0, 1, 2, 4]), keep_len=False)
        if rng.random() < 0.5:
            lo, hi = rng.choice([(18, 20), (20, 32), (33, 43)])
            l1 = tle.splice(l1, lo, hi, rng.choice(["-1", "99", "-9", "999999999999", "-99999999999", "1e308", "1e-308", "0", "-0", "1e20", "366.99999999", "367", "1e9"]))
        if rng.random() < 0.5:
            lo, hi = rng.choice(sorted(tle.SPANS2.values()))
            l2 = tle.splice(l2, lo, hi, rng.choice(["-1", "9999999", "-99999999", "1e308", "1e-308", "0", "-0", "1e20", "0000000", "180.0000"]))
        s = two(l1, l2)
        if "\n" not in l1 + l2:
            s += text(l1 + "\n" + l2)
        sessions.append(s)
        ctx.tally("extreme numbers")
    ctx.conform("TraceText", sessions, chunk=25000)


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
