#!/usr/bin/env python3
"""selftest.py [PROPERTY...] [n=200]: can the trace specifications say no?

Runs each check's replay on the real crate, corrupts one value per recorded session (a number, flag,
code, text, count or kind of outcome), and has TLC judge the corrupted recordings.  Prints, per
property, which fraction was noticed and where the unnoticed corruptions were.  A development aid:
no check depends on it, and not every corruption must be noticed (a property looks at its own part
of an outcome; a tolerance has room)."""
import collections, json, os, random, re, shutil, struct, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, vlib


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            if k not in ("s", "t"):          # what was asked, not what came back
                yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if len(x) == 2 and all(isinstance(v, int) for v in x) and path[-1] not in ("text", "name", "satnum"):
            yield path
        else:
            if x and all(isinstance(v, int) for v in x):
                yield path
            else:
                for k, v in enumerate(x):
                    yield from leaves(v, path + (k,))
    else:
        yield path


def at(x, path):
    for p in path:
        x = x[p]
    return x


def corrupt(rng, x, path):
    v, box = at(x, path), at(x, path[:-1])
    if isinstance(v, bool):
        new = not v
    elif isinstance(v, int):
        new = v + 1
    elif isinstance(v, str):
        new = {"ok": "err", "err": "panic", "rec": "linecount", "float": "int", "int": "float", "val": "panic"}.get(v, v + "x")
    elif len(v) == 2 and path[-1] not in ("text", "name", "satnum"):
        y = vlib.num(v)
        y = y + rng.choice([-1, 1]) * max(1e-4 * abs(y), 1e-3) if abs(y) < 1e300 else 1e-3
        new = list(struct.unpack(">ii", struct.pack(">d", y)))
    else:
        new = v[:-1] if len(v) > 1 else v + [65]
    box[path[-1]] = new
    if v == "ok":
        box["code"] = 6
    return new


def main():
    pids = [a for a in sys.argv[1:] if re.match(r"C\d\d$", a)] or sorted(check.REGISTRY)
    n = int(next((a[2:] for a in sys.argv[1:] if a.startswith("n=")), 200))
    built = vlib.build()
    os.makedirs(os.path.join(vlib.BUILD, "run"), exist_ok=True)
    for pid in pids:
        work = tempfile.mkdtemp(prefix="selftest-", dir=os.path.join(vlib.BUILD, "run"))
        try:
            ctx = check.Ctx(pid, "quick", 1, work, built)
            got = []
            ctx.conform = lambda module, sessions, consts=None, chunk=0, events=None: \
                got.append((module, consts, sessions)) or ctx.run(sessions)
            check.REGISTRY[pid](ctx)
            rng = random.Random(pid)
            noticed, missed, total = collections.Counter(), collections.Counter(), 0
            for module, consts, sessions in got:
                pick = rng.sample(range(len(sessions)), min(n // len(got) + 1, len(sessions)))
                events, what = [], []
                for ev in ctx.run([sessions[k] for k in pick]):
                    ev = [json.loads(e) for e in ev]
                    ps = [(i,) + p for i, e in enumerate(ev) for k in ("out", "flag", "regime", "runs", "same", "after") if k in e
                          for p in leaves(e[k], (k,)) if not (e["ev"] == "LOAD" and p == ("out", "k")) and at(e, p) != "absent"]
                    if not ps:
                        continue
                    p = rng.choice(ps)
                    corrupt(rng, ev, p)
                    events.append([json.dumps(e, separators=(",", ":")) for e in ev])
                    what.append("%s %s" % (ev[p[0]]["ev"], ".".join(str(x) for x in p[1:] if not isinstance(x, int))))
                path = os.path.join(work, "trace.ndjson")
                with open(path, "w") as fh:
                    for s in events:
                        fh.write('{"events":[' + ",".join(s) + "]}\n")
                cfg = "CONSTANT Gravity = \"wgs84\"\nCONSTANT Prop = \"%s\"\n" % pid
                for k, v in (consts or {}).items():
                    cfg += "CONSTANT %s = %s\n" % (k, v)
                cfg += "INIT TraceInit\nNEXT TraceNext\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"
                t = vlib.tlc(module, cfg, work, env={"TRACE": path}, extra=["-continue"])
                if "is violated" not in t.text and not t.completed:
                    print(t.text[-2000:])
                for m in re.findall(r"(?:Exception|evaluating|attempted)[^\n]*", t.text, re.I)[:3]:
                    print("   tlc:", m)
                bad = {int(x) for x in re.findall(r'/\\ why = "(?!ok")[^\n]*', t.text) and
                       re.findall(r"/\\ sess = (\d+)(?=(?:\n/\\ (?!why)[^\n]*(?:\n[^/\n][^\n]*)*)*\n/\\ why = \"(?!ok\"))", t.text)}
                bad |= {int(x) for x in re.findall(r"/\\ why = \"(?!ok\")[^\"]*\"(?:\n/\\ (?!sess)[^\n]*)*\n/\\ sess = (\d+)", t.text)}
                for k, w in enumerate(what):
                    total += 1
                    (noticed if k + 1 in bad else missed)[w] += 1
            print("%s: %d of %d corruptions noticed" % (pid, sum(noticed.values()), total))
            for w, c in missed.most_common(12):
                print("     unnoticed: %-40s %d (noticed %d)" % (w, c, noticed[w]))
            sys.stdout.flush()
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
