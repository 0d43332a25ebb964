#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property. See DESIGN.md."""
import json, os, random, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import ToolError

import props_time, props_text, props_orbit, props_frames, props_track, props_laws, props_stages
REGISTRY = {}
for mod in (props_time, props_text, props_orbit, props_frames, props_track, props_laws, props_stages):
    REGISTRY.update(mod.PROPS)


class Ctx:
    def __init__(self, pid, tier, seed, work, built):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.exe, self.parts = built
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.notes, self.cover = [], [], [], {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, t):
        self.states += t.distinct
        self.transitions += t.generated
        self.models.append({"module": name, "states": t.distinct, "transitions": t.generated})

    def model(self, module, cfg, **kw):
        self.count(module, vlib.model_check(module, cfg, self.work, **kw))

    def prove(self, module, goals):
        vlib.prove(module, goals, self.work)
        self.tally("unbounded proof goals of " + module, len(goals))

    def generate(self, module, cfg, **kw):
        t, cases = vlib.generate(module, cfg, self.work, **kw)
        self.count(module, t)
        return cases

    def tally(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def run(self, sessions):
        return vlib.run_harness(self.exe, sessions, self.work)

    def conform(self, module, sessions, consts=None, chunk=40000, events=None):
        """Replays sessions into the crate and validates what it did. Raises Violation."""
        ev = self.run(sessions) if events is None else events
        runs, bad = vlib.validate(module, self.pid, ev, self.work, consts, chunk)
        for t in runs:
            self.count(module, t)
            for j, k in re.findall(r'<<"TALLY", (\d+), (\d+)>>', t.text):
                self.tally("events decided", int(j))
                self.tally("events undecided (at a threshold, ill-conditioned, or outside this property)", int(k))
        self.traces += len(ev)
        self.events += sum(len(s) for s in ev)
        if bad:
            s, k, why = bad
            if why.startswith("trace:"):
                raise ToolError("generator fault: %s\n%s" % (why, sessions[s][:k + 1]))
            raise Violation(module, sessions[s][:k + 1], ev[s][:k + 1], why, consts)
        for s in self.rng.sample(range(len(ev)), min(2, len(ev))):
            if ev[s]:
                self.samples.append({"commands": sessions[s][:3], "recorded": [e[:400] for e in ev[s][:2]]})
        if events is None:
            self.beside(module, sessions, ev, consts, chunk)
        return ev

    def beside(self, module, sessions, alone, consts, chunk):
        """The same sessions, in another order and side by side in threads. A session that went as it
        did alone is decided already; one that went differently is validated in its turn."""
        if not all(len(a) == len(s) for a, s in zip(alone, sessions)):
            return
        t0, n = time.time(), 0
        while n < 4 or (n < 40 and time.time() - t0 < (60 if self.thorough else 6)):
            order = list(range(len(sessions)))
            random.Random("%s/%d/%d" % (self.pid, self.seed, n)).shuffle(order)
            if n % 2:                    # every session twice, about the same time
                order = [k for k in order for _ in (0, 1)]
            n += 1
            got = vlib.run_beside(self.exe, sessions, order, self.work)
            if isinstance(got, str):
                if got == "slow" and vlib.run_beside(self.exe, sessions, order, self.work, threads=1) == "slow":
                    raise ToolError("the sessions take too long to run again")
                raise Violation(module, sessions[order[0]], ['{"ev":"BESIDE","out":{"k":"crash or hang"}}'],
                                "sessions in another order and side by side end in a %s" % ("crash" if got == "crash" else "deadlock"),
                                consts, beside=True)
            odd = [j for j, k in enumerate(order) if got[j] != alone[k]]
            self.tally("events seen again, side by side and in another order", sum(len(s) for s in got))
            while sum(len(got[j]) for j in odd) > 30000:
                odd = odd[:len(odd) // 2]
            if odd:
                self.tally("events that went differently then, and were validated again", sum(len(got[j]) for j in odd))
                runs, bad = vlib.validate(module, self.pid, [got[j] for j in odd], self.work, consts, chunk)
                for t in runs:
                    self.count(module, t)
                if bad:
                    s, k, why = bad
                    raise Violation(module, sessions[order[odd[s]]][:k + 1], got[odd[s]][:k + 1], why, consts, beside=True)


class Violation(Exception):
    def __init__(self, module, commands, events, why, consts=None, beside=False):
        self.module, self.commands, self.events, self.why, self.consts = module, commands, events, why, consts
        self.beside = beside


def main():
    pid = sys.argv[1]
    if pid == "setup":
        vlib.build()
        return 0
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        return replay(pid, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(vlib.BUILD, "run"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(vlib.BUILD, "run"))
    code, viol, ctx = 0, None, None
    try:
        exe, parts = vlib.build()
        private = os.path.join(work, "harness")
        shutil.copy2(exe, private)
        ctx = Ctx(pid, tier, seed, work, (private, parts))
        for p in set(vlib.PARTS) - set(parts):
            ctx.notes.append("the crate's interface does not fit the harness part '%s'; judged without it" % p)
        try:
            REGISTRY[pid](ctx)
        except Violation as v:
            viol = v
        if viol:
            code = 1
            rep = os.path.join(vlib.ROOT, "evidence", "replay", "%s.json" % pid)
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, "w") as fh:
                json.dump({"property": pid, "why": viol.why, "module": viol.module, "consts": viol.consts, "beside": viol.beside,
                           "commands": viol.commands, "events": [json.loads(e) for e in viol.events]}, fh, indent=1)
            print("%s: %s" % (viol.module, viol.why))
            print("  last call: %s" % viol.commands[-1][:300])
            print("  recorded:  %s" % viol.events[-1][:600])
            if viol.beside:
                print("  (with other sessions running in other threads, or before it)")
            print("VIOLATION property=%s replay=%s" % (pid, rep))
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    if ctx is not None and code != 2:
        os.makedirs(os.path.join(vlib.ROOT, "evidence"), exist_ok=True)
        cov = {"states": ctx.states, "transitions": ctx.transitions,
               "traces_validated_against_impl": ctx.traces, "events_validated": ctx.events,
               "samples": ctx.samples[:4] or [{"commands": viol.commands[-3:] if viol else []}],
               "tlc_runs": ctx.models}
        if ctx.cover:
            cov["classes_covered"] = ctx.cover
        with open(os.path.join(vlib.ROOT, "evidence", pid + ".json"), "w") as fh:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                       "assumptions": ctx.notes, "wall_s": round(time.time() - t0, 2),
                       "violations": 1 if viol else 0}, fh, indent=1)
        if code == 0:
            print("%s %s: held; %d model/trace states, %d traces (%d events) of the crate validated, %.1f s"
                  % (pid, tier, ctx.states, ctx.traces, ctx.events, time.time() - t0))
    return code


def replay(pid, path):
    """Re-runs the commands of a recorded violation against the current tree."""
    v = json.load(open(path))
    os.makedirs(os.path.join(vlib.BUILD, "run"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(vlib.BUILD, "run"))
    try:
        ctx = Ctx(pid, "quick", 1, work, vlib.build())
        try:
            ctx.conform(v["module"], [v["commands"]] * (400 if v.get("beside") else 1), consts=v.get("consts"))
            print("replay: conforms")
            if v.get("beside"):
                print("replay: validating what was recorded beside other sessions")
                ctx.conform(v["module"], [v["commands"]], consts=v.get("consts"), events=[[json.dumps(e) for e in v["events"]]])
            return 0
        except Violation as w:
            print("replay: %s" % w.why)
            return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
