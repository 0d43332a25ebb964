"""Machinery shared by the checks: building, running the harness on the real crate, running TLC."""
import fcntl, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
CP = ":".join([os.path.join(BUILD, "classes"), "/opt/veriftools/tla/tla2tools.jar",
               "/opt/veriftools/tla/CommunityModules-deps.jar"])
WORKERS = 8


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


# ------------------------------------------------------------------ building
# Parts of the harness that use more of the crate's interface; given up only if they do not compile.
PARTS = ["fields", "integrator", "stages", "threads"]
LOSABLE = [[], ["stages"], ["fields", "stages"], ["integrator"], ["fields"], ["threads"], ["integrator", "stages"], ["fields", "integrator", "stages"], PARTS]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    """Builds the TLC operator overrides and the harness against /repo's current working tree.
    Returns the harness and the parts it has."""
    os.makedirs(os.path.join(BUILD, "classes"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = os.path.join(ROOT, "java", "Float64.java")
        cls = os.path.join(BUILD, "classes", "Float64.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            r = sh(["javac", "-nowarn", "-cp", CP, "-d", os.path.join(BUILD, "classes"), src])
            if r.returncode:
                raise ToolError("javac failed:\n" + r.stdout)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--quiet",
               "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
        # Cargo goes by modification times, which need not show that /repo changed: look at it afresh.
        for d in glob.glob(os.path.join(BUILD, "target", "release", ".fingerprint", "satellite-*")):
            shutil.rmtree(d, ignore_errors=True)
        r = sh(cmd, env=env)
        if r.returncode == 0:
            return os.path.join(BUILD, "target", "release", "harness"), PARTS
        if "--locked" in r.stdout:
            # /repo's dependencies changed: resolve again, in a scratch copy of the harness manifest
            scratch = os.path.join(BUILD, "harness")
            shutil.rmtree(scratch, ignore_errors=True)
            shutil.copytree(os.path.join(ROOT, "harness"), scratch)
            cmd = [c for c in cmd if c != "--locked"]
            cmd[-1] = os.path.join(scratch, "Cargo.toml")
        first = None
        for lost in LOSABLE:
            kept = [p for p in PARTS if p not in lost]
            r = sh(cmd + ["--no-default-features", "--features", ",".join(kept)], env=env)
            if r.returncode == 0:
                return os.path.join(BUILD, "target", "release", "harness"), kept
            first = first or r.stdout
        raise ToolError("building the harness against /repo failed:\n" + first[-4000:])


# ------------------------------------------------------------------ numbers
def hx(x):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", float(x)))[0]


def tx(s):
    b = s.encode("utf-8") if isinstance(s, str) else s
    return b.hex() if b else "-"


def num(p):
    return struct.unpack(">d", struct.pack(">ii", p[0], p[1]))[0]


# ------------------------------------------------------------------ the real code
STALL_S = 30


def run_harness(exe, sessions, work):
    """sessions: list of lists of command strings -> list of lists of events.
    A crash or a hang of the code under test becomes an event of the session it happened in."""
    out_sessions = [[] for _ in sessions]
    start = 0
    bad = 0
    while start < len(sessions):
        cmds = os.path.join(work, "commands")
        outp = os.path.join(work, "events")
        with open(cmds, "w") as fh:
            for s in sessions[start:]:
                fh.write("SESSION\n")
                for c in s:
                    fh.write(c + "\n")
        with open(cmds) as fi, open(outp, "w") as fo:
            p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL)
            size, since, hung = -1, time.time(), False
            while True:
                try:
                    p.wait(0.05 if time.time() - since < 1 else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(outp)
                    if s != size:
                        size, since = s, time.time()
                    elif time.time() - since > STALL_S:
                        hung = True
                        p.kill()
                        p.wait()
                        break
        cur = start - 1
        with open(outp) as fh:
            for line in fh:
                if not line.endswith("\n"):
                    break
                if line.startswith('{"ev":"SESSION"}'):
                    cur += 1
                else:
                    out_sessions[cur].append(line.rstrip("\n"))
        if p.returncode == 0 and not hung:
            return out_sessions
        if cur >= 0 and len(out_sessions[cur]) == len(sessions[cur]):
            cur += 1                     # died between sessions: blame the next command
        if cur >= len(sessions):
            return out_sessions
        k = len(out_sessions[cur])
        out_sessions[cur].append(json.dumps(
            {"ev": sessions[cur][k].split(" ")[0], "out": {"k": "hang" if hung else "crash"}, "runs": []}))
        start = cur + 1
        bad += 1
        if bad >= 5:                      # enough evidence; the rest is not run
            return out_sessions[:start]
    return out_sessions


def run_beside(exe, sessions, order, work, threads=WORKERS):
    """The sessions shared out among threads, in the given order (indices into
    them, which may repeat) -> list of lists of events, in that order; "crash" or "slow" if the run did not come to its end."""
    cmds, outp = os.path.join(work, "commands"), os.path.join(work, "events")
    with open(cmds, "w") as fh:
        for k in order:
            fh.write("SESSION\n" + "".join(c + "\n" for c in sessions[k]))
    with open(cmds) as fi, open(outp, "w") as fo:
        try:
            r = subprocess.run([exe, "beside", str(threads)], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, timeout=300)
        except subprocess.TimeoutExpired:
            return "slow"
    if r.returncode:
        return "crash"
    out = [None] * len(order)
    with open(outp) as fh:
        for line in fh:
            if line[0] != "{":
                cur = out[int(line)] = []
            else:
                cur.append(line.rstrip("\n"))
    return out


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = re.findall(r"([\d,]+) states generated,? \(?.*?([\d,]+) distinct states found", text)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.violated = None
        v = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached|Assumption .* is false", text)
        if v:
            self.violated = v.group(1) or v.group(2) or v.group(0)
        self.completed = "Model checking completed. No error has been found." in text


def tlc(module, cfg, work, env=None, workers=WORKERS, extra=(), timeout=840, heap="6g"):
    cfgp = os.path.join(work, module + ".cfg")
    with open(cfgp, "w") as fh:
        fh.write(cfg)
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, env=dict(os.environ, **(env or {})), cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(r.returncode, r.stdout)


def model_check(module, cfg, work, **kw):
    """Checks a model; a failure is a failure of the specification, not of the code."""
    t = tlc(module, cfg, work, **kw)
    if not t.completed:
        raise ToolError("model %s does not satisfy its own properties:\n%s" % (module, t.text[-3000:]))
    return t


def generate(module, cfg, work, env=None, **kw):
    """Runs a generator module, which writes behaviours of the specification as JSON lines."""
    out = os.path.join(work, module + ".gen.ndjson")
    if os.path.exists(out):
        os.remove(out)
    t = model_check(module, cfg, work, env=dict(env or {}, OUT=out), **kw)
    with open(out) as fh:
        return t, [json.loads(l) for l in fh if l.strip()]


def prove(module, goals, work, timeout=300):
    """Symbolic checks of a model by Apalache, without bounds on its integers.
    A goal is (initial states, invariant, number of steps); a failure is one of the specification."""
    for k, (init, inv, length) in enumerate(goals):
        out = os.path.join(work, "apalache%d" % k)
        cmd = ["apalache-mc", "check", "--out-dir=" + out, "--init=" + init, "--next=Next", "--inv=" + inv,
               "--length=%d" % length, "--no-deadlock", os.path.join(SPEC, module + ".tla")]
        try:
            r = sh(cmd, cwd=work, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("Apalache timed out on " + module)
        finally:
            shutil.rmtree(out, ignore_errors=True)
        if "The outcome is: NoError" not in r.stdout:
            raise ToolError("model %s: %s => %s is not proved:\n%s" % (module, init, inv, r.stdout[-2000:]))


def chunks(seq, n):
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


def validate(module, prop, sessions_events, work, consts=None, chunk=40000, timeout=840):
    """Checks recorded sessions against a trace specification.
    Returns (list of Tlc runs, None) or (runs, (session index, event index, why))."""
    runs = []
    base = 0
    groups, cur, n = [], [], 0
    for s in sessions_events:
        cur.append(s)
        n += len(s)
        if n >= chunk:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    for g in groups:
        path = os.path.join(work, "trace.ndjson")
        with open(path, "w") as fh:
            for s in g:
                fh.write('{"events":[' + ",".join(s) + "]}\n")
        cfg = "CONSTANT Gravity = \"wgs84\"\nCONSTANT Prop = \"%s\"\n" % prop
        for k, v in (consts or {}).items():
            cfg += "CONSTANT %s = %s\n" % (k, v)
        cfg += "INIT TraceInit\nNEXT TraceNext\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"
        t = tlc(module, cfg, work, env={"TRACE": path}, timeout=timeout)
        runs.append(t)
        if t.violated == "Conforms":
            st = t.text[t.text.rindex("State "):]
            f = lambda v: re.search(r"/\\ %s = (.*)" % v, st).group(1)
            why = re.search(r'/\\ why = "((?:[^"\\]|\\.)*)"', st, re.S).group(1)
            return runs, (base + int(f("sess")) - 1, int(f("pos")) - 1, why)
        want = len(g) + sum(len(s) for s in g)
        if not t.completed or t.distinct != want:
            raise ToolError("trace validation (%s) gave no verdict: %d of %d states\n%s"
                            % (module, t.distinct, want, t.text[-3000:]))
        base += len(g)
    return runs, None
