"""Common tools of the harness: numbers, TLC, evidence, verdicts.

The harness only generates inputs, records what the real code does and hands
it over to TLC; every judgement is made by the specification in ../spec.
"""
import decimal
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
REPO = os.environ.get("TRUSSPY_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

FRAC = 28
_CTX = decimal.Context(prec=120, rounding=decimal.ROUND_HALF_EVEN)
_Q = decimal.Decimal(1).scaleb(-FRAC)


def fx(v):
    """number -> limbs (base 10^4, little endian, 28 decimals) as in spec/Fix.tla"""
    v = float(v)
    if v != v or v in (float("inf"), float("-inf")):
        raise ValueError("not a finite number: %r" % v)
    n = int(decimal.Decimal(v).quantize(_Q, context=_CTX).scaleb(FRAC, context=_CTX))
    s = -1 if n < 0 else 1
    n = abs(n)
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(s * r)
    return out


def unfx(limbs):
    n = 0
    for d in reversed(limbs):
        n = n * 10000 + d
    return float(decimal.Decimal(n).scaleb(-FRAC, context=_CTX))


def fxv(a):
    return [fx(v) for v in a]


def fxm(a):
    return [fxv(r) for r in a]


def frac_fx(p, q):
    """exact p/q, truncated like FRat in the specification"""
    n = abs(p) * 10**FRAC // q
    s = -1 if p < 0 else 1
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(s * r)
    return out


# --------------------------------------------------------------------- TLC
def classes():
    """directory with the compiled accelerator of spec/Big.tla (or None)"""
    d = os.path.join(OUT, "classes")
    if os.path.exists(os.path.join(d, "Big.class")):
        return d
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=OUT)
    try:
        r = subprocess.run(["javac", "-cp", JARS, "-d", tmp, os.path.join(ROOT, "java", "Big.java")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return None
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(d, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


class TLCError(Exception):
    pass


class Malformed(TLCError):
    """the specification cannot even evaluate a trace (wrong shapes, missing values)"""


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.states:
            self.transitions = self.states = int(m[-1].replace(",", ""))

    def printed(self, tag):
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + "|"):
                res.append(json.loads(line)[len(tag) + 1:])
        return res


def tlc(module, cfg, env=None, workers=8, args=(), pure=False, timeout=800, heap="4g", expect_ok=True):
    """run TLC on spec/<module>.tla with spec/<cfg>"""
    os.makedirs(OUT, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc", dir=OUT)
    cp = JARS
    if not pure:
        c = classes()
        if c:
            cp = c + ":" + cp
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    out = "\n".join(l for l in out.splitlines()
                    if not l.startswith(("Linting", "Semantic processing", "Parsing file", "Loading B")))
    r = TLCResult(out, p.returncode)
    if expect_ok and p.returncode in (75, 150, 151, 255) and "Attempted to" in out and "OutOfMemory" not in out:
        raise Malformed("%s/%s (rc %d)\n%s" % (module, cfg, p.returncode, out[-4000:]))
    if expect_ok and p.returncode != 0:
        raise TLCError("TLC failed on %s/%s (rc %d)\n%s" % (module, cfg, p.returncode, out[-4000:]))
    return r


def apalache(module, init, inv, length, timeout=240):
    """check spec/<module>.tla symbolically; "proved", or why it could not be done.  A counterexample is an error."""
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="apa", dir=OUT)
    try:
        shutil.copy(os.path.join(SPEC, module + ".tla"), tmp)
        p = subprocess.run(["apalache-mc", "check", "--init=" + init, "--inv=" + inv, "--length=%d" % length,
                            "--out-dir=" + tmp + "/out", module + ".tla"], cwd=tmp, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    except (OSError, subprocess.TimeoutExpired) as e:
        return "not run: %s" % type(e).__name__
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if "The outcome is: NoError" in out and p.returncode == 0:
        return "proved"
    if "The outcome is: Error" in out:
        raise TLCError("Apalache refutes %s from %s in %s\n%s" % (inv, init, module, out[-3000:]))
    return "not run: exit code %d" % p.returncode


def check_traces(module, traces, cfg="Trace.cfg", workers=8, timeout=800, env=None, extra=None):
    """Feed traces (dicts with a unique 'id') to the trace checker `module`.

    Returns (verdicts, result): verdicts[id] = list of (position, clause); a
    trace without any verdict is an error of the machinery.  A trace which
    cannot be evaluated at all (the code reported something of the wrong
    shape) gets the clause "malformed"; it is searched by bisection.  `extra`:
    tables common to all traces.
    """
    if not traces:
        return {}, None
    try:
        return _check_traces(module, traces, cfg, workers, timeout, env, extra)
    except Malformed:
        bad = traces
        while len(bad) > 1:
            half = bad[:len(bad) // 2]
            try:
                _check_traces(module, half, cfg, workers, timeout, env, extra)
                bad = bad[len(bad) // 2:]
            except Malformed:
                bad = half
        v = {t["id"]: [(0, "ok")] for t in traces}  # nothing is known about the others
        v[bad[0]["id"]] = [(0, "malformed")]
        return v, None


def _check_traces(module, traces, cfg, workers, timeout, env, extra):
    os.makedirs(OUT, exist_ok=True)
    fd, path = tempfile.mkstemp(suffix=".json", dir=OUT)
    with os.fdopen(fd, "w") as f:
        f.write(json.dumps(traces if extra is None else dict(extra, traces=traces), separators=(",", ":")))
    try:
        e = {"TRACE_FILE": path}
        e.update(env or {})
        r = tlc(module, cfg, env=e, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    v = {t["id"]: [] for t in traces}
    for line in r.printed("VERDICT"):
        tid, pos, clause = line.split("|", 2)
        v[tid].append((int(pos), clause))
    missing = [t for t in v if not v[t]]
    if missing:
        raise TLCError("no verdict for traces %s\n%s" % (missing[:5], r.out[-3000:]))
    return v, r


def judge(verdicts):
    """ok if one interpretation is ok, else the clause of the interpretation that got furthest"""
    if any(c == "ok" for _, c in verdicts):
        return None
    return max(verdicts)


def parallel(f, items, procs=8):
    """f over items in forked processes, results in order"""
    import multiprocessing
    items = list(items)
    if len(items) < 4:
        return [f(i) for i in items]
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        return pool.map(f, items, chunksize=max(1, len(items) // (procs * 6)))


# ---------------------------------------------------------------- checks
class Check:
    """One run of the check of one property: collects coverage and violations."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations = []
        self.known = []
        self.assumptions = []
        self.findings = load_findings().get(prop, [])

    def model(self, r, name):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.cov.setdefault("models", {})[name] = dict(states=r.states, transitions=r.transitions)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def count(self, group, key, n=1):
        d = self.cov.setdefault(group, {})
        d[key] = d.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def traces(self, n, what):
        self.cov["traces_validated_against_impl"] += n
        self.count("traces", what, n)

    def clause(self, table, clause, detail):
        """a broken clause: a violation if it is about this property"""
        if clause == "malformed" or self.prop in table.get(clause, ()) or self.prop == "ALL":
            self.violation(clause, detail)
        else:
            self.count("other_clauses", clause)

    def violation(self, what, detail):
        key = what if isinstance(what, str) else json.dumps(what)
        for f in self.findings:
            if f["match"] == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((key, detail))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            d = os.path.join(OUT, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([dict(what=w, detail=x) for w, x in self.violations[:20]], f, indent=1, default=str)
            for w, _ in self.violations[:10]:
                print("  broken: %s" % w)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s ok: %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"}, default=str)))
        return 0


def load_findings():
    res = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) match=(\S+) (.*)", line)
            if m:
                res.setdefault(m.group(1), []).append(dict(match=m.group(2), what=m.group(3)))
    return res
