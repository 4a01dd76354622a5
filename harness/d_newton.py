"""C18: behaviours of the Newton iteration generated from the specification, and smooth random problems, in the real newton()."""
import json
import random
import warnings

import numpy as np

import observe
import vt

C18 = {"C18"}
CLAUSES = {c: C18 for c in ("extra-arguments", "start-modified", "start-point", "movement", "budget", "late", "early", "count", "success", "residual-norm", "step-norm", "returned")}


class Lost(Exception):
    """the code asks for a point which is not on the way"""


class Arg:
    """an extra argument, recognised by identity"""


def run(tid, f, J, x0, nfev, ftol, xtol, verbose, extra, exact, defaults=False):
    """call newton() under observation"""
    from trusspy.solvers import newton
    log = []
    ok = [True]

    def args_ok(a):
        ok[0] = ok[0] and len(a) == len(extra) and all(p is q for p, q in zip(a, extra))

    def F(x, *a):
        if len(log) > 2000:
            raise observe.Runaway("more than 2000 evaluations")
        args_ok(a)
        v = np.array(f(np.array(x, dtype=float)))
        log.append(("f", np.array(x, dtype=float)))
        return v

    def D(x, *a):
        args_ok(a)
        log.append(("J", np.array(x, dtype=float)))
        if len(log) > 2000:
            raise observe.Runaway("more than 2000 evaluations")
        return np.array(J(np.array(x, dtype=float)))
    given = x0.copy()
    with observe.quiet(), warnings.catch_warnings(), observe.deadline(20):
        warnings.simplefilter("ignore")
        res = newton(F, D, x0) if defaults else newton(F, D, x0, nfev, ftol, xtol, verbose, *extra)
    if not (isinstance(res, tuple) and len(res) == 5):
        raise ValueError("returned %r" % (res,))
    pts = []
    for w, x in log:
        if w == "J" and not (pts and np.array_equal(pts[-1], x)):
            pts.append(x)
    if len(pts) == int(res[2]) + 1 and np.array_equal(pts[-1], np.array(res[0], dtype=float)):
        pts.pop()  # one more derivative, which was not used
    its = [dict(x=vt.fxv(x), f=vt.fxv(f(x)), J=vt.fxm(J(x))) for x in pts]
    xr = np.array(res[0], dtype=float)
    scale = max([1e-6] + [float(np.abs(f(x)).max() + np.abs(J(x)).max() * np.abs(x).max() * 1e-3) for x in pts])
    return dict(id=tid, nfev=nfev, ftol=vt.fx(ftol), xtol=vt.fx(xtol), its=its, args=ok[0], start=bool(len(pts) and np.array_equal(pts[0], given)),
                kept=bool(np.array_equal(given, x0)), scale=vt.fx(scale), exact=exact,
                ret=dict(x=vt.fxv(xr), f=vt.fxv(f(xr)), success=bool(res[1]), n=int(res[2]), fn=vt.fx(res[3]), xn=vt.fx(res[4])))


def scripted(tid, b, r):
    """functions such that Newton's method performs the behaviour exactly (all numbers are dyadic)"""
    m = r.choice([1, 2, 3])
    ftol, xtol = 2.0 ** -r.choice([10, 20, 26]), 2.0 ** -r.choice([12, 20, 24])
    size = lambda tol, w: tol if w == "at" else tol * 2.0 ** -r.choice([1, 3, 6]) if w == "below" else tol * 2.0 ** r.choice([1, 4, 8])
    axis = r.randrange(m)
    x = np.array([float(r.randint(-3, 3)) for _ in range(m)])
    res0 = np.zeros(m)
    res0[axis] = r.choice([-1, 1]) * size(ftol, r.choice(["below", "at", "above"]))
    pts = [(x, res0)]
    K = []
    its = list(b["it"])
    # continue the behaviour so that code which does not stop is seen
    more = [dict(f="below", x="below")] * 2
    for i in its + more:
        x, res = pts[-1]
        d = np.zeros(m)
        d[axis] = r.choice([-1, 1]) * size(xtol, i["x"])
        A = np.diag([2.0 ** r.randint(-2, 2) for _ in range(m)])
        A[axis, axis] = -res[axis] / d[axis]
        for q in range(m):
            if q != axis:
                A[q, axis] = 0.0
                A[axis, q] = r.choice([0.0, 0.5, -2.0])
        K.append(A)
        nr = np.zeros(m)
        nr[axis] = r.choice([-1, 1]) * size(ftol, i["f"])
        pts.append((x + d, nr))
    where = lambda p: next((q for q, (y, _) in enumerate(pts) if np.array_equal(y, p)), None)
    if len({tuple(y) for y, _ in pts}) < len(pts):
        return None

    def f(p):
        q = where(p)
        return np.full(m, 0.5) if q is None else pts[q][1].copy()

    def J(p):
        q = where(p)
        return np.eye(m) if q is None or q >= len(K) else K[q].copy()
    extra = [Arg() for _ in range(r.choice([0, 1, 3]))]
    return run(tid, f, J, pts[0][0].copy(), b["nfev"], ftol, xtol, r.choice([0, 0, 1]), extra, True)


def smooth(tid, r):
    """systems of polynomials"""
    m = r.choice([1, 2, 3, 4])
    A = np.array([[r.uniform(-1, 1) for _ in range(m)] for _ in range(m)]) + 2.5 * np.eye(m)
    c = np.array([r.uniform(-0.4, 0.4) for _ in range(m)])
    b = np.array([r.uniform(-2, 2) for _ in range(m)])
    f = lambda x: A @ x + c * x**3 - b
    J = lambda x: A + np.diag(3 * c * x**2)
    x0 = np.array([r.uniform(-2, 2) for _ in range(m)])
    nfev, ftol, xtol = r.choice([1, 2, 3, 5, 8, 12]), 10.0 ** -r.choice([3, 6, 8, 10]), 10.0 ** -r.choice([3, 6, 8])
    if r.random() < 0.2:
        return run(tid, f, J, x0, 8, 1e-8, 1e-8, 0, [], False, defaults=True)
    return run(tid, f, J, x0, nfev, ftol, xtol, r.choice([0, 0, 1, 2]), [Arg() for _ in range(r.choice([0, 1, 2]))], False)


def work(arg):
    tid, b, seed = arg
    r = random.Random("newton/%d/%s" % (seed, tid))
    try:
        return (scripted(tid, b, r) if b else smooth(tid, r)), None
    except observe.Runaway as e:
        return None, "runaway: %s" % e
    except Exception as e:
        return None, "exception: %s: %s" % (type(e).__name__, e)


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCNewton", "MCNewton.cfg"), "MCNewton")
    gen = vt.tlc("MCNewton", "GenNewton.cfg", workers=1)
    B = [json.loads(p) for p in sorted(set(gen.printed("NEWTON")))]
    todo = [("b%d.%d" % (q, v), b, seed) for q, b in enumerate(B) for v in range(3 if big else 1)] + [("s%d" % q, None, seed) for q in range(1500 if big else 250)]
    traces, info = [], {t[0]: t[1] for t in todo}
    for t, (tr, exc) in zip(todo, vt.parallel(work, todo)):
        if exc:
            chk.violation("exception" if exc.startswith("exc") else "runaway", dict(behaviour=t[1], problem=t[0], what=exc))
        elif tr:
            traces.append(tr)
    for a in range(0, len(traces), 2000):
        part = traces[a:a + 2000]
        v, _ = vt.check_traces("TraceNewton", part)
        for t in part:
            j = vt.judge(v[t["id"]])
            if j:
                chk.clause(CLAUSES, j[1], dict(behaviour=info[t["id"]], trace=t["id"], iterations=len(t["its"]), returned=dict(success=t["ret"]["success"], n=t["ret"]["n"])))
            chk.count("newton_calls", ("success" if t["ret"]["success"] else "failure"))
    chk.traces(len(traces), "calls of newton()")
    chk.sample(dict(behaviour=B[-1]))
