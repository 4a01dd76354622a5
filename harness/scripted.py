"""Realise behaviours generated from the specification in the real pathfollow().

The residual and stiffness functions handed to pathfollow() are scripted such
that Newton's method performs exactly the movements of the behaviour.  All
numbers are dyadic, so that the real code computes them without rounding.
"""
import copy

import numpy as np

import observe
import vt


def lims(n, du, dl):
    return [1.0 / du] * (n - 1) + [1.0 / dl]


# the same configurations as in spec/PFConfigs.tla (checked against each other by TLC through `c`)
def configs():
    B = dict(n=3, lim0=lims(3, 64, 32), j0=0, jfixed=False, jpre=True, incs=3, nfev=5, cycl=3, sc=True,
             minfac=1 / 16, maxfac=2.0, red=(4, 1), inc=(1, 2), dxtol=1.25, xlim=None, ftol=8, xtol=8)
    mods = [
        {},
        dict(jpre=False, nfev=4),
        dict(sc=False),
        dict(jfixed=True, nfev=4, j0=3),
        dict(jfixed=True, nfev=4, j0=-1),
        dict(jpre=False, nfev=4, j0=-2),
        dict(cycl=1),
        dict(cycl=2, minfac=1 / 4),
        dict(cycl=4, red=(2, 1), minfac=1 / 8),
        dict(maxfac=1.25, inc=(1, 1), incs=4),
        dict(maxfac=1.0, incs=2),
        dict(dxtol=2.0, jpre=False, nfev=4),
        dict(dxtol=1.0, sc=False, jpre=False, nfev=4, cycl=4),
        dict(jfixed=True, nfev=4, j0=2, sc=False),
        dict(incs=1, nfev=2),
        dict(xlim=(1, 1 / 32), incs=4),
        dict(n=2, lim0=lims(2, 32, 128), incs=4),
        dict(incs=0),
        dict(j0=1),
        dict(xlim=(0, 1 / 16), incs=6, sc=False, jpre=False, nfev=4),
        dict(n=2, lim0=lims(2, 32, 128), jfixed=True, j0=2, nfev=4, incs=9, cycl=4, dxtol=8.0, red=(2, 1), minfac=1 / 64),
        dict(jpre=False, nfev=4, incs=9, cycl=4, dxtol=8.0, red=(2, 1), minfac=1 / 64),
        dict(lim0=lims(3, 32, 32)),
        dict(lim0=lims(3, 16, 16), jpre=False, nfev=4, cycl=2),
        dict(incs=20, nfev=8, cycl=4, maxfac=10, minfac=1e-6, red=(8, 1), inc=(1, 1), defaults=True),
        dict(n=2, lim0=lims(2, 32, 128), jfixed=True, j0=2, incs=9, cycl=4, dxtol=8.0, red=(2, 1), maxfac=8.0, inc=(2, 1)),
    ]
    out = []
    for m in mods:
        c = dict(B)
        c.update(m)
        out.append(c)
    return out


def spec_config(c, band=0.0):
    """configuration of a trace for spec/PathFollow.tla"""
    x = c["xlim"]
    return dict(n=c["n"], lim0=vt.fxv(c["lim0"]), j0=c["j0"], jfixed=c["jfixed"], jpre=c["jpre"], incs=c["incs"],
                nfev=c["nfev"], cycl=c["cycl"], sc=c["sc"], minfac=vt.fx(c["minfac"]), maxfac=vt.fx(c["maxfac"]),
                red=list(c["red"]), inc=list(c["inc"]), dxtol=vt.fx(c["dxtol"]),
                xlim=dict(on=x is not None, comp=x[0] if x else 0, val=vt.fx(x[1]) if x else []),
                ftol=vt.fx(10.0 ** -c["ftol"]), xtol=vt.fx(10.0 ** -c["xtol"]), band=vt.fx(band))


class EndOfScript(Exception):
    pass


def limits(lim, form):
    """the limits in one of the documented forms: [du, dlpf], one value per component, one value for all"""
    if form == 1 and len(lim) > 2:
        return list(lim)
    if form == 2 and len(lim) > 2:
        return np.array(lim)
    if form == 3 and len(set(lim)) == 1:
        return lim[0]
    if form == 4:
        return np.array([lim[0], lim[-1]])
    return [lim[0], lim[-1]]


def run_script(mod, c, script):
    """execute one behaviour; returns the trace (dict for TracePathFollow)"""
    pathfollow, Analysis = mod
    n = c["n"]
    m = n - 1
    lim0 = np.array(c["lim0"])
    log = []
    state = dict(calls=0)
    targets = script["targets"]
    known = []  # (point, residual as function of the exact point)
    nextK = {"K": np.eye(m)}
    cur = dict(idx=-1, path=[], at=None)
    BIG, TINY = 2.0**-20, 2.0**-28

    def plan(idx, start):
        """points P1..Pn of attempt idx and how each step is realised"""
        t = targets[idx]
        tgt = np.array(t["t"])
        if t["e"] == "pre":
            return [tgt]
        k = t["n"]
        # perturb one component which is not controlled
        q = next(a for a in range(n) if a != abs(t["j"]) - 1)
        d = [BIG] * (k - 1)
        if k >= 2:
            if t["ok"]:
                d[-1] = TINY
            elif t["variant"]:
                d = [TINY] * (k - 1)
        pts = []
        p = tgt.copy()
        p[q] -= sum(d)
        pts.append(p.copy())
        for v in d:
            p = p.copy()
            p[q] += v
            pts.append(p)
        return pts

    def stiff_for(d):
        """diagonal stiffness (with unit loads) whose linear response is in direction d"""
        with np.errstate(divide="ignore", invalid="ignore"):
            k = d[-1] / d[:-1]
        return np.diag(np.where(np.isfinite(k) & (k != 0), k, 1.0))

    def know(p, fun, default=False):
        for a, (q, f) in enumerate(known):
            if np.abs(q - p).max() < 1e-11:
                if not default:
                    known[a] = (q, fun)
                return
        known.append((np.array(p), fun))

    def lookup(V):
        for q, f in reversed(known):
            if np.abs(q - V).max() < 1e-11:
                return f
        return None

    def towards(goal, s=1.0):
        """residual such that the step with stiffness s (unit loads) from V ends at `goal`"""
        return lambda V: (goal - V)[:-1] * s - (goal - V)[-1]

    def tick():
        state["calls"] += 1
        if state["calls"] > 3000:
            raise observe.Runaway("more than 3000 evaluations")

    def enter(U):
        """stiffness at U: where are we, and what is the next movement?"""
        path, at = cur["path"], cur["at"]
        if not (at is not None and at + 1 < len(path) and np.abs(path[at][:-1] - U).max() < 1e-11):
            # a new attempt begins (or the code left the script)
            cur["idx"] += 1
            if cur["idx"] >= len(targets):
                raise EndOfScript()
            cur["path"], cur["at"] = plan(cur["idx"], U), -1
        path, at = cur["path"], cur["at"]
        t = targets[cur["idx"]]
        stiff = 2.0**18 if (t["variant"] and not t["ok"]) else 1.0
        goal = path[at + 1]
        if at == -1:
            x0 = np.array(t["x0"])
            if np.array_equal(U, x0[:-1]):
                # from an equilibrium state: choose the direction by the stiffness
                nextK["K"] = stiff_for(goal - x0)
                know(x0, lambda V: np.zeros(m), default=True)
            else:
                nextK["K"] = np.eye(m)
                cur["free"] = goal  # the residual at this start point is chosen when it is asked for
        else:
            nextK["K"] = np.eye(m) * stiff
        # residual at the end of this step, consistent with what follows
        e = at + 1
        if e + 1 < len(path):
            know(path[e], towards(path[e + 1], stiff))
        elif t["e"] == "pre" and cur["idx"] + 1 < len(targets):
            # the next attempt possibly starts right here
            know(path[e], towards(plan(cur["idx"] + 1, None)[0]))
        elif t["ok"]:
            know(path[e], lambda V: np.zeros(m))
        else:
            r = 2.0**-10 if t["variant"] or len(path) == 1 else 0.0
            know(path[e], lambda V: np.full(m, r))
        cur["at"] += 1

    def g(V, V0, analysis=None, statev_write=False):
        tick()
        V = np.array(V, dtype=float)
        f = lookup(V)
        if f is None and cur.get("free") is not None:
            f = towards(cur["free"])
            know(V, f)
            cur["free"] = None
        elif f is None and cur["at"] in (None, len(cur["path"]) - 1) and cur["idx"] + 1 < len(targets) and targets[cur["idx"] + 1]["e"] != "pre":
            # the residual at the start of the next attempt is asked for before the stiffness
            f = towards(plan(cur["idx"] + 1, None)[0])
            know(V, f)
        r = f(V) if f is not None else np.full(m, 0.25)
        log.append(("W" if statev_write else "G", V, r.copy()))
        return r.copy()

    def dgdx(U, analysis=None):
        tick()
        U = np.array(U, dtype=float)
        enter(U)
        log.append(("K", U))
        return nextK["K"].copy()

    a = Analysis()
    a.f0red = np.ones((m, 1))
    a.step = 1
    exc = None
    cut = False
    rows, lm, js = [], [], []
    j = None if c["j0"] == 0 else c["j0"]
    with observe.quiet():
        try:
            with observe.deadline(20):
                kw = dict(dxmax=limits(c["lim0"], script.get("form", 0)), j=j, j_fixed=c["jfixed"], j_pre=c["jpre"],
                          xlimit=list(c["xlim"]) if c["xlim"] else None, incs=c["incs"], nfev=c["nfev"], cycl=c["cycl"],
                          ftol=10.0 ** -c["ftol"], xtol=10.0 ** -c["xtol"], stepcontrol=c["sc"], maxfac=c["maxfac"],
                          minfac=c["minfac"], reduce=c["red"][0] / c["red"][1], increase=c["inc"][0] / c["inc"][1],
                          dxtol=c["dxtol"], verbose=script.get("verbose", 0))
                if c.get("defaults"):
                    kw = dict(dxmax=kw["dxmax"])
                res_x, res_a = pathfollow(g, dgdx, np.zeros(m), a, **kw)
            res_x = np.atleast_2d(res_x)
            rows = [np.array(r) for r in res_x[1:]]
            lm = [np.array(r.dVmax) for r in res_a[1:]]
            js = [int(r.j) for r in res_a[1:]]
        except EndOfScript:
            cut = True
        except observe.Runaway as e:
            exc = "runaway: %s" % e
        except Exception as e:  # whatever the code under observation raises
            exc = "exception: %s: %s" % (type(e).__name__, e)
    ev = observe.iterations(log)
    return ev, rows, lm, js, exc, cut


def realisable(script):
    """a Newton solve which starts in its own solution cannot take several iterations"""
    for a, b in zip(script["s"], script["s"][1:]):
        if a["e"] == "pre":
            m = max(abs(v) for v in a["v"])
            if [4.0 * v / m for v in a["v"]] == [float(v) for v in b["v"]]:
                return False
    return True


def attach_targets(c, script, salt):
    """absolute target points of a behaviour (uses the factor etc. given by the generator)"""
    n = c["n"]
    lim0 = np.array(c["lim0"])
    x = np.zeros(n)
    out = []
    for q, s in enumerate(script["s"]):
        lim = lim0 * s["fac"]
        t = x + np.array(s["v"]) / 4.0 * lim
        out.append(dict(e=s["e"], t=t.tolist(), x0=x.tolist(), ok=s["ok"], n=s["n"], j=s["j"], variant=(salt + q) % 2 == 1))
        if s["e"] == "att" and s["acc"]:
            x = t
    return out


def trace(tid, c, ev, rows, lm, js, band=0.0, cut=False):
    E = []
    for e in ev:
        if e["e"] == "it":
            E.append(dict(e="it", s=vt.fxv(e["s"]), t=vt.fxv(e["t"]), g=vt.fxv(e["g"])))
        else:
            E.append(dict(e="acc", t=vt.fxv(e["t"])))
    E.append(dict(e="cut" if cut else "ret"))
    return dict(id=tid, c=spec_config(c, band), x0=[[] for _ in range(c["n"])], ev=E, rows=vt.fxm(rows), lims=vt.fxm(lm), js=js)
