"""Run real models under observation and turn what happened into traces."""
import copy
import random
import warnings

import numpy as np

import observe
import scenarios
import vt


def model_class():
    import trusspy

    class Watched(trusspy.Model):
        """the real model, with a record of every evaluation of equilibrium and stiffness"""

        def __init__(self, *a, **k):
            self.watch = []
            self.budget = 20000
            self.disturbed = 0
            self.script = None  # per load case: outcomes of the increments, see MCJob
            super().__init__(*a, **k)

        def _state(self):
            sv = getattr(self.Analysis, "state_v", None)
            return None if sv is None else np.array(sv, dtype=float)

        def _tick(self):
            self.budget -= 1
            if self.budget < 0:
                raise observe.Runaway("more than 20000 evaluations")

        def equilibrium(self, *a, **k):
            p = observe.bind(a, k, ["Ured", "U0red", "stage", "analysis", "statev_write"])
            if p.get("stage", "G") != "G":
                return super().equilibrium(*a, **k)
            self._tick()
            an = p.get("analysis") if p.get("analysis") is not None else self.Analysis
            before = self._state() if an is self.Analysis else np.array(an.state_v) if an.state_v is not None else None
            res = super().equilibrium(*a, **k)
            V = np.array(p["Ured"], dtype=float)
            if self.script is not None and not p.get("statev_write", False):
                res = res + self.disturbance(V)
            self.watch.append(dict(kind="W" if p.get("statev_write", False) else "G", V=V, g=np.array(res, dtype=float),
                                   sv0=before, sv1=self._state(), step=self.Analysis.step, lpf=self.Analysis.lpf))
            return res

        def disturbance(self, V):
            """what is added to the equilibrium such that the scripted attempts do not converge"""
            step = self.Analysis.step
            incs = [dict(again=0, fail=False)]
            for o in self.script:
                if o["s"] == step:
                    if o["o"] == "again":
                        incs[-1]["again"] += 1
                    elif o["o"] == "fail":
                        incs[-1]["fail"] = True
                    else:
                        incs.append(dict(again=0, fail=False))
            mine = [w["kind"] for w in self.watch if w["step"] == step]
            done = mine.count("W")
            if done >= len(incs):
                return 0.0
            ks = 0  # iterations spent on this increment
            while mine and mine[-1] != "W":
                ks += mine.pop() == "K"
            pre = 1 if self.Settings.j_pre and not self.Settings.j_fixed else 0
            tries = np.inf if incs[done]["fail"] else incs[done]["again"]
            if tries and pre < ks <= pre + tries * self.Settings.nfev:
                last = max(a for a, w in enumerate(self.watch) if w["kind"] == "K")
                since = [w for w in self.watch[last + 1:] if w["kind"] == "G"]
                start = since[0]["V"] if since else V
                # the residual at the start of the next attempt is not part of this one
                if len(since) >= (2 if np.array_equal(start[:-1], self.watch[last]["V"]) else 1) and ks == pre + tries * self.Settings.nfev:
                    return 0.0
                self.disturbed += 1
                return 1e-3 * (1 + 0.1 * (self.disturbed % 7)) * (-1) ** self.disturbed
            return 0.0

        def stiffness(self, *a, **k):
            p = observe.bind(a, k, ["Ured", "analysis"])
            self._tick()
            an = p.get("analysis") if p.get("analysis") is not None else self.Analysis
            before = np.array(an.state_v) if an.state_v is not None else None
            res = super().stiffness(*a, **k)
            self.watch.append(dict(kind="K", V=np.array(p["Ured"], dtype=float), sv0=before, sv1=self._state(), step=self.Analysis.step))
            return res

    return Watched


def execute(model, settings, log=0, cls=None, seconds=60, script=None):
    """define, build and run; returns (M or None, text printed, failure or None)"""
    cls = cls or model_class()
    exc = None
    M = None
    with observe.quiet() as buf, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with observe.deadline(seconds):
                M = cls(log=log)
                if script is not None:
                    M.script = script
                scenarios.define(M, model)
                scenarios.apply_settings(M, settings)
                M.build()
                M.run()
        except observe.Runaway as e:
            exc = "runaway: %s" % e
        except Exception as e:
            exc = "exception: %s: %s" % (type(e).__name__, e)
    return M, buf.getvalue(), exc


# ------------------------------------------------------------------ traces
def rational(v):
    from fractions import Fraction
    f = Fraction(v).limit_denominator(1000)
    return [f.numerator, f.denominator]


def per_step(v, s, nested=False):
    if nested:
        return v[s] if isinstance(v[0], tuple) else v
    return v[s] if isinstance(v, tuple) else v


DEFAULTS = dict(incs=50, stepcontrol=False, maxfac=10, minfac=1e-6, increase=0.5, reduce=8, dxtol=1.000001, ftol=8, xtol=8,
                cycl=4, nfev=8, dlpf=0.02, du=0.02, xlimit=(0, np.inf), j0=None, j_pre=True, j_fixed=False)


def step_config(model, settings, s, band=1e-9):
    """configuration of load case s (0-based) for spec/PathFollow.tla"""
    S = dict(DEFAULTS)
    S.update(settings)
    n = scenarios.ndof1(model) + 1
    xl = per_step(S["xlimit"], s, nested=True)
    on = xl[1] != np.inf
    return dict(n=n, lim0=vt.fxv([S["du"]] * (n - 1) + [S["dlpf"]]), j0=0 if S["j0"] is None else S["j0"],
                jfixed=bool(S["j_fixed"]), jpre=bool(S["j_pre"]), incs=per_step(S["incs"], s), nfev=S["nfev"], cycl=S["cycl"],
                sc=bool(S["stepcontrol"]), minfac=vt.fx(S["minfac"]), maxfac=vt.fx(S["maxfac"]), red=rational(S["reduce"]),
                inc=rational(S["increase"]), dxtol=vt.fx(S["dxtol"]),
                xlim=dict(on=bool(on), comp=xl[0] if on else 0, val=vt.fx(xl[1]) if on else []),
                ftol=vt.fx(10.0 ** -S["ftol"]), xtol=vt.fx(10.0 ** -S["xtol"]), band=vt.fx(band))


def flat_red(model, U):
    return np.array([U[p][i] for p, i in scenarios.free_dofs(model)])


def pf_traces(tid, model, settings, M):
    """one trace for TracePathFollow per load case"""
    out = []
    R = M.Results.R
    n = scenarios.ndof1(model)
    for s in range(model["nsteps"]):
        log = []
        for w in M.watch:
            if w["step"] != s + 1:
                continue
            if w["kind"] == "K":
                log.append(("K", w["V"][:n]))
            elif len(w["V"]) == n + 1:
                log.append((w["kind"], w["V"], w["g"]))
        ev = observe.iterations(log)
        mine = [x for x in R[1:] if x.step == s + 1]
        before = [x for x in R if x.step <= s]
        start = flat_red(model, before[-1].U) if s > 0 and before else np.zeros(n)
        E = []
        for e in ev:
            if e["e"] == "it":
                E.append(dict(e="it", s=vt.fxv(e["s"]), t=vt.fxv(e["t"]), g=vt.fxv(e["g"])))
            else:
                E.append(dict(e="acc", t=vt.fxv(e["t"])))
        E.append(dict(e="ret"))
        out.append(dict(id="%s.%d" % (tid, s + 1), c=step_config(model, settings, s), x0=vt.fxv(np.append(start, 0.0)), ev=E,
                        rows=[vt.fxv(np.append(flat_red(model, x.U), x.lpf)) for x in mine],
                        lims=[vt.fxv(np.asarray(x.dVmax)) for x in mine], js=[int(x.j) for x in mine]))
    return out


def definition(model):
    """definition for spec/Truss.tla: nodes in the order of labels, elements in the order of definition"""
    nodes = sorted(model["nodes"])
    pos = {lab: p + 1 for p, (lab, _) in enumerate(nodes)}
    sup = dict(model["supports"])
    frc = dict(model["forces"])
    el = []
    for lab, conn, mt, mp, A in model["elems"]:
        mp = list(mp) + [0.0] * 3
        el.append(dict(a=pos[conn[0]], b=pos[conn[1]], A=vt.fx(A), mat=mt, E=vt.fx(mp[0]), K=vt.fx(mp[1]), Sy=vt.fx(mp[2])))
    F = [[vt.fxv(frc.get(lab, [0.0] * 3 * model["nsteps"])[3 * s:3 * s + 3]) for lab, _ in nodes] for s in range(model["nsteps"])]
    return dict(X=[vt.fxv(X) for _, X in nodes], free=[[bool(v) for v in sup.get(lab, [1, 1, 1])] for lab, _ in nodes], el=el, F=F)


def any_plastic(model):
    return any(e[2] == 2 for e in model["elems"])


def state(model, sv):
    """history for the specification; purely elastic models have none"""
    m = len(model["elems"])
    if sv is None:
        return [[[], []] for _ in range(m)]
    return vt.fxm(sv)


def snapshot(R):
    """everything contained in a list of results"""
    def arrays(x):
        out = []
        for k, v in sorted(vars(x).items()):
            if isinstance(v, np.ndarray):
                out.append((k, v.shape, v.tobytes()))
            elif isinstance(v, (int, float, np.number)):
                out.append((k, float(v)))
            elif hasattr(v, "forces"):
                out.append((k, arrays(v)))
        return out
    return [arrays(x) for x in R]


def kept(M, model):
    """do the results stay what they are when the model is used further?"""
    R = M.Results.R
    held, before = list(R), snapshot(R)
    n = scenarios.ndof1(model)
    V = np.array([0.01 * (-1) ** k for k in range(n)] + [0.7])
    watch, budget = M.watch, M.budget
    M.watch, M.script = [], None
    with observe.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        M.equilibrium(V.copy(), np.zeros(n + 1))
        M.stiffness(V[:n].copy())
        M.equilibrium(0.5 * V, np.zeros(n + 1), statev_write=True)
        M.ExtForces.forces *= 1.25
        M.ExtForces.forces /= 1.25
        same = M.Results.R is R and len(R) == len(held) and all(a is b for a, b in zip(R, held)) and snapshot(R) == before
        M.build()
    M.watch, M.budget = watch, budget
    return same and len(R) == len(held) and all(a is b for a, b in zip(R, held)) and snapshot(held) == before


def job_trace(tid, model, settings, M, want=()):
    """everything reported by a run, for TraceJob"""
    S = dict(DEFAULTS)
    S.update(settings)
    R = M.Results.R
    res = []
    for x in R:
        res.append(dict(
            step=int(x.step), lpf=vt.fx(x.lpf), U=vt.fxm(x.U), U0=vt.fxm(x.U0), r=vt.fxm(x.r), lam=vt.fxv(x.stretch[:, 0]),
            s=vt.fxv(x.element_stress[:, 0]), N=vt.fxv(x.element_force[:, 0]), sv=state(model, x.state_v),
            fc=vt.fxm(x.ExtForces.forces_const), f=vt.fxm(x.ExtForces.forces),
            Uflat=vt.fxv(x.get_U(flat=True)), Ured=vt.fxv(x.get_U(red=True)), Ufull=vt.fxm(x.get_U()),
            rflat=vt.fxv(x.get_r(flat=True)), rred=vt.fxv(x.get_r(red=True)), rfull=vt.fxm(x.get_r()),
            K=vt.fxm(x.Kred) if getattr(x, "Kred", None) is not None and x is not R[0] else []))
    acc = []
    for w in M.watch:
        if w["kind"] == "W":
            acc.append(dict(step=int(w["step"]), V=vt.fxv(w["V"])))
    # material states before and after every evaluation, as numbers of an entry of a table
    table, svs = {}, []

    def number(sv):
        key = sv.tobytes()
        if key not in table:
            svs.append(state(model, sv))
            table[key] = len(svs)
        return table[key]

    A = M.Analysis
    left = dict(U=vt.fxm(A.U), r=vt.fxm(A.r), lam=vt.fxv(A.stretch[:, 0]), N=vt.fxv(A.element_force[:, 0]))
    ev = [dict(w=w["kind"] == "W", a=number(w["sv0"]), b=number(w["sv1"])) for w in M.watch] if any_plastic(model) else []
    return dict(id=tid, d=definition(model), ftol=vt.fx(10.0 ** -S["ftol"]), xtol=vt.fx(10.0 ** -S["xtol"]), nsteps=model["nsteps"], plastic=any_plastic(model),
                res=res, acc=acc, ev=ev, svs=svs, want=list(want), left=left, ends=vt.fxv(M.Results.step_lpf_end), kept=kept(M, model))
