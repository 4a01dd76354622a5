"""C11-C13: orders of evaluations generated from the specification, executed by a real built model."""
import copy
import json
import random
import warnings

import numpy as np

import observe
import runs
import scenarios
import vt

# what a broken clause says about which properties
CLAUSES = {
    "stretch": {"C12"}, "stress": {"C10", "C12"}, "axial": {"C12"}, "internal": {"C12"}, "residual": {"C12", "C04", "C09"},
    "state-commit": {"C10", "C11"}, "state-trial": {"C11", "C13", "C12"}, "stiffness": {"C13"}, "stiffness-full": {"C13"},
    "stiffness-size": {"C13"}, "stiffness-symmetry": {"C13"}, "stiffness-derivative": {"C13"},
    "arguments": {"C12", "C13"}, "access": {"C12", "C14"}, "forces-changed": {"C13", "C12"},
}


def displacements(r, model, n):
    """n vectors of free displacements which keep all elements well away from zero length"""
    fd = scenarios.free_dofs(model)
    nodes = sorted(model["nodes"])
    pos = {lab: p for p, (lab, _) in enumerate(nodes)}
    X = np.array([x for _, x in nodes], dtype=float)
    out = []
    for q in range(n):
        amp = r.choice([0.0, 1e-3, 0.05, 0.3, 0.8])
        for _ in range(60):
            u = np.array([round(r.uniform(-amp, amp), 5) for _ in fd])
            U = np.zeros_like(X)
            for (p, i), v in zip(fd, u):
                U[p, i] = v
            x = X + U
            if all(np.linalg.norm(x[pos[a]] - x[pos[b]]) > 0.25 * np.linalg.norm(X[pos[a]] - X[pos[b]]) for _, (a, b), _, _, _ in model["elems"]):
                break
            amp *= 0.7
        else:
            u = np.zeros(len(fd))
        out.append(u)
    return out


def prepare(model, r):
    """a real model ready for direct evaluations (a run without increments)"""
    M, txt, exc = runs.execute(model, dict(incs=0))
    return M, exc


def one(tid, model, ops, r, want_derivatives=True):
    M, exc = prepare(model, r)
    if exc:
        return None, exc
    nsteps = model["nsteps"]
    nodes = sorted(model["nodes"])
    N, m = len(nodes), len(model["elems"])
    ef = M.Analysis.ExtForces
    fc = np.array([[round(r.uniform(-1, 1), 4) for _ in range(3)] for _ in range(N)]) if r.random() < 0.7 else np.zeros((N, 3))
    ef.forces_const = fc.copy()
    frc = dict(model["forces"])
    f = np.array([frc.get(lab, [0.0] * 3 * nsteps)[3 * (nsteps - 1):] for lab, _ in nodes])
    pts = displacements(r, model, 3)
    fd = scenarios.free_dofs(model)
    plastic = runs.any_plastic(model)
    sv = lambda: runs.state(model, M.Analysis.state_v)
    full = lambda u: full_U(N, fd, u)
    ev = []
    bad = []
    t = dict(id=tid, d=runs.definition(model), f=vt.fxm(f), fc=vt.fxm(fc), sv0=sv())
    U0 = np.zeros(len(fd))
    with observe.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for o in ops:
            u = pts[o["p"]].copy()
            lpf = round(r.uniform(-2, 2), 3) if r.random() < 0.75 else 0.0
            V, V0 = np.append(u, lpf), np.append(U0, 0.0)
            keepV, keepV0 = V.copy(), V0.copy()
            A = M.Analysis
            if o["k"] in "GW":
                if o["k"] == "G" and r.random() < 0.3:  # the load factor of the analysis
                    A.lpf = lpf
                    g = M.equilibrium(V[:-1].copy(), V0[:-1].copy())
                elif r.random() < 0.3:
                    g = M.equilibrium(V, V0, analysis=A, statev_write=o["k"] == "W")
                else:
                    g = M.equilibrium(V, V0, statev_write=o["k"] == "W")
                A = M.Analysis
                ix = [3 * a + i for a, i in fd]
                if not (np.array_equal(A.get_r(), A.r) and np.array_equal(A.get_r(flat=True), A.r.ravel()) and np.array_equal(A.get_r(red=True), A.r.ravel()[ix])):
                    bad.append("access")
                ev.append(dict(k=o["k"], U=vt.fxm(full(u)), lpf=vt.fx(lpf), g=vt.fxv(g), r=vt.fxm(A.r), lam=vt.fxv(A.stretch[:, 0]),
                               s=vt.fxv(A.element_stress[:, 0]), N=vt.fxv(A.element_force[:, 0]), sv=sv()))
                if o["k"] == "W" and plastic:
                    U0 = u.copy()
            elif o["k"] == "K":
                before = (A.r.copy(), A.element_force.copy(), A.element_stress.copy(), A.stretch.copy())
                K = np.array(M.stiffness(keepV[:-1].copy()))
                A = M.Analysis
                after = (A.r, A.element_force, A.element_stress, A.stretch)
                if not all(np.array_equal(a, b) for a, b in zip(before, after)):
                    bad.append("forces-changed")
                ev.append(dict(k="K", U=vt.fxm(full(u)), K=vt.fxm(K), sv=sv()))
            elif o["k"] == "F":
                M.stiffness(u.copy())
                ev.append(dict(k="F", U=vt.fxm(full(u)), KF=[[vt.fxm(b) for b in row] for row in np.array(M.Analysis.K)], sv=sv()))
            elif o["k"] == "D" and fd:
                p = r.randrange(len(fd))
                h = 2.0 ** -18
                K = np.array(M.stiffness(u.copy()))
                col = K[:, p].copy()
                rp, rm = u.copy(), u.copy()
                rp[p] += h
                rm[p] -= h
                gp = M.equilibrium(np.append(rp, lpf), V0)
                gp = np.array(M.Analysis.get_r(flat=True))
                gm = M.equilibrium(np.append(rm, lpf), V0)
                gm = np.array(M.Analysis.get_r(flat=True))
                ix = [3 * a + i for a, i in fd]
                ev.append(dict(k="D", U=vt.fxm(full(u)), p=p + 1, h=vt.fx(h), rp=vt.fxv(gp[ix]), rm=vt.fxv(gm[ix]), col=vt.fxv(col), sv=sv()))
            if not (np.array_equal(V, keepV) and np.array_equal(V0, keepV0)):
                bad.append("arguments")
    t["ev"] = ev
    return t, bad


def full_U(N, fd, u):
    U = np.zeros((N, 3))
    for (p, i), v in zip(fd, u):
        U[p, i] = v
    return U


def drive(chk, tier, seed):
    big = tier == "thorough"
    r = random.Random("eval/%d" % seed)
    chk.model(vt.tlc("MCEval", "MCEval.cfg"), "MCEval")
    gen = vt.tlc("MCEval", "GenEval.cfg", workers=1, args=["-simulate", "num=%d" % (800 if big else 90), "-depth", "12", "-seed", str(seed)])
    ops = [json.loads(p) for p in sorted(set(gen.printed("OPS")))]
    ops = r.sample(ops, min(len(ops), 500 if big else 70))
    traces, info = [], {}
    for q, o in enumerate(ops):
        rr = random.Random("eval/%d/%d" % (seed, q))
        model = scenarios.shuffled(scenarios.random_model(rr, kind=scenarios.KINDS[q % len(scenarios.KINDS)]), rr)
        tid = "e%d" % q
        try:
            t, bad = one(tid, model, o, rr)
        except Exception as e:
            t, bad = None, "exception: %s: %s" % (type(e).__name__, e)
        info[tid] = dict(model=model, ops=[x["k"] + str(x["p"]) for x in o])
        if t is None:
            chk.violation("exception", dict(info[tid], what=bad))
            continue
        for b in set(bad):
            chk.clause(CLAUSES, b, info[tid])
        traces.append(t)
        for x in o:
            chk.count("evaluations", x["k"])
    v, res = vt.check_traces("TraceEval", traces)
    for t in traces:
        j = vt.judge(v[t["id"]])
        if j:
            chk.clause(CLAUSES, j[1], dict(info[t["id"]], position=j[0]))
    chk.traces(len(traces), "orders of evaluations on real models")
    chk.sample(dict(evaluation=info["e0"] if "e0" in info else None))
