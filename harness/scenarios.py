"""Random models (as plain data) and their realisation through the public interface."""
import copy
import random

import numpy as np


def rnd(r, a, b, nd=4):
    return round(r.uniform(a, b), nd)


def geometry(r, kind):
    """-> nodes (positions), elements (index pairs), supports {index: (1/0)*3}, loaded nodes"""
    j = lambda s=0.15: rnd(r, -s, s)
    if kind == "mises":  # shallow plane truss, snap-through
        h = rnd(r, 0.15, 0.5)
        X = [(0, 0, 0), (1 + j(), 0, h), (2 + j(), 0, j(0.05))]
        E = [(0, 1), (1, 2)]
        S = {0: (0, 0, 0), 1: (1, 0, 1), 2: (0, 0, 0)}
        if r.random() < 0.3:
            S[1] = (0, 0, 1)
        return X, E, S, [1]
    if kind == "tripod":
        n = r.choice([3, 4])
        X = [(0.1 + j(), j(), rnd(r, 0.5, 1.2))]
        for k in range(n):
            a = 2 * np.pi * k / n + j(0.3)
            X.append((round(float(np.cos(a)), 4), round(float(np.sin(a)) * (1 + j()), 4), j(0.1)))
        E = [(0, k) if r.random() < 0.5 else (k, 0) for k in range(1, n + 1)]
        S = {k: (0, 0, 0) for k in range(1, n + 1)}
        if r.random() < 0.4:
            S[0] = (1, 1, 1)
        return X, E, S, [0]
    if kind == "tower":  # two free nodes in space
        X = [(1, j(), j()), (-0.6 + j(), 0.9 + j(), j()), (-0.5 + j(), -0.8 + j(), j()),
             (0.1 + j(), 0.1 + j(), 1.1 + j()), (0.3 + j(), j(), 2 + j())]
        E = [(0, 3), (1, 3), (2, 3), (3, 4), (0, 4), (4, 1), (2, 4)]
        r.shuffle(E)
        S = {0: (0, 0, 0), 1: (0, 0, 0), 2: (0, 0, 0)}
        if r.random() < 0.5:
            S[4] = (1, 0, 1)
        return X, E, S, [3, 4]
    if kind == "bar":  # axial chain
        n = r.choice([1, 2, 3])
        x = 0.0
        X = [(0, 0, 0)]
        for k in range(n):
            x += rnd(r, 0.6, 1.6)
            X.append((round(x, 4), 0, 0))
        E = [(k, k + 1) if r.random() < 0.7 else (k + 1, k) for k in range(n)]
        S = {0: (0, 0, 0)}
        for k in range(1, n + 1):
            S[k] = (1, 0, 0)
        return X, E, S, list(range(1, n + 1))
    if kind == "dome":  # plane arch with three free nodes
        X = [(-1.6 + j(), 0, 0), (-0.8 + j(), 0, 0.45 + j(0.05)), (j(), 0, 0.7 + j(0.05)), (0.8 + j(), 0, 0.45 + j(0.05)), (1.6 + j(), 0, 0),
             (-0.4 + j(), 0, -0.3 + j()), (0.5 + j(), 0, -0.35 + j())]
        E = [(0, 1), (1, 2), (2, 3), (3, 4), (1, 5), (2, 5), (2, 6), (3, 6), (5, 0), (6, 4)]
        S = {0: (0, 0, 0), 4: (0, 0, 0), 5: (0, 0, 0), 6: (0, 0, 0), 1: (1, 0, 1), 2: (1, 0, 1), 3: (1, 0, 1)}
        return X, E, S, [1, 2, 3]
    raise ValueError(kind)


KINDS = ["mises", "tripod", "tower", "bar", "dome"]


def random_model(r, kind=None, plastic=None, nsteps=None, labels="odd"):
    kind = kind or r.choice(KINDS)
    X, E, S, loaded = geometry(r, kind)
    E = E + [r.choice([e, e[::-1]]) for e in E if r.random() < 0.06]  # parallel elements
    n, m = len(X), len(E)
    if labels == "plain":
        nl = list(range(1, n + 1))
        el = list(range(1, m + 1))
    else:
        q = r.random()  # sparse, consecutive or large labels
        base = r.randrange(1, 40)
        nl = sorted(r.sample(range(1, 60), n) if q < 0.6 else range(base, base + n) if q < 0.8 else r.sample(range(30000, 3000000), n))
        el = sorted(r.sample(range(1, 60), m) if q < 0.7 else range(base, base + m) if q < 0.9 else r.sample(range(30000, 3000000), m))
    perm = list(range(n))
    r.shuffle(perm)  # which geometric node gets which label
    lab = {g: nl[perm[g]] for g in range(n)}
    eperm = list(range(m))
    r.shuffle(eperm)
    plastic = r.random() < 0.5 if plastic is None else plastic
    mat = {}
    for e in range(m):
        Em = rnd(r, 0.5, 3)
        if plastic and r.random() < 0.85:
            mat[e] = (2, [Em, rnd(r, 0.05, 0.5) * Em, rnd(r, 0.01, 0.12) * Em])
        elif plastic and r.random() < 0.5:
            mat[e] = (1, [Em, 0.1, 0.2])
        else:
            mat[e] = (1, [Em])
    if plastic and all(t == 1 for t, _ in mat.values()):
        mat[0] = (2, [1.0, 0.2, 0.05])
    nsteps = nsteps or r.choice([1, 1, 1, 1, 2, 2, 3, 3, 4, 6])
    forces = {}
    for g in loaded:
        if forces and r.random() < 0.3:
            continue
        f = []
        for s in range(nsteps):
            d = [rnd(r, -1, 1) for _ in range(3)]
            if kind in ("mises", "dome") and s == 0:
                d = [rnd(r, -0.1, 0.1), 0.0, -rnd(r, 0.3, 1)]
            if kind == "bar":
                d = [rnd(r, 0.2, 1) * r.choice([1, 1, -1]), 0.0, 0.0]
            free = S.get(g, (1, 1, 1))
            # loads on locked directions are legal and must not matter
            d = [v if free[i] or r.random() < 0.3 else 0.0 for i, v in enumerate(d)]
            f += d
        forces[lab[g]] = f
    if not any(any(f[3 * s:3 * s + 3]) for s in range(nsteps) for f in forces.values()):
        forces[lab[loaded[0]]] = [0.3, 0.1, -0.5] * nsteps
    return dict(kind=kind,
                nodes=[(lab[g], [float(v) for v in X[g]]) for g in range(n)],
                elems=[(el[eperm[e]], [lab[E[e][0]], lab[E[e][1]]], mat[e][0], mat[e][1], rnd(r, 0.4, 2)) for e in range(m)],
                supports=[(lab[g], list(S[g])) for g in S], forces=sorted(forces.items()), nsteps=nsteps)


def random_settings(r, model, **over):
    s = dict(incs=r.choice([3, 4, 6, 8]), du=r.choice([0.02, 0.05, 0.1]), dlpf=r.choice([0.02, 0.05, 0.01]),
             stepcontrol=r.random() < 0.6, maxfac=r.choice([2, 4, 10]), minfac=r.choice([1e-6, 1e-2, 0.125]),
             increase=r.choice([0.5, 0.25, 1.5]), reduce=r.choice([8, 2, 2.5]), dxtol=r.choice([1.000001, 1.25, 1.05]),
             ftol=r.choice([8, 8, 7, 9]), xtol=r.choice([8, 8, 7, 9]), cycl=r.choice([4, 3, 5, 2]), nfev=r.choice([8, 6, 12]),
             j0=None, j_pre=r.random() < 0.75, j_fixed=False)
    if r.random() < 0.25:
        s["nfev"] = r.choice([3, 4])  # provoke failing attempts
        s["du"], s["dlpf"] = r.choice([(0.3, 0.3), (0.15, 0.5)])
    if r.random() < 0.2:
        s["j0"] = r.choice([1, -1, 2, -2])
    if r.random() < 0.12:
        s["j_fixed"] = True
        if s["j0"] is None and r.random() < 0.7:
            s["j0"] = r.choice([ndof1(model) + 1, r.randint(1, ndof1(model) + 1), -r.randint(1, ndof1(model) + 1)])
    if s["j0"] is not None:
        s["j0"] = int(np.sign(s["j0"])) * min(abs(s["j0"]), ndof1(model) + 1)
    if r.random() < 0.3:
        s["xlimit"] = (r.choice([0, 1]), r.choice([0.05, 0.1, 0.03]))
    if r.random() < (0.9 if model["nsteps"] > 1 else 0.3):
        if r.random() < 0.5:
            s["incs"] = tuple(r.choice([2, 3, 4, 5]) for _ in range(model["nsteps"]))
        if r.random() < 0.4:
            s["xlimit"] = tuple((r.choice([0, 1]), r.choice([0.02, 0.05, 0.2])) for _ in range(model["nsteps"]))
        if model["nsteps"] > 3:
            s["incs"] = s["incs"] if isinstance(s["incs"], tuple) else min(s["incs"], 4)
    if r.random() < 0.4:  # some settings as by default
        for k in ("stepcontrol", "maxfac", "minfac", "increase", "reduce", "dxtol", "ftol", "xtol", "cycl", "nfev", "j_pre"):
            if r.random() < 0.3:
                del s[k]
    s.update(over)
    return s


def in_units(model, settings, L, S):
    """the same model in other units: lengths in 1/L, stresses in 1/S of the unit"""
    m = dict(model, nodes=[(n, [v * L for v in X]) for n, X in model["nodes"]],
             elems=[(e, c, mt, [v * S for v in mp], A) for e, c, mt, mp, A in model["elems"]],
             forces=[(n, [v * S for v in f]) for n, f in model["forces"]])
    t = dict(settings, du=settings["du"] * L)
    n = ndof1(model) + 1
    lim = lambda x: (x[0], x[1] * (1 if x[0] in (0, n) else L))
    if "xlimit" in t:
        t["xlimit"] = tuple(lim(x) for x in t["xlimit"]) if isinstance(t["xlimit"][0], tuple) else lim(t["xlimit"])
    return m, t


def free_dofs(model):
    """free (node position, direction) in the order of ascending labels"""
    sup = dict(model["supports"])
    out = []
    for p, (lab, _) in enumerate(sorted(model["nodes"])):
        for i in range(3):
            if sup.get(lab, [1, 1, 1])[i]:
                out.append((p, i))
    return out


def ndof1(model):
    return len(free_dofs(model))


def apply_settings(M, s):
    for k, v in s.items():
        setattr(M.Settings, k, v)


def shuffled(model, r):
    """the same model, its entities added in another order"""
    m = dict(model)
    for k in ("nodes", "elems", "supports", "forces"):
        m[k] = list(m[k])
        r.shuffle(m[k])
    return m


def define(M, model):
    """define the model through the public interface"""
    nodes, elems, sup, frc = [model[k] for k in ("nodes", "elems", "supports", "forces")]
    with M.Nodes as MN:
        for lab, X in nodes:
            MN.add_node(lab, tuple(X))
    extra = [[], [0.37 * elems[0][4] + 0.11], [5.3, -0.7]][(len(elems) + nodes[0][0]) % 3]  # properties nobody uses
    with M.Elements as ME:
        for lab, conn, mt, mp, A in elems:
            ME.add_element(lab, tuple(conn), mat_type=mt, material_properties=list(mp), geometric_properties=[A] + extra)
    with M.Boundaries as MB:
        for lab, v in sup:
            MB.add_bound_U(lab, tuple(v))
    with M.ExtForces as MF:
        for lab, f in frc:
            MF.add_force(lab, tuple(f))
    M.Settings.nsteps = model["nsteps"]
    return M
