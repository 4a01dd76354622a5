"""C01, C02: histories of definition operations, generated from the specification, on the real handlers."""
import copy
import json
import random
import warnings

import numpy as np

import observe
import vt

C01 = {"C01"}
CLAUSES = {c: C01 for c in ("nodes", "supports", "forces", "connectivity", "types", "geometry", "material", "access", "arguments", "operation-refused")}
CLAUSES.update({"other-model-" + c: {"C01", "C03"} for c in list(CLAUSES)})
for c in list(CLAUSES):
    CLAUSES["build-" + c] = {"C01", "C02"}
    CLAUSES["refused-" + c] = {"C01"}
CLAUSES.update({"build-refused": {"C02"}, "build-accepted": {"C02"}, "build-layout": {"C02"}, "build-dofs": {"C02"}, "build-size": {"C02"}})

NAN = [10001]


def num(v):
    v = float(v)
    return NAN if v != v else vt.fx(v)


def rows(a):
    return [[num(v) for v in np.atleast_1d(r)] for r in a] if a is not None else []


def ints(a):
    return [int(v) for v in a] if a is not None else []


class Concrete:
    """concrete values for the tokens of a generated history"""

    def __init__(self, r, nsteps):
        self.r, self.nsteps = r, nsteps
        self.tab = {}
        self.ngeo = r.choice([1, 1, 2, 3])
        some = r.choice([range(1, 60), range(1, 60), range(100, 1000), range(30000, 40000), range(60000, 3000000)])
        self.some, self.labels = some if r.random() < 0.6 else None, {}

    def number(self):
        r = self.r
        return r.choice([lambda: r.randint(-9, 9), lambda: round(r.uniform(-5, 5), 4), lambda: r.uniform(-1, 1) * 1e-6, lambda: r.uniform(-1, 1) * 1e6,
                         lambda: round(r.uniform(0, 1), 2), lambda: float(r.randint(-3, 3))])()

    def value(self, kind, token):
        key = (kind, token)
        if key not in self.tab:
            r = self.r
            if kind == "coord":
                v = [r.randint(-9, 9) for _ in range(3)] if r.random() < 0.4 else [self.number() for _ in range(3)]
            elif kind == "sup":
                v = [r.randint(0, 1) for _ in range(3)]
            elif kind == "force":
                v = [r.randint(-5, 5) if r.random() < 0.4 else self.number() for _ in range(3 * self.nsteps)]
            elif kind == "conn":
                v = r.sample(range(1, 60), 2)
            else:  # a single parameter
                v = self.number()
                while v == 0:
                    v = self.number()
            self.tab[key] = v
        return self.tab[key]

    def gp(self, token):
        """geometric properties (all elements have the same number of them)"""
        return [self.value(("gp", q), token) for q in range(self.ngeo)]

    def label(self, l):
        while self.some and l not in self.labels:
            new = self.r.choice(self.some)
            if new not in self.labels.values():
                self.labels[l] = new
        return self.labels.get(l, l)

    def mp(self, tokens):
        return [self.value(("mp", q), t) for q, t in enumerate(tokens)]


def pack(r, v):
    """the same values in another kind of container"""
    k = r.randrange(3)
    return list(v) if k == 0 else tuple(v) if k == 1 else np.array(v)


def lists(r, v):
    """containers allowed where an array would be ambiguous"""
    return list(v) if r.random() < 0.6 else tuple(v)


def same(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) and a.dtype == b.dtype if isinstance(a, np.ndarray) else a == b)


def clobber(a):
    """the caller goes on using its own arguments"""
    if isinstance(a, np.ndarray):
        a.fill(77)
    elif isinstance(a, list):
        for i in range(len(a)):
            a[i] = 77


def observe_model(M, built):
    e = M.Elements
    got = []
    for lab in ints(e.labels):
        got.append(dict(conn=ints(e.get_nodes(lab)), ends=[int(e.NA(lab)), int(e.NE(lab))], mt=int(e.get_material_type(lab)),
                        et=int(e.get_element_type(lab)), mp=[num(v) for v in e.get_material_properties(lab)],
                        gp=[num(v) for v in e.get_geometric_properties(lab)]))
    d = dict(nodes=dict(labels=ints(M.Nodes.labels), vals=rows(M.Nodes.coords)),
             sups=dict(labels=ints(M.Boundaries.Unodes), vals=[ints(r) for r in M.Boundaries.Uvalues] if M.Boundaries.Uvalues is not None else []),
             frcs=dict(labels=ints(M.ExtForces.nodes), vals=rows(M.ExtForces.forces)),
             elems=dict(labels=ints(e.labels), conns=[ints(r) for r in e.conns] if e.conns is not None else [], ets=ints(e.elem_type),
                        mts=ints(e.mat_type), mps=rows(e.material_properties), gps=rows(e.geometric_properties), got=got),
             dof1=[], dof0=[], shape=[])
    if built:
        a = M.Analysis
        d.update(dof1=ints(a.DOF1), dof0=ints(a.DOF0), shape=[int(a.U.shape[0]), int(a.stretch.shape[0])])
    return d


def replay(tid, ops, r):
    import trusspy
    from trusspy.core import BoundaryU, Element, ExternalForce, Node
    nsteps = r.choice([1, 1, 2])
    con = Concrete(r, nsteps)
    with observe.quiet():
        MM = [trusspy.Model(log=0) for _ in range(2)]
    for M in MM:
        M.Settings.nsteps = nsteps
    ev = []
    built = [False, False]
    for o in ops:
        o = dict(o)
        if "l" in o:
            o["l"] = con.label(o["l"])
        if "ls" in o:
            o["ls"] = [con.label(l) for l in o["ls"]]
        if "a" in o:
            o["a"] = [dict(p, l=con.label(p["l"])) for p in o["a"]]
        M = MM[o["m"] - 1]
        k = o["k"]
        c = dict(k=k)  # the operation with concrete values, for the specification
        args = []  # what the caller handed over
        refused = False

        def give(v, f=pack):
            a = f(r, v)
            args.append((a, copy.deepcopy(a)))
            return a

        def items(make):
            """call add_x(label, ...), add_x(object) or add_xs([objects])"""
            made = [make(p) for p in o["a"]]
            if len(made) > 1 and r.random() < 0.6:
                return "many", [cls(lab, *a, **kw) for cls, lab, a, kw in made]
            if r.random() < 0.4:
                return "objects", [cls(lab, *a, **kw) for cls, lab, a, kw in made]
            return "raw", made

        def add(single, many, make):
            how, xs = items(make)
            if how == "many":
                many(xs)
            elif how == "objects":
                for x in xs:
                    single(x)
            else:
                for _, lab, a, kw in xs:
                    single(lab, *a, **kw)

        with observe.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if k == "addN":
                    c["a"] = [dict(l=p["l"], v=[num(x) for x in con.value("coord", p["v"])]) for p in o["a"]]
                    add(M.Nodes.add_node, M.Nodes.add_nodes, lambda p: (Node, p["l"], (give(con.value("coord", p["v"])),), {}))
                elif k == "addB":
                    c["a"] = [dict(l=p["l"], v=con.value("sup", p["v"])) for p in o["a"]]
                    add(M.Boundaries.add_bound_U, M.Boundaries.add_bounds_U, lambda p: (BoundaryU, p["l"], (give(con.value("sup", p["v"])),), {}))
                elif k == "addF":
                    c["a"] = [dict(l=p["l"], v=[num(x) for x in con.value("force", p["v"])]) for p in o["a"]]
                    add(M.ExtForces.add_force, M.ExtForces.add_forces, lambda p: (ExternalForce, p["l"], (give(con.value("force", p["v"])),), {}))
                elif k == "addE":
                    def make(p):
                        v = p["v"]
                        conn, mp, gp = con.value("conn", v["conn"]), con.mp(v["mp"]), con.gp(v["gp"])
                        kw = dict(mat_type=v["mt"])
                        old = r.random() < 0.4
                        if r.random() < 0.15:
                            mp = [float("nan")]  # not given
                        else:
                            kw["mprop" if old else "material_properties"] = give(mp, lists)
                        kw["gprop" if old else "geometric_properties"] = give(gp, lists)
                        et = 1
                        if r.random() < 0.3:
                            et = kw["elem_type"] = r.choice([1, 2])
                        c.setdefault("a", []).append(dict(l=p["l"], v=dict(conn=conn, et=et, mt=v["mt"], mp=[num(x) for x in mp], gp=[num(x) for x in gp])))
                        return Element, p["l"], (give(conn),), kw
                    add(M.Elements.add_element, M.Elements.add_elements, make)
                elif k in ("delN", "delE", "delB", "delF"):
                    c["l"] = o["l"]
                    {"delN": M.Nodes.del_node, "delE": M.Elements.del_element, "delB": M.Boundaries.del_bound_U, "delF": M.ExtForces.del_force}[k](o["l"])
                elif k in ("mat", "geo", "geos", "mt", "et"):
                    ls = o["ls"]
                    everyone = ints(M.Elements.labels)
                    vs = o.get("vs")
                    if everyone and r.random() < 0.2:
                        ls, arg = everyone, "all"
                        vs = [r.randrange(1, 6) for _ in ls] if vs else vs
                    else:
                        arg = give(ls, lists)
                    c["ls"] = ls
                    if k == "mat":
                        mp = con.mp(o["v"])
                        c.update(v=[num(x) for x in mp], t=o["t"])
                        M.Elements.assign_material(arg, give(mp), *([o["t"]] if o["t"] else []))
                    elif k == "geo":
                        gp = con.gp(o["v"])
                        c["v"] = [num(x) for x in gp]
                        M.Elements.assign_geometry(arg, give(gp))
                    elif k == "geos":
                        gps = [con.gp(v) for v in vs]
                        c["vs"] = [[num(x) for x in g] for g in gps]
                        M.Elements.assign_geometries(arg, [give(g) for g in gps])
                    else:
                        c["t"] = o["t"]
                        (M.Elements.assign_mtype if k == "mt" else M.Elements.assign_etype)(arg, o["t"])
                elif k == "build":
                    M.build()
                    built[o["m"] - 1] = True
            except Exception as e:
                refused = True
                c["what"] = "%s: %s" % (type(e).__name__, e)
                if k == "build":
                    built[o["m"] - 1] = False
        kept = all(same(a, b) for a, b in args)
        for a, _ in args:
            clobber(a)
        ev.append(dict(o=c, m=o["m"], kept=kept, refused=refused,
                       obs=[observe_model(X, built[q] and k == "build" and o["m"] - 1 == q) for q, X in enumerate(MM)]))
    return dict(id=tid, n=2, zeros=[[] for _ in range(3 * nsteps)], ev=ev)


def work(arg):
    tid, ops, seed = arg
    try:
        return replay(tid, ops, random.Random("registry/%d/%s" % (seed, tid))), None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCRegistry", "MCRegistry.cfg"), "MCRegistry")
    if big:
        chk.model(vt.tlc("MCRegistry", "MCRegistryE.cfg"), "MCRegistry, elements of two models")
    gen = vt.tlc("MCRegistry", "GenRegistry.cfg", workers=1, args=["-simulate", "num=%d" % (3000 if big else 330), "-depth", "100", "-seed", str(seed)])
    S = sorted(set(gen.printed("REG")))
    r = random.Random("registry/%d" % seed)
    todo = [("g%d" % q, json.loads(s), seed) for q, s in enumerate(S)]
    traces = []
    for (tid, ops, _), (t, exc) in zip(todo, vt.parallel(work, todo)):
        if exc:
            chk.violation("exception", dict(ops=ops, what=exc))
            continue
        traces.append(t)
        for o in ops:
            chk.count("operations", o["k"])
        for e in t["ev"]:
            if e["o"]["k"] == "build":
                chk.count("builds", "refused" if e["refused"] else "accepted")
    for a in range(0, len(traces), 200):
        part = traces[a:a + 200]
        v, _ = vt.check_traces("TraceRegistry", part)
        for t in part:
            j = vt.judge(v[t["id"]])
            if j:
                chk.clause(CLAUSES, j[1], dict(history=[dict(o, m=e["m"]) for e in t["ev"][: j[0]] for o in [e["o"]]][-8:], position=j[0], trace=t["id"]))
    chk.traces(len(traces), "histories of definition operations on real models")
    if traces:
        chk.sample(dict(history=todo[0][1][:8]))
