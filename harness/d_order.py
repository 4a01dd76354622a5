"""C02: one model defined in different orders and with different labels."""
import json
import random
import warnings

import numpy as np

import observe
import scenarios
import vt

C02 = {"C02"}
CLAUSES = {c: C02 for c in ("same-labels", "sorted-nodes", "same-dofs", "same-count", "same-factor", "same-displacements", "same-forces", "same-loads", "same-elements", "refused", "accepted")}


def relabel(model, r):
    """the same model with other, increasing labels"""
    def grow(labs):
        top = r.choice([len(labs), 70, 5000])
        new = sorted(r.sample(range(1, max(top, len(labs)) + 1), len(labs)))
        return dict(zip(sorted(labs), new))
    nm = grow([l for l, _ in model["nodes"]])
    em = grow([e[0] for e in model["elems"]])
    return dict(model, nodes=[(nm[l], X) for l, X in model["nodes"]], elems=[(em[e[0]], [nm[c] for c in e[1]]) + tuple(e[2:]) for e in model["elems"]],
                supports=[(nm[l], v) for l, v in model["supports"]], forces=[(nm[l], f) for l, f in model["forces"]]), nm, em


def define(M, model, seq, r):
    """define the entities in the order of a generated sequence (negative numbers: delete again)"""
    from trusspy.core import BoundaryU, Element, ExternalForce, Node
    ents = [("N", x) for x in model["nodes"]] + [("E", x) for x in model["elems"]] + [("B", x) for x in model["supports"]] + [("F", x) for x in model["forces"]]
    r.shuffle(ents)
    M.Settings.nsteps = model["nsteps"]
    H = dict(N=M.Nodes, E=M.Elements, B=M.Boundaries, F=M.ExtForces)

    def obj(kind, x):
        if kind == "E":
            return Element(x[0], list(x[1]), mat_type=x[2], material_properties=list(x[3]), geometric_properties=[x[4]])
        return dict(N=Node, B=BoundaryU, F=ExternalForce)[kind](x[0], r.choice([list, tuple, np.array])(x[1]))

    def flush(kind, batch):
        if not batch:
            return
        many, one = dict(N=("add_nodes", "add_node"), E=("add_elements", "add_element"), B=("add_bounds_U", "add_bound_U"), F=("add_forces", "add_force"))[kind]
        if len(batch) > 1 or r.random() < 0.3:
            getattr(H[kind], many)([obj(kind, x) for x in batch])
            return
        x = batch[0]
        if r.random() < 0.5:
            getattr(H[kind], one)(obj(kind, x))
        elif kind == "E":
            H[kind].add_element(x[0], list(x[1]), mat_type=x[2], material_properties=list(x[3]), geometric_properties=[x[4]])
        else:
            getattr(H[kind], one)(x[0], tuple(x[1]))
    kind, batch = "N", []
    for p in seq:
        if abs(p) > len(ents):
            continue
        k, x = ents[abs(p) - 1]
        if p > 0 and k == kind and (not batch or r.random() < 0.6):
            batch.append(x)
            continue
        flush(kind, batch)
        kind, batch = k, []
        if p > 0:
            batch = [x]
        else:
            dict(N=M.Nodes.del_node, E=M.Elements.del_element, B=M.Boundaries.del_bound_U, F=M.ExtForces.del_force)[k](x[0])
    flush(kind, batch)


def execute(model, settings, seq, r):
    import trusspy
    with observe.quiet(), warnings.catch_warnings(), observe.deadline(60):
        warnings.simplefilter("ignore")
        M = trusspy.Model(log=0)
        if seq is None:
            scenarios.define(M, model)
        else:
            define(M, model, seq, r)
        scenarios.apply_settings(M, settings)
        M.build()
        M.run()
    res = []
    for x in M.Results.R:
        sv = np.zeros((len(x.stretch), 2)) if x.state_v is None else x.state_v
        res.append(dict(step=int(x.step), lpf=vt.fx(x.lpf), U=vt.fxm(x.U), r=vt.fxm(x.r), f=vt.fxm(np.hstack((x.ExtForces.forces_const, x.ExtForces.forces[:, :3]))),
                        el=vt.fxm(np.hstack((x.stretch, x.element_stress, x.element_force, sv)))))
    return dict(nlab=[int(l) for l in M.Nodes.labels], elab=[int(l) for l in M.Elements.labels], res=res,
                dof1=[int(v) for v in M.Analysis.DOF1], dof0=[int(v) for v in M.Analysis.DOF0])


def plain_order(model):
    """the straightforward definition"""
    return dict(model, nodes=sorted(model["nodes"]), elems=sorted(model["elems"]), supports=sorted(model["supports"]), forces=sorted(model["forces"]))


def work(arg):
    tid, model, settings, seq, seed = arg
    r = random.Random("order/%d/%s" % (seed, tid))
    try:
        a = execute(plain_order(model), settings, None, r)
        other, nm, em = relabel(model, r)
        # a support may be stated or left out if the node is free, and a force if it is zero
        labs = [l for l, _ in other["nodes"]]
        other["supports"] = [s for s in other["supports"] if s[1] != [1, 1, 1] or r.random() < 0.5] + \
            [(l, [1, 1, 1]) for l in labs if l not in dict(other["supports"]) and r.random() < 0.3]
        other["forces"] = list(other["forces"]) + [(l, [0.0] * 3 * model["nsteps"]) for l in labs if l not in dict(other["forces"]) and r.random() < 0.3]
        b = execute(other, settings, seq, r)
        return dict(id=tid, a=a, b=b, loose=any(e[2] == 2 for e in model["elems"]), ren=dict(nodes=sorted(nm.items()), elems=sorted(em.items()))), None
    except observe.Runaway as e:
        return None, "runaway: %s" % e
    except Exception as e:
        return None, "exception: %s: %s" % (type(e).__name__, e)


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCOrder", "MCOrder.cfg"), "MCOrder")
    num = 900 if big else 90
    gen = vt.tlc("MCOrder", "GenOrder.cfg", workers=1, args=["-simulate", "num=%d" % num, "-depth", "80", "-seed", str(seed)])
    S = [json.loads(p) for p in sorted(set(gen.printed("ORD")))]
    todo = []
    for q, seq in enumerate(S):
        r = random.Random("order/%d/%d" % (seed, q))
        model = scenarios.random_model(r, labels=r.choice(["odd", "plain"]))
        # on the yield surface rounding decides on the first tangent, hence on the number of iterations, the
        # adaptive step width and the control component: not for plastic models
        over = dict(stepcontrol=False, j_fixed=True, j0=None, nfev=12, du=0.05, dlpf=0.03) if any(e[2] == 2 for e in model["elems"]) else {}
        todo.append(("o%d" % q, model, scenarios.random_settings(r, model, ftol=9, xtol=9, **over), seq, seed))
    traces, info = [], {t[0]: t for t in todo}
    for t, (tr, exc) in zip(todo, vt.parallel(work, todo)):
        if exc:
            chk.violation("exception" if exc.startswith("exc") else "runaway", dict(model=t[1], settings=t[2], order=t[3], what=exc))
        else:
            traces.append(tr)
            chk.count("orders", t[1]["kind"])
    v, _ = vt.check_traces("TraceSame", traces)
    for t in traces:
        j = vt.judge(v[t["id"]])
        if j:
            chk.clause(CLAUSES, j[1], dict(model=info[t["id"]][1], settings=info[t["id"]][2], order=info[t["id"]][3], renaming=t["ren"]))
    chk.traces(len(traces), "models defined in another order with other labels")
    if todo:
        chk.sample(dict(order=todo[0][3], renaming=traces[0]["ren"] if traces else None))
