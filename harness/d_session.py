"""C03, C17, C14, C06: sessions with several models, generated from the specification, on real models."""
import copy
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import warnings

import numpy as np

import observe
import runs
import scenarios
import vt

ANY = {"C03"}
CLAUSES = {"stream": {"C17"}, "output-lost": {"C17"}, "printed": {"C17"}, "logfile": {"C17"}, "other-definition": {"C03", "C01"},
           "definition-build": ANY, "definition-run": ANY, "definition-draw": {"C03", "C15", "C16"}, "definition-create": ANY, "definition-set": ANY, "definition-edit": {"C01"},
           "other-settings": ANY, "settings-build": ANY, "settings-run": ANY, "settings-draw": ANY, "settings-edit": ANY, "settings-create": ANY, "settings-set": ANY,
           "held-results": {"C03", "C14"}, "results": {"C03", "C17"}, "other-results": {"C03", "C14"},
           "announced": {"C06", "C17"}, "summary": {"C17"}, "summary-factor": {"C17"}, "log-dependent": {"C17", "C14"}}
for o in ("create", "edit", "set", "build", "run", "draw", "switch"):
    CLAUSES["results-" + o] = {"C03", "C14"} | ({"C15", "C16"} if o == "draw" else set())
    CLAUSES[o + "-failed"] = {"C03"} | ({"C17"} if o in ("build", "run", "create") else set())
    CLAUSES[o + "-ok"] = {"C03", "C02"}


# ------------------------------------------------------------ definitions
def pool(r):
    """definitions 1..7 and settings 1..3 of a family of sessions"""
    base = scenarios.random_model(r, kind="tripod", plastic=True, nsteps=2)
    base["elems"] = sorted(base["elems"])
    D = {1: base}
    m = copy.deepcopy(base)
    m["forces"] = [(lab, [round(0.6 * v + 0.05, 4) if v else 0.0 for v in f]) for lab, f in m["forces"]]
    D[2] = m
    m = copy.deepcopy(base)  # other parameters, purely elastic
    m["elems"] = [(lab, c, 1, [round(mp[0] * 1.3, 4)], round(A * 0.7, 4)) for lab, c, mt, mp, A in m["elems"]]
    D[3] = m
    m = copy.deepcopy(base)  # one more node and element
    new = max(l for l, _ in m["nodes"]) + 3
    hub = [l for l, v in m["supports"] if v == [1, 1, 1]] or [l for l, _ in m["nodes"] if l not in dict(m["supports"])]
    m["nodes"].append((new, [1.5, 1.4, -0.3]))
    m["supports"].append((new, [0, 0, 0]))
    m["elems"].append((max(e[0] for e in m["elems"]) + 2, [new, hub[0]], 2, [1.1, 0.2, 0.03], 0.8))
    D[4] = m
    m = copy.deepcopy(base)  # a support without a node
    m["supports"] = m["supports"] + [(new + 7, [0, 1, 0])]
    D[5] = m
    m = copy.deepcopy(base)  # a node without any element which is free to move
    m["nodes"].append((new + 1, [3.0, 0.0, 1.0]))
    D[6] = m
    m = copy.deepcopy(base)  # another geometry
    m["nodes"] = [(lab, [round(x * 1.07 + 0.02, 4) for x in X]) for lab, X in m["nodes"]]
    D[7] = m
    St = {1: dict(nsteps=2, incs=3, du=0.0173, dlpf=0.0137), 2: dict(nsteps=1, incs=(4, 2), du=0.0311, dlpf=0.0213, stepcontrol=True, dxtol=1.31, j_pre=False),
          3: dict(nsteps=2, incs=(2, 3), du=0.0091, dlpf=0.0173, stepcontrol=True, dxtol=1.29, xlimit=((1, 0.9), (1, 0.8)), maxfac=3, nfev=7)}
    return D, St


def canonical_plan(model):
    sup, frc = dict(model["supports"]), dict(model["forces"])
    labs = sorted(lab for lab, _ in model["nodes"])
    width = 3 * model["nsteps"]
    return (tuple((lab, tuple(map(float, X))) for lab, X in sorted(model["nodes"])),
            tuple(sorted((lab, tuple(map(int, sup.get(lab, [1, 1, 1])))) for lab in set(labs) | set(sup))),
            tuple(sorted((lab, tuple(map(float, frc.get(lab, [0.0] * width)))) for lab in set(labs) | set(frc))),
            tuple((lab, tuple(c), mt, trim(mp), (float(A),)) for lab, c, mt, mp, A in sorted(model["elems"])))


def trim(mp):
    mp = [float(v) for v in mp]
    while mp and mp[-1] == 0.0:
        mp.pop()
    return tuple(mp)


def canonical_model(M, width):
    """what the handlers report, completed and in the order of labels"""
    N, B, F, E = M.Nodes, M.Boundaries, M.ExtForces, M.Elements
    li = lambda a: [int(v) for v in a] if a is not None else []
    sup = {lab: tuple(int(v) for v in row) for lab, row in zip(li(B.Unodes), np.atleast_2d(B.Uvalues))} if len(li(B.Unodes)) else {}
    frc = {lab: tuple(float(v) for v in row) for lab, row in zip(li(F.nodes), np.atleast_2d(F.forces))} if len(li(F.nodes)) else {}
    nod = {lab: tuple(float(v) for v in row) for lab, row in zip(li(N.labels), np.atleast_2d(N.coords))} if len(li(N.labels)) else {}
    ele = [(lab, tuple(int(v) for v in E.get_nodes(lab)), int(E.get_material_type(lab)), trim(E.get_material_properties(lab)), tuple(float(v) for v in E.get_geometric_properties(lab)))
           for lab in sorted(li(E.labels))]
    return (tuple(sorted(nod.items())), tuple(sorted((l, sup.get(l, (1, 1, 1))) for l in set(nod) | set(sup))),
            tuple(sorted((l, frc.get(l, (0.0,) * width)) for l in set(nod) | set(frc))), tuple(ele))


def morph(M, target, r):
    """edit the definition of a model into another one, as a user would do"""
    width = 3 * target["nsteps"]
    now = canonical_model(M, width)
    cn, cs, cf, ce = [dict((x[0], x[1:]) for x in part) for part in now]
    li = lambda a: [int(v) for v in a] if a is not None else []
    everything = r.random() < 0.25

    def table(have, want, current, add, rem):
        for lab in list(have):
            if everything or lab not in want or current[lab] != want[lab]:
                rem(lab)
                have.remove(lab)
        for lab in want:
            if lab not in have:
                add(lab)
    plan = canonical_plan(target)
    wn = {lab: (X,) for lab, X in plan[0]}
    table(li(M.Nodes.labels), wn, cn, lambda l: M.Nodes.add_node(l, wn[l][0]), M.Nodes.del_node)
    full = {lab: (v,) for lab, v in plan[1]}
    given = dict((lab, (tuple(v),)) for lab, v in target["supports"])
    have = li(M.Boundaries.Unodes)
    ws = {l: v for l, v in full.items() if l in given or l in have and r.random() < 0.5}
    table(have, ws, cs, lambda l: M.Boundaries.add_bound_U(l, ws[l][0]), M.Boundaries.del_bound_U)
    full = {lab: (v,) for lab, v in plan[2]}
    given = dict(target["forces"])
    have = li(M.ExtForces.nodes)
    wf = {l: v for l, v in full.items() if l in given or l in have and r.random() < 0.5}
    table(have, wf, cf, lambda l: M.ExtForces.add_force(l, wf[l][0]), M.ExtForces.del_force)
    # elements keep the order of the plan
    we = {x[0]: x[1:] for x in plan[3]}
    conns = {l: v[0] for l, v in ce.items()}
    same = all(conns.get(l) == v[0] for l, v in we.items()) and set(conns) == set(we)
    if same and not everything:
        for lab, (c, mt, mp, gp) in we.items():
            if ce[lab][1] != mt or ce[lab][2] != mp:
                mp3 = list(mp) + [0.0] * (3 - len(mp))
                M.Elements.assign_material([lab], mp3, mt)
            if ce[lab][3] != gp:
                M.Elements.assign_geometry([lab], list(gp))
        return
    keep = []
    for lab in li(M.Elements.labels):
        ok = not everything and lab in we and ce[lab] == we[lab]
        if ok:
            keep.append(lab)
    order = list(we)
    if keep != order[:len(keep)]:
        keep = []
    for lab in li(M.Elements.labels):
        if lab not in keep:
            M.Elements.del_element(lab)
    for lab in order[len(keep):]:
        c, mt, mp, gp = we[lab]
        M.Elements.add_element(lab, c, mat_type=mt, material_properties=list(mp), geometric_properties=list(gp))


SETTINGS = ["incs", "stepcontrol", "maxfac", "minfac", "increase", "reduce", "dxtol", "ftol", "xtol", "cycl", "nfev", "dlpf", "du", "xlimit", "j0", "j_pre", "j_fixed", "nsteps", "ndim", "log"]


def read_settings(M):
    return {k: getattr(M.Settings, k, None) for k in SETTINGS}


DEFAULTS = dict(incs=50, stepcontrol=False, maxfac=10, minfac=1e-6, increase=0.5, reduce=8, dxtol=1.000001, ftol=8, xtol=8, cycl=4, nfev=8, dlpf=0.02, du=0.02,
                xlimit=(0, np.inf), j0=None, j_pre=True, j_fixed=False, nsteps=1, ndim=3)


def plain(text):
    """printed text without times, rounding noise and markers of code blocks"""
    text = "\n".join(l.rstrip() for l in text.splitlines() if l.strip() and l.strip() != "```")
    text = re.sub(r"[-+]?\d+\.\d+ seconds", "# seconds", text)
    return re.sub(r"[-+]?\d+(\.\d+)?e[-+]\d+", "#", text)


def records(M):
    out = []
    for x in M.Results.R:
        sv = np.zeros((len(x.stretch), 2)) if x.state_v is None else np.asarray(x.state_v)
        v = np.concatenate([np.ravel(np.asarray(a, dtype=float)) for a in (
            [x.lpf], x.U, x.U0, x.r, x.stretch, x.element_stress, x.element_force, sv, x.ExtForces.forces_const, x.Ured, x.rred)])
        out.append((int(x.step), v))
    return out, np.asarray(M.Results.step_lpf_end, dtype=float)


def freeze(M):
    rec, ends = records(M)
    return [(s, v.tobytes()) for s, v in rec], ends.tobytes()


def fx_records(M):
    rec, ends = records(M)
    res = [dict(step=s, v=vt.fxv(v)) for s, v in rec]
    res.append(dict(step=0, v=vt.fxv(ends)))
    return res


# --------------------------------------------------------------- fresh models
def reference(arg):
    """texts and results of a fresh model: (d, s, level) -> ..."""
    import trusspy
    d, model, settings, level = arg
    out = dict(how="ok", texts={}, res=[])
    buf = io.StringIO()
    old = sys.stdout
    sys.stdout = buf
    try:
        with warnings.catch_warnings(), observe.deadline(60):
            warnings.simplefilter("ignore")
            def cut(name):
                out["texts"][name] = plain(buf.getvalue())
                buf.seek(0)
                buf.truncate()
            M = trusspy.Model(log=level)
            cut("create")
            scenarios.define(M, model)
            scenarios.apply_settings(M, settings)
            cut("define")
            try:
                M.build()
            except Exception:
                out["how"] = "refused"
            cut("build")
            if out["how"] == "ok":
                try:
                    M.run()
                    out["res"] = fx_records(M)
                except Exception as e:
                    out["how"], out["why"] = "raises", repr(e)
                cut("run")
    except observe.Runaway as e:
        out["how"] = "runaway: %s" % e
    finally:
        sys.stdout = old
    return out


# ------------------------------------------------------------------ sessions
def session(arg):
    tid, ops, fam, seed = arg
    try:
        return replay(tid, ops, fam, random.Random("session/%s/%s" % (seed, tid))), None
    except observe.Runaway as e:
        return None, "runaway: %s" % e
    except Exception as e:
        return None, "exception: %s: %s" % (type(e).__name__, e)


def replay(tid, ops, fam, r):
    import trusspy
    import matplotlib.pyplot as plt
    D, St, canon, deset = fam
    scratch = tempfile.mkdtemp(dir=vt.OUT)
    streams = {1: io.StringIO(), 2: io.StringIO()}
    n = 2
    MM, path, held = {}, {}, []
    seen_out, seen_fil = {1: "", 2: ""}, {m: "" for m in range(1, n + 1)}
    res_of = {m: [] for m in range(1, n + 1)}
    has_res = {m: False for m in range(1, n + 1)}
    ev = []
    old, here = sys.stdout, os.getcwd()
    try:
        os.chdir(scratch)
        sys.stdout = streams[1]
        with observe.deadline(120), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for o in ops:
                m, how, what = o["m"], "ok", ""
                M = MM.get(m)
                try:
                    if o["k"] == "create":
                        path[m] = os.path.join(scratch, "log%d" % m) if r.random() < 0.5 else "log%d" % m
                        MM[m] = trusspy.Model(log=o["l"], logfile=True, logfile_name=path[m]) if o["f"] else trusspy.Model(log=o["l"])
                    elif o["k"] == "edit":
                        morph(M, D[o["d"]], r)
                    elif o["k"] == "set":
                        for k, v in DEFAULTS.items():
                            setattr(M.Settings, k, v)
                        scenarios.apply_settings(M, copy.deepcopy(St[o["s"]]))
                    elif o["k"] == "build":
                        has_res[m] = False
                        M.build()
                    elif o["k"] == "run":
                        M.run()
                        has_res[m] = True
                        held.append((M, M.Results, list(M.Results.R), freeze(M)))
                    elif o["k"] == "draw":
                        lab = int(M.Nodes.labels[r.randrange(len(M.Nodes.labels))])
                        if o["v"] == 1:
                            M.plot_model(view=r.choice(["xz", "xy", "yz", "3d"]), contour=r.choice([None, "force", "stress", "stretch"]), inc=r.choice([-1, 0, 1][:1 + len(M.Results.R)]))
                        elif o["v"] == 2:
                            M.plot_history(nodes=[lab, lab], X="Displacement Z", Y=r.choice(["LPF", "Force X"]))
                        else:
                            M.plot_path(nodepath=[lab], Y="Displacement Y")
                        plt.close("all")
                    elif o["k"] == "switch":
                        sys.stdout = streams[o["q"]]
                except observe.Runaway:
                    raise
                except Exception as e:
                    how, what = "failed", "%s: %s" % (type(e).__name__, e)
                    plt.close("all")
                cur = next((q for q in streams if sys.stdout is streams[q]), 0)
                kept, dout, dfil = True, [], []
                for q in (1, 2):
                    t = streams[q].getvalue()
                    kept = kept and t.startswith(seen_out[q])
                    dout.append(plain(t[len(seen_out[q]):]))
                    seen_out[q] = t
                for q in range(1, n + 1):
                    t = ""
                    if q in path and os.path.exists(path[q] + ".md"):
                        with open(path[q] + ".md") as f:
                            t = f.read()
                    kept = kept and t.startswith(seen_fil[q])
                    dfil.append(plain(t[len(seen_fil[q]):]))
                    seen_fil[q] = t
                fdef, fset, fres = [], [], []
                for q in range(1, n + 1):
                    X = MM.get(q)
                    if X is None:
                        fdef.append(0)
                        fset.append(0)
                        fres.append([])
                        continue
                    c = canonical_model(X, 6)
                    fdef.append(next((d for d in canon if canon[d] == c), 0))
                    c = read_settings(X)
                    lv = c.pop("log")
                    fset.append(next((s for s in deset if deset[s] == c), 0))
                    fres.append(fx_records(X) if has_res[q] else [])
                ok = all(len(A.R) == len(L) and all(a is b for a, b in zip(A.R, L)) for _, A, L, _ in held)
                ok = ok and all(frozen(A) == f for _, A, _, f in held)
                ev.append(dict(o=o, how=how, what=what, obs=dict(cur=cur, kept=kept, out=dout, fil=dfil, held=ok, res=fres, **{"def": fdef, "set": fset})))
    finally:
        sys.stdout = old
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(id=tid, n=n, ev=ev)


class _View:
    "only the results of a model"


def frozen(A):
    v = _View()
    v.Results = A
    return freeze(v)


# ----------------------------------------------------------- the log of a run
LINES = [(r"## Step\s+(\d+)", "step"), (r"### Increment\s+(\d+)", "inc"), (r"\* final LPF:\s*(\S+)", "final"), (r"\* \*\*ERROR (\d)\*\*", "error"), (r"\* EXIT (\d)", "exit"),
         (r"write result\s+(\d+)/\s*(\d+) \(LPF:\s*(\S+)\)", "write"), (r"End of Step\s+(\d+)", "end")]


def summary(text):
    out = []
    for line in text.splitlines():
        for pat, w in LINES:
            m = re.match(r"\s*" + pat, line)
            if m:
                n = int(m.group(1)) if w in ("step", "inc", "write", "end") else 0
                v = m.group(1) if w == "final" else m.group(3) if w == "write" else None
                out.append(dict(w=w, n=n, v=vt.fx(v) if v is not None else []))
                break
    return out


def logged(arg):
    tid, model, settings, level = arg
    M, txt, exc = runs.execute(model, settings, log=level)
    if exc:
        return None, exc
    Q, _, exc = runs.execute(model, settings, log=(level + 2) % 4)
    if exc:
        return None, exc
    S = dict(runs.DEFAULTS)
    S.update(settings)
    try:
        cases = []
        for s in range(model["nsteps"]):
            mine = [x for x in M.Results.R[1:] if x.step == s + 1]
            xl = runs.per_step(S["xlimit"], s, nested=True)
            over = False
            if mine and xl[1] != np.inf:
                v = np.append(runs.flat_red(model, mine[-1].U), mine[-1].lpf)
                over = bool(abs(v[xl[0] - 1]) > xl[1])
            cases.append(dict(incs=runs.per_step(S["incs"], s), over=over, lpf=[vt.fx(x.lpf) for x in mine]))
        return dict(id=tid, level=level, cases=cases, log=summary(txt), res=fx_records(M), quiet=fx_records(Q)), None
    except Exception as e:
        return None, "exception: %s: %s" % (type(e).__name__, e)


def drive_logs(chk, tier, seed):
    todo = []
    for q in range(600 if tier == "thorough" else 60):
        r = random.Random("logs/%d/%d" % (seed, q))
        model = scenarios.random_model(r)
        settings = scenarios.random_settings(r, model)
        if q % 3 == 0:  # reductions followed by many increments
            settings.update(stepcontrol=True, nfev=r.choice([3, 4]), du=r.choice([0.3, 0.5]), dlpf=r.choice([0.3, 0.5]), incs=12, minfac=1e-6, dxtol=1.3, cycl=r.choice([4, 5]), j_fixed=False, xlimit=(0, np.inf))
        todo.append(("l%d" % q, model, settings, q % 4))
    traces, info = [], {t[0]: t for t in todo}
    for t, (tr, exc) in zip(todo, vt.parallel(logged, todo)):
        if exc:
            chk.violation("exception", dict(model=t[1], settings=t[2], log=t[3], what=exc))
        else:
            traces.append(tr)
    v, _ = vt.check_traces("TraceLog", traces)
    for t in traces:
        j = vt.judge(v[t["id"]])
        if j and j[1] != "ok":
            chk.clause(CLAUSES, j[1], dict(model=info[t["id"]][1], settings=info[t["id"]][2], level=t["level"]))
        chk.count("logs_with", "level %d" % t["level"])
    chk.traces(len(traces), "log summaries of real runs")


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCSession", "MCSession.cfg" if big else "MCSessionS.cfg"), "MCSession")
    gen = vt.tlc("MCSession", "GenSession.cfg", workers=1, args=["-simulate", "num=%d" % (600 if big else 64), "-depth", "80", "-seed", str(seed)])
    S = [json.loads(p) for p in sorted(set(gen.printed("SES")))]
    fams = 4 if big else 1
    for f in range(fams):
        family(chk, S[f::fams], seed * 10 + f)
    drive_logs(chk, tier, seed)


def family(chk, S, seed):
    D, St = pool(random.Random("pool/%d" % seed))
    canon = {d: canonical_plan(m) for d, m in D.items()}
    deset = {s: dict(DEFAULTS, **v) for s, v in St.items()}
    jobs = [(d, s, l) for d in D for s in St for l in (0, 1, 2, 3)]
    refs = dict(zip(jobs, vt.parallel(reference, [(d, dict(D[d], nsteps=2), St[s], l) for d, s, l in jobs])))
    texts = {"": 0}
    number = lambda t: texts.setdefault(t, len(texts))
    chunks, seen = [], set()
    for (d, s, l), x in refs.items():
        want = "refused" if d == 5 else "raises" if d == 6 else "ok"
        if x["how"] != want:
            chk.violation("fresh-model", dict(definition=D[d], settings=St[s], level=l, expected=want, got=x["how"], why=x.get("why")))
            return
        for w, t in x["texts"].items():
            if w == "define":
                continue
            key = ("create", 0, 0, l) if w == "create" else (w, d, s, l)
            if key not in seen:
                seen.add(key)
                chunks.append(dict(w=key[0], d=key[1], s=key[2], l=key[3], t=number(t)))
    todo = [("s%d" % q, ops, (D, St, canon, deset), seed) for q, ops in enumerate(S)]
    traces, table, keys = [], [], {}
    for (tid, ops, _, _), (t, exc) in zip(todo, vt.parallel(session, todo)):
        if exc:
            chk.violation("exception", dict(session=ops, what=exc))
            continue
        for e in t["ev"]:
            o = e["obs"]
            o["out"] = [number(x) for x in o["out"]]
            o["fil"] = [number(x) for x in o["fil"]]
            nums = []
            for x in o["res"]:
                if not x:
                    nums.append(0)
                    continue
                key = json.dumps(x)
                if key not in keys:
                    table.append(x)
                    keys[key] = len(table)
                nums.append(keys[key])
            o["res"] = nums
            chk.count("session_operations", e["o"]["k"] + ("" if e["how"] == "ok" else " (fails)"))
        traces.append(t)
    # the other log levels of fresh models: the same results, too
    for (d, s, l), x in refs.items():
        if l and x["res"]:
            key = json.dumps(x["res"])
            if key not in keys:
                table.append(x["res"])
                keys[key] = len(table)
            ops = [dict(k="create", m=1, l=l, f=False), dict(k="edit", m=1, d=d), dict(k="set", m=1, s=s), dict(k="build", m=1), dict(k="run", m=1)]
            t = dict(id="f%d.%d.%d" % (d, s, l), n=1, ev=[])
            for q, o in enumerate(ops):
                w = o["k"]
                t["ev"].append(dict(o=o, how="ok", what="", obs=dict(cur=1, kept=True, held=True, fil=[0], out=[number(x["texts"].get(w, "")), 0],
                                                                     res=[keys[key] if w == "run" else 0], **{"def": [d], "set": [s]})))
            traces.append(t)
    extra = dict(ref=[[refs[(d, s, 0)]["res"] for s in sorted(St)] for d in sorted(D)], chunks=chunks, res=table)
    v, _ = vt.check_traces("TraceSession", traces, extra=extra)
    inv = {n: t for t, n in texts.items()}
    for t in traces:
        j = vt.judge(v[t["id"]])
        if j and j[1] != "ok":
            e = t["ev"][j[0] - 1]
            chk.clause(CLAUSES, j[1], dict(session=[x["o"] for x in t["ev"][:j[0]]], observed=e["obs"], how=e["how"], what=e["what"],
                                           texts=[inv[x][:1500] for x in e["obs"]["out"] + e["obs"]["fil"]], definitions=D, settings=St))
    chk.traces(len(traces), "sessions with several real models")
    chk.count("results_compared", "distinct results", len(table))
    if S:
        chk.sample(dict(session=S[0][:12]))
