"""C15, C16: history and path curves, model drawings and movies of real results."""
import hashlib
import json
import os
import random
import re
import shutil
import tempfile
import warnings

import numpy as np

import d_session
import observe
import runs
import scenarios
import vt

H, M_ = {"C15"}, {"C16"}
CLAUSES = {}
for c in ("x", "y", "axis-names"):
    CLAUSES["history-" + c] = H
    CLAUSES["path-" + c] = H
for o in ("hist", "path", "model", "part"):
    for c in ("failed", "changes-results", "axes", "other-axes", "curve-lost", "curve-count", "returned"):
        CLAUSES[o + "-" + c] = H if o in ("hist", "path") else M_ | (H if c in ("other-axes", "curve-lost") else set())
for c in ("nodes", "elements", "arrows", "no-colour-bar", "colour-limits", "colour", "colour-bar", "title", "view-axis-names", "limits",
          "part-nodes", "part-elements", "part-arrows", "movie-failed", "movie-changes-results", "frame-files", "frame-content", "movie-frames", "movie-order"):
    CLAUSES[c] = M_
XYZ = "XYZ"
SCALES = {1: 1.0, 2: 0.5, 3: 0.13, 4: 2.0}


def name(q):
    return {"U": "Displacement " + XYZ[q["c"] - 1], "F": "Force " + XYZ[q["c"] - 1], "L": "LPF", "I": "Increments", "S": "State Variable %d" % q["c"]}[q["k"]]


# --------------------------------------------------------------- resolving
def resolve(o, model, M, r, count, plastic):
    """details of a generated operation for this model"""
    labels = [int(v) for v in M.Nodes.labels]
    els = [int(v) for v in M.Elements.labels]
    o = dict(o)
    if o["k"] in ("hist", "path"):
        qs = [o["x"], o["y"]] if o["k"] == "hist" else [o["q"]]
        if not plastic and any(q["k"] == "S" for q in qs):
            qs = [dict(k="U", c=q["c"]) if q["k"] == "S" else q for q in qs]
            if o["k"] == "hist":
                o["x"], o["y"] = qs
            else:
                o["q"] = qs[0]
    if o["k"] == "hist":
        o["lab"] = []
        for p, q in (("a", o["x"]), ("b", o["y"])):
            pool = els if q["k"] == "S" else labels
            lab = pool[o[p] % len(pool)]
            o["lab"].append(lab)
            o[p] = pool.index(lab) + 1
    elif o["k"] == "path":
        pool = els if o["q"]["k"] == "S" else labels
        if o["w"] == "range":
            start = sorted(pool)[o["n"] % len(pool)]
            end = start
            while end + 1 in pool:
                end += 1
            lab = list(range(start, end + 1))
        else:
            lab = r.sample(pool, min(len(pool), o["n"]))
            if r.random() < 0.3:  # neighbours in ascending order
                at = r.randrange(len(pool))
                lab = sorted(pool)[at:at + o["n"]]
            if o["w"] == "reverse":
                lab.sort(reverse=True)
        o["lab"], o["pos"] = lab, [pool.index(v) + 1 for v in lab]
    if "i" in o:
        i = o["i"]
        o["i"] = -1 - ((-i - 1) % count) if i < 0 else i % count
    return o


def limits(o, R, r):
    vals = {"stretch": R.stretch, "force": R.element_force, "stress": R.element_stress}[o["c"]][:, 0]
    a, b = float(np.min(vals)), float(np.max(vals))
    w = max(b - a, 0.02)
    lo = round(a + r.choice([-0.3, 0.15, 0.4]) * w, 4)
    return [lo, round(max(b + r.choice([-0.25, 0.2, 0.6]) * w, lo + 0.01), 4)]


# --------------------------------------------------------------- observing
def rgba(c):
    import matplotlib.colors as mc
    return np.array(mc.to_rgba(c))


def bar_of(fig, ax):
    for a in fig.axes:
        cb = getattr(a, "_colorbar", None)
        if cb is not None:
            return cb.mappable
    return None


def indices(cmap, colour):
    """colours of the colour bar which equal the given one: -1 below, N above"""
    n = cmap.N
    table = [(i, cmap(int(i))) for i in range(n)] + [(-1, cmap(-1e9)), (n, cmap(1e9))]
    return [int(i) for i, c in table if np.allclose(c, colour, atol=1e-5)]


def drawing(fig, ax):
    """what a model drawing consists of"""
    import matplotlib.lines as ml
    import matplotlib.patches as mp
    import matplotlib.collections as mcl
    import matplotlib.quiver as mq
    three = hasattr(ax, "get_zlim")
    bar = bar_of(fig, ax)
    nodes, segs, arrows, single = [], [], [], []
    for line in ax.lines:
        if not line.get_visible() or line.get_alpha() == 0:
            continue
        xyz = np.array([np.atleast_1d(np.asarray(v, dtype=float)) for v in (line.get_data_3d() if three else line.get_data())]).T
        if line.get_linestyle() in ("None", "", " ", None):
            if line.get_marker() not in (None, "None", "", " "):
                (single if three and len(xyz) == 1 and not xyz.any() else nodes).extend(xyz.tolist())
            continue
        for a, b in zip(xyz[:-1], xyz[1:]):
            segs.append(dict(p=vt.fxv(a), q=vt.fxv(b), z=int(10 * line.get_zorder()), c=indices(bar.cmap, rgba(line.get_color())) if bar is not None else []))
        if len(xyz) == 1:
            nodes.extend(xyz.tolist())
    if three and single:
        # one dot marks the origin of the coordinate system, if there is one
        triad = [a for a in ax.patches + ax.artists if hasattr(a, "_verts3d") and rgba(a.get_edgecolor())[:3].max() < 0.01]
        nodes.extend(single[len(triad) // 3:])
    for c in ax.collections:
        if isinstance(c, mcl.PathCollection) and not three and c.get_visible():
            nodes.extend(np.asarray(c.get_offsets(), dtype=float).tolist())
        elif three and isinstance(c, mcl.PathCollection) and hasattr(c, "_offsets3d") and c.get_visible():
            nodes.extend(np.array([np.asarray(v, dtype=float) for v in c._offsets3d]).T.tolist())
        elif isinstance(c, mcl.LineCollection) and c.get_visible() and c.get_alpha() != 0:
            c.update_scalarmappable()
            colours = [rgba(v) for v in c.get_edgecolor()]
            parts = c._segments3d if hasattr(c, "_segments3d") else c.get_segments()
            for k, g in enumerate(parts):
                col = indices(bar.cmap, colours[k % len(colours)]) if bar is not None and colours else []
                for u, v in zip(g[:-1], g[1:]):
                    segs.append(dict(p=vt.fxv(u), q=vt.fxv(v), z=int(10 * c.get_zorder()), c=col))
        elif isinstance(c, mq.Quiver) and not three and c.get_visible():
            k = c.scale if c.scale is not None else 1.0
            for p, u, v in zip(np.asarray(c.XY, dtype=float), np.ravel(c.U), np.ravel(c.V)):
                arrows.append((p, np.array([u / k, v / k])))
    for a in list(ax.patches) + list(ax.artists):
        if three and hasattr(a, "_verts3d"):
            P = np.array([np.asarray(v, dtype=float) for v in a._verts3d]).T
            if rgba(a.get_edgecolor())[:3].max() < 0.01 and not P[0].any():
                continue  # coordinate system
            arrows.append((P[0], P[1] - P[0]))
        elif isinstance(a, mp.FancyArrow):
            arrows.append((np.array([a._x, a._y]), np.array([a._dx, a._dy])))
        elif isinstance(a, mp.FancyArrowPatch) and not three:
            (p, q) = a._posA_posB
            arrows.append((np.array(p, dtype=float), np.array(q, dtype=float) - np.array(p, dtype=float)))
    lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else [])
    title = [int(v) for v in re.findall(r"\d+", ax.get_title())]
    cb = dict(on=bar is not None, lo=vt.fx(bar.norm.vmin) if bar is not None else [], hi=vt.fx(bar.norm.vmax) if bar is not None else [], n=int(bar.cmap.N) if bar is not None else 1)
    return dict(nodes=[vt.fxv(p) for p in nodes], segs=segs, arrows=[dict(p=vt.fxv(p), d=vt.fxv(d)) for p, d in arrows],
                cb=cb, lim=[vt.fxv(v) for v in lim], title=title)


NOTHING = dict(nodes=[], segs=[], arrows=[], cb=dict(on=False, lo=[], hi=[], n=1), lim=[], title=[])


class Curves:
    def __init__(self):
        self.table, self.keys = [], {}

    def number(self, line):
        x, y = (np.asarray(v, dtype=float) for v in line.get_data())
        key = (x.tobytes(), y.tobytes())
        if key not in self.keys:
            self.table.append(dict(x=vt.fxv(x), y=vt.fxv(y)))
            self.keys[key] = len(self.table)
        return self.keys[key]


def fingerprint(fig, ax):
    d = json.dumps(drawing(fig, ax))
    return -1 - int(hashlib.sha1(d.encode()).hexdigest()[:6], 16)


def ticks(ax):
    out = []
    for t in ax.get_xticklabels():
        try:
            out.append(int(t.get_text()))
        except ValueError:
            return []
    return out


# ---------------------------------------------------------------- sessions
def session(arg):
    tid, ops, model, settings, seed = arg
    import matplotlib.pyplot as plt
    import trusspy
    r = random.Random("figures/%s/%s" % (seed, tid))
    M, txt, exc = runs.execute(model, settings, cls=trusspy.Model)
    if exc:
        return None, exc
    try:
        with observe.deadline(200), observe.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return play(tid, ops, model, M, r), None
    except observe.Runaway as e:
        return None, "runaway: %s" % e
    except Exception as e:
        return None, "exception: %s: %s" % (type(e).__name__, e)
    finally:
        plt.close("all")


def defaults(r, kw, **default):
    """leave out some of the arguments that have their default values"""
    return {k: v for k, v in kw.items() if not (k in default and (list(v) if isinstance(v, (tuple, range)) else v) == default[k] and r.random() < 0.5)}


def play(tid, ops, model, M, r):
    import matplotlib.pyplot as plt
    R = M.Results.R
    plastic = R[-1].state_v is not None
    curves, known, kinds, out = Curves(), [], [], []
    if r.random() < 0.5:  # the analysis object is at another state than the last increment
        u = np.array(M.Analysis.Ured, dtype=float)
        M.equilibrium(u + 0.07 * (1 + np.arange(u.size)).reshape(u.shape) / u.size, u)
    before = d_session.freeze(M)
    for o in ops:
        o = resolve(o, model, M, r, len(R), plastic)
        rec = dict(o)
        how, what, fig, ax, draw = "ok", "", None, None, NOTHING
        try:
            into = {}
            if o.get("t"):
                into = dict(fig=known[o["t"] - 1][0], ax=known[o["t"] - 1][1])
            if o["k"] == "hist":
                kw = dict(nodes=r.choice([list, tuple])(o["lab"]), X=name(o["x"]), Y=name(o["y"]))
                fig, ax = M.plot_history(**defaults(r, kw, nodes=[1, 1], X="Displacement X", Y="LPF"), **into)
            elif o["k"] == "path":
                path = range(o["lab"][0], o["lab"][-1] + 1) if o["w"] == "range" else list(o["lab"])
                kw = dict(nodepath=path, increment=o["i"], Y=name(o["q"]))
                fig, ax = M.plot_path(**defaults(r, kw, nodepath=[1], increment=-1, Y="Displacement X"), **into)
            elif o["k"] == "model":
                kw, lk, lv = {}, "", []
                l = o["l"]
                dim = 3 if o["v"] == "3d" else 2
                if l in (1, 2):
                    kw["lim_scale"], lk = {1: 1.2, 2: 1.0}[l], "scale"
                elif l == 3:
                    kw["lim_scale"], lk, lv = -2.5, "half", [2.5]
                elif l == 4:
                    kw["lim_scale"], lk, lv = (-2.0, 3.0), "two", [-2.0, 3.0]
                elif l == 5:
                    lv = [-2.0, 2.5, -1.5, 3.0, -1.25, 2.75][:2 * dim]
                    kw["lim_scale"], lk = tuple(lv), "all"
                else:
                    kw["lim_scale"], lk = 100, "free"
                if r.random() < 0.2 and lk == "scale":
                    del kw["lim_scale"]
                rec.update(lk=lk, lv=vt.fxv(lv))
                fs = SCALES[o["f"]]
                if fs != 1.0 or r.random() < 0.5:
                    kw["force_scale"] = fs
                rec["fs"], rec["lims"] = vt.fx(fs), []
                if o["c"]:
                    lim = limits(o, R[o["i"]], r)
                    if o["m"] == "tuple":
                        kw["contour"] = (o["c"], lim)
                    else:
                        kw["contour"] = o["c"]
                        if o["m"] == "limits":
                            kw["cbar_limits"] = r.choice([list, tuple])(lim)
                    rec["lims"] = vt.fxv(lim)
                if r.random() < 0.3:
                    kw["nodesize"] = r.choice([5, 20])
                if o["i"] != -1 or r.random() < 0.5:
                    kw["inc"] = o["i"]
                kw["view"] = o["v"]
                fig, ax = M.plot_model(**defaults(r, kw, view="xz", nodesize=10))
                draw = drawing(fig, ax)
            else:
                fig = plt.figure()
                cfg = "deformed" if o["d"] else "undeformed"
                f = {"nodes": M.plt_nodes, "elements": M.plt_elements, "extforces": M.plt_extforces}[o["p"]]
                f(cfg) if r.random() < 0.7 or o["d"] else f()
                rec["fs"] = vt.fx(0.5)
                ax = fig.gca()
                draw = drawing(fig, ax)
        except observe.Runaway:
            raise
        except Exception as e:
            how, what = "failed", "%s: %s" % (type(e).__name__, e)
        ret = next((i + 1 for i, (_, a) in enumerate(known) if a is ax), 0)
        if ax is not None and not ret:
            known.append((fig, ax))
            kinds.append(o["k"])
            ret = len(known)
        axes = []
        for (f, a), kd in zip(known, kinds):
            axes.append([curves.number(line) for line in a.get_lines()] if kd in ("hist", "path") else [fingerprint(f, a)])
        kept = d_session.freeze(M) == before
        obs = dict(axes=axes, ret=ret, xl=ax.get_xlabel() if ax is not None else "", yl=ax.get_ylabel() if ax is not None else "",
                   xt=ticks(ax) if o["k"] == "path" and ax is not None else [], kept=kept, draw=draw)
        out.append(dict(o=rec, how=how, what=what, obs=obs))
    res = []
    for x in R:
        res.append(dict(step=int(x.step), lpf=vt.fx(x.lpf), U=vt.fxm(x.U), r=vt.fxm(x.r), lam=vt.fxv(x.stretch[:, 0]), s=vt.fxv(x.element_stress[:, 0]),
                        N=vt.fxv(x.element_force[:, 0]), sv=vt.fxm(x.state_v) if plastic else [], fc=vt.fxm(x.ExtForces.forces_const)))
    # the definition as it was given (the order of elements is that of definition)
    d = runs.definition(model)
    conns = {lab: c for lab, c, _, _, _ in model["elems"]}
    pos = {lab: i + 1 for i, (lab, _) in enumerate(sorted(model["nodes"]))}
    return dict(id=tid, res=res, X=d["X"], F=d["F"], conns=[[pos[n] for n in conns[int(e)]] for e in M.Elements.labels], curves=curves.table, ops=out)


# ------------------------------------------------------------------ movies
def image_of(M, args, inc, size):
    import matplotlib.pyplot as plt
    import imageio
    plt.close("all")
    M.plot_model(inc=inc, **args)
    fd, path = tempfile.mkstemp(suffix=".png", dir=".")
    os.close(fd)
    plt.savefig(path, dpi=size / plt.gcf().get_size_inches()[0])
    plt.close("all")
    a = np.asarray(imageio.imread(path))[..., :3]
    os.unlink(path)
    return a


def differ(a, b):
    if a.shape != b.shape:
        return 10**7
    return int((np.abs(a.astype(int) - b.astype(int)).max(axis=-1) > 60).sum())


def movie(arg):
    tid, model, settings, plans, seed = arg
    import matplotlib.pyplot as plt
    import trusspy
    M, txt, exc = runs.execute(model, settings, cls=trusspy.Model, seconds=120)
    if exc:
        return [], exc
    here = os.getcwd()
    scratch = tempfile.mkdtemp(dir=vt.OUT)
    out = []
    try:
        os.chdir(scratch)
        with observe.deadline(400), observe.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for q, (incs, args) in enumerate(plans):
                m = one_movie("%s.%d" % (tid, q), M, incs, args)
                if m is not None:
                    out.append(m)
    except observe.Runaway as e:
        return out, "runaway: %s" % e
    except Exception as e:
        return out, "exception: %s: %s" % (type(e).__name__, e)
    finally:
        plt.close("all")
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    return out, None


def one_movie(tid, M, incs, args):
    import imageio
    from PIL import Image, ImageSequence
    n = len(M.Results.R)
    if incs == "all":
        want = list(range(1, n))
    else:
        want = [i for i in incs if i < n] or [n - 1]
        incs = type(incs)(want)
    if not want:  # nothing to show
        return None
    before = d_session.freeze(M)
    how, what = "ok", ""
    frames, movie_frames, refs = [], [], []
    try:
        kw = dict(args)
        if kw.get("lim_scale") == 1.2 and kw.get("force_scale") == 0.5:
            del kw["lim_scale"], kw["force_scale"]
        if incs != "all":
            kw["incs"] = incs
        M.plot_movie(**kw)
        kept = d_session.freeze(M) == before
        d = "figures/png/"
        names = sorted((f for f in os.listdir(d) if f.endswith(".png")), key=lambda f: int((re.findall(r"\d+", f) or ["0"])[-1]))
        frames = [np.asarray(imageio.imread(d + f))[..., :3] for f in names]
        size = frames[0].shape[1] if frames else 1600
        refs = [image_of(M, args, i, size) for i in want]
        g = [os.path.join(p, f) for p, _, fs in os.walk("figures") for f in fs if f.endswith(".gif")]
        if len(g) == 1:
            with Image.open(g[0]) as im:
                movie_frames = [np.asarray(f.convert("RGB")) for f in ImageSequence.Iterator(im)]
    except observe.Runaway:
        raise
    except Exception as e:
        how, what, kept = "failed", "%s: %s" % (type(e).__name__, e), True
    return dict(id=tid, how=how, what=what, kept=kept, want=want, png=[[w for w, b in zip(want, refs) if np.array_equal(a, b)] for a in frames],
                gif=[[differ(a, b) for b in refs] for a in movie_frames], same=[[w for w, b in zip(want, refs) if differ(a, b) < 15] for a in refs],
                args={k: str(v) for k, v in args.items()})


def movies(seed, big):
    todo = []
    for q in range(24 if big else 4):
        r = random.Random("movies/%d/%d" % (seed, q))
        model = scenarios.random_model(r, nsteps=r.choice([1, 2]))
        settings = scenarios.random_settings(r, model, incs=4 if model["nsteps"] == 1 else (2, 2), nfev=8, du=0.04, dlpf=0.04, xlimit=(0, np.inf))
        plans = []
        for p in range(2):
            view = ["xz", "xy", "yz", "3d"][(q + p) % 4]
            args = dict(view=view, contour=r.choice([None, "stretch", "force", ("stress", [-0.5, 0.7])]), lim_scale=1.2, force_scale=0.5)
            if r.random() < 0.6:
                args.update(lim_scale=r.choice([1.5, -3.0]), force_scale=r.choice([0.3, 1.0]), nodesize=r.choice([5, 12]))
                if args["contour"] in ("stretch", "force"):
                    args["cbar_limits"] = [-0.2, 1.4]
            # the second movie has fewer frames: nothing of the first one may stay
            plans.append(("all" if p == 0 else r.choice([[0, 2], (1, 3), [3]]), args))
        todo.append(("mv%d" % q, model, settings, plans, seed))
    # many increments: the order of frames
    bar = dict(kind="bar", nodes=[(1, [0.0, 0.0, 0.0]), (2, [1.0, 0.0, 0.0])], elems=[(1, [1, 2], 1, [1.0], 1.0)], supports=[(1, [0, 0, 0]), (2, [1, 0, 0])],
               forces=[(2, [1.0, 0.0, 0.0])], nsteps=1)
    todo.append(("mvlong", bar, dict(incs=1003, du=0.01, dlpf=0.01, nfev=8), [([99, 100, 998, 1000, 1001], dict(view="xz", lim_scale=1.2, force_scale=0.5))], seed))
    return todo


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCFigure", "MCFigure.cfg"), "MCFigure")
    gen = vt.tlc("MCFigure", "GenFigure.cfg", workers=1, args=["-simulate", "num=%d" % (500 if big else 48), "-depth", "30", "-seed", str(seed)])
    S = [json.loads(p) for p in sorted(set(gen.printed("FIG")))]
    todo = []
    for q, ops in enumerate(S):
        r = random.Random("figures/%d/%d" % (seed, q))
        model = scenarios.shuffled(scenarios.random_model(r, plastic=q % 3 > 0), r)
        settings = scenarios.random_settings(r, model, nfev=8, du=r.choice([0.02, 0.05]), dlpf=r.choice([0.02, 0.05]))
        todo.append(("g%d" % q, ops, model, settings, seed))
    traces, info = [], {t[0]: t for t in todo}
    for t, (tr, exc) in zip(todo, vt.parallel(session, todo)):
        if exc:
            chk.violation("exception", dict(model=t[2], settings=t[3], ops=t[1], what=exc))
            continue
        for e in tr["ops"]:
            chk.count("drawings", {"hist": "history", "path": "path", "model": "model " + e["o"].get("v", ""), "part": "part " + e["o"].get("p", "")}[e["o"]["k"]])
            chk.add("arrows_compared", len(e["obs"]["draw"]["arrows"]))
            chk.add("segments_compared", len(e["obs"]["draw"]["segs"]))
        traces.append(tr)
    v, _ = vt.check_traces("TraceFigure", traces)
    for t in traces:
        j = vt.judge(v[t["id"]])
        if j and j[1] != "ok":
            e = t["ops"][j[0] - 1] if j[0] else t["ops"][0]
            chk.clause(CLAUSES, j[1], dict(model=info[t["id"]][2], settings=info[t["id"]][3], ops=[x["o"] for x in t["ops"][:j[0]]], what=e["what"], observed=e["obs"]))
    chk.traces(len(traces), "sessions of drawing real results")
    chk.add("curves_compared", sum(len(t["curves"]) for t in traces))
    if traces:
        chk.sample(dict(ops=[x["o"] for x in traces[0]["ops"][:4]]))
    if chk.prop not in ("C16", "ALL"):
        return
    todo = movies(seed, big)
    M = []
    for t, (tr, exc) in zip(todo, vt.parallel(movie, todo)):
        M.extend(tr)
        if exc:
            chk.violation("exception", dict(model=t[1], settings=t[2], movie=str(t[3]), what=exc))
    v, _ = vt.check_traces("TraceMovie", M)
    for t in M:
        for p, c in v[t["id"]]:
            if c != "ok":
                chk.clause(CLAUSES, c, dict(movie=t, plan=str(next(x for x in todo if x[0] == t["id"].split(".")[0])[1:3])))
        chk.add("movie_frames", len(t["png"]))
    chk.traces(len(M), "movies of real results")
