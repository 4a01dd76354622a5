"""C10: strain histories generated from the specification, executed by the real material functions."""
import json
import random

import numpy as np

import observe
import vt

MATS = [(2, [1.0, 1.0, 0.125]), (2, [3.0, 1.0, 0.25]), (2, [4.0, 0.0, 0.375]), (2, [1.0, 1.0 / 7, 0.0625]), (1, [7.0, 1.0, 0.125])]


def call(mt, mp, sv, e, e0):
    """one call of the material function -> event"""
    from trusspy.materials import umat_el, umat_elplast_iso
    f = umat_elplast_iso if mt == 2 else umat_el
    given = np.array(sv, dtype=float)
    out = f(e, e - e0, mp, given)
    s, d, sv1 = out[0], out[1], out[3]
    return dict(e=vt.fx(e), sv0=vt.fxv(sv), s=vt.fx(s), d=vt.fx(d), sv1=vt.fxv(sv1)), np.array(sv1, dtype=float)


def history(tid, mt, mp, strains):
    ev, sv, e0 = [], np.zeros(2), 0.0
    # parameters may come as a row of a table with further columns
    mp = np.array(list(mp) + [0.5] * (len(tid) % 2)) if len(tid) % 3 else list(mp)
    keep = list(mp)
    for e in strains:
        x, sv = call(mt, mp, sv, e, e0)
        ev.append(x)
        e0 = e
    p = list(keep) + [0.0] * 3
    return dict(id=tid, m=dict(mat=mt, E=vt.fx(p[0]), K=vt.fx(p[1]), Sy=vt.fx(p[2])), ev=ev, kept=[vt.fx(v) for v in mp] == [vt.fx(v) for v in keep])


def drive(chk, tier, seed):
    r = random.Random("material/%d" % seed)
    big = tier == "thorough"
    m = vt.tlc("MCMaterial", "MCMaterial.cfg")
    chk.model(m, "MCMaterial")
    gen = vt.tlc("MCMaterial", "GenMaterial.cfg", workers=1)
    paths = [json.loads(p) for p in gen.printed("PATH")]
    if not big:
        paths = r.sample(paths, 900)
    traces = []
    try:
        for q, p in enumerate(paths):
            mt, mp = MATS[p["m"] - 1]
            traces.append(history("p%d" % q, mt, mp, [v / 8.0 for v in p["p"]]))
        for q in range(3000 if big else 400):
            E = round(10 ** r.uniform(-1, 3), 5)
            mt = r.choice([1, 2, 2, 2])
            mp = [E, round(E * r.choice([0.0, 0.01, 0.1, 0.5, 1, 3]), 6), round(E * r.uniform(0.001, 0.2), 6)]
            e, strains = 0.0, []
            for _ in range(r.choice([3, 6, 10])):
                e = r.choice([e + r.uniform(-0.3, 0.3), e + r.uniform(-0.02, 0.02), -e, e, 0.0, r.uniform(-0.8, 2)])
                strains.append(e)
            traces.append(history("r%d" % q, mt, mp, strains))
    except Exception as e:
        chk.violation("exception", "%s: %s" % (type(e).__name__, e))
    v, res = vt.check_traces("TraceMaterial", traces)
    for t in traces:
        j = vt.judge(v[t["id"]])
        chk.count("material_histories", "plastic" if t["m"]["mat"] == 2 else "elastic")
        if not t["kept"]:
            chk.violation("material-arguments", t["id"])
        if j:
            chk.violation("material-" + j[1], dict(position=j[0], trace=readable(t)))
    chk.traces(len(traces), "strain histories in the real material functions")
    if traces:
        chk.sample(dict(material_history=readable(traces[0])))


def readable(t):
    u = vt.unfx
    return dict(id=t["id"], E=u(t["m"]["E"]), K=u(t["m"]["K"]), Sy=u(t["m"]["Sy"]),
                ev=[dict(e=u(x["e"]), sv0=[u(a) for a in x["sv0"]], s=u(x["s"]), d=u(x["d"]), sv1=[u(a) for a in x["sv1"]]) for x in t["ev"]])
