"""Behaviours of the path-following controller, generated from the specification and realised
with scripted functions in the real pathfollow() (C05-C08, C14, C19)."""
import json
import random

import d_runs
import scripted
import vt


def one(arg):
    from trusspy.core import Analysis
    from trusspy.solvers import pathfollow
    q, s = arg
    c = scripted.configs()[s["c"] - 1]
    try:
        for e in s["s"]:
            e["fac"] = vt.unfx(e["fac"])
        s["form"] = (q // 2) % 5
        s["targets"] = scripted.attach_targets(c, s, q)
        ev, rows, lm, js, exc, cut = scripted.run_script((pathfollow, Analysis), c, s)
        if exc:
            return exc, None
        return None, scripted.trace("t%d" % q, c, ev, rows, lm, js, cut=cut)
    except Exception as e:
        return "exception: %s: %s" % (type(e).__name__, e), None


def grows_again(s):
    """five increments in a row after a failed attempt"""
    w = "".join("f" if not e["ok"] else "a" if e["acc"] else "i" for e in s["s"] if e["e"] == "att")
    return "faaaaa" in w


def reduced_above(s):
    """enlarged limits are reduced, not below the requested ones; two increments follow"""
    a = [e for e in s["s"] if e["e"] == "att"]
    f = [vt.unfx(e["fac"]) for e in a]
    return s["c"] == 26 and any(f[q] > f[q + 1] >= 1 and all(x["ok"] and x["acc"] for x in a[q + 1:q + 3]) for q in range(len(a) - 3))


def short(s):
    return dict(configuration=s["c"], behaviour=[dict(e=e["e"], move=e["v"], converged=e["ok"], iterations=e["n"]) for e in s["s"]])


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCPathFollow", "MCPF.cfg" if big else "MCPFSmall.cfg"), "MCPathFollow")
    if chk.prop in ("C06", "C07", "C08", "ALL"):
        # for all values of the parameters; MCPathFollow refines Control (property Refines)
        for init, inv, length in (("Init", "Inv", 0), ("IndInit", "Inv", 1), ("IndInit", "Bounded", 0), ("IndInit", "Decrease", 1)):
            chk.count("Control.tla, symbolically", "%s of %s: %s" % (inv, init, vt.apalache("Control", init, inv, length)))
    gen = vt.tlc("MCPathFollow", "GenPF.cfg", workers=1, args=["-simulate", "num=%d" % (4000 if big else 250), "-depth", "40", "-seed", str(seed)])
    S = [json.loads(s) for s in sorted(set(gen.printed("SCRIPT")))]
    S = [s for s in S if scripted.realisable(s)]
    r = random.Random("script/%d" % seed)
    r.shuffle(S)
    S.sort(key=lambda s: -len(s["s"]))
    k = 6000 if big else 450
    S = S[:k] + r.sample(S[k:], min(len(S) - k, 4000 if big else 350)) if len(S) > k else S
    gen = vt.tlc("MCPathFollow", "GenPFLong.cfg", workers=1, args=["-simulate", "num=%d" % (1500 if big else 150), "-depth", "40", "-seed", str(seed)])
    L = [json.loads(s) for s in sorted(set(gen.printed("SCRIPT")))]
    for what, f, k in (("grows again", grows_again, 120), ("reduced above one", reduced_above, 60)):
        T = [s for s in L if f(s)]
        T = r.sample(T, min(len(T), k * (12 if big else 1)))
        S = S + T
        chk.count("scripted_growth_after_reduction", what, len(T))
    todo = list(enumerate(S))
    traces = []
    for (q, s), (exc, t) in zip(todo, vt.parallel(one, todo)):
        if exc:
            chk.violation("runaway" if exc.startswith("runaway") else "exception", dict(short(s), what=exc))
            continue
        traces.append(t)
        for e in s["s"]:
            chk.count("scripted_attempts", "prediction" if e["e"] == "pre" else "accepted" if e["acc"] else "invalid" if e["ok"] else "not converged")
        chk.count("scripted_ends", s["why"])
    # in portions: the checker keeps all traces in memory
    for a in range(0, len(traces), 1500):
        part = traces[a:a + 1500]
        v, _ = vt.check_traces("TracePathFollow", part)
        for t in part:
            b = vt.judge(v[t["id"]])
            if b:
                chk.clause(d_runs.PF, b[1], dict(short(S[int(t["id"][1:])]), position=b[0]))
    chk.traces(len(traces), "generated behaviours of the controller in the real pathfollow()")
    if S:
        chk.sample(dict(script=short(S[0])))
