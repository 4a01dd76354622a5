"""Complete runs of real models: sequencing of load cases, path following, mechanics, record (C03-C14, C19)."""
import json
import random

import observe
import runs
import scenarios
import vt

PF = {  # clauses of TracePathFollow
    "control": {"C05", "C07", "C19"}, "start": {"C08", "C09"}, "iterations": {"C06", "C18"}, "ended-early": {"C06"},
    "accepted-invalid": {"C05", "C06", "C08"}, "accepted-unconverged": {"C04", "C06", "C08"}, "gave-up": {"C06", "C07"},
    "not-accepted": {"C05", "C06", "C08", "C19"}, "accepted-other": {"C08", "C14"}, "continued": {"C06"},
    "reported-count": {"C06", "C08", "C14"}, "reported-row": {"C08", "C14", "C04"}, "reported-limit": {"C05", "C07", "C14"},
    "reported-control": {"C19", "C05"},
    "initial-control": {"C05", "C07", "C09", "C19"}, "initial-start": {"C08", "C09"},
}
JOB = {  # clauses of TraceJob
    "equilibrium": {"C04"}, "locked": {"C04"}, "stretch": {"C12", "C14"}, "stress": {"C10", "C12", "C14"}, "axial": {"C12", "C14"},
    "internal": {"C12", "C14", "C04"}, "history": {"C11", "C10", "C14"}, "trial-state": {"C11", "C08"}, "state-chain": {"C11", "C09", "C08"},
    "virgin": {"C11", "C03"}, "start": {"C14", "C08", "C09"}, "constant-load": {"C09", "C04"}, "load": {"C09", "C14"}, "order": {"C09", "C14"},
    "access": {"C14"}, "reported-stiffness": {"C13", "C14"}, "record-count": {"C14", "C06", "C08"}, "record": {"C14", "C08", "C09"},
    "ends": {"C09"}, "undeformed": {"C14"}, "immutable": {"C14"}, "as-scripted": {"C06", "C08"}, "left-behind": {"C08"},
}
ALLP = {"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C19"}


def crash(chk, info, exc):
    """a run that fails or does not end breaks every property of its results"""
    chk.violation("runaway" if exc.startswith("runaway") else "exception", dict(info, what=exc))


def scripted_settings(r, model, incs, again):
    return dict(incs=tuple(incs) if len(incs) > 1 else incs[0], du=r.choice([0.02, 0.015]), dlpf=r.choice([0.02, 0.01]),
                stepcontrol=again or r.random() < 0.5, reduce=r.choice([8, 2, 4]), increase=r.choice([0.5, 0.25]), dxtol=1.5, nfev=r.choice([7, 8, 9]), cycl=r.choice([3, 4]),
                minfac=r.choice([1e-3, 0.01, 0.1]), j_pre=r.random() < 0.7)


def one(arg):
    """execute one run -> what happened (in a process of its own)"""
    tid, model, settings, script, want = arg
    M, txt, exc = runs.execute(model, settings, cls=one.cls, script=script)
    if exc:
        return dict(exc=exc)
    try:
        a, b = runs.pf_traces(tid, model, settings, M), runs.job_trace(tid, model, settings, M, want)
    except Exception as e:
        return dict(exc="exception while reading the results: %s: %s" % (type(e).__name__, e))
    marks = [name for w, name in (("ERROR 1", "given up, not converged"), ("ERROR 2", "given up, invalid"), ("EXIT 1", "limit exceeded"), ("recycling", "recycled")) if w in txt]
    return dict(exc=None, pf=a, job=b, marks=marks, incs=len(b["res"]) - 1)


def scenarios_of(seed, tier, chk):
    big = tier == "thorough"
    r = random.Random("runs/%d" % seed)
    todo = []
    # random models and settings
    for q in range(1500 if big else 130):
        rr = random.Random("runs/%d/%d" % (seed, q))
        model = scenarios.shuffled(scenarios.random_model(rr), rr)
        settings = scenarios.random_settings(rr, model)
        if q % 4 == 3:  # large numbers: coarse steps of shallow trusses, loose tolerance of the steps
            model, settings = scenarios.in_units(model, settings, rr.choice([1000.0, 1000.0, 25.0, 0.04]), rr.choice([2000.0, 1000.0, 1.0, 0.125]))
            if rr.random() < 0.6:
                settings["xtol"] = rr.choice([1, 2, 3])
        elif q % 8 == 1:  # tolerances so loose that the linearised solution satisfies them
            settings.update(xtol=rr.choice([1, 2]), ftol=rr.choice([2, 3, 4]))
            if rr.random() < 0.7:
                settings.update(j_pre=True, j_fixed=False)
        todo.append(("m%d" % q, model, settings, None, ()))
    # behaviours of the state machine of a job, forced by disturbing the equilibrium function
    gen = vt.tlc("MCJob", "GenJob.cfg", workers=1, args=["-simulate", "num=%d" % (3000 if big else 400), "-depth", "60", "-seed", str(seed)])
    jobs = [json.loads(p) for p in sorted(set(gen.printed("JOB")))]
    for q, j in enumerate(r.sample(jobs, min(len(jobs), 600 if big else 50))):
        rr = random.Random("jobs/%d/%d" % (seed, q))
        model = scenarios.random_model(rr, kind=rr.choice(["bar", "tripod", "tower"]), nsteps=len(j["incs"]))
        want = [sum(o["s"] == s + 1 and o["o"] == "ok" for o in j["script"]) for s in range(len(j["incs"]))]
        todo.append(("j%d" % q, model, scripted_settings(rr, model, j["incs"], any(o["o"] == "again" for o in j["script"])), j["script"], want))
        for o in j["script"]:
            chk.count("scripted_outcomes", o["o"])
    return todo


def drive(chk, tier, seed):
    chk.model(vt.tlc("MCJob", "MCJob.cfg"), "MCJob")
    todo = scenarios_of(seed, tier, chk)
    info = {t[0]: dict(model=t[1], settings=t[2], script=t[3]) for t in todo}
    one.cls = runs.model_class()
    pf, job = [], []
    for t, res in zip(todo, vt.parallel(one, todo)):
        if res["exc"]:
            crash(chk, info[t[0]], res["exc"])
            continue
        for m in res["marks"]:
            chk.count("runs_with", m)
        chk.count("runs", t[1]["kind"])
        chk.add("increments", res["incs"])
        pf.extend(res["pf"])
        job.append(res["job"])
    v, _ = vt.check_traces("TracePathFollow", pf)
    for t in pf:
        b = vt.judge(v[t["id"]])
        if b:
            case = t["id"].split(".")[1]
            if b[0] == 1 and case != "1" and b[1] in ("control", "start"):  # the first thing a later load case does
                b = (b[0], "initial-" + b[1])
            chk.clause(PF, b[1], dict(info[t["id"].split(".")[0]], trace=t["id"], position=b[0]))
    v, _ = vt.check_traces("TraceJob", job)
    for t in job:
        for p, c in v[t["id"]]:
            if c != "ok":
                chk.clause(JOB, c, dict(info[t["id"]], trace=t["id"]))
    chk.traces(len(pf), "load cases of real models (control of the path)")
    chk.traces(len(job), "complete runs of real models (mechanics, sequencing, record)")
    if job:
        chk.sample(dict(run=info[job[0]["id"]], increments=len(job[0]["res"]) - 1))
