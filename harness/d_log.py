"""C20: the log of real runs, line by line, against the controller and the definition."""
import ast
import random
import re

import observe
import runs
import scenarios
import vt

C20 = {"C20"}
CLAUSES = {"account-" + w: C20 for w in ("inc", "pre", "it", "cyc", "limit", "wait", "reduce", "hold", "grow", "err1", "err2", "again", "final", "exit", "surplus")}
CLAUSES.update({"report-" + w: C20 for w in ("level", "steps", "size", "dofs", "parameters", "parameter-value", "constant-loads", "initial-values", "created", "written")})

NUM = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+(?:e[-+]?\d+)?|nan|inf)"
TABLE = ["incs", "cycl", "nfev", "du", "dlpf", "j0", "j_fixed", "dxtol", "xtol", "ftol", "stepcontrol", "minfac", "maxfac", "reduce", "increase"]


def value(v):
    """a setting for the specification"""
    if v is None:
        return dict(t="none", v=[])
    if isinstance(v, bool):
        return dict(t="bool", v=[vt.fx(int(v))])
    if isinstance(v, (tuple, list)):
        return dict(t="many", v=vt.fxv(v))
    return dict(t="one", v=[vt.fx(v)])


def line(w, a=(), v=()):
    return dict(w=w, a=[int(q) for q in a], v=[vt.fx(float(q)) for q in v])


def one_line(l):
    """a line of the account of a load case"""
    l = l.rstrip()
    m = re.fullmatch(r"### Increment\s+(\d+)", l)
    if m:
        return line("inc", m.groups())
    if re.match(r"\|( *\d+ *| {5})\|", l):
        c = [q.strip() for q in l.strip("|").split("|")]
        if len(c) != 10:
            return line("unknown")
        if c[0] == "":
            return line("it", [c[1]], [c[3]])
        if c[6] == "":
            return line("pre", c[:3] + [c[4]], [c[3], c[5]])
        k = 3 if c[8] != "0" else 2
        return line("cyc", c[:3] + [c[4 + 2 * q] for q in range(k)], [c[3]] + [c[5 + 2 * q] for q in range(k)])
    for pat, w in ((r"\* reduce NR-step although .*", "limit"), (r"\* reduce NR-step size by factor: \(inactive\).*", "wait"), (r"\* reduce NR-step size by factor:\s*(\S+)", "reduce"),
                   (r"\* increase NR-step size by factor:\s*(\S+)", "grow"), (r"\* \*\*ERROR 1\*\*.*", "err1"), (r"\* \*\*ERROR 2\*\*.*", "err2"),
                   (r"\* recycling increment.*", "again"), (r"\* final LPF:\s*(\S+)", "final"), (r"\* EXIT 1.*", "exit")):
        m = re.fullmatch(pat, l)
        if m:
            return line(w, (), m.groups())
    m = re.fullmatch(r"\* increase NR-step \(inactive\)\..*?(\d+)/(\d+)", l)
    if m:
        return line("hold", m.groups())
    return None


def parse(text, nsteps):
    cases = [[] for _ in range(nsteps)]
    L = dict(summary=[], table=[], steps=[], closed=[], consts=[], writes=[[] for _ in range(nsteps)], created=[])
    s, lines, q = 0, text.splitlines(), 0

    def array(q, stop):
        """numbers from line q on"""
        out = []
        while q < len(lines) and not re.match(stop, lines[q]):
            if re.search(r"[^-+.\d\seE\[\]naif]", lines[q]):
                break
            out += re.findall(NUM, lines[q])
            q += 1
        return [float(v) for v in out], q
    while q < len(lines):
        l = lines[q]
        q += 1
        if l.startswith("constant part of external forces"):
            c, q = array(q, "initial values")
            while q < len(lines) and not lines[q].startswith("initial values"):
                q += 1
            v, q = array(q + 1, "###|\\|")
            L["consts"].append(dict(c=vt.fxv(c), v=vt.fxv(v)))
            s = min(s + 1, nsteps - 1)
            continue
        m = re.fullmatch(r"## Step\s+(\d+)", l)
        if m:
            L["steps"].append(int(m.group(1)))
            continue
        m = re.fullmatch(r"End of Step\s+(\d+)", l)
        if m:
            L["closed"].append(int(m.group(1)))
            continue
        m = re.match(r"### Create result object .* for step\s+(\d+)", l)
        if m:
            L["created"].append(int(m.group(1)))
            continue
        m = re.match(r"\s*write result\s+(\d+)/\s*(\d+) \(LPF:\s*(\S+)\)", l)
        if m:
            L["writes"][s].append(dict(i=int(m.group(1)), n=int(m.group(2)), v=vt.fx(float(m.group(3)))))
            continue
        m = re.match(r"\|.*\|\s*`(\w+)`\|\s*(.*?)\s*\|$", l)
        if m:
            L["table"].append(dict(name=m.group(1), v=value(None if m.group(2) == "LPF" else ast.literal_eval(m.group(2)))))
            continue
        if l.startswith("# Model Summary"):
            dims, free, locked = [], [], []
            while q < len(lines) and not re.match(r"\\pagebreak|# Run", lines[q]):
                m = re.match(r'.*"\w+":\s*(\d+)$', lines[q])
                if m:
                    dims.append(int(m.group(1)))
                m = re.match(r'(active|fixed).*"\w+": (\[.*)', lines[q])
                if m:
                    t = m.group(2)
                    while "]" not in t:
                        q += 1
                        t += lines[q]
                    (free if m.group(1) == "active" else locked).extend(int(v) for v in re.findall(r"\d+", t))
                q += 1
            L["summary"].append(dict(dims=dims, free=free, locked=locked))
            continue
        e = one_line(l)
        if e:
            cases[s].append(e)
    return cases, L


def one(arg):
    tid, model, settings, level = arg
    M, txt, exc = runs.execute(model, settings, cls=one.cls, log=level)
    if exc:
        return dict(exc=exc)
    try:
        pf = runs.pf_traces(tid, model, settings, M)
        cases, L = parse(txt, model["nsteps"])
        for t, c in zip(pf, cases):
            t.update(log=c, level=level)
        S = dict(runs.DEFAULTS, **settings)
        res = [dict(step=int(x.step), first=q == 0, U=vt.fxm(x.U), lpf=vt.fx(x.lpf)) for q, x in enumerate(M.Results.R)]
        rep = dict(id=tid, level=level, nsteps=model["nsteps"], d=runs.definition(model), sc=bool(S["stepcontrol"]), par={k: value(S[k]) for k in TABLE}, res=res, log=L)
    except Exception as e:
        return dict(exc="exception while reading the log: %s: %s" % (type(e).__name__, e))
    return dict(exc=None, pf=pf, rep=rep)


def scenario(seed, q):
    r = random.Random("log/%d/%d" % (seed, q))
    model = scenarios.random_model(r)
    settings = scenarios.random_settings(r, model)
    if q % 3 == 0:  # reductions followed by increments that converge well
        settings.update(stepcontrol=True, nfev=r.choice([3, 4]), du=r.choice([0.3, 0.5]), dlpf=r.choice([0.3, 0.5]), incs=8, minfac=1e-6, dxtol=1.3, cycl=r.choice([2, 4, 5]),
                        j_fixed=r.random() < 0.2, xlimit=(0, float("inf")))
    elif q % 3 == 1:
        settings.update(stepcontrol=True, maxfac=r.choice([1.5, 2, 4]), incs=8)
    if q % 5 == 2:  # a bound of the reductions above a single reduction
        settings.update(minfac=r.choice([0.2, 0.25, 0.5]), reduce=r.choice([8, 10]))
    return "l%d" % q, model, settings, (2, 3, 2, 1, 2, 0)[q % 6]


def drive(chk, tier, seed):
    todo = [scenario(seed, q) for q in range(900 if tier == "thorough" else 90)]
    chk.model(vt.tlc("MCPathFollow", "MCAccountAll.cfg" if tier == "thorough" else "MCAccount.cfg"), "MCPathFollow")
    info = {t[0]: dict(model=t[1], settings=t[2], level=t[3]) for t in todo}
    one.cls = runs.model_class()
    pf, rep = [], []
    for t, res in zip(todo, vt.parallel(one, todo)):
        if res["exc"]:
            chk.violation("runaway" if res["exc"].startswith("runaway") else "exception", dict(info[t[0]], what=res["exc"]))
            continue
        pf += res["pf"]
        rep.append(res["rep"])
        for p in res["pf"]:
            for e in p["log"]:
                chk.count("log_lines", e["w"])
    v, _ = vt.check_traces("TraceAccount", pf, cfg="TraceAccount.cfg")
    for t in pf:
        b = vt.judge(v[t["id"]])
        if b and b[1].startswith("account"):
            chk.clause(CLAUSES, b[1], dict(info[t["id"].split(".")[0]], trace=t["id"], position=b[0]))
        elif b:
            chk.count("load_cases_not_explained", b[1])
    v, _ = vt.check_traces("TraceReport", rep)
    for t in rep:
        b = vt.judge(v[t["id"]])
        if b:
            chk.clause(CLAUSES, b[1], dict(info[t["id"]]))
    chk.traces(len(pf), "logs of load cases, line by line")
    chk.traces(len(rep), "reports of runs")
    if todo:
        chk.sample(dict(log=[e["w"] for e in pf[0]["log"]][:12] if pf else []))
