"""C14: histories of the book of results, generated from the specification, on the real result handler."""
import json
import random

import numpy as np

import vt

C14 = {"C14"}
CLAUSES = {"book-" + w: C14 for w in ("disabled", "refusal", "length", "factor", "values", "forces")}
ARRAYS = ["U", "U0", "r", "g", "K", "stretch", "element_force", "element_stress0", "element_stress", "Ured", "rred", "state_v"]
SIZE = dict(nnodes=3, nelems=2, ndim=3, DOF0=np.arange(3), DOF1=np.arange(3, 9), nstatev=2)


class Forces:
    "forces as the model hands them over"


def fill(a, v):
    for n in ARRAYS:
        getattr(a, n)[...] = v


def seen(r):
    if r.U is None:
        v = -1
    else:
        u = {float(q) for n in ARRAYS for q in np.unique(getattr(r, n))}
        v = int(u.pop()) if len(u) == 1 else -2
        if np.shape(r.U) != (3, 3) or np.shape(r.K) != (3, 3, 3, 3) or np.shape(r.element_force) != (2, 1) or np.shape(r.state_v) != (2, 2):
            v = -2
        if not (np.array_equal(r.DOF0, SIZE["DOF0"]) and np.array_equal(r.DOF1, SIZE["DOF1"])):
            v = -2
    p = -1
    if getattr(r, "ExtForces", None) is not None:
        u = set(np.unique(r.ExtForces.forces))
        p = int(u.pop()) if len(u) == 1 else -2
        if np.shape(r.ExtForces.forces_const) != np.shape(r.U) or np.any(r.ExtForces.forces_const):
            p = -2
    return dict(f=int(r.lpf), v=v, p=p)


def play(ops):
    from trusspy.core.analysis import Analysis
    from trusspy.handlers.handler_result import ResultHandler
    book, src, frc, ev = ResultHandler(), Analysis(), Forces(), []
    src.build(**SIZE)
    fill(src, 1)
    frc.forces = np.full((3, 3), 1.0)
    frc.forces_const = np.full((3, 3), 7.0)
    for o in ops:
        ok, w = True, o[0]
        if w == "add":
            book.add_increment(analysis=src, lpf=o[1])
        elif w == "addf":
            book.add_increment(analysis=src, extforces=frc, lpf=o[1])
        elif w == "blank":
            book.add_increment(lpf=o[1])
        elif w == "copy":
            book.copy_increment()
        elif w == "remove":
            book.remove_last_increment()
        elif w == "first":
            book.duplicate_first_increment()
        elif w == "build":
            try:
                book.build_result(**SIZE)
            except ValueError:
                ok = False
        elif w == "touch":
            fill(book.get_result(o[1] - 1), o[2])
        elif w == "force":
            book.get_result(o[1] - 1).ExtForces.forces[...] = o[2]
        elif w == "src":
            fill(src, o[1])
        elif w == "frc":
            frc.forces[...] = o[1]
        assert not np.any(frc.forces_const != 7.0), "the forces handed over were changed"
        ev.append(dict(o=o, ok=ok, recs=[seen(book.get_result(q)) for q in range(len(book.R))]))
    return ev


def drive(chk, tier, seed):
    big = tier == "thorough"
    chk.model(vt.tlc("MCResults", "MCResults.cfg"), "MCResults")
    gen = vt.tlc("MCResults", "GenResults.cfg", workers=1, args=["-simulate", "num=%d" % (600 if big else 60), "-depth", "17", "-seed", str(seed)])
    traces = []
    books = sorted(set(gen.printed("BOOK")))
    books = random.Random("results/%d" % seed).sample(books, min(len(books), 6000 if big else 500))
    for q, s in enumerate(books):
        ops = json.loads(s)
        try:
            traces.append(dict(id="b%d" % q, ev=play(ops)))
        except Exception as e:
            chk.violation("exception", dict(what="%s: %s" % (type(e).__name__, e), history=ops))
    v, _ = vt.check_traces("TraceResults", traces)
    for t in traces:
        b = vt.judge(v[t["id"]])
        for e in t["ev"]:
            chk.count("operations_on_results", e["o"][0])
        if b:
            chk.clause(CLAUSES, b[1], dict(position=b[0], history=t["ev"][:b[0]]))
    chk.traces(len(traces), "histories of the book of results")
