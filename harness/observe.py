"""Recording of the real code through its public interface."""
import contextlib
import io
import os
import signal
import sys

import numpy as np


class Runaway(Exception):
    """the code under observation exceeded any sensible number of evaluations or seconds"""


def iterations(log):
    """Newton iterations and acceptances from the order of evaluations.

    log: list of ("K", U) stiffness at free displacements U, ("G", V, g)
    residual g at V = (U, load factor), ("W", V, g) the same while committing.
    Repeated evaluations at the same point and the order of the two kinds of
    evaluation at one point do not matter.
    """
    ev = []
    n = len(log)
    ks = [i for i in range(n) if log[i][0] == "K"]
    res = lambda a, b: [m for m in range(a, b) if log[m][0] in "GW"]
    at = lambda m, U: np.array_equal(log[m][1][:-1], U)
    segs = []
    for a, i in enumerate(ks):
        segs.append((i, log[i][1], res(ks[a - 1] + 1 if a > 0 else 0, i), res(i + 1, ks[a + 1] if a + 1 < len(ks) else n)))
    # is the residual at the start point of an iteration evaluated before the stiffness (or taken over
    # from the iteration before), or right after it?
    first = any(after and not at(after[0], U) and before and at(before[-1], U) for _, U, before, after in segs)
    for i, U, before, after in segs:
        if first:
            if not (before and at(before[-1], U) and after):
                continue  # stiffness evaluated on its own
            s, t = before[-1], after[0]
        else:
            if not (after and at(after[0], U)):
                continue
            s = after[0]
            t = next((m for m in after if not np.array_equal(log[m][1], log[s][1])), after[-1])
        ev.append((t, dict(e="it", s=log[s][1], t=log[t][1], g=log[t][2])))
    for m in range(n):
        if log[m][0] == "W":
            ev.append((m + 0.5, dict(e="acc", t=log[m][1])))
    ev.sort(key=lambda p: p[0])
    return [e for _, e in ev]


@contextlib.contextmanager
def quiet():
    """swallow what is printed (and restore the stream whatever happens)"""
    old = sys.stdout
    buf = io.StringIO()
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout = old


@contextlib.contextmanager
def deadline(seconds):
    def handler(sig, frame):
        raise Runaway("no end after %g s" % seconds)
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def bind(args, kwargs, names):
    """arguments of a recorded call by name"""
    d = dict(zip(names, args))
    d.update(kwargs)
    return d
