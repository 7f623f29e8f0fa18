import numpy as np
from rascal.calibrator import Calibrator
from .common import *

MIN_CASES = 300
VAL = {"poly": np.polynomial.polynomial.polyval, "legendre": np.polynomial.legendre.legval, "chebyshev": np.polynomial.chebyshev.chebval}


def fixed():
    for kind in ("nd", "list"):
        yield dict(peaks=[10.0, 20.0], cand=[[4050.0], [4100.0]], coef=[4000.0, 5.0], kind=kind)
        yield dict(peaks=[10.0, 20.0, 30.0], cand=[[4050.0, 4100.0], [4100.0, 4051.0], [4100.0]], coef=[4000.0, 5.0], kind=kind)
        yield dict(peaks=[10.0, 20.0, 30.0], cand=[[4100.0], [4100.0], [4100.0]], coef=[4000.0, 5.0], kind=kind)
        yield dict(peaks=[10.0, 20.0, 30.0], cand=[[4300.0, 4200.0], [4150.0, 4101.0], [4000.0]], coef=[4000.0, 5.0], kind=kind)
        yield dict(peaks=[5.0], cand=[[1.0, 2.0]], coef=[0.0, 0.3], kind=kind)
        yield dict(peaks=[30.0, 10.0, 20.0], cand=[[1.0, 2.0], [2.0, 5.0], [2.0]], coef=[0.0, 0.1, 0.001], kind=kind, fam="legendre")
    yield dict(peaks=[float(i) for i in range(40)], cand=[[100.0 + (i * k) % 17 for k in range(1, 6)] for i in range(40)], coef=[100.0, 0.4], kind="nd")


def generate(rng):
    n = rng.randint(1, 7)
    peaks = rng.sample(range(1, 60), n)
    if rng.random() < 0.7:
        peaks.sort()
    lines = sorted(rng.sample(range(0, 40), rng.randint(1, 8)))
    cand = [[v / 2.0 for v in rng.sample(lines, rng.randint(1, min(4, len(lines))))] for _ in range(n)]
    if rng.random() < 0.2:
        cand[0].append(cand[0][0])
    return dict(peaks=[float(p) for p in peaks], cand=cand, coef=[rng.randint(0, 40) / 4.0, rng.randint(-4, 4) / 4.0] + rng.choice([[], [0.0], [0.01]]),
                kind=rng.choice(["nd", "list"]), fam=rng.choice(["poly", "poly", "legendre", "chebyshev"]))


def nontrivial(c):
    return len(c["peaks"]) > 1


def check(c):
    cal = Calibrator([10.0, 20.0, 30.0])
    if not hasattr(cal, "_match_bijective"):
        return None
    val = VAL[c.get("fam", "poly")]
    cal.polyval = val
    P = c["peaks"]
    cand = {p: np.array(v) for p, v in zip(P, c["cand"])}
    coef = np.array(c["coef"])
    peaks = np.array(P) if c["kind"] == "nd" else list(P)
    err, X, Y = cal._match_bijective(cand, peaks, coef)
    err, X, Y = list(err), list(X), list(Y)
    if [list(cand[p]) for p in P] != c["cand"] or list(peaks) != P or list(coef) != c["coef"]:
        return "the input was changed"
    if not len(err) == len(X) == len(Y):
        return "lengths %d %d %d" % (len(err), len(X), len(Y))
    if len(set(X)) != len(X) or len(set(Y)) != len(Y):
        return "a peak or line twice: %s %s" % (X, Y)
    if sorted(Y) != Y:
        return "lines not ascending: %s" % Y
    d = lambda p, y: abs(float(val(p, coef)) - y)
    near = {p: min(d(p, y) for y in ys) for p, ys in zip(P, c["cand"])}
    best = {p: [y for y in ys if d(p, y) == near[p]] for p, ys in zip(P, c["cand"])}
    for e, x, y in zip(err, X, Y):
        if x not in P or y not in cand[x]:
            return "(%s, %s) is no candidate" % (x, y)
        if not close(e, d(x, y)):
            return "error of (%s, %s) is %s, expected %s" % (x, y, e, d(x, y))
        if not close(d(x, y), near[x]):
            return "peak %s got %s, closest is %s" % (x, y, best[x])
    if any(len(set(b)) > 1 for b in best.values()):
        return None        # ties: which of the closest lines a peak takes is open
    taken = {}
    for p in P:
        taken.setdefault(best[p][0], []).append(p)
    if sorted(taken) != Y:
        return "lines %s, taken %s" % (Y, sorted(taken))
    for x, y in zip(X, Y):
        if d(x, y) > min(d(p, y) for p in taken[y]) + 1e-9:
            return "line %s kept with peak %s, a closer one is %s" % (y, x, taken[y])
