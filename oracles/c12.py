import numpy as np
from rascal.calibrator import Calibrator
from .common import *

MIN_CASES = 300


def fixed():
    P = [[10.0, 4050.0], [10.0, 4060.0], [10.0, 4055.0], [20.0, 4100.0], [20.0, 4110.0], [20.0, 4095.0]]
    base = dict(kind="near", pairs=P, lines=[[5.0, 4000.0], [5.0, 4002.0]], ct=5.0, rt=100.0, lt=50.0)
    yield base
    yield dict(base, ct=10.0)
    yield dict(base, ct=0.0)
    yield dict(base, rt=5.0, lt=1.0, ct=30.0)
    yield dict(base, lines=[[0.0, 0.0]])
    S = [[[10.0, 10.0, 20.0], [4050.0, 4060.0, 4100.0], [0.9, 0.5, 0.3]], [[10.0, 20.0, 20.0], [4060.0, 4100.0, 4110.0], [0.6, 0.1, 0.7]], [[10.0], [4040.0], [0.1]]]
    for w in (True, False):
        for n in (1, 2, 3, 10):
            yield dict(kind="offer", sets=S, topn=n, weighted=w)
            yield dict(kind="wired", pairs=P, lines=[[5.0, 4000.0], [5.0, 4006.0], [4.9, 4008.0]], ct=7.0, rt=20.0, lt=5.0, topn=n, weighted=w)
        yield dict(kind="offer", sets=[[[], [], []]] + S[::-1], topn=2, weighted=w)
        yield dict(kind="offer", sets=[[[], [], []]], topn=2, weighted=w)


def generate(rng):
    k = rng.choice(["near", "offer", "wired"])
    peaks = sorted(rng.sample(range(0, 60), rng.randint(1, 5)))
    arc = sorted(rng.sample(range(0, 40), rng.randint(1, 6)))
    c = dict(kind=k, topn=rng.randint(1, 5), weighted=rng.random() < 0.5)
    if k == "offer":
        sets = []
        for _ in range(rng.randint(0, 5)):
            ps = [(float(p), a / 2.0, rng.randint(1, 16) / 16.0) for p in peaks for a in arc if rng.random() < 0.5]
            if rng.random() < 0.3:
                rng.shuffle(ps)
            sets.append([list(q) for q in zip(*ps)] if ps else [[], [], []])
        return dict(c, sets=sets)
    return dict(c, pairs=[[float(p), a / 2.0] for p in peaks for a in arc], lines=[[rng.randint(0, 4) / 4.0, rng.randint(-10, 20) / 2.0] for _ in range(rng.randint(1, 4))],
                ct=rng.randint(0, 12) / 2.0, rt=rng.randint(1, 20) / 2.0, lt=rng.randint(0, 10) / 2.0)


def nontrivial(c):
    return c["kind"] != "offer" or any(s[0] for s in c["sets"])


def sets_of(c):
    """the candidate sets by definition"""
    s = (c["rt"] + c["lt"]) * 1.1775
    out = []
    for m, b in c["lines"]:
        t = [(p, w, float(np.exp(-((m * p + b - w) ** 2) / (2 * s ** 2)))) for p, w in c["pairs"] if abs(m * p + b - w) <= c["ct"]]
        out.append(t)
    return out


def wrong_offer(sets, topn, weighted, X, Y):
    """what is wrong with the pairs offered for the sets (lists of peak, line, weight)"""
    tot = {}
    for s in sets:
        for p, w, g in s:
            tot.setdefault(p, {}).setdefault(w, 0.0)
            tot[p][w] += g if weighted else 1.0
    if len(X) != len(Y):
        return "%d peaks, %d lines" % (len(X), len(Y))
    if list(X) != sorted(X):
        return "peaks not ascending: %s" % list(X)
    got = {}
    for x, y in zip(X, Y):
        got.setdefault(x, []).append(y)
    if set(got) != set(tot):
        return "peaks %s, expected %s" % (sorted(got), sorted(tot))
    for p, t in tot.items():
        g = got[p]
        if len(g) != min(topn, len(t)) or len(set(g)) != len(g) or any(y not in t for y in g):
            return "peak %s offers %s, candidates %s" % (p, g, sorted(t))
        best = sorted(t.values(), reverse=True)[:len(g)]
        if not closelist([t[y] for y in g], best):
            return "peak %s offers %s with support %s, the largest are %s" % (p, g, [t[y] for y in g], best)


def check(c):
    cal = Calibrator([10.0, 20.0, 30.0])
    if c["kind"] == "offer":
        if not hasattr(cal, "_get_most_common_candidates"):
            return None
        sets = [tuple(np.array(v) for v in s) for s in c["sets"]]
        X, Y = cal._get_most_common_candidates(sets, c["topn"], c["weighted"])
        if [[list(v) for v in s] for s in sets] != c["sets"]:
            return "the candidate sets were changed"
        return wrong_offer([list(zip(*s)) for s in c["sets"]], c["topn"], c["weighted"], list(X), list(Y))
    cal.set_hough_properties(range_tolerance=c["rt"], linearity_tolerance=c["lt"])
    cal.pairs = np.array(c["pairs"])
    cal.hough_lines = np.array(c["lines"])
    want = sets_of(c)
    if c["kind"] == "near":
        if not hasattr(cal, "_get_candidate_points_linear"):
            return None
        cal._get_candidate_points_linear(c["ct"])
        if len(cal.candidates) != len(want):
            return "%d sets for %d lines" % (len(cal.candidates), len(want))
        for i, (s, t) in enumerate(zip(cal.candidates, want)):
            X, Y, W = (list(v) for v in s)
            if [tuple(q) for q in zip(X, Y)] != [q[:2] for q in t] or len(X) != len(Y):
                return "line %d: %s, expected %s" % (i, list(zip(X, Y)), t)
            if not closelist(W, [q[2] for q in t], 1e-6, 1e-6):
                return "line %d: weights %s, expected %s" % (i, W, [q[2] for q in t])
        return None
    if not hasattr(cal, "_solve_candidate_ransac"):
        return None
    cal.set_ransac_properties(top_n_candidate=c["topn"], candidate_weighted=c["weighted"], linear=True)
    # a degree no number of peaks suffices for: the search stops once the pairs are offered
    try:
        cal._solve_candidate_ransac(10 ** 6, None, 1, c["ct"], False, False)
    except TypeError:
        return None
    return wrong_offer(want, c["topn"], c["weighted"], list(cal.candidate_peak), list(cal.candidate_arc))
