import numpy as np
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from .common import *

MIN_CASES = 150
VAL = {"poly": (np.polynomial.polynomial.polyval, np.polynomial.polynomial.polyfit),
       "legendre": (np.polynomial.legendre.legval, np.polynomial.legendre.legfit),
       "chebyshev": (np.polynomial.chebyshev.chebval, np.polynomial.chebyshev.chebfit)}


def fixed():
    b = dict(peaks=[10.0, 20.0, 30.0, 41.0], lines=[50.0, 100.0, 150.0, 204.0], coef=[0.0, 5.0], tol=3.0)
    for fam in VAL:
        yield dict(b, fam=fam)
    for kw in (dict(kind="list"), dict(held=True), dict(refit=True), dict(refit=True, deg=1), dict(refit=True, deg=2), dict(refit=True, held=True),
               dict(refine=True), dict(refine=True, delta=1), dict(refine=True, refit=True)):
        yield dict(b, **kw)
    yield dict(b, lines=[50.0, 53.0, 100.0, 101.0, 300.0], tol=3.0)
    yield dict(b, lines=[50.0, 53.0, 97.0, 103.0], tol=3.0)
    yield dict(b, lines=[50.0, 52.0, 76.0], tol=30.0)
    yield dict(b, lines=[1000.0], tol=1.0)
    yield dict(b, lines=[1000.0], tol=1.0, refit=True)
    yield dict(b, peaks=[41.0, 10.0, 30.0, 20.0], lines=[204.0, 50.0, 150.0, 100.0])


def generate(rng):
    peaks = [float(p) for p in rng.sample(range(1, 60), rng.randint(2, 7))]
    coef = [rng.randint(0, 40) / 4.0, rng.choice([0.5, 1.0, 2.0, 0.25])] + rng.choice([[], [0.0], [0.0078125]])
    fit = [coef[0] + coef[1] * p for p in peaks]
    lines = sorted({round(4 * (f + rng.choice([0, 0.25, 0.5, -0.5, 1, -2, 2, 5]))) / 4.0 for f in fit if rng.random() < 0.9} | {rng.randint(0, 200) / 2.0 for _ in range(rng.randint(1, 4))})
    if rng.random() < 0.2:
        rng.shuffle(lines)
    c = dict(peaks=peaks, lines=lines, coef=coef, tol=rng.choice([0.5, 1.0, 2.0, 5.0, 30.0]), fam=rng.choice(["poly", "poly", "legendre", "chebyshev"]))
    if rng.random() < 0.3:
        c["held"] = True
    elif rng.random() < 0.3:
        c["kind"] = "list"
    if rng.random() < 0.35:
        c["refit"] = True
        if rng.random() < 0.5:
            c["deg"] = rng.choice([1, 2])
    if rng.random() < 0.06 and "kind" not in c:
        c["refine"] = True
        if rng.random() < 0.5:
            c["delta"] = 1
    return c


def nontrivial(c):
    return len(c["peaks"]) > 2


def check(c):
    fam = c.get("fam", "poly")
    val, fit = VAL[fam]
    cal = Calibrator(list(c["peaks"]), spectrum=np.ones(100))
    a = Atlas()
    a.add_user_atlas(["A"] * len(c["lines"]), list(c["lines"]))
    cal.set_atlas(a)
    cal.polyval, cal.polyfit, cal.fit_type = val, fit, fam
    mk = list if c.get("kind") == "list" else np.array
    coef = mk(c["coef"])
    kw = dict(tolerance=c["tol"], refine=c.get("refine", False), robust_refit=c.get("refit", False))
    if c.get("held"):
        cal.fit_coeff = coef
    else:
        kw["fit_coeff"] = coef
    if "deg" in c:
        kw["fit_deg"] = c["deg"]
    if "delta" in c:
        kw["n_delta"] = c["delta"]
    try:
        r = cal.match_peaks(**kw)
    except ValueError:
        # a single pair cannot be fitted
        if c.get("refit") and len(cal.matched_peaks) < 2:
            return None
        raise
    if list(coef) != c["coef"]:
        return "the coefficients passed in were changed to %s" % list(coef)
    names = ("fit_coeff", "matched_peaks", "matched_atlas", "rms", "residuals", "peak_utilisation", "atlas_utilisation")
    if r[1] is None:
        return None if np.isnan(r[0]).any() else "nothing matched"
    for k, (n, v) in enumerate(zip(names, r)):
        if not np.array_equal(np.asarray(getattr(cal, n), float), np.asarray(v, float), equal_nan=True):
            return "%s returned %s, held %s" % (n, v, getattr(cal, n))
    new, X, Y, rms, res, pu, au = r
    X, Y, res = [float(v) for v in X], [float(v) for v in Y], [float(v) for v in res]
    if not len(X) == len(Y) == len(res):
        return "lengths %d %d %d" % (len(X), len(Y), len(res))
    P, L = c["peaks"], c["lines"]
    if len(set(X)) < len(X) or len(set(Y)) < len(Y) or not set(X) <= set(P) or not set(Y) <= set(L):
        return "matches %s %s" % (X, Y)
    if not close(pu, len(X) / len(P)) or not close(au, len(X) / len(L)):
        return "utilisations %s %s for %d matches" % (pu, au, len(X))
    if not closelist(res, [y - float(val(x, new)) for x, y in zip(X, Y)], ab=1e-7):
        return "residuals %s, expected %s" % (res, [y - float(val(x, new)) for x, y in zip(X, Y)])
    if X and not close(rms, (sum(v * v for v in res) / len(res)) ** 0.5, ab=1e-7):
        return "rms %s of %s" % (rms, res)
    if c.get("refine") and c.get("refit"):
        return None
    used = new if c.get("refine") else c["coef"]
    if not c.get("refit") and not c.get("refine") and list(new) != c["coef"]:
        return "returned coefficients %s" % list(new)
    if c.get("refit") and "deg" in c and len(new) != c["deg"] + 1 and X:
        return "%d coefficients for degree %d" % (len(new), c["deg"])
    d = lambda p, y: abs(float(val(p, np.array(used))) - y)
    eps = 0.0 if fam == "poly" and not c.get("refine") else 1e-9
    near = {p: min(d(p, y) for y in L) for p in P}
    sure = {p for p in P if near[p] < c["tol"] - eps}
    maybe = {p for p in P if near[p] < c["tol"] + eps}
    for x, y in zip(X, Y):
        if x not in maybe or not close(d(x, y), near[x]):
            return "peak %s at distance %s from line %s, closest %s" % (x, d(x, y), y, near[x])
    best = {p: [y for y in L if d(p, y) <= near[p] + 1e-9] for p in P}
    if any(len(b) > 1 for b in best.values()):
        return None       # ties: which of the closest lines a peak takes is open
    want = {}
    for p in sure:
        want.setdefault(best[p][0], []).append(p)
    for y, ps in want.items():
        if y not in Y:
            return "line %s is not matched, peaks %s are near it" % (y, ps)
        x = X[Y.index(y)]
        if d(x, y) > min(d(p, y) for p in ps) + 1e-9:
            return "line %s kept with peak %s, closer ones in %s" % (y, x, ps)
