import numpy as np
from rascal.calibrator import Calibrator
from rascal.models import robust_polyfit
from .common import *

MIN_CASES = 40
VAL = {"poly": np.polynomial.polynomial.polyval, "legendre": np.polynomial.legendre.legval, "chebyshev": np.polynomial.chebyshev.chebval}


def fixed():
    x, y = [10.0, 20.0, 40.0, 80.0], [4000.0, 4100.0, 4290.0, 4700.0]
    for kind in ("list", "nd", "ilist"):
        for p in (5.0, 10.0, 15.5, 80.0, 99.25):
            yield dict(x=x, y=y, kind=kind, ops=[["list"], ["add", p, 5000.25], ["list"], ["remove", 0], ["list"]])
        yield dict(x=x, y=y, kind=kind, ops=[["remove", 3], ["remove", 0], ["remove", 5], ["add", 1.5, 2.5], ["add", 1.0, 3.0]])
        yield dict(x=x, y=y, kind=kind, ops=[["refit", None, None, None, None], ["add", 60.0, 4500.0], ["refit", None, None, 2, None]])
        yield dict(x=x, y=y, kind=kind, ops=[["refit", x[::-1], y[::-1], 1, None], ["refit", x, y[:3], 1, None], ["refit", x, y, 4, None], ["refit", x, y, 3, None]])
        yield dict(x=x, y=y, kind=kind, ops=[["refit", None, None, None, [4000.0, 5.0, 0.1]], ["refit", None, None, 1, [4000.0, 5.0]], ["refit", [], [], 1, None], ["refit", x, y, 0, None]])
        yield dict(x=x, y=y, kind=kind, ops=[["refit", [1.0, 2.0, 3.0], None, 1, None], ["refit", None, [1.0, 2.0, 4.0, 5.0], 1, None]])
        yield dict(x=[], y=[], kind=kind, ops=[["add", 3.5, 4.5], ["list"], ["remove", 0], ["remove", 0]])
        yield dict(x=[7.0, 3.0, 5.0], y=[1.0, 2.0, 3.0], kind=kind, ops=[["remove", 1], ["list"], ["refit", None, None, 1, None]])
        yield dict(x=x, y=y, kind=kind, fam="legendre", ops=[["refit", None, None, 1, None], ["refit", None, None, None, None]])


def generate(rng):
    n = rng.randint(0, 6)
    x = sorted(rng.sample(range(1, 200), n))
    x = [v / 2.0 for v in x]
    if rng.random() < 0.2:
        rng.shuffle(x)
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["add", "remove", "list", "refit"])
        if k == "refit":
            m = rng.randint(0, 6)
            mx, my = sorted(rng.sample(range(1, 200), m)), sorted(rng.sample(range(4000, 9000), rng.choice([m, m, m, max(0, m - 1)])))
            g = rng.random() < 0.6
            deg = rng.choice([None, None, 1, 2, 3])
            ops.append(["refit", [float(v) for v in mx] if g else None, [float(v) for v in my] if g else None, deg, None])
        else:
            ops.append({"add": ["add", rng.randint(0, 400) / 4.0, rng.randint(4000, 9000) + 0.5], "remove": ["remove", rng.randint(0, 7)], "list": ["list"]}[k])
    return dict(x=x, y=sorted(float(v) for v in rng.sample(range(4000, 9000), n)), kind=rng.choice(["list", "nd", "ilist"]), ops=ops,
                fam=rng.choice(["poly", "poly", "legendre", "chebyshev"]))


def check(c):
    cal = Calibrator(np.array([10.0, 20.0, 30.0]), None)
    fam = c.get("fam", "poly")
    cal.polyval = VAL[fam]
    cal.fit_coeff = np.array([4000.0, 5.0, 0.01])
    x, y = list(c["x"]), list(c["y"])
    if c["kind"] == "ilist":
        x = [int(v) for v in x]
    cal.matched_peaks, cal.matched_atlas = (np.array(x), np.array(y)) if c["kind"] == "nd" else (list(x), list(y))

    def held(px=None, py=None):
        px, py = (x, y) if px is None else (px, py)
        X, Y = list(cal.matched_peaks), list(cal.matched_atlas)
        if X != px or Y != py:
            return "held pairs %s %s, expected %s %s" % (X, Y, px, py)
    for op in c["ops"]:
        if op[0] == "list":
            got = cal.get_pix_wave_pairs()
            if [tuple(t) for t in got] != [(i, a, b) for i, (a, b) in enumerate(zip(x, y))]:
                return "listing %s of %s %s" % (got, x, y)
        elif op[0] == "add":
            cal.add_pix_wave_pair(op[1], op[2])
            X, Y = list(cal.matched_peaks), list(cal.matched_atlas)
            ok = [p for p in range(len(x) + 1) if x[:p] + [op[1]] + x[p:] == X and y[:p] + [op[2]] + y[p:] == Y]
            if not ok:
                return "after adding (%s, %s) to %s %s: %s %s" % (op[1], op[2], x, y, X, Y)
            if x == sorted(x) and X != sorted(X):
                return "not in order of pixel: %s" % X
            x, y = X, Y
        elif op[0] == "remove":
            try:
                cal.remove_pix_wave_pair(op[1])
            except IndexError:
                if op[1] < len(x):
                    return "pair %d could not be removed" % op[1]
                r = held()
                if r:
                    return r
                continue
            if op[1] >= len(x):
                return "removed pair %d of %d" % (op[1], len(x))
            x, y = x[:op[1]] + x[op[1] + 1:], y[:op[1]] + y[op[1] + 1:]
            r = held()
            if r:
                return "after remove %d: %s" % (op[1], r)
        else:
            _, gx, gy, deg, x0 = op
            px, py = list(x) if gx is None else gx, list(y) if gy is None else gy
            coef0 = np.array(cal.fit_coeff)
            d = deg if deg is not None else (len(x0) - 1 if x0 is not None else len(coef0) - 1)
            ok = len(px) == len(py) and len(px) > d > 0 and (x0 is None or len(x0) == d + 1)
            kw = dict(degree=deg, x0=None if x0 is None else list(x0))
            if gx is not None:
                kw["matched_peaks"] = list(gx)
            if gy is not None:
                kw["matched_atlas"] = list(gy)
            try:
                coef, X, Y, rms, res = cal.manual_refit(**kw)
            except (AssertionError, ValueError):
                if ok:
                    return "refit %s refused" % op
                r = held()
                if r:
                    return "after a refused refit: " + r
                continue
            if not ok:
                return "refit %s accepted" % op
            x, y = px, py
            r = held()
            if r:
                return "after refit: %s" % r
            if list(X) != px or list(Y) != py or not np.array_equal(coef, cal.fit_coeff) or rms != cal.rms or not np.array_equal(res, cal.residuals):
                return "returned values are not those held"
            if len(coef) != d + 1:
                return "%d coefficients for degree %d" % (len(coef), d)
            e = np.array(py) - VAL[fam](np.array(px, dtype=float), coef)
            if not np.allclose(res, e, rtol=1e-9, atol=1e-7) or not close(rms, float(np.sqrt(np.mean(e ** 2))), 1e-9, 1e-7):
                return "residuals %s, expected %s; rms %s" % (res, e, rms)
            if kw.get("matched_peaks") not in (None, gx) or kw.get("matched_atlas") not in (None, gy):
                return "arguments altered"
            if x0 is None and deg is not None or gx is not None:
                w = robust_polyfit(np.array(px), np.array(py), d)
                pw = np.polynomial.polynomial.polyval
                if not np.allclose(pw(np.array(px, dtype=float), coef), pw(np.array(px, dtype=float), w), rtol=1e-3, atol=1.0):
                    return "not a fit of the pairs given: %s, %s" % (coef, w)
