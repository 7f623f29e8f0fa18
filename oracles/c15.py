import numpy as np
from fractions import Fraction as F
from rascal import models
from rascal.util import _derivative
from .common import *

MIN_CASES = 60


def fixed():
    for kind in ("list", "array"):
        yield dict(what="poly", a=[2.0], degree=0, x=[0.0, 1.0, 3.5], kind=kind)
        yield dict(what="poly", a=[3.0, -1.0], degree=1, x=[0.0, 1.0, -2.5], kind=kind)
        yield dict(what="poly", a=[1.0, 2.0, 4.0, 8.0], degree=3, x=[0.0, 1.0, -2.0, 0.5], kind=kind)
        yield dict(what="poly", a=[1.0, 0.0, 0.0, 2.0, 0.0, 5.0], degree=5, x=[2.0, -1.5], kind=kind)
        yield dict(what="poly", a=[1, 2, 3], degree=2, x=[2, -3], kind=kind)
    yield dict(what="poly", a=[1.0, 2.0, 3.0], degree=3, x=[1.0], kind="list")
    yield dict(what="poly", a=[1.0, 2.0, 3.0], degree=1, x=[1.0], kind="list")
    yield dict(what="deriv", p=[5.0, 3.0, 2.0, 1.0])
    yield dict(what="deriv", p=[5, 3, 2, 1])
    yield dict(what="deriv", p=[7.0])
    for d in (1, 2, 3, 4):
        yield dict(what="fit", degree=d, x=[float(i) for i in range(12)], c=[4000.0, 5.0, 0.01, 1e-3, 1e-4][:d + 1], noise=[0.0] * 12, start=None)
        yield dict(what="fit", degree=d, x=[float(i) for i in range(12)], c=[40.0, 5.0, 0.3, 0.02, 1e-3][:d + 1], noise=[0.5, -0.2] * 5 + [200.0, -90.0], start=None)
    yield dict(what="fit", degree=1, x=[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0], c=[0.0, 2.0], noise=[0.0] * 9 + [60.0], start=None)
    # a start on the solution
    yield dict(what="fit", degree=4, x=[50.0 * i for i in range(20)], c=[4000.0, 4.0, -1e-4, 2e-8, 1e-11], noise=[0.2, -0.1] * 10, start=[4000.0, 4.0, -1e-4, 2e-8, 1e-11])
    yield dict(what="fit", degree=2, x=[0.0, 1.0, 2.0, 5.0, 9.0, 11.0], c=[10.0, 2.0, 0.5], noise=[0.1, 0, 0, -0.3, 0.2, 0.0], start=[9.0, 1.0, 1.0])
    yield dict(what="fit", degree=2, x=[0, 1, 2, 5, 9, 11], c=[10, 2, 1], noise=[1, 0, 0, -3, 2, 0], start=None)


def generate(rng):
    w = rng.choice(["poly", "deriv", "fit", "fit"])
    if w == "poly":
        d = rng.randint(0, 6)
        m = d + 1 if rng.random() < 0.85 else max(1, d + rng.choice([0, 2, 3]))
        ints = rng.random() < 0.3
        f = (lambda: rng.randint(-5, 5)) if ints else (lambda: rng.randint(-40, 40) / 4)
        return dict(what="poly", a=[f() for _ in range(m)], degree=d, x=[f() for _ in range(rng.randint(1, 5))], kind=rng.choice(["list", "array"]))
    if w == "deriv":
        return dict(what="deriv", p=[rng.randint(-40, 40) / rng.choice([1, 4]) for _ in range(rng.randint(1, 7))])
    d = rng.randint(1, 4)
    n = d + rng.randint(2, 15)
    s = rng.choice([1.0, 50.0])
    x = [s * v for v in grid_vals(rng, n, -2, 20, 0.25)]
    if len(set(x)) < d + 2:
        x = [s * float(i) for i in range(n)]
    c = [rng.uniform(-100, 4000)] + [rng.uniform(-3, 6) / s / (8 * s) ** (k - 1) for k in range(1, d + 1)]
    noise = [rng.choice([0.0, 0.0, rng.gauss(0, 1), rng.gauss(0, 40)]) for _ in range(n)]
    return dict(what="fit", degree=d, x=x, c=c, noise=noise, start=rng.choice([None, None, [k * rng.uniform(0.8, 1.2) for k in c]]))


def huber(r):
    r = np.abs(r)
    return np.where(r <= 1, r * r, 2 * r - 1).sum()


def best(A, y):
    """iteratively reweighted least squares"""
    w = np.ones(len(y))
    for _ in range(2000):
        s = np.sqrt(w)
        q = np.linalg.lstsq(A * s[:, None], y * s, rcond=None)[0]
        w2 = 1 / np.maximum(1, np.abs(y - A @ q))
        if np.abs(w2 - w).max() < 1e-13:
            break
        w = w2
    return q


def check(c):
    if c["what"] == "poly":
        a = c["a"] if c["kind"] == "list" else np.array(c["a"])
        d = c["degree"]
        try:
            f = models.polynomial(a, d)
            f(0.5)
        except (AssertionError, ValueError):
            return None if len(c["a"]) != d + 1 else "refused the right number of coefficients"
        if len(c["a"]) != d + 1:
            return "accepted %d coefficients for degree %d" % (len(c["a"]), d)
        want = [float(sum(F(v) * F(x) ** (d - i) for i, v in enumerate(c["a"]))) for x in c["x"]]
        got = [f(x) for x in c["x"]]
        if not closelist(got, want):
            return "values %s, expected %s" % (got, want)
        arr = f(np.array(c["x"]))
        if d == 0 and np.ndim(arr) == 0:
            arr = [arr] * len(want)
        if not closelist(arr, want):
            return "values at an array %s, expected %s" % (arr, want)
        return None
    if c["what"] == "deriv":
        p = c["p"]
        for q in (list(p), np.array(p)):
            if not closelist(_derivative(q), [i * p[i] for i in range(1, len(p))]):
                return "derivative %s" % (_derivative(q),)
        return None
    x, d = np.array(c["x"]), c["degree"]
    y = sum(k * x ** i for i, k in enumerate(c["c"])) + np.array(c["noise"])
    x0, y0 = x.copy(), y.copy()
    if x.std() == 0 or y.std() == 0:
        return None
    if c["start"] is None:
        p = models.robust_polyfit(x, y, d)
    else:
        st = np.array(c["start"]) if len(x) % 2 else list(c["start"])
        p = models.robust_polyfit(x, y, d, st)
    p = np.asarray(p, dtype=float)
    if p.shape != (d + 1,):
        return "shape %s" % (p.shape,)
    u, v = x0 / x0.std(), y0 / y0.std()
    A = np.vander(u, d + 1, increasing=True)
    # the returned polynomial in the scaled units, evaluated in the original ones
    r = (y0 - sum(k * x0.astype(float) ** i for i, k in enumerate(p))) / y0.std()
    q = best(A, v)
    lo, got = huber(v - A @ q), huber(r)
    if not got <= lo * (1 + 1e-3) + 1e-6 * len(v):
        return "Huber loss %.9g of the polynomial returned, %.9g is possible" % (got, lo)
    return None
