import numpy as np
from rascal.houghtransform import HoughTransform
from .common import *
from .c06 import match

MIN_CASES = 200
BIG = [-1e3, 1e3, -1e6, 1e6]


def fixed():
    yield dict(x=[0.0, 1.0, 2.0, 4.0], y=[10.0, 12.0, 13.0, 18.0], lim=[0.0, 3.0, 8.0, 12.0])
    yield dict(x=[0.0, 1.0, 2.0, 4.0], y=[10.0, 12.0, 13.0, 18.0], lim=[0.0, 3.0, 8.0, 12.0], cal=True)
    yield dict(x=[4.0, 1.0, 2.0, 0.0], y=[18.0, 12.0, 13.0, 10.0], lim=[0.0, 3.0, 8.0, 12.0])
    yield dict(x=[4.0, 1.0, 2.0, 0.0], y=[18.0, 12.0, 13.0, 10.0], lim=BIG)
    yield dict(x=[1.0, 1.0, 2.0], y=[5.0, 7.0, 8.0], lim=BIG)
    yield dict(x=[1.0, 1.0], y=[5.0, 5.0], lim=BIG)
    yield dict(x=[0.0, 2.0], y=[1.0, 5.0], lim=[2.0, 3.0, 0.0, 2.0])
    yield dict(x=[0.0, 2.0], y=[1.0, 5.0], lim=[1.0, 2.0, 0.0, 2.0])
    yield dict(x=[0.0, 2.0], y=[1.0, 5.0], lim=[1.0, 3.0, 1.0, 2.0])
    yield dict(x=[0.0, 2.0], y=[1.0, 5.0], lim=[1.0, 3.0, 0.0, 1.0])
    yield dict(x=[3, 1, 2], y=[5.0, 7.0, 8.0], lim=BIG)


def generate(rng):
    m = rng.choice([2, 3, 4, 7, 20])
    x = grid_vals(rng, m, 0, rng.choice([4, 16, 64]), rng.choice([1.0, 2.0]))
    if rng.random() < 0.4:
        x.sort()
    if rng.random() < 0.3:
        x = [int(v) for v in x]
    lo = rng.choice([-4.0, 0.0, 1.0])
    ilo = rng.choice([-50.0, 0.0, 8.0])
    lim = BIG if rng.random() < 0.3 else [lo, lo + rng.choice([0.0, 1.0, 4.0]), ilo, ilo + rng.choice([2.0, 16.0, 100.0])]
    return dict(x=x, y=grid_vals(rng, m, -10, 60, 1.0), lim=lim)


def check(c):
    x, y = np.array(c["x"]), np.array(c["y"])
    if c.get("cal"):
        h = calibrator_transform(c["x"], c["y"], c["lim"], 5, 3, 5, True)
        if h is None:
            return
    else:
        h = HoughTransform()
        h.set_constraints(*c["lim"])
        h.generate_hough_points_brute_force(x, y)
    lo, hi, ilo, ihi = c["lim"]
    must, may = [], []
    from fractions import Fraction as F
    for j in range(len(x)):
        for i in range(j):
            if c["x"][i] == c["x"][j]:
                continue
            g = F(c["y"][j] - c["y"][i]) / F(c["x"][j] - c["x"][i])
            q = F(c["y"][j]) - g * F(c["x"][j])
            # a slope that is no dyadic number carries a rounding error
            e = 0 if g.denominator & (g.denominator - 1) == 0 else F(1, 10**9)
            if lo + e < g < hi - e and ilo + e < q < ihi - e:
                must.append((float(g), float(q)))
            elif lo - e < g < hi + e and ilo - e < q < ihi + e:
                may.append((float(g), float(q)))
    pts = np.asarray(h.hough_points)
    if pts.ndim != 2 or pts.shape[1] != 2:
        return "shape %s" % (pts.shape,)
    return match(pts.tolist(), must, may)
