import numpy as np
from rascal.houghtransform import HoughTransform
from .common import *

MIN_CASES = 100


def fixed():
    yield dict(x=[0.0, 1.0, 2.0, 4.0], y=[10.0, 12.0, 13.0, 18.0], b=[2, 5], brute=False)
    yield dict(x=[0.0, 1.0, 2.0, 4.0], y=[10.0, 12.0, 13.0, 18.0], b=[2, 5], brute=True)
    yield dict(p=[[1.0, 2.0], [1.0, 2.0], [3.0, 4.0], [2.0, 5.0]], b=[2, 3])
    yield dict(p=[[1.0, 2.0]], b=[1, 1])
    yield dict(p=[[1.0, 2.0], [3.0, 4.0]], b=[1, 5])
    yield dict(p=[[1.0, 2.0], [3.0, 4.0], [3.0, 4.5], [1.0, 2.0]], b=[5, 1])
    yield dict(p=[[0.0, 0.0], [8.0, 100.0], [8.0, 100.0], [8.0, 0.0]], b=[4, 7])


def generate(rng):
    if rng.random() < 0.1:
        return dict(x=grid_vals(rng, 6, 0, 16), y=grid_vals(rng, 6, 0, 60), b=[rng.choice([1, 2, 7]), rng.choice([1, 3, 5])], brute=rng.random() < 0.5)
    n = rng.choice([1, 2, 5, 20, 200])
    p = [[a, b] for a, b in zip(grid_vals(rng, n, 0, 8), grid_vals(rng, n, -40, 100, 5.0))]
    return dict(p=p, b=[rng.choice([1, 2, 3, 7, 12]), rng.choice([1, 2, 4, 5, 11])])


def check(c):
    if "x" in c:
        lim = [-1e4, 1e4, -1e6, 1e6]
        cal = calibrator_transform(c["x"], c["y"], lim, 9, *c["b"], c["brute"])
        if cal is None or len(cal.hough_points) == 0:
            return
        h = cal.ht
        c = dict(p=np.asarray(cal.hough_points).tolist(), b=c["b"])
        if not np.array_equal(cal.hough_lines, h.hough_lines):
            return "the calibrator holds other lines than the transform"
        if [h.min_slope, h.max_slope, h.min_intercept, h.max_intercept] != lim:
            return "the transform has other limits than the calibrator"
    else:
        h = HoughTransform()
        h.set_constraints(-100.0, 100.0, -1000.0, 1000.0)
        pts = np.array(c["p"])
        h.hough_points = pts
        h.bin_hough_points(*c["b"])
    e, xe, ye = np.histogram2d([q[0] for q in c["p"]], [q[1] for q in c["p"]], bins=c["b"])
    if not np.array_equal(h.hough_points, np.array(c["p"])):
        return "the points changed"
    for name, got, exp in (("hist", h.hist, e), ("xedges", h.xedges, xe), ("yedges", h.yedges, ye)):
        if np.shape(got) != np.shape(exp) or not np.allclose(got, exp, rtol=1e-12, atol=1e-12):
            return "%s is %s, expected %s" % (name, np.asarray(got).tolist(), exp.tolist())
    L = [tuple(map(float, l)) for l in h.hough_lines]
    if len(L) != e.size:
        return "%d lines for %d bins" % (len(L), e.size)
    xc, yc = (xe[:-1] + xe[1:]) / 2, (ye[:-1] + ye[1:]) / 2
    seen, last = set(), None
    for k, (g, q) in enumerate(L):
        i, j = int(np.argmin(abs(xc - g))), int(np.argmin(abs(yc - q)))
        if not close(xc[i], g) or not close(yc[j], q):
            return "line %d %s is no centre of a bin" % (k, (g, q))
        if (i, j) in seen:
            return "bin %s is listed twice" % ((i, j),)
        seen.add((i, j))
        if last is not None and e[i, j] > last:
            return "counts increase at line %d" % k
        last = e[i, j]
