import numpy as np
from rascal.houghtransform import HoughTransform
from .common import *

MIN_CASES = 200


def fixed():
    yield dict(x=[0.0, 1.0, 2.0], y=[10.0, 12.0, 14.0], lim=[1.0, 3.0, 8.0, 12.0], n=5, add=None, ints=False)
    yield dict(x=[0.0, 1.0, 2.0], y=[10.0, 12.0, 14.0], lim=[1.0, 3.0, 8.0, 12.0], n=5, add=None, ints=False, cal=True)
    yield dict(x=[3], y=[10.0], lim=[0.0, 2.0, 4.0, 10.0], n=3, add=None, ints=True)
    yield dict(x=[5.0, 5.0], y=[10.0, 10.0], lim=[0.0, 4.0, -20.0, 20.0], n=9, add=None, ints=False)
    yield dict(x=[1.0], y=[100.0], lim=[0.0, 4.0, -20.0, 20.0], n=9, add=None, ints=False)
    yield dict(x=[0.0, 7.0], y=[0.0, 14.0], lim=[2.0, 2.0, 0.0, 0.0], n=2, add=None, ints=False)
    for what in ("array", "hough", "list", "none", "str", "tuple", "int"):
        yield dict(old=[[1.0, 2.0], [3.0, 4.0]], new=[[5.0, 6.0], [1.0, 2.0], [0.5, 0.25]], add=what)
    yield dict(old=[[1.0, 2.0]], new=[[-5.0, 6.0]], add="array")


def generate(rng):
    if rng.random() < 0.15:
        p = lambda n: [grid_vals(rng, 2, -4, 4) for _ in range(n)]
        return dict(old=p(rng.randint(1, 5)), new=p(rng.randint(1, 5)), add=rng.choice(["array", "hough", "list", "tuple"]))
    m = rng.choice([1, 2, 3, 6])
    ints = rng.random() < 0.3
    x = [float(v) for v in grid_vals(rng, m, 0, 16, 1.0 if ints else 0.5)]
    if ints:
        x = [int(v) for v in x]
    k = rng.choice([1, 2, 4, 8, 16, 3, 5, 9])
    lo = rng.choice([-2.0, 0.0, 0.5, 1.0])
    hi = lo + rng.choice([0.0, 0.5, 2.0, 4.0])
    ilo = rng.choice([-20.0, -4.0, 0.0, 5.0])
    ihi = ilo + rng.choice([0.0, 1.0, 8.0, 64.0])
    return dict(x=x, y=grid_vals(rng, m, -10, 60, 0.25), lim=[lo, hi, ilo, ihi], n=k + 1, add=None, ints=ints, cal=m > 1 and rng.random() < 0.1)


def hough(lim=(0.0, 1.0, 0.0, 1.0)):
    h = HoughTransform()
    h.set_constraints(*lim)
    return h


def check(c):
    if c["add"]:
        h, g = hough(), hough()
        h.hough_points = np.array(c["old"])
        new = np.array(c["new"])
        g.hough_points = new
        obj = {"array": new, "hough": g, "list": c["new"], "none": None, "str": "abc", "tuple": tuple(c["new"]), "int": 3}[c["add"]]
        try:
            h.add_hough_points(obj)
        except TypeError:
            if c["add"] in ("array", "hough"):
                return "refused %s" % c["add"]
            if not np.array_equal(h.hough_points, np.array(c["old"])):
                return "points changed by a refused call"
            return
        if c["add"] not in ("array", "hough"):
            return "a %s was not refused" % c["add"]
        if not np.array_equal(h.hough_points, np.array(c["old"] + c["new"])):
            return "points %s" % h.hough_points.tolist()
        if not np.array_equal(g.hough_points, np.array(c["new"])):
            return "points handed in changed"
        return
    if c.get("cal"):
        h = calibrator_transform(c["x"], c["y"], c["lim"], c["n"], 3, 5, False)
        if h is None:
            return
    else:
        h = hough(c["lim"])
        x, y = np.array(c["x"]), np.array(c["y"])
        h.generate_hough_points(x, y, c["n"])
    lo, hi, ilo, ihi = c["lim"]
    eps = 1e-9
    exact = (c["n"] - 1) & (c["n"] - 2) == 0
    must, may = [], []
    for s in range(c["n"]):
        g = lo + s * (hi - lo) / (c["n"] - 1)
        for a, b in zip(c["x"], c["y"]):
            q = b - g * a
            e = 0 if exact else eps
            if ilo + e <= q <= ihi - e:
                must.append((g, q))
            elif ilo - e <= q <= ihi + e:
                may.append((g, q))
    pts = np.asarray(h.hough_points)
    if pts.ndim != 2 or pts.shape[1] != 2:
        return "shape %s" % (pts.shape,)
    return match(pts.tolist(), must, may)


def match(got, must, may, rel=1e-9):
    """got is must and some of may, each once"""
    got = sorted(map(tuple, got))
    left = list(got)
    for kind, want in (("must", sorted(must)), ("may", may)):
        for w in want:
            for i, p in enumerate(left):
                if close(p[0], w[0]) and close(p[1], w[1]):
                    del left[i]
                    break
            else:
                if kind == "must":
                    return "point %s is missing in %s" % (w, got[:20])
    if left:
        return "point %s does not belong to the points" % (left[0],)
