"""Helpers of the bounded searches."""
import math


def grid_vals(rng, n, lo, hi, step=0.5):
    """values on a grid, so that ties and exact borders occur"""
    k = int((hi - lo) / step)
    return [lo + step * rng.randint(0, k) for _ in range(n)]


def close(a, b, rel=1e-9, ab=1e-9):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def eqlist(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def closelist(a, b, rel=1e-9, ab=1e-9):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(close(x, y, rel, ab) for x, y in zip(a, b))


LIMITS = ("min_slope", "max_slope", "min_intercept", "max_intercept")


def calibrator_transform(x, y, lim, n, xbins, ybins, brute):
    """the calibrator after its Hough transform of these pairs; None if it does not keep its settings so"""
    import numpy as np
    from rascal.calibrator import Calibrator
    c = Calibrator([10.0, 20.0, 30.0])
    c.logger.setLevel("CRITICAL")
    if not all(hasattr(c, a) for a in LIMITS + ("num_slopes", "xbins", "ybins", "ht")):
        return None
    c.pairs = np.array([x, y], dtype=float).T
    for a, v in zip(LIMITS, lim):
        setattr(c, a, v)
    c.num_slopes, c.xbins, c.ybins = n, xbins, ybins
    c.do_hough_transform(brute_force=brute)
    return c
