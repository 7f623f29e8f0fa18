import numpy as np
from rascal.atlas import Atlas, AtlasLine
from rascal.calibrator import Calibrator
from .common import *

MIN_CASES = 200


def fixed():
    yield dict(wl=[100.0, 101.0, 102.0, 103.0, 200.0], w=101.5, tol=5.0, cal=False)
    yield dict(wl=[], w=1.0, tol=5.0, cal=False)
    yield dict(wl=[90.0, 91.0, 110.0, 109.5], w=100.0, tol=10.0, cal=False)
    yield dict(wl=[90.0, 91.0, 110.0, 109.5], w=100.0, tol=None, cal=False)
    yield dict(wl=[5000.0, 5001.0, 5002.0], w=5001.0, tol=0.0, cal=True)
    yield dict(wl=[5000.0 + i for i in range(30)], w=5010.0, tol=7.0, cal=True)
    yield dict(wl=[5000.0, 4999.0, 5000.0, 5000.0], w=5000.0, tol=0.5, cal=True)


def generate(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
    lo, hi = rng.choice([(95.0, 105.0), (50.0, 150.0), (0.0, 3.0)])
    wl = grid_vals(rng, n, lo, hi)
    if rng.random() < 0.5:
        wl.sort()
    return dict(wl=wl, w=grid_vals(rng, 1, lo, hi)[0], tol=rng.choice([None, 0.0, 0.5, 1.0, 3.0, 10.0, 1000.0, -1.0]), cal=rng.random() < 0.3)


def nontrivial(c):
    return len(c["wl"]) > 1


def check(c):
    a = Atlas()
    lines = [AtlasLine(w, "E%d" % i, float(i), "S%d" % i) for i, w in enumerate(c["wl"])]
    a.atlas_lines = list(lines)
    tol = 10 if c["tol"] is None else c["tol"]
    args = (c["w"],) if c["tol"] is None else (c["w"], c["tol"])
    exp = [(l.wavelength, l.element, l.intensity, l.source) for l in lines if not abs(l.wavelength - c["w"]) < tol]
    if c["cal"]:
        cal = Calibrator([10.0, 20.0, 35.0])
        cal.set_atlas(a)
        cal.remove_atlas_lines_range(*args)
        a = cal.atlas
    else:
        a.remove_atlas_lines_range(*args)
    got = [(l.wavelength, l.element, l.intensity, l.source) for l in a.atlas_lines]
    if got != exp:
        return "left %s, expected %s" % (got, exp)
    if list(a.get_lines()) != [e[0] for e in exp] or list(a.get_elements()) != [e[1] for e in exp] or list(a.get_intensities()) != [e[2] for e in exp] or len(a) != len(exp):
        return "columns disagree with the lines"
