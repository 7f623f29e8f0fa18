import math
import numpy as np
from scipy.optimize import curve_fit
from rascal.util import refine_peaks
from .common import *

MIN_CASES = 60
OK = [0]


def fixed():
    yield dict(n=60, lines=[[20.3, 90.0, 2.0], [40.7, 50.0, 1.5]], peaks=[20, 41], w=10)
    yield dict(n=60, lines=[[1.4, 90.0, 2.0], [57.8, 50.0, 1.5]], peaks=[1, 58], w=10)
    yield dict(n=60, lines=[[20.3, 90.0, 1.2], [25.7, 50.0, 1.2]], peaks=[20, 26], w=8)
    yield dict(n=60, lines=[[20.3, 90.0, 2.0]], peaks=[18, 20, 21, 22.9, 55], w=6)
    yield dict(n=60, lines=[[20.3, 90.0, 2.0], [40.6, 70.0, 2.0]], peaks=[20, 41], w=10, bad=[[24, "nan"], [36, "inf"], [45, "-inf"]])
    yield dict(n=60, lines=[[20.3, 90.0, 2.0]], peaks=[20.9, 0, 59], w=2)
    yield dict(n=60, lines=[[20.3, 90.0, 2.0]], peaks=[20], w=1)
    yield dict(n=60, lines=[[20.3, -5.0, 2.0]], base=9.0, peaks=[20], w=7)
    yield dict(n=60, lines=[], base=0.0, peaks=[20, 30], w=5)
    yield dict(n=60, lines=[[20.3, 90.0, 2.0]], base=-200.0, peaks=[20], w=5)
    yield dict(n=60, lines=[[30.0, 200.0, 9.0]], peaks=[12, 48], w=5)
    yield dict(n=60, lines=[[20.3, 90.0, 2.0]], peaks=[], w=5)


def generate(rng):
    n = rng.choice([25, 60, 120])
    lines = [[rng.uniform(-2, n + 2), rng.choice([-20.0, 30.0, 80.0, 200.0]), rng.choice([0.8, 1.5, 3.0, 9.0])] for _ in range(rng.randint(0, 4))]
    peaks = []
    for x, _, _ in lines:
        if 0 <= x < n - 1:
            peaks.append(rng.choice([round(x), math.floor(x), x]))
            if rng.random() < 0.3:
                peaks.append(peaks[-1] + rng.choice([1, -1, 0.4, 3]))
    peaks += [rng.randrange(n) for _ in range(rng.randint(0, 3))]
    peaks = [p for p in peaks if 0 <= p <= n - 1]
    if rng.random() < 0.7:
        peaks.sort()
    bad = [[rng.randrange(n), rng.choice(["nan", "nan", "inf", "-inf"])] for _ in range(rng.choice([0, 0, 1, 6]))]
    return dict(n=n, lines=lines, base=rng.choice([0.0, 1.0, 5.0, -100.0]), noise=rng.choice([0.0, 1.0]), seed=rng.randrange(10 ** 6), bad=bad, peaks=peaks, w=rng.choice([1, 2, 3, 5, 10, 10, 20]), kind=rng.choice(["list", "array"]))


def spectrum(c):
    x = np.arange(c["n"], dtype=float)
    s = np.full(c["n"], c.get("base", 1.0))
    for m, a, w in c["lines"]:
        s += a * np.exp(-((x - m) ** 2) / (2 * w * w))
    if c.get("noise"):
        s += c["noise"] * np.random.RandomState(c["seed"]).rand(c["n"])
    for k, v in c.get("bad", []):
        s[k] = float(v)
    return s


def shape(x, a, m, s):
    return a * np.exp(-((x - m) ** 2) / (2 * s ** 2 + 1e-9))


def fit(x, y, p0):
    try:
        (a, m, _), _ = curve_fit(shape, x, y, p0=p0)
        return True, a, m
    except RuntimeError:
        return False, 0.0, 0.0


def check(c):
    s = spectrum(c)
    n = len(s)
    fits = []
    for p in c["peaks"]:
        lo, hi = max(0, int(p) - c["w"]), min(int(p) + c["w"], n)
        x = [k for k in range(lo, hi) if np.isfinite(s[k])]
        if len(x) < 3:
            continue
        top = max(s[k] for k in x)
        if top == 0:
            continue
        x, y = np.array(x) - lo, np.array([s[k] for k in x]) / top
        # the initial guess decides which of several minima is found: the same one is used here
        m = np.sum(x * y) / len(x)
        p0 = np.array([1, m, np.sum(y * (x - m) ** 2) / len(x)])
        r = [fit(x, y, p0 * (1 + d)) for d in (0, 1e-11, -1e-11)]
        if any(q[0] != r[0][0] or abs(q[2] - r[0][2]) > 1e-4 or (q[1] < 0) != (r[0][1] < 0) for q in r):
            return None     # rounding errors decide where this fit ends
        ok, a, m = r[0]
        if not ok:
            continue
        if a < 0 or m < 0 or m > n:
            continue
        fits.append(lo + m)
    want = [v for k, v in enumerate(fits) if 0 < v < n and not (k and abs(fits[k - 1] - v) <= 1e-8 + 1e-5 * abs(v))]
    mk = np.array if c.get("kind", "array") == "array" else list
    a, b = mk(s), mk(c["peaks"])
    before = repr(list(a)), repr(list(b))
    got = refine_peaks(a, b, window_width=c["w"])
    if (repr(list(a)), repr(list(b))) != before:
        return "the spectrum or the peaks were changed"
    got = [float(v) for v in got]
    OK[0] += bool(want)
    if any(not math.isfinite(v) for v in want):
        return None
    # a least-squares fit is compared to the accuracy of its iteration
    if len(got) != len(want) or any(abs(g - v) > 1e-3 for g, v in zip(got, want)):
        return "refined to %r, the Gaussian centres are %r" % (got, want)
