import numpy as np
from rascal.synthetic import SyntheticSpectrum
from .common import *

MIN_CASES = 60


def fixed():
    for k in ("list", "array"):
        yield dict(what="pixels", c=[400.0], lim=[300.0, 800.0], w=[350.0, 300.0, 800.0, 500.0, 250.0, 900.0], kind=k)
        yield dict(what="pixels", c=[400.0, 2.0], lim=[300.0, 800.0], w=[350.0, 300.0, 800.0, 500.0, 250.0, 900.0, 350.0], kind=k)
        yield dict(what="pixels", c=[400.0, 2.0, 0.001], lim=[410.0, 800.0], w=[700.0, 450.0, 500.0, 900.0], kind=k)
        yield dict(what="pixels", c=[400.0, 2.0, 0.001, 1e-6], lim=[410.0, 800.0], w=[700.0, 450.0, 500.0, 900.0], kind=k)
        yield dict(what="pixels", c=[800.0, -2.0], lim=[300.0, 800.0], w=[350.0, 500.0], kind=k)
        yield dict(what="pixels", c=[400.0, 2.0], lim=[300.0, 800.0], w=[], kind=k)
    for a in (None, 3.0, (1.0, 2.0), "x"):
        yield dict(what="bad", arg=a if not isinstance(a, tuple) else {"tuple": list(a)})
    yield dict(what="limits", steps=[[300.0, None], [None, 250.0], [None, 2000.0], [2500.0, None], [2500.0, 2600.0], [5, None], [None, 9000], [1.0, "x"], [3000.0, 3000.0], [None, None]])


def generate(rng):
    if rng.random() < 0.4:
        v = lambda: rng.choice([None, None, rng.randint(0, 40) * 50.0, rng.randint(0, 40) * 50.0, rng.randint(0, 9), "5", True])
        return dict(what="limits", steps=[[v(), v()] for _ in range(rng.randint(1, 6))])
    d = rng.randint(0, 4)
    c = [rng.randint(200, 500) * 1.0] + [rng.randint(1, 20) / 4 / 400.0 ** (k - 1) for k in range(1, d + 1)]
    # models beyond the line stay increasing on all the numbers
    if d == 2:
        c[2] = c[1] * rng.choice([-1, 1]) / 1e5
    if d > 2:
        c = c[:2] + [0.0, c[1] / 1e6, 0.0][:d - 1]
    lo = rng.choice([200.0, 300.0, 450.0])
    lim = [lo, lo + rng.choice([50.0, 400.0, 1000.0])]
    w = [rng.choice(lim + [lo + rng.randint(-10, 60) * 10.0]) for _ in range(rng.randint(0, 8))]
    return dict(what="pixels", c=c, lim=lim, w=w, kind=rng.choice(["list", "array"]))


def check(c):
    mk = (lambda v: np.array(v, dtype=float)) if c.get("kind") == "array" else list
    if c["what"] == "limits":
        s = SyntheticSpectrum()
        lo, hi = s.min_wavelength, s.max_wavelength
        if not lo < hi:
            return "limits of a new spectrum"
        for a, b in c["steps"]:
            ok = all(v is None or isinstance(v, float) for v in (a, b))
            nlo, nhi = (lo if a is None else a), (hi if b is None else b)
            try:
                s.set_wavelength_limit(a, b)
                if not ok:
                    return "accepted %r, %r" % (a, b)
                if not nlo < nhi:
                    return "accepted an inverted range %r, %r" % (nlo, nhi)
                lo, hi = nlo, nhi
            except TypeError:
                if ok:
                    return "refused %r, %r" % (a, b)
            except RuntimeError:
                if ok and nlo < nhi:
                    return "refused %r, %r" % (a, b)
            if (s.min_wavelength, s.max_wavelength) != (lo, hi):
                return "limits %r after (%r, %r), expected %r" % ((s.min_wavelength, s.max_wavelength), a, b, (lo, hi))
        return None
    if c["what"] == "bad":
        a = c["arg"]
        a = tuple(a["tuple"]) if isinstance(a, dict) else a
        for f in (lambda: SyntheticSpectrum().set_model(a), lambda: SyntheticSpectrum([1.0, 2.0]).get_pixels(a)):
            try:
                f()
                return "accepted %r" % (a,)
            except TypeError:
                pass
        return None
    co = mk(c["c"])
    w = mk(c["w"])
    s = SyntheticSpectrum(co, *c["lim"])
    s2 = SyntheticSpectrum()
    s2.set_wavelength_limit(*c["lim"])
    s2.set_model(co)
    for sp in (s, s2):
        p, q = sp.get_pixels(w)
        keep = [x for x in c["w"] if c["lim"][0] < x < c["lim"][1]]
        if not eqlist(q, keep):
            return "wavelengths %s, expected %s" % (list(q), keep)
        if len(p) != len(keep):
            return "%d pixels for %d wavelengths" % (len(p), len(keep))
        if len(c["c"]) == 1:
            if any(v != c["c"][0] for v in p):
                return "constant model gives %s" % (list(p),)
        else:
            back = [sum(k * float(x) ** i for i, k in enumerate(c["c"])) for x in p]
            if not closelist(back, keep, 1e-5, 1e-3):
                return "model(pixel) = %s, wavelengths %s" % (back, keep)
        for x in (0.0, 3.5, -2.0):
            if not close(float(sp.model(x)), sum(k * x ** i for i, k in enumerate(c["c"]))):
                return "model(%s) = %s" % (x, sp.model(x))
    if list(co) != c["c"] or list(w) != c["w"]:
        return "argument changed"
    return None
