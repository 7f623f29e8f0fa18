import signal, sys
import numpy as np
from rascal.calibrator import Calibrator
from rascal.atlas import Atlas
from .common import *
from . import c14

MIN_CASES = 60
TIMEOUT_OK = True
OK = [0]


def arg(how, v):
    if how == "scalar":
        return v[0]
    if how == "int":
        return int(v[0])
    if how == "ints":
        return [int(x) for x in v]
    if how == "intarr":
        return np.array([int(x) for x in v], dtype=int)
    return {"list": list, "tuple": tuple, "arr": np.array}[how](v)


def fixed():
    for how in ("list", "tuple", "arr", "ints", "intarr"):
        yield dict(kind="set", old=[[1.0, 2.0], [10.0, 20.0]], pix=[300.0, 100.0, 200.0], wave=[4600.0, 4200.0, 4400.0], ph=how, wh="list")
        yield dict(kind="set", old=None, pix=[300.0], wave=[4600.0], ph="list", wh=how)
    for a, b in (("scalar", "scalar"), ("int", "int"), ("scalar", "list"), ("int", "arr")):
        yield dict(kind="set", old=[[1.0], [10.0]], pix=[300.0], wave=[4600.0], ph=a, wh=b)
    yield dict(kind="set", old=[[1.0], [10.0]], pix=[300.0, 200.0], wave=[4600.0], ph="list", wh="list")
    yield dict(kind="set", old=[[1.0], [10.0]], pix=[], wave=[4600.0], ph="list", wh="list")
    yield dict(kind="set", old=[[1.0], [10.0]], pix=[], wave=[], ph="list", wh="list")
    yield dict(kind="set", old=[[1.0], [10.0]], pix=[300.0, "nan"], wave=[4600.0, 4700.0], ph="arr", wh="list")
    yield dict(kind="set", old=[[1.0], [10.0]], pix=[300.0, 200.0], wave=["nan", 4700.0], ph="list", wh="list")
    yield dict(kind="set", old=None, pix=[300.0, 200.0], wave=[4600.0, "nan"], ph="list", wh="arr")
    yield dict(kind="set", old=None, pix=["nan"], wave=[4600.0], ph="scalar", wh="scalar")
    for kn in ([[300.0, 100.0], [4600.0, 4200.0]], [[300.0], [4600.0]], [[-50.0, 300.0, 1200.0], [3900.0, 4600.0, 6400.0]], [[], []], None):
        for br in (False, True):
            yield dict(kind="fit", c=c14.base(known=kn, brute=br, sample=3 if br else 5, deg=2 if br else 3))
    yield dict(kind="fit", c=c14.base(known=[[300.0, 100.0], [4600.0, 4200.0]], cycles=2, topn=1, close=True))


def generate(rng):
    if rng.random() < 0.7:
        n = rng.randint(0, 5)
        m = n if rng.random() < 0.8 else rng.randint(0, 5)
        hs = ["list", "tuple", "arr", "ints", "intarr"]
        c = dict(kind="set", old=[[1.0, 2.0], [10.0, 20.0]] if rng.random() < 0.6 else None,
                 pix=[float(rng.randint(-20, 1200)) for _ in range(n)], wave=[float(rng.randint(3000, 6000)) for _ in range(m)], ph=rng.choice(hs), wh=rng.choice(hs))
        for k, h in (("pix", "ph"), ("wave", "wh")):
            if len(c[k]) == 1 and rng.random() < 0.6:
                c[h] = rng.choice(["scalar", "int"])
            elif c[k] and rng.random() < 0.15:
                c[k][rng.randrange(len(c[k]))] = "nan"
                c[h] = rng.choice(["list", "tuple", "arr"])
        return c
    c = c14.generate(rng)
    n = rng.randint(1, 4)
    px = [float(rng.randint(-50, 1100)) for _ in range(n)]
    c["known"] = [px, [round(float(c14.VAL["poly"](p, c["coef"])) + rng.choice([0.0, 0.5]), 3) for p in px]]
    return dict(kind="fit", c=c)


def nontrivial(c):
    return c["kind"] == "fit" or bool(c["pix"])


def num(v):
    return [float(x) for x in v]


def check(c):
    if c["kind"] == "set":
        cal = Calibrator([10.0, 20.0, 30.0])
        if c["old"]:
            cal.set_known_pairs(*c["old"])
        P, W = num(c["pix"]), num(c["wave"])
        bad = len(P) != len(W) or any(np.isnan(P)) or any(np.isnan(W))
        p, w = arg(c["ph"], P), arg(c["wh"], W)
        before = (cal.pix_known, cal.wave_known)
        held = [None if v is None else list(v) for v in before]
        try:
            cal.set_known_pairs(p, w)
        except (AssertionError, ValueError):
            if not bad:
                return "refused %s %s" % (P, W)
            now = [None if v is None else list(v) for v in (cal.pix_known, cal.wave_known)]
            return None if now == held else "refused, but holds %s instead of %s" % (now, held)
        if bad:
            return "accepted %s %s" % (P, W)
        for got, want, n in ((cal.pix_known, P, "pix"), (cal.wave_known, W, "wave")):
            if list(got) != want or any(not isinstance(x, float) for x in got):
                return "%s held: %s, given: %s" % (n, list(got), want)
        return None
    c = c["c"]
    signal.setitimer(signal.ITIMER_REAL, 2.0)
    np.random.seed(c["seed"])
    cal = c14.calibrator(c)
    if cal is None:
        return None
    calls = []
    mods = {"poly": (np.polynomial.polynomial, "polyfit"), "legendre": (np.polynomial.legendre, "legfit"), "chebyshev": (np.polynomial.chebyshev, "chebfit")}
    mod, name = mods[c["fam"]]
    keep = getattr(mod, name)

    def record(x, y, deg, *a, **k):
        if "calibrator" in sys._getframe(1).f_code.co_filename:
            calls.append((list(x), list(y)))
            if len(calls) > 60:
                raise RuntimeError("enough")
        return keep(x, y, deg, *a, **k)
    setattr(mod, name, record)
    try:
        for i in range(c["cycles"]):
            try:
                cal.fit(max_tries=c["tries"], fit_deg=c["deg"], fit_type=c["fam"], candidate_tolerance=3.0, brute_force=c["brute"], progress=c["progress"])
            except BaseException:
                pass
    finally:
        setattr(mod, name, keep)
        signal.setitimer(signal.ITIMER_REAL, 0)
    if calls:
        OK[0] += 1
    known = list(zip(*c["known"])) if c["known"] else []
    cand = set(zip(list(cal.candidate_peak), list(cal.candidate_arc))) if hasattr(cal, "candidate_peak") else None
    for X, Y in calls:
        if len(X) != len(Y):
            return "trial fit of %d pixels and %d wavelengths" % (len(X), len(Y))
        rest = list(zip(X, Y))
        for q in known:
            if tuple(q) not in rest:
                return "known pair %s is not among the points of a trial fit: %s" % (q, rest)
            rest.remove(tuple(q))
        if cand is not None and any(q not in cand for q in rest):
            return "points of a trial fit that are neither known nor candidates: %s" % [q for q in rest if q not in cand]
        if not rest:
            return "a trial fit without drawn pairs"
