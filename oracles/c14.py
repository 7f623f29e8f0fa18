import signal
import numpy as np
from rascal.calibrator import Calibrator
from rascal.atlas import Atlas
from .common import *

MIN_CASES = 60
TIMEOUT_OK = True  # whether a fit ends at all is not this property
VAL = {"poly": np.polynomial.polynomial.polyval, "legendre": np.polynomial.legendre.legval, "chebyshev": np.polynomial.chebyshev.chebval}


def base(**kw):
    c = dict(lines=[4100.0, 4250.0, 4333.0, 4500.0, 4621.0, 4790.0, 4900.0, 5050.0, 5230.0, 5400.0], coef=[4000.0, 2.0, 0.0], shifts=[0.0] * 8, drop=[3, 7], extra=[], deg=2,
             fam="poly", tol=5.0, tries=25, brute=False, progress=False, guess=None, known=None, linear=True, close=False, topn=5, sample=5, mm=0, mpu=0.0, mfe=0.0, weight=1.0, seed=1, cycles=1, load=False)
    c.update(kw)
    return c


def fixed():
    yield base()
    yield base(mm=6)
    yield base(mm=100)
    yield base(mpu=0.75, extra=[77.0, 301.0])
    yield base(mfe=0.4, shifts=[0.3, -0.2, 0.1, 0.4, -0.4, 0.2, 0.0, -0.3])
    yield base(fam="legendre")
    yield base(fam="chebyshev", deg=1)
    yield base(brute=True, sample=3, tries=3)
    yield base(guess=[4000.0, 2.0, 0.0])
    yield base(known=[[50.0, 125.0], [4100.0, 4250.0]])
    yield base(close=True, lines=[4100.0, 4103.0, 4250.0, 4333.0, 4500.0, 4621.0, 4790.0, 4900.0, 5050.0, 5230.0, 5400.0], tol=2.0)
    yield base(cycles=2, progress=True)
    yield base(tol=0.5, shifts=[0.3, -0.2, 0.1, 0.4, -0.4, 0.2, 0.0, -0.3])
    yield base(weight=None, load=True)
    # peaks no line can belong to count in the utilisation
    for k in (1, 2, 3):
        yield base(lines=base()["lines"][:8], drop=[], extra=[900.0, 950.0, 990.0][:k], shifts=[0.1, -0.1] * 4, mpu=0.9, deg=1)
    # solutions that are turned down after one was accepted
    for sd in range(6):
        yield base(lines=base()["lines"] + [v + 3.0 for v in base()["lines"]], drop=[3] + list(range(8, 20)), shifts=[0.3, -0.3, 0.2, 0.0, -0.2, 0.4, 0.1, -0.1], tol=2.0, mfe=[0.05, 0.2, 0.3, 0.4, 0.5, 0.6][sd], sample=3, deg=2, tries=60, seed=sd)
    yield base(topn=1, deg=1, coef=[4000.0, 2.0, 1e-4])


def generate(rng):
    n = rng.randint(6, 12)
    lines = sorted(rng.sample(range(4050, 5800, 5), n))
    k = rng.choice([0.0, 0.2, 1.0])
    c = base(lines=[float(v) for v in lines], coef=[rng.choice([3900.0, 4000.0, 4040.0]), rng.choice([1.8, 2.0, 2.3]), rng.choice([0.0, 0.0, 1e-5])],
             shifts=[rng.uniform(-k, k) for _ in range(n)], drop=rng.sample(range(n), rng.randint(0, n - 5)), extra=[float(v) for v in rng.sample(range(20, 800), rng.choice([0, 0, 1, 3]))],
             deg=rng.randint(1, 3), fam=rng.choice(["poly", "poly", "poly", "legendre", "chebyshev"]), tol=rng.choice([0.5, 2.0, 5.0]), tries=rng.randint(1, 30),
             brute=rng.random() < 0.15, progress=rng.random() < 0.1, linear=rng.random() < 0.85, close=rng.random() < 0.2, topn=rng.randint(1, 6), sample=rng.randint(2, 6),
             mm=rng.choice([0, 0, 0, 3, 5, 100]), mpu=rng.choice([0.0, 0.0, 0.0, 0.5, 0.8]), mfe=rng.choice([0.0, 0.0, 1e-4, 0.05]), weight=rng.choice([1.0, 1.0, 0.0, 10.0]),
             seed=rng.randint(0, 10 ** 6), cycles=rng.choice([1, 1, 2]))
    if rng.random() < 0.15:
        c["guess"] = list(c["coef"])
    if rng.random() < 0.15:
        c["known"] = [[100.0, 300.0], [VAL["poly"](100.0, c["coef"]), VAL["poly"](300.0, c["coef"])]]
    if c["brute"]:
        c.update(sample=c["deg"] + 1, topn=2)
    return c


def nontrivial(c):
    return True


def peaks_of(c):
    out = []
    for i, w in enumerate(c["lines"]):
        if i in c["drop"]:
            continue
        r = [v.real for v in np.roots([c["coef"][2], c["coef"][1], c["coef"][0] - w]) if abs(v.imag) < 1e-9 and 0 <= v.real < 1000] if c["coef"][2] else [(w - c["coef"][0]) / c["coef"][1]]
        if r:
            out.append(min(r) + (c["shifts"][i] if i < len(c["shifts"]) else 0.0))
    return sorted(set(round(v, 6) for v in out + c["extra"]))


def wrong(c, cal, P, A, r, fam, deg, mm):
    coef, X, Y, rms, res, pu, au = r
    X, Y, res, coef = list(X), list(Y), list(res), list(coef)
    n = len(X)
    if not (n == len(Y) == len(res)):
        return "%d peaks, %d lines, %d residuals" % (n, len(Y), len(res))
    if len(coef) != deg + 1:
        return "%d coefficients for degree %d" % (len(coef), deg)
    if len(set(X)) != n or len(set(Y)) != n:
        return "matched twice: %s %s" % (X, Y)
    if any(x not in P for x in X) or any(y not in A for y in Y):
        return "matched what is no peak or no line: %s %s" % (X, Y)
    if hasattr(cal, "candidate_peak") and hasattr(cal, "candidate_arc"):
        pairs = set(zip(list(cal.candidate_peak), list(cal.candidate_arc)))
        if any(q not in pairs for q in zip(X, Y)):
            return "a matched pair is no candidate: %s" % [q for q in zip(X, Y) if q not in pairs]
    d = VAL[fam](np.array(X, dtype=float), np.array(coef, dtype=float)) - np.array(Y, dtype=float)
    want = np.where(np.abs(d) > c["tol"], c["tol"], d)
    edge = np.abs(np.abs(d) - c["tol"]) < 1e-6
    if not np.all((np.abs(want - np.array(res)) < 1e-6 * (1 + np.abs(want))) | edge):
        return "residuals %s, expected %s" % (res, list(want))
    w = float(np.sqrt(np.mean(np.array(res) ** 2)))
    if not close(rms, w, 1e-9, 1e-12):
        return "rms %r, expected %r" % (rms, w)
    if not close(pu, n / len(P)) or not close(au, n / len(A)):
        return "utilisations %r %r for %d matches, %d peaks, %d lines" % (pu, au, n, len(P), len(A))
    if n < min(mm, len(P), len(A)):
        return "%d matches, at least %d wanted" % (n, mm)
    if n < c["mpu"] * len(P) - 1e-9:
        return "%d matches of %d peaks, at least %s wanted" % (n, len(P), c["mpu"])
    if rms < c["mfe"]:
        return "rms %r below the minimum %r" % (rms, c["mfe"])
    held = (cal.fit_coeff, cal.matched_peaks, cal.matched_atlas, cal.rms, cal.residual, cal.peak_utilisation, cal.atlas_utilisation)
    for i, (a, b) in enumerate(zip(r, held)):
        if not np.array_equal(np.array(a, dtype=float), np.array(b, dtype=float)):
            return "value %d returned is %s, the calibrator holds %s" % (i, a, b)


def calibrator(c):
    """a calibrator ready to fit"""
    P = peaks_of(c)
    if len(P) < 3:
        return None
    cal = Calibrator(list(P))
    cal.set_calibrator_properties(num_pix=1000)
    A = list(c["lines"])
    a = Atlas(min_atlas_wavelength=1000, max_atlas_wavelength=9000)
    a.add_user_atlas(["X"] * len(A), A, vacuum=False)
    lo, hi = c["coef"][0], VAL["poly"](1000.0, c["coef"])
    cal.set_hough_properties(num_slopes=120, xbins=40, ybins=40, min_wavelength=lo, max_wavelength=hi, range_tolerance=200.0, linearity_tolerance=20.0)
    cal.set_atlas(a)
    cal.set_ransac_properties(sample_size=c["sample"], top_n_candidate=c["topn"], linear=c["linear"], filter_close=c["close"], ransac_tolerance=c["tol"], hough_weight=c["weight"],
                              minimum_matches=c["mm"] or None, minimum_peak_utilisation=c["mpu"], minimum_fit_error=c["mfe"])
    if c["known"]:
        cal.set_known_pairs(*c["known"])
    cal.do_hough_transform()
    return cal


def check(c):
    signal.setitimer(signal.ITIMER_REAL, 2.0)
    np.random.seed(c["seed"])
    cal = calibrator(c)
    if cal is None:
        return None
    P, A = list(cal.peaks), list(cal.atlas.get_lines())
    for i in range(c["cycles"]):
        deg = c["deg"] if c["guess"] is None else len(c["guess"]) - 1
        try:
            r = cal.fit(max_tries=c["tries"], fit_deg=c["deg"], fit_coeff=None if c["guess"] is None else list(c["guess"]), fit_type=c["fam"], candidate_tolerance=3.0, brute_force=c["brute"], progress=c["progress"])
        except Exception:
            return None  # nothing is promised for a fit that fails
        OK[0] += 1
        m = wrong(c, cal, P, A, r, c["fam"], deg, c["mm"])
        if m:
            return m + (" (fit %d)" % (i + 1))


OK = [0]
