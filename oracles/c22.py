import copy, io, contextlib
import numpy as np
from rascal import util, models
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.houghtransform import HoughTransform
from rascal.synthetic import SyntheticSpectrum
from .common import *

MIN_CASES = 120
TIMEOUT_OK = True
OK = [0]
COEF = [4000.0, 2.0]
LINES = [4100.0, 4250.0, 4333.0, 4500.0, 4621.0, 4790.0, 4900.0, 5050.0]


def prepared(r, a=None, peaks=None, spectrum=None):
    c = Calibrator(a(sorted((w - 4000.0) / 2 for w in LINES)) if peaks is None else peaks, spectrum)
    c.set_calibrator_properties(num_pix=1000)
    t = Atlas(min_atlas_wavelength=1000, max_atlas_wavelength=9000)
    t.add_user_atlas(["X"] * len(LINES), list(LINES))
    c.set_atlas(t)
    c.set_hough_properties(num_slopes=200, xbins=30, ybins=30, min_wavelength=3950.0, max_wavelength=6050.0, range_tolerance=150.0, linearity_tolerance=30.0)
    c.set_ransac_properties(sample_size=3, top_n_candidate=4, minimum_matches=1, minimum_peak_utilisation=0.0, minimum_fit_error=0.0, filter_close=r.random() < 0.3)
    return c


# each: arrays (by name) made from a random source r and a maker a (list or array), and the call on them
def air(r, a):
    d = dict(wavelengths=a(grid_vals(r, r.randint(0, 6), 3000, 9000)))
    return d, lambda: r.choice([util.vacuum_to_air_wavelength, util.air_to_vacuum_wavelength, util.edlen_refraction])(d["wavelengths"], 283.15, 90000.0, 20.0)


def separation(r, a):
    d = dict(wavelengths=np.array(r.sample(grid_vals(r, 8, 3000, 3100), 6)))
    return d, lambda: util.filter_separation(d["wavelengths"], r.choice([0, 1.0, 10.0]))


def wanted(r, a):
    d = dict(lines=np.array([[str(r.choice("AB")), str(w), "5.0"] for w in grid_vals(r, 6, 3000, 3100)]))
    return d, lambda: util.filter_wavelengths(d["lines"], 3020.0, 3080.0)


def bright(r, a):
    d = dict(elements=a(["A", "B"]), lines=np.array([[r.choice("AB"), str(w), str(r.randint(0, 9))] for w in grid_vals(r, 6, 3000, 3100)]), mi=a([2.0, 5.0]))
    return d, lambda: util.filter_intensity(d["elements"], d["lines"], r.choice([None, 3.0, d["mi"]]))


def library(r, a):
    d = dict(elements=r.choice([["Xe"], ["He", "Xe"], ["Xe", "He", "Cu"]]))
    d["mi"] = a([float(r.randint(0, 20)) for _ in d["elements"]])
    return d, lambda: util.load_calibration_lines(elements=d["elements"], min_intensity=r.choice([10, d["mi"]]), min_distance=r.choice([0, 10.0]), vacuum=r.random() < 0.5,
                                                  brightest_n_lines=r.choice([None, 5]), min_atlas_wavelength=4000.0, max_atlas_wavelength=6000.0)


def refine(r, a):
    n = 60
    x = np.arange(n)
    s = 80 * np.exp(-(x - 20.3) ** 2 / 8) + 50 * np.exp(-(x - 26.6) ** 2 / 8) + r.choice([0, 5])
    if r.random() < 0.3:
        s[r.randrange(n)] = np.nan
    d = dict(spectrum=r.choice([np.array, list, lambda v: np.round(np.nan_to_num(v)).astype(int)])(s), peaks=a([20, 27, r.randrange(n)]))
    return d, lambda: util.refine_peaks(d["spectrum"], d["peaks"], window_width=r.choice([3, 10]))


def derivative(r, a):
    d = dict(p=a(grid_vals(r, r.randint(1, 5), -3, 3)))
    return d, lambda: util._derivative(d["p"])


def poly(r, a):
    d = dict(a=a(grid_vals(r, 4, -3, 3)), x=r.choice([np.array, list])(grid_vals(r, 5, -3, 3)))
    d["x"] = np.array(d["x"])
    return d, lambda: models.polynomial(d["a"], 3)(d["x"])


def robust(r, a):
    x = np.array(sorted(r.sample(range(100), 9)), dtype=r.choice([float, int]))
    k = r.randint(1, 3)
    d = dict(x=x, y=4000.0 + 2.0 * x, x0=r.choice([np.array, list])([4000.0, 2.0, 0.0, 0.0][:k + 1]))
    return d, lambda: models.robust_polyfit(d["x"], d["y"], k, x0=r.choice([None, d["x0"]]))


def synthetic(r, a):
    d = dict(coefficients=a([400.0, 2.0, 0.001][:r.randint(1, 3)]), wavelengths=a(grid_vals(r, 5, 300, 900)))

    def go():
        s = SyntheticSpectrum(min_wavelength=350.0, max_wavelength=800.0)
        s.set_model(d["coefficients"])
        s.get_pixels(d["wavelengths"])
    return d, go


def hough(r, a):
    d = dict(x=np.array(grid_vals(r, 5, 0, 100)), y=np.array(grid_vals(r, 5, 4000, 5000)), hp=np.array([[1.0, 2.0], [3.0, 4.0]]))

    def go():
        h = HoughTransform()
        h.set_constraints(0.0, 100.0, 3000.0, 5000.0)
        h.generate_hough_points(d["x"], d["y"], 10)
        h.add_hough_points(d["hp"])
        h.bin_hough_points(5, 5)
        h.generate_hough_points_brute_force(d["x"], d["y"])
        h.add_hough_points(d["hp"])
    return d, go


def atlas(r, a):
    d = dict(elements=r.choice([["Xe"], ["He", "Xe"]]), names=a(["X", "Y", "X"]), wl=a([5000.0, 4000.0, 4500.0]), inten=a([3.0, 2.0, 1.0]))
    d["mi"] = a([float(r.randint(0, 20)) for _ in d["elements"]])

    def go():
        t = Atlas(min_atlas_wavelength=4000.0, max_atlas_wavelength=6000.0)
        t.add_user_atlas(d["names"], d["wl"], d["inten"], vacuum=r.random() < 0.5)
        t.add(d["elements"], min_intensity=r.choice([10, d["mi"]]) if len(d["elements"]) == 1 else 10, vacuum=r.random() < 0.5)
        t.remove_atlas_lines_range(4500.0, 20.0)
    return d, go


def own(r, a):
    p = [5.0, 100.0, 40.0]
    d = dict(peaks=a(p), spectrum=r.choice([None, np.arange(120.0)]))

    def go():
        c = Calibrator(d["peaks"], d["spectrum"])
        c.set_calibrator_properties(num_pix=120, pixel_list=np.arange(120))
        q, s = d["peaks"], d["spectrum"]
        q[0] = 77.0
        if s is not None:
            s[0] = -1.0
        ok = list(c.peaks) == p and (s is None or list(c.spectrum) == list(np.arange(120.0)))
        q[0] = 5.0
        if s is not None:
            s[0] = 0.0
        if not ok:
            return "the calibrator follows later changes of the caller's peaks or spectrum"
    return d, go


def properties(r, a):
    d = dict(peaks=a([5.0, 100.0, 40.0]), pixel_list=a(list(np.arange(120.0) + (np.arange(120) > 60))))

    def go():
        c = Calibrator(d["peaks"])
        c.set_calibrator_properties(num_pix=120, pixel_list=d["pixel_list"])
        c.set_hough_properties(min_wavelength=4000.0, max_wavelength=5000.0)
        c.set_ransac_properties()
    return d, go


def pairs(r, a):
    w = r.sample(LINES, 2)
    d = dict(pix=a([(v - 4000.0) / 2 for v in w]), wave=a(w), coef=np.array([4000.0, 2.0]))

    def go():
        c = prepared(r, a)
        c.set_known_pairs(d["pix"], d["wave"])
        np.random.seed(r.randrange(1000))
        c.do_hough_transform()
        c.fit(max_tries=20, fit_deg=2, progress=False, fit_tolerance=5.0)
        c.match_peaks(robust_refit=False)
        c.manual_refit()
    return d, go


def fitting(r, a):
    d = dict(peaks=a([(w - 4000.0) / 2 for w in LINES] + [900.0]), spectrum=r.choice([None, np.linspace(1.0, 2.0, 1000)]), coef=np.array([4000.5, 2.0, 0.0]))

    def go():
        c = prepared(r, a, d["peaks"], d["spectrum"])
        np.random.seed(r.randrange(1000))
        c.do_hough_transform(brute_force=r.random() < 0.3)
        try:
            c.fit(max_tries=20, fit_deg=2, progress=False, fit_tolerance=5.0, fit_coeff=r.choice([None, d["coef"]]))
        except Exception:
            c.fit_type, c.fit_deg = "poly", 2
            c.polyval, c.polyfit = np.polynomial.polynomial.polyval, np.polynomial.polynomial.polyfit
        c.match_peaks(d["coef"], tolerance=r.choice([1.0, 10.0]), refine=r.random() < 0.7, n_delta=r.choice([None, 1, 2, 3]), robust_refit=r.random() < 0.7, fit_deg=2)
    return d, go


def manual(r, a):
    d = dict(mp=r.choice([np.array, list])([50.0, 125.0, 250.0, 310.5, 450.0]), ma=r.choice([np.array, list])([4100.0, 4250.0, 4500.0, 4621.0, 4900.0]), x0=[4000.0, 2.0, 0.0])

    def go():
        c = prepared(r, a)
        c.fit_type, c.fit_deg = "poly", 2
        c.polyval, c.polyfit = np.polynomial.polynomial.polyval, np.polynomial.polynomial.polyfit
        c.matched_peaks, c.matched_atlas = np.array(d["mp"]), np.array(d["ma"])
        c.manual_refit(d["mp"], d["ma"], degree=2, x0=r.choice([None, d["x0"]]))
        c.add_pix_wave_pair(300.25, 4600.0)
        c.remove_pix_wave_pair(r.choice([0, 1]))
        c.manual_refit(degree=2)
    return d, go


def lines(r, a):
    d = dict(el=a(["X", "Y", "Z"]), wl=a([5000.0, 4000.0, 4500.0]), inten=a([3.0, 2.0, 1.0]))

    def go():
        c = Calibrator([1.0, 2.0, 3.0])
        c.add_user_atlas(d["el"], d["wl"], d["inten"], vacuum=r.random() < 0.5, candidate_tolerance=10.0)
        c.remove_atlas_lines_range(4500.0, 20.0)
        c.add_user_atlas(d["el"], d["wl"], candidate_tolerance=10.0)
        c.clear_atlas()
    return d, go


WHAT = dict(air=air, separation=separation, wanted=wanted, bright=bright, library=library, refine=refine, derivative=derivative, poly=poly, robust=robust, synthetic=synthetic, hough=hough,
            atlas=atlas, own=own, properties=properties, known=pairs, fitting=fitting, manual=manual, lines=lines)


def fixed():
    for w in WHAT:
        for seed in range(4 if w in ("known", "fitting", "library") else 8):
            yield dict(what=w, seed=seed, kind=("list", "array")[seed % 2])


def generate(rng):
    return dict(what=rng.choice(list(WHAT)), seed=rng.randrange(10 ** 6), kind=rng.choice(["list", "array"]))


def snapshot(v):
    return (type(v).__name__, str(v.dtype), v.shape, repr(v.tolist())) if isinstance(v, np.ndarray) else repr(v)


def check(c):
    import random
    r = random.Random(c["seed"])
    d, go = WHAT[c["what"]](r, np.array if c["kind"] == "array" else list)
    before = {k: snapshot(v) for k, v in d.items()}
    msg = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            msg = go()
        OK[0] += 1
        msg = msg if c["what"] == "own" else None
    except Exception as e:
        # whether the call succeeds is not this property
        if c.get("verbose"):
            raise
    if msg:
        return msg
    for k, v in d.items():
        if snapshot(v) != before[k]:
            return "%s: argument %s was %s, is %s" % (c["what"], k, before[k], snapshot(v))
