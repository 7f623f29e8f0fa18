import numpy as np
from rascal.calibrator import Calibrator
from rascal.houghtransform import HoughTransform
from .common import *

MIN_CASES = 60
HOUGH = {"num_slopes": 2000, "xbins": 100, "ybins": 100, "min_wavelength": 3000.0, "max_wavelength": 9000.0, "range_tolerance": 500, "linearity_tolerance": 100}
RANSAC = {"sample_size": 5, "top_n_candidate": 5, "linear": True, "filter_close": False, "ransac_tolerance": 5, "candidate_weighted": True,
          "hough_weight": 1.0, "minimum_matches": 0, "minimum_peak_utilisation": 0, "minimum_fit_error": 1e-4}
VALUES = {"num_slopes": [10, 100.0, 37.9], "xbins": [1, 50], "ybins": [1, 75], "min_wavelength": [0.0, 3500.0, 4000], "max_wavelength": [9500.0, 10000],
          "range_tolerance": [0, 0.0, 100, 250.5], "linearity_tolerance": [0, 0.0, 50, 33.25],
          "sample_size": [3, 7], "top_n_candidate": [1, 8], "linear": [True, False], "filter_close": [True, False], "ransac_tolerance": [0.5, 1, 10],
          "candidate_weighted": [True, False], "hough_weight": [0.0, 0.5, 2], "minimum_matches": [1, 4, 0, -1], "minimum_peak_utilisation": [0.0, 0, 1.0, 0.3, 1.5, -0.1],
          "minimum_fit_error": [0.0, 0, 0.01, -0.5], "num_pix": [100, 50.5, 1024], "pixel_list": [[0, 1, 2, 5, 9], [3.5, 1.0, 90.0]],
          "plotting_library": ["plotly", "matplotlib"], "seed": [3], "min_slope": [0.5, -1.0, float("inf")], "max_slope": [2.0, float("nan")],
          "min_intercept": [0.0, 10.0, -float("inf")], "max_intercept": [20.0, 0.0]}
BAD = {"minimum_matches": lambda v: v <= 0, "minimum_peak_utilisation": lambda v: v < 0 or v > 1, "minimum_fit_error": lambda v: v < 0}


def fixed():
    for name in HOUGH:
        for v in VALUES[name]:
            yield dict(peaks=[10.0, 50.0, 90.0], spec=120, calls=[["hough", {name: v}], ["ransac", {}], ["cal", {}], ["hough", {}]])
    for name in RANSAC:
        for v in VALUES[name]:
            yield dict(peaks=[10.0, 50.0, 90.0], spec=None, calls=[["ransac", {name: v}], ["hough", {}], ["ransac", {}], ["cal", {}]])
    yield dict(peaks=[10.0, 50.0, 90.0], spec=None, calls=[["cal", {"num_pix": 1024}], ["cal", {"pixel_list": [3.5, 1.0, 90.0]}], ["cal", {"num_pix": 100}], ["cal", {}]])
    yield dict(peaks=[90, 50, 10], spec=None, calls=[["cal", {"pixel_list": [0, 1, 2, 5, 9]}], ["hough", {"range_tolerance": 100}]])
    yield dict(peaks=[10.0], spec=44, calls=[["ht", {"min_slope": 0.5, "max_slope": 2.0, "min_intercept": 0.0, "max_intercept": 20.0}]])


def generate(rng):
    calls = []
    for _ in range(rng.randint(1, 6)):
        what = rng.choice(["hough", "ransac", "cal", "cal", "hough", "ht"])
        names = {"hough": list(HOUGH), "ransac": list(RANSAC), "cal": ["num_pix", "pixel_list", "plotting_library", "seed"], "ht": []}[what]
        args = {n: rng.choice(VALUES[n]) for n in names if rng.random() < 0.3}
        if what == "ht":
            args = {n: rng.choice(VALUES[n]) for n in ("min_slope", "max_slope", "min_intercept", "max_intercept")}
        calls.append([what, args])
    return dict(peaks=rng.choice([[10.0, 50.0, 90.0], [400, 20, 100], [33.5]]), spec=rng.choice([None, None, 44, 500]), calls=calls)


def settings(cal):
    d = {n: getattr(cal, n) for n in list(HOUGH) + list(RANSAC) + ["num_pix", "plotting_library"]}
    d["pixel_list"] = np.array(cal.pixel_list).tolist()
    return d


def limits(cal, s):
    ext = max(s["pixel_list"]) - min(s["pixel_list"])
    span, t = s["max_wavelength"] - s["min_wavelength"], 2 * (s["range_tolerance"] + s["linearity_tolerance"])
    exp = {"min_intercept": s["min_wavelength"] - s["range_tolerance"], "max_intercept": s["min_wavelength"] + s["range_tolerance"],
           "min_slope": (span - t) / ext, "max_slope": (span + t) / ext}
    for n, v in exp.items():
        if not close(getattr(cal, n), v):
            return "%s is %s, expected %s" % (n, getattr(cal, n), v)


def check(c):
    peaks = np.array(c["peaks"])
    spec = None if c["spec"] is None else np.arange(c["spec"]) * 1.0
    cal = Calibrator(peaks, spec)
    exp = dict(HOUGH, **RANSAC)
    exp["num_pix"] = c["spec"] if c["spec"] is not None else 1.1 * max(c["peaks"])
    exp["plotting_library"] = "matplotlib"
    exp["pixel_list"] = np.arange(exp["num_pix"]).tolist()
    provided = False

    def compare(what):
        got = settings(cal)
        for n in exp:
            if type(got[n]) is bool or type(exp[n]) is bool:
                if got[n] is not exp[n]:
                    return "after %s %s is %r, expected %r" % (what, n, got[n], exp[n])
            elif not (got[n] == exp[n]):
                return "after %s %s is %r, expected %r" % (what, n, got[n], exp[n])
        if not np.array_equal(cal.peaks, c["peaks"]):
            return "peaks changed"
        return limits(cal, exp)
    r = compare("construction")
    if r:
        return r
    for what, args in c["calls"]:
        if what == "ht":
            h = HoughTransform()
            bad = not all(np.isfinite(v) for v in args.values())
            try:
                h.set_constraints(**args)
            except (AssertionError, ValueError):
                if not bad:
                    return "finite limits refused"
                continue
            if bad:
                return "limits that are not finite accepted"
            for n, v in args.items():
                if getattr(h, n) != v:
                    return "%s is %s, expected %s" % (n, getattr(h, n), v)
            continue
        fn = {"hough": cal.set_hough_properties, "ransac": cal.set_ransac_properties, "cal": cal.set_calibrator_properties}[what]
        bad = [n for n in args if n in BAD and BAD[n](args[n])]
        kw = dict(args)
        if what == "cal" and "pixel_list" in kw:
            kw["pixel_list"] = np.array(kw["pixel_list"])
        try:
            fn(**kw)
        except (AssertionError, ValueError) as e:
            if not bad:
                return "%s(%s) refused: %s" % (what, args, e)
            got = settings(cal)
            for n in exp:
                if got[n] != exp[n] and not (n in args and n not in bad and got[n] == args[n]):
                    return "%s altered to %r by a refused call %s" % (n, got[n], args)
            exp = got
            continue
        if bad:
            return "%s accepted" % {n: args[n] for n in bad}
        for n, v in args.items():
            if n != "seed":
                exp[n] = int(v) if n == "num_slopes" else v
        if what == "cal":
            if "pixel_list" in args:
                provided = True
            elif "num_pix" in args and not provided:
                exp["pixel_list"] = np.arange(args["num_pix"]).tolist()
        r = compare("%s(%s)" % (what, args))
        if r:
            return r
