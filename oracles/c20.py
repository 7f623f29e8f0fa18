import contextlib, io, logging, os, pickle, tempfile, warnings
os.environ["MPLBACKEND"] = "Agg"
import numpy as np
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator

MIN_CASES = 24
TIMEOUT_OK = True
IMPORTS = {"matplotlib_imported", "plotly_imported"}
LINES = [4100.0, 4250.0, 4333.0, 4500.0, 4621.0, 4790.0, 4900.0, 5050.0]


def calibrator(case):
    n = 600
    peaks = [(w - 4000.0) / 2 for w in LINES]
    if not case["sorted"]:
        peaks = peaks[::-1]
    spectrum = None
    if case["spectrum"]:
        x = np.arange(n)
        spectrum = case["floor"] + sum(900 * np.exp(-((x - p) ** 2) / 8.0) for p in peaks)
        spectrum[:3] = case["floor"], 0.0, np.nan if case["nans"] else 1.0
        if case["spectrum"] == "list":
            spectrum = list(spectrum)
    c = Calibrator(np.array(peaks) if case["array"] else peaks, spectrum)
    c.logger.setLevel("CRITICAL")
    if case["lib"] == "plotly":
        c.use_plotly()
    else:
        c.use_matplotlib()
    c.set_calibrator_properties(num_pix=n)
    t = Atlas(min_atlas_wavelength=1000, max_atlas_wavelength=9000)
    t.add_user_atlas(["X"] * len(LINES), list(LINES), intensities=[9.0, 8.0, 3.0, 4.0, 5.0, 2.0, 1.0, 6.0])
    c.set_atlas(t)
    c.set_hough_properties(num_slopes=200, xbins=30, ybins=30, min_wavelength=3950.0, max_wavelength=5250.0, range_tolerance=150.0, linearity_tolerance=30.0)
    c.set_ransac_properties(sample_size=3, top_n_candidate=4, minimum_matches=3, minimum_peak_utilisation=0.0, minimum_fit_error=0.0)
    np.random.seed(7)
    c.do_hough_transform()
    res = c.fit(max_tries=60, fit_deg=2, progress=False)
    if not case["sorted"]:
        # matches may be kept in any order
        c.matched_peaks = np.array(c.matched_peaks)[::-1].copy()
        c.matched_atlas = np.array(c.matched_atlas)[::-1].copy()
    return c, res


def state(v, seen=()):
    """a picture of everything a value holds"""
    if id(v) in seen:
        return "again"
    s = seen + (id(v),)
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, [state(x, s) for x in v.flat] if v.dtype == object else v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [state(x, s) for x in v])
    if isinstance(v, dict):
        return ("dict", [(repr(k), state(x, s)) for k, x in v.items()])
    if isinstance(v, (bool, int, float, str, type(None), np.generic)):
        return (type(v).__name__, repr(v))
    if isinstance(v, logging.Logger) or callable(v):
        return ("opaque", id(v))
    if hasattr(v, "__dict__"):
        return (type(v).__name__, {k: state(x, s) for k, x in vars(v).items() if k not in IMPORTS})
    try:
        return ("pickle", pickle.dumps(v))
    except Exception:
        return ("opaque", type(v).__name__)


def differs(a, b, at=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and isinstance(a[1], dict) and isinstance(b[1], dict):
        for k in sorted(set(a[1]) | set(b[1])):
            if a[1].get(k) != b[1].get(k):
                return differs(a[1].get(k), b[1].get(k), at + "." + k)
    return at or "?"


def case(method, lib, **kw):
    d = dict(method=method, lib=lib, sorted=True, spectrum="array", array=False, log=False, save=False, fig_type="png", name=True, json=False,
             coef="array", weighted=True, atlas=True, given="none", topn=3, display=False, floor=7.0, nans=False)
    d.update(kw)
    return d


def fixed():
    for lib in ("matplotlib", "plotly"):
        for m in ("plot_arc", "plot_search_space", "plot_fit"):
            yield case(m, lib)
            yield case(m, lib, log=True, save=True, sorted=False, coef="list", weighted=False, fig_type="png+svg" if lib == "matplotlib" else "iframe", json=True)
            yield case(m, lib, spectrum="none" if m != "plot_arc" else "array", given="both", floor=-3.0, array=True, save=True, name=False, fig_type="svg" if lib == "matplotlib" else "iframe", atlas=False, display=lib == "matplotlib")


    yield case("plot_calibration_lines", "matplotlib", given="list")
    yield case("plot_calibration_lines", "matplotlib", log=True, save=True, array=True, given="both", weighted=False, atlas=False)


def generate(rng):
    lib = rng.choice(["matplotlib", "plotly"])
    m = rng.choice(["plot_arc", "plot_search_space", "plot_fit", "plot_fit", "plot_calibration_lines"])
    if m == "plot_calibration_lines":
        lib = "matplotlib"
    return case(m, lib, sorted=rng.random() < 0.6, spectrum=rng.choice(["array", "array", "list", "none"]),
                array=rng.random() < 0.5, log=rng.random() < 0.5, save=rng.random() < 0.3, fig_type=rng.choice(["png", "svg", "pdf+png"]) if lib == "matplotlib" else "iframe",
                name=rng.random() < 0.5, json=rng.random() < 0.5, coef=rng.choice(["array", "list", "none"]), weighted=rng.random() < 0.5, atlas=rng.random() < 0.5,
                given=rng.choice(["none", "list", "both"]), topn=rng.randint(1, 4), floor=rng.choice([7.0, 0.0, -3.0]), nans=rng.random() < 0.1, display=lib == "matplotlib" and rng.random() < 0.3)


def check_lines(c):
    """the arc spectrum of a line list"""
    from rascal.plotting import plot_calibration_lines as draw
    given = dict(elements=["Xe", "He"] if c["atlas"] else ["Xe"], fig_kwarg={"figsize": (6, 4)})
    if c["given"] != "none":
        given["min_intensity"] = [5.0, 2.0][:len(given["elements"])]
        if c["array"]:
            given["min_intensity"] = np.array(given["min_intensity"])
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), tempfile.TemporaryDirectory() as tmp:
        warnings.simplefilter("ignore")
        before, defaults = {k: state(v) for k, v in given.items()}, state(draw.__defaults__)
        failed = None
        try:
            draw(min_atlas_wavelength=8200.0, max_atlas_wavelength=8290.0, label=c["weighted"], log=c["log"], save_fig=c["save"], fig_type="png+svg",
                 filename=os.path.join(tmp, "figure"), display=c["display"], **given)
        except Exception as e:
            failed = e
        finally:
            import matplotlib.pyplot as plt
            plt.close("all")
        OK[0] += failed is None
        for k, v in given.items():
            if before[k] != state(v):
                return "plot_calibration_lines changed %s, which it was handed" % k
        if defaults != state(draw.__defaults__):
            return "plot_calibration_lines changed its defaults"
    return None


def check(c):
    if c["method"] == "plot_calibration_lines":
        return check_lines(c)
    if c["spectrum"] == "none":
        c = dict(c, spectrum=None)
    m = c["method"]
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), tempfile.TemporaryDirectory() as tmp:
        warnings.simplefilter("ignore")
        cal, res = calibrator(c)
        kw = dict(save_fig=c["save"], fig_type=c["fig_type"], filename=os.path.join(tmp, "figure") if c["name"] else None, display=c["display"], return_jsonstring=c["json"])
        coef = None if c["coef"] == "none" else [float(x) for x in res[0]] if c["coef"] == "list" else np.array(res[0], dtype=float)
        given = {}
        if m == "plot_arc":
            kw["log_spectrum"] = c["log"]
            if c["given"] != "none":
                n = 600 if cal.spectrum is None else len(cal.spectrum)
                given["pixel_list"] = np.arange(n) * 1.0
        elif m == "plot_search_space":
            kw.update(top_n_candidate=c["topn"], weighted=c["weighted"])
            if coef is not None:
                given["fit_coeff"] = coef
        else:
            kw.update(log_spectrum=c["log"], plot_atlas=c["atlas"], tolerance=5.0)
            given["fit_coeff"] = np.array(res[0], dtype=float) if coef is None else coef
            if c["given"] == "both":
                given["spectrum"] = np.linspace(3.0, 90.0, 600) ** 1.5
        names = sorted(given)
        before = state(cal)
        handed = {k: state(given[k]) for k in names}
        returned = state(res)
        here = os.getcwd()
        os.chdir(tmp)
        failed = None
        try:
            getattr(cal, m)(**given, **kw)
        except Exception as e:  # what is drawn is not this property's concern
            failed = e
        finally:
            os.chdir(here)
            if c["lib"] == "matplotlib":
                import matplotlib.pyplot as plt
                plt.close("all")
        OK[0] += failed is None
        d = differs(before, state(cal))
        if d is not None:
            return "%s changed the calibrator: %s" % (m, d)
        for k in names:
            if handed[k] != state(given[k]):
                return "%s changed %s, which it was handed" % (m, k)
        if returned != state(res):
            return "%s changed the result of the fit" % m
        if failed is not None:
            FAILS.append((m, c["lib"], repr(failed)[:100]))
    return None


OK = [0]
FAILS = []


def nontrivial(c):
    return OK[0] > 0
