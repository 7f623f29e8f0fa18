"""A calibrator with arbitrary content, shared by the contracts of its methods."""
from fractions import Fraction as F
from pyvc.contract import *

CAL = "rascal.calibrator.Calibrator"
# every field the constructor makes, with a symbolic value of the type it holds
SETTINGS = {
    "num_pix": "f", "xbins": "i", "ybins": "i", "num_slopes": "i", "min_wavelength": "f", "max_wavelength": "f",
    "range_tolerance": "f", "linearity_tolerance": "f", "min_intercept": "f", "max_intercept": "f", "min_slope": "f", "max_slope": "f",
    "sample_size": "i", "top_n_candidate": "i", "linear": "b", "filter_close": "b", "ransac_tolerance": "f", "candidate_weighted": "b",
    "hough_weight": "f", "minimum_matches": "i", "minimum_peak_utilisation": "f", "minimum_fit_error": "f",
    "candidate_tolerance": "f", "constrain_poly": "b", "pixel_list_provided": "b", "plot_with_matplotlib": "b", "plot_with_plotly": "b",
    "matplotlib_imported": "b", "plotly_imported": "b", "plotting_library": "s", "log_level": "i",
}


def sym(c, name, t):
    return {"f": c.real, "i": c.int, "b": c.bool, "s": c.str}[t](name)


def opt(c, name, t):
    """given or None"""
    g = c.bool("given_" + name)
    return Alt([(g, sym(c, name + "_arg", t)), (z3.Not(g), None)])


def calibrator_object(c, atlas="atlas", peaks="f", spectrum=True, pixel_list=True, **kw):
    f = {k: sym(c, k, t) for k, t in SETTINGS.items()}
    f["logger"] = Opq("logger")
    f["peaks"] = c.nd("peaks", peaks)
    f["spectrum"] = c.nd("spectrum", "f") if spectrum else None
    f["pixel_list"] = c.nd("pixels", "f", c.int("n_pixels", 1)) if pixel_list else None
    f["atlas"] = atlas_object(c) if atlas == "atlas" else atlas
    for k in ("pix_known", "wave_known", "hough_lines", "hough_points", "fit_coeff"):
        f[k] = None
    f["matched_peaks"] = c.list("matched_peaks", "f")
    f["matched_atlas"] = c.list("matched_atlas", "f")
    f["ht"] = c.obj("rascal.houghtransform.HoughTransform", {k: None for k in (
        "hough_points", "hough_lines", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept")})
    f.update(kw)
    return c.obj(CAL, {k: v for k, v in f.items() if v is not UNDEF})


POLY = {"poly": ("numpy.polynomial.polynomial.polyfit", "numpy.polynomial.polynomial.polyval"),
        "legendre": ("numpy.polynomial.legendre.legfit", "numpy.polynomial.legendre.legval"),
        "chebyshev": ("numpy.polynomial.chebyshev.chebfit", "numpy.polynomial.chebyshev.chebval")}


def family(name):
    return {"polyfit": Mod(POLY[name][0]), "polyval": Mod(POLY[name][1]), "fit_type": name}


def poly_at(c, fam, coef, x):
    """the polynomial of the family with the coefficients (a Seq), at x"""
    from pyvc.npmodel import PV, token, astype
    cs = astype(c.E, coef, "f") if coef.dt == "i" else coef
    return PV(zstr(fam), token(c.E, cs, "coef"), zreal(x))


def rms_of(c, n, fn):
    """root mean square of n values"""
    from pyvc.npmodel import MODELS
    sq = c.E.new_nd(c.st, Seq(n, lambda k: arith("*", fn(k), fn(k)), "f"))
    s = MODELS["numpy.sum"](c.E, c.st, [sq], {})
    return MODELS["numpy.sqrt"](c.E, c.st, [arith("/", s, n)], {})


RFIT = z3.Function("robust_fit", Obj, Obj, I, I, R)


def robust_coef(c, x, y, degree):
    """the coefficients of the robust fit as a function of the points and the degree"""
    from pyvc.npmodel import token, astype
    fl = lambda s: astype(c.E, s, "f") if s.dt == "i" else s
    tx, ty = token(c.E, fl(x), "fitx"), token(c.E, fl(y), "fity")
    return Seq(arith("+", degree, 1), lambda j: RFIT(tx, ty, zint(degree), zint(j)), "f")


class RobustFit(Contract):
    """robust_polyfit as its callers see it (what it computes is C15)"""
    qual = "rascal.models.robust_polyfit"

    def requires(self, c):
        x, y = c.seq(c.val(c.a["x"])), c.seq(c.val(c.a["y"]))
        yield "as many pixels as wavelengths", compare("==", x.n, y.n)
        yield "some points", compare(">", x.n, 0)
        x0 = c.val(c.a["x0"])
        if x0 is not None:
            yield "as many initial coefficients as the degree needs", compare("==", c.seq(x0).n, arith("+", c.val(c.a["degree"]), 1))

    def result(self, c):
        return c.E.new_nd(c.st, robust_coef(c, c.seq(c.val(c.a["x"])), c.seq(c.val(c.a["y"])), c.val(c.a["degree"])))


class PairsStub(Contract):
    """_generate_pairs as the mutators of the atlas see it: it sets the pairs (to what, is C10)
    and changes nothing else"""
    qual = CAL + "._generate_pairs"

    def throws(self, c):
        c.E.assumed.add("scipy.spatial.Delaunay may refuse a degenerate polygon (QhullError)")
        return []

    def result(self, c):
        s = c.val(c.a["self"])
        o = c.st.heap[s.id]
        n = c.E.fresh_int("n_pairs") if hasattr(c.E, "fresh_int") else z3.Int(fresh_name("n_pairs"))
        c.st.add(n >= 0)
        f, g = (c.E.fresh_fun("pair%d" % j, [I], R)[0] for j in (0, 1))
        T = Table([Seq(n, lambda k: f(zint(k)), "f"), Seq(n, lambda k: g(zint(k)), "f")], "f")
        c.st.heap[s.id] = HObj(o.cls, dict(o.f, pairs=c.E.new_nd(c.st, T)))
        return None
