"""C20: plotting changes nothing.

The three plotting methods are verified with the module functions behind them, with each library: at
every exit everything the calibrator holds (the atlas, the arrays, lists and coefficients among it)
and everything handed in is what it was; only the record of imports may differ."""
from .cal import *
from .c04 import LOADER
from pyvc.values import HSeq


class Draw(Contract):
    method, lib, spectrum = "plot_arc", "matplotlib", True
    given = ()
    havoc_ok = True  # what stays the same does not depend on the values drawn

    def __init__(self, **kw):
        super().__init__(**kw)
        self.qual = CAL + "." + self.method

    def modifies(self, c):
        s = c.a["self"]
        return [("fld", s, "matplotlib_imported"), ("fld", s, "plotly_imported")]

    def setup(self, c):
        from pyvc.npmodel import MODELS
        kw = family("poly")
        kw.update(plot_with_matplotlib=self.lib == "matplotlib", plot_with_plotly=self.lib == "plotly",
                  pairs=c.table("pairs", 2), fit_coeff=c.nd("coef", "f", c.int("n_coef", 1)),
                  matched_peaks=c.nd("mp", "f"), matched_atlas=c.nd("ma", "f"), residuals=c.nd("residuals", "f"),
                  candidate_peak=c.list("cp", "f"), candidate_arc=c.list("ca", "f"), rms=c.real("rms"),
                  hough_points=c.table("hough", 2), pix_known=c.nd("pk", "f"), wave_known=c.nd("wk", "f"))
        kw["pix_to_rawpix"] = Opq("pix_to_rawpix")
        n = c.int("n_sets", 0)
        ln = z3.Function("in_set_len", I, I)
        fs = [z3.Function("in_set_" + x, I, I, R) for x in ("peak", "line", "weight")]
        q = z3.Int(fresh_name("q"))
        c.assume(z3.ForAll([q], ln(q) >= 0, patterns=[ln(q)]))
        sets = Seq(n, lambda i: Tup([Seq(ln(zint(i)), (lambda f: lambda k: f(zint(i), zint(k)))(f), "f") for f in fs]), "o")
        kw["candidates"] = c.E.new(c.st, HSeq("list", sets))
        s = calibrator_object(c, spectrum=self.spectrum, **kw)
        d = {"self": s, "save_fig": c.bool("save"), "display": c.bool("display"), "return_jsonstring": c.bool("json"),
             "fig_type": c.str("fig_type"), "filename": opt(c, "filename", "s"), "renderer": c.str("renderer")}
        if self.method != "plot_search_space":
            d["log_spectrum"] = c.bool("log")
        else:
            d["top_n_candidate"] = c.int("topn", 1)
            d["weighted"] = c.bool("weighted")
        if self.method == "plot_fit":
            d["tolerance"] = c.real("tol")
            d["plot_atlas"] = c.bool("plot_atlas")
        for g in self.given:
            d[g] = c.nd("given_" + g, "f", c.int("n_given_" + g, 1))
        return d

    @property
    def always_raises(self):
        return self.method == "plot_arc" and not self.spectrum  # no drawing without a spectrum is promised

    def raises(self, c, et):
        return []


class SomeLines(Contract):
    """the line loader: three columns of some length"""
    qual = LOADER

    def result(self, c):
        n = c.int(fresh_name("n_lines"), 0)
        return Tup([c.nd(fresh_name("loaded"), dt, n) for dt in "sff"])


class ArcLines(Contract):
    """the arc spectrum of a line list, drawn without a calibrator: the elements, thresholds and
    options for the figure stay as they are"""
    qual = "rascal.plotting.plot_calibration_lines"
    havoc_ok = True
    fixed = False

    def setup(self, c):
        d = {"elements": c.list("el", "s"), "min_atlas_wavelength": c.real("lo"), "max_atlas_wavelength": c.real("hi"), "vacuum": c.bool("vac"),
             "pixel_scale": c.real("scale"), "label": c.bool("label"), "log": c.bool("log"), "save_fig": c.bool("save"), "display": c.bool("display"),
             "fig_type": c.str("fig_type"), "filename": opt(c, "filename", "s"), "linelist": c.str("linelist"), "min_distance": c.real("md"),
             "brightest_n_lines": opt(c, "N", "i")}
        d["min_intensity"] = c.list("mi", "f") if self.fixed else c.real("mi")
        return d

    def requires(self, c):
        yield "limits at which the conversion is defined", land(compare(">", c.a["min_atlas_wavelength"], F(2000)), compare(">", c.a["max_atlas_wavelength"], F(2000)))

    def raises(self, c, et):
        return []


CONTRACTS = [ArcLines(case="threshold"), ArcLines(case="list of thresholds", fixed=True)]
CONTRACTS += [Draw(case="%s, %s%s%s" % (m, lib, "" if sp else ", no spectrum", "".join(", %s given" % g for g in gv)), method=m, lib=lib, spectrum=sp, given=gv)
             for m, opts in (("plot_arc", ((), ("pixel_list",))), ("plot_search_space", ((), ("fit_coeff",))), ("plot_fit", (("fit_coeff",), ("fit_coeff", "spectrum"))))
             for lib in ("matplotlib", "plotly") for sp in (True, False) for gv in opts
             if sp or gv or m != "plot_arc"]
TABLE = [SomeLines()]
