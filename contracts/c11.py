"""C11: settings of the calibrator."""
from .cal import *
from pyvc.npmodel import isfin

HOUGH = {"num_slopes": ("i", 2000), "xbins": ("i", 100), "ybins": ("i", 100), "min_wavelength": ("f", F(3000)), "max_wavelength": ("f", F(9000)),
         "range_tolerance": ("f", 500), "linearity_tolerance": ("f", 100)}
RANSAC = {"sample_size": ("i", 5), "top_n_candidate": ("i", 5), "linear": ("b", True), "filter_close": ("b", False), "ransac_tolerance": ("f", 5),
          "candidate_weighted": ("b", True), "hough_weight": ("f", F(1)), "minimum_matches": ("i", 0), "minimum_peak_utilisation": ("f", 0),
          "minimum_fit_error": ("f", F("0.0001"))}
DERIVED = ("min_intercept", "max_intercept", "min_slope", "max_slope")


def stored(c, s, table, args, conv=lambda n, v: v):
    for name, (t, default) in table.items():
        old = c.fld(s, name, c.old)
        if old is UNDEF or old is None:
            old = default
        a = args.get(name)
        new = c.fld(s, name)
        if a is None:
            yield "%s kept when omitted" % name, val_eq(c, new, old)
            continue
        for g, v in (a.alts if isinstance(a, Alt) else [(True, a)]):
            if v is None:
                yield "%s kept when omitted" % name, implies(g, val_eq(c, new, old))
            else:
                yield "%s takes the value given" % name, implies(g, val_eq(c, new, conv(name, v)))


def extent(c, s):
    """largest minus smallest value of the pixel list, as terms the code computed"""
    from pyvc.npmodel import MODELS
    p = c.fld(s, "pixel_list")
    return MODELS["numpy.ptp"](c.E, c.st, [p], {})


def limits_follow(c, s):
    f = {n: c.val(c.fld(s, n)) for n in ("min_wavelength", "max_wavelength", "range_tolerance", "linearity_tolerance") + DERIVED}
    span = arith("-", f["max_wavelength"], f["min_wavelength"])
    t = arith("*", 2, arith("+", f["range_tolerance"], f["linearity_tolerance"]))
    e = extent(c, s)
    yield "minimum intercept", compare("==", f["min_intercept"], arith("-", f["min_wavelength"], f["range_tolerance"]))
    yield "maximum intercept", compare("==", f["max_intercept"], arith("+", f["min_wavelength"], f["range_tolerance"]))
    yield "minimum slope", compare("==", f["min_slope"], arith("/", arith("-", span, t), e))
    yield "maximum slope", compare("==", f["max_slope"], arith("/", arith("+", span, t), e))


class Hough(Contract):
    qual = CAL + ".set_hough_properties"
    prior = "later"

    def setup(self, c):
        kw = {} if self.prior == "later" else {k: None for k in HOUGH}
        if self.prior == "first":
            kw.update({k: UNDEF for k in DERIVED})
        d = {"self": calibrator_object(c, atlas=None, **kw)}
        for name, (t, _) in HOUGH.items():
            d[name] = opt(c, name, "f" if name == "num_slopes" else t)
        return d

    def requires(self, c):
        yield "pixels of some extent", compare(">", extent(c, c.a["self"]), 0)

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in tuple(HOUGH) + DERIVED]

    def ensures(self, c):
        from pyvc.npmodel import MODELS
        s = c.a["self"]

        def conv(n, v):
            return MODELS["builtins.int"](c.E, c.st, [v], {}) if n == "num_slopes" else v
        yield from stored(c, s, HOUGH, c.a, conv)
        yield from limits_follow(c, s)


class Ransac(Contract):
    qual = CAL + ".set_ransac_properties"
    prior = "later"

    def setup(self, c):
        kw = {} if self.prior == "later" else {k: None for k in RANSAC}
        d = {"self": calibrator_object(c, **kw)}
        for name, (t, _) in RANSAC.items():
            d[name] = opt(c, name, t)
        return d

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in RANSAC]

    def bad(self, c):
        out = []
        for name, ok in (("minimum_matches", lambda v: compare(">", v, 0)),
                         ("minimum_peak_utilisation", lambda v: land(compare(">=", v, 0), compare("<=", v, 1))),
                         ("minimum_fit_error", lambda v: compare(">=", v, 0))):
            for g, v in c.a[name].alts:
                if v is not None:
                    out.append(land(g, lnot(ok(v))))
        return lor(*out)

    def raises(self, c, et):
        if et not in ("AssertionError", "ValueError"):
            return False
        s = c.a["self"]
        r = [("refused only for a value outside its range", self.bad(c))]
        for name in ("minimum_matches", "minimum_peak_utilisation", "minimum_fit_error"):
            old, new = c.fld(s, name, c.old), c.fld(s, name)
            for g, v in c.a[name].alts:
                if v is not None:
                    r.append(("a refused %s is not stored" % name, lor(val_eq(c, new, old), land(g, val_eq(c, new, v), lnot(self.bad1(c, name))))
                              if old is not None else True))
        return r

    def bad1(self, c, name):
        out = []
        for g, v in c.a[name].alts:
            if v is not None:
                ok = {"minimum_matches": lambda v: compare(">", v, 0), "minimum_peak_utilisation": lambda v: land(compare(">=", v, 0), compare("<=", v, 1)),
                      "minimum_fit_error": lambda v: compare(">=", v, 0)}[name](v)
                out.append(land(g, lnot(ok)))
        return lor(*out)

    def ensures(self, c):
        yield "values outside their range are refused", lnot(self.bad(c))
        yield from stored(c, c.a["self"], RANSAC, c.a)


class Cal(Contract):
    qual = CAL + ".set_calibrator_properties"
    prior, spectrum = "later", True

    def setup(self, c):
        kw = {}
        if self.prior == "first":
            kw = {k: None for k in list(HOUGH) + ["num_pix", "plotting_library", "constrain_poly"]}
            kw.update({k: UNDEF for k in DERIVED}, pixel_list=None, pixel_list_provided=False, plot_with_matplotlib=False, plot_with_plotly=False)
        d = {"self": calibrator_object(c, atlas=None, spectrum=self.spectrum, **kw)}
        d["num_pix"] = opt(c, "num_pix", "f" if self.numpix == "f" else "i")
        g = c.bool("given_pixel_list")
        lst = c.nd("pixel_list_arg", "f", c.int("n_pixel_list_arg", 1)) if self.plist == "nd" else c.list("pixel_list_arg", "f", c.int("n_pixel_list_arg", 1))
        d["pixel_list"] = Alt([(g, lst), (z3.Not(g), None)])
        d["plotting_library"] = opt(c, "plotting_library", "s")
        d["seed"] = opt(c, "seed", "i")
        return d
    numpix, plist = "f", "nd"

    def requires(self, c):
        s = c.a["self"]
        pk = c.seq(c.val(c.fld(s, "peaks")))
        yield "some peaks", compare(">=", pk.n, 1)
        sp = c.fld(s, "spectrum")
        if sp is not None:
            yield "some spectrum", compare(">=", c.seq(sp).n, 1)
        yield "peaks at positive pixels", c.forall(pk.n, lambda k: compare(">=", pk.at(k), 1))
        for g, v in c.a["num_pix"].alts:
            if v is not None:
                yield "positive number of pixels", implies(g, compare(">", v, 1))
        if self.prior == "later":
            yield "positive number of pixels before", compare(">", c.val(c.fld(s, "num_pix")), 1)
            for _, f in limits_follow(c, s):
                yield "limits before", f

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("num_pix", "pixel_list", "pixel_list_provided", "plotting_library", "plot_with_matplotlib",
                                                  "plot_with_plotly", "logger", "log_level", "pix_to_rawpix") + DERIVED]

    def ensures(self, c):
        from pyvc.npmodel import MODELS
        s = c.a["self"]
        m = lambda n, *a: MODELS[n](c.E, c.st, list(a), {})
        sp = c.val(c.fld(s, "spectrum"))
        default = c.seq(sp).n if sp is not None else arith("*", F("1.1"), m("builtins.max", c.fld(s, "peaks")))
        yield from stored(c, s, {"num_pix": ("f", default), "plotting_library": ("s", "matplotlib")}, c.a)
        new, old = c.fld(s, "pixel_list"), c.fld(s, "pixel_list", c.old)
        newseq = c.seq(c.val(new))
        (gp, lst), (ng, _) = c.a["pixel_list"].alts
        (gn, npix), (ngn, _) = c.a["num_pix"].alts
        prov = c.val(c.fld(s, "pixel_list_provided", c.old))
        yield "the pixel list given is stored", implies(gp, seq_equal_form(c, newseq, c.oldseq(lst)))
        yield "whether a list was given is stored", val_eq(c, c.fld(s, "pixel_list_provided"), lor(gp, prov))
        cnt = m("numpy.arange", c.fld(s, "num_pix"))
        up = seq_equal_form(c, newseq, c.seq(cnt))
        if old is None:
            yield "the pixel list counts up to the number of pixels", implies(ng, up)
        else:
            yield "the pixel list follows the number of pixels", implies(land(ng, gn, lnot(prov)), up)
            yield "the pixel list is kept", implies(land(ng, lor(ngn, prov)), seq_equal_form(c, newseq, c.oldseq(old)))
        cs = c.seq(cnt)
        yield "counting pixels from zero", c.forall(cs.n, lambda k: zbool(compare("==", cs.at(k), k)))
        yield "up to the number of pixels", land(compare(">=", cs.n, c.val(c.fld(s, "num_pix"))), compare("<", cs.n, arith("+", 1, c.val(c.fld(s, "num_pix")))))
        if self.prior == "later":
            yield from limits_follow(c, s)


class New(Contract):
    qual = CAL + ".__init__"
    spectrum = True

    def setup(self, c):
        return {"self": c.obj(CAL, {}), "peaks": c.nd("peaks", "f", c.int("n_peaks", 1)), "spectrum": c.nd("spectrum", "f", c.int("n_spectrum", 2)) if self.spectrum else None}

    def requires(self, c):
        pk = c.seq(c.a["peaks"])
        yield "peaks at positive pixels", c.forall(pk.n, lambda k: compare(">=", pk.at(k), 1))

    def modifies(self, c):
        return [("obj", c.a["self"])]

    def ensures(self, c):
        from pyvc.npmodel import MODELS
        s = c.a["self"]
        yield from stored(c, s, HOUGH, {})
        yield from stored(c, s, RANSAC, {})
        yield from limits_follow(c, s)
        m = lambda n, *a: MODELS[n](c.E, c.st, list(a), {})
        sp = c.a["spectrum"]
        default = c.oldseq(sp).n if sp is not None else arith("*", F("1.1"), m("builtins.max", c.fld(s, "peaks")))
        yield "number of pixels", val_eq(c, c.fld(s, "num_pix"), default)
        yield "pixel list", seq_equal_form(c, c.seq(c.val(c.fld(s, "pixel_list"))), c.seq(m("numpy.arange", c.fld(s, "num_pix"))))
        yield "peaks", seq_equal_form(c, c.seq(c.val(c.fld(s, "peaks"))), c.oldseq(c.a["peaks"]))


class Limits(Contract):
    qual = "rascal.houghtransform.HoughTransform.set_constraints"
    NAMES = ("min_slope", "max_slope", "min_intercept", "max_intercept")

    def setup(self, c):
        d = {"self": c.obj("rascal.houghtransform.HoughTransform", {k: None for k in (
            "hough_points", "hough_lines", "hist", "xedges", "yedges") + self.NAMES})}
        d.update({k: c.real(k + "_arg") for k in self.NAMES})
        return d

    def modifies(self, c):
        return [("fld", c.a["self"], k) for k in self.NAMES]

    def raises(self, c, et):
        return et in ("AssertionError", "ValueError") and lor(*[lnot(zbool(isfin(c.a[k]))) for k in self.NAMES])

    def ensures(self, c):
        for k in self.NAMES:
            yield k + " stored", val_eq(c, c.fld(c.a["self"], k), c.a[k])
            yield k + " is finite", zbool(isfin(c.a[k]))


CONTRACTS = ([Hough(case=p, prior=p) for p in ("first", "later")] + [Ransac(case=p, prior=p) for p in ("first", "later")]
             + [Cal(case="%s, %s" % (p, "spectrum" if s else "no spectrum"), prior=p, spectrum=s) for p in ("first", "later") for s in (True, False)]
             + [Cal(case="later, integers", numpix="i", plist="list")]
             + [New(case="spectrum"), New(case="no spectrum", spectrum=False), Limits()])
