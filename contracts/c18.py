"""C18: synthetic spectra."""
from .poly import *

SP = "rascal.synthetic.SyntheticSpectrum"


def spectrum(c, **kw):
    f = {"min_wavelength": c.real("low"), "max_wavelength": c.real("high"), "model": None, "degree": None}
    f.update(kw)
    return c.obj(SP, f)


def in_order(c, s, st=None):
    return compare("<", c.val(c.fld(s, "min_wavelength", st), st), c.val(c.fld(s, "max_wavelength", st), st))


def value(c, s, x):
    """the model of the spectrum at x"""
    return c.val(c.E.call(c.val(c.fld(s, "model")), [x], {}, c.st))


def ascending(c, coef, x):
    """constant first"""
    return horner_sum(c, coef.n, coef.at, x)


def model_clauses(c, s, coef, ctx=""):
    held = c.seq(c.val(c.fld(s, "coefficients")))
    yield "the coefficients given are held", seq_equal_form(c, held, coef)
    yield "degree", compare("==", c.val(c.fld(s, "degree")), arith("-", coef.n, 1))
    x = c.real("at")
    v = value(c, s, x)
    if not isinstance(coef.n, int):
        c.need(c.E.sums, "sum over the coefficients")
    yield "the model is the polynomial with the coefficients in ascending order", compare("==", v, ascending(c, coef, x))


class SetModel(Contract):
    qual = SP + ".set_model"
    kind, n, dt = "list", None, "f"

    def setup(self, c):
        mk = c.list if self.kind == "list" else c.nd
        return {"self": spectrum(c), "coefficients": mk("coef", self.dt, self.n if self.n is not None else c.int("n_coef", 1))}

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("coefficients", "degree", "model")]

    def ensures(self, c):
        yield from model_clauses(c, c.a["self"], c.oldseq(c.a["coefficients"]))


class RefuseModel(Contract):
    qual = SP + ".set_model"
    always_raises = True
    arg = None

    def setup(self, c):
        return {"self": spectrum(c), "coefficients": self.arg(c)}

    def raises(self, c, et):
        return et == "TypeError"

    def ensures(self, c):
        yield "refused", False


class Limits(Contract):
    qual = SP + ".set_wavelength_limit"
    lo = hi = "opt"

    def arg(self, c, name, how):
        return opt(c, name, "f") if how == "opt" else c.int(name) if how == "int" else c.str(name) if how == "str" else c.bool(name) if how == "bool" else how

    def setup(self, c):
        return {"self": spectrum(c), "min_wavelength": self.arg(c, "lo", self.lo), "max_wavelength": self.arg(c, "hi", self.hi)}

    def requires(self, c):
        yield "limits held are in order", in_order(c, c.a["self"])

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("min_wavelength", "max_wavelength")]

    @property
    def always_raises(self):
        return {self.lo, self.hi} & {"int", "str", "bool"}

    def wanted(self, c):
        out = []
        for a in ("min_wavelength", "max_wavelength"):
            v, h = c.a[a], c.fld(c.a["self"], a, c.old)
            if isinstance(v, Alt):
                (g, x), _ = v.alts
                out.append(z3.If(g, x, h))
            else:
                out.append(h if v is None else v)
        return out

    def raises(self, c, et):
        same_ = [("nothing changed", land(*[val_eq(c, c.fld(c.a["self"], f), c.fld(c.a["self"], f, c.old)) for f in ("min_wavelength", "max_wavelength")]))]
        if et == "TypeError":
            return [("refused only what is no float", bool(self.always_raises))] + same_
        if et == "RuntimeError" and not self.always_raises:
            lo, hi = self.wanted(c)
            return [("refused only an inverted range", compare("<=", hi, lo))] + same_
        return False

    def ensures(self, c):
        yield "a value that is no float is refused", not self.always_raises
        if self.always_raises:
            return
        lo, hi = self.wanted(c)
        s = c.a["self"]
        yield "given replaces, omitted is kept (minimum)", compare("==", c.val(c.fld(s, "min_wavelength")), lo)
        yield "given replaces, omitted is kept (maximum)", compare("==", c.val(c.fld(s, "max_wavelength")), hi)
        yield "minimum below maximum", in_order(c, s)


class Init(Contract):
    qual = SP + ".__init__"
    coef, limits = None, False

    def setup(self, c):
        d = {"self": c.obj(SP, {})}
        if self.coef:
            d["coefficients"] = (c.list if self.coef == "list" else c.nd)("coef", "f", c.int("n_coef", 1))
        if self.limits:
            d["min_wavelength"], d["max_wavelength"] = c.real("lo"), c.real("hi")
        return d

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("coefficients", "degree", "model", "min_wavelength", "max_wavelength")]

    def raises(self, c, et):
        return et == "RuntimeError" and self.limits and compare(">=", c.a["min_wavelength"], c.a["max_wavelength"])

    def ensures(self, c):
        s = c.a["self"]
        if self.limits:
            for f in ("min_wavelength", "max_wavelength"):
                yield f + " given", compare("==", c.val(c.fld(s, f)), c.a[f])
        yield "minimum below maximum", compare("<", c.val(c.fld(s, "min_wavelength")), c.val(c.fld(s, "max_wavelength")))
        if self.coef:
            yield from model_clauses(c, s, c.oldseq(c.a["coefficients"]))


class Pixels(Contract):
    """get_pixels after set_model"""
    qual = SP + ".get_pixels"
    n, kind, dt, mk = 3, "list", "f", "list"

    def setup(self, c):
        n = c.int("n_coef", 3) if self.n is None else self.n
        coef = (c.list if self.mk == "list" else c.nd)("coef", "f", n)
        s = spectrum(c)
        c.E.call(c.E.getattr(s, "set_model", c.st), [coef], {}, c.st)
        c.d["coef"] = coef
        return {"self": s, "wavelengths": (c.list if self.kind == "list" else c.nd)("wl", self.dt)}

    def requires(self, c):
        yield "limits held are in order", in_order(c, c.a["self"])
        if self.n == 2:
            yield "a line that is not constant", compare("!=", c.seq(c.d["coef"]).at(1), 0)

    def ensures(self, c):
        s = c.a["self"]
        lo, hi = c.fld(s, "min_wavelength"), c.fld(s, "max_wavelength")
        r = as_seq(c.ret)
        yield "pixels and wavelengths", isinstance(r, Seq) and same(r.n, 2)
        p, w = c.seq(c.val(r.at(0))), c.seq(c.val(r.at(1)))
        base = c.oldseq(c.a["wavelengths"])
        keep = lambda k: land(compare("<", lo, base.at(k)), compare("<", base.at(k), hi))
        yield from filtered(c, base, w, keep, lambda x, y: compare("==", x, y), "wavelengths strictly inside the limits")
        yield "a pixel for each", compare("==", p.n, w.n)
        coef = c.oldseq(c.d["coef"])
        if self.n == 1:
            yield "a constant model gives its constant", c.forall(p.n, lambda k: zbool(compare("==", p.at(k), coef.at(0))))
            return
        if self.n is None:
            c.need(c.E.sums, "sum over the coefficients")
        yield "model(pixel) = wavelength", c.forall(p.n, lambda k: zbool(compare("==", ascending(c, coef, p.at(k)), w.at(k))))


class RefusePixels(Contract):
    qual = SP + ".get_pixels"
    always_raises = True
    arg = None

    def setup(self, c):
        coef = c.list("coef", "f", 3)
        s = spectrum(c)
        c.E.call(c.E.getattr(s, "set_model", c.st), [coef], {}, c.st)
        return {"self": s, "wavelengths": self.arg(c)}

    def raises(self, c, et):
        return et == "TypeError"

    def ensures(self, c):
        yield "refused", False


OTHER = [("number", lambda c: c.real("other")), ("none", lambda c: None), ("tuple", lambda c: Tup([c.real("t0"), c.real("t1")])), ("text", lambda c: c.str("other"))]
CONTRACTS = ([SetModel(case=k, kind=k) for k in ("list", "nd")] + [SetModel(case="%d coefficients" % n, n=n) for n in range(1, 6)]
             + [SetModel(case="integers", dt="i", kind="nd")]
             + [RefuseModel(case=n, arg=a) for n, a in OTHER]
             + [Limits(case="floats or omitted")]
             + [Limits(case="%s minimum" % t, lo=t) for t in ("int", "str")] + [Limits(case="%s maximum" % t, hi=t) for t in ("int", "str")]
             + [Init(case="defaults"), Init(case="limits", limits=True), Init(case="list", coef="list"), Init(case="array, limits", coef="nd", limits=True)]
             + [Pixels(case="%d coefficients, %s" % (n, k), n=n, kind=k) for n in (1, 2, 3, 4, 6) for k in ("list", "nd")]
             + [Pixels(case="any degree"), Pixels(case="any degree, arrays", n=None, mk="nd", kind="nd"), Pixels(case="line, array coefficients", n=2, mk="nd"),
                Pixels(case="integer wavelengths", n=2, dt="i")]
             + [RefusePixels(case=n, arg=a) for n, a in OTHER])
for k in CONTRACTS:
    if k.case == "any degree" and isinstance(k, Pixels):
        k.n = None
