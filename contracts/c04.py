"""C04: adding lines to an atlas, its columns, clearing."""
from fractions import Fraction as F
from pyvc.contract import *
from pyvc.npmodel import flat_dom, isfin
from . import c03
from .cal import calibrator_object, CAL, PairsStub

_S = [Str, R, R, R, R, B, R, R, R, Str, I]
LN = z3.Function("loader_n", *_S, I)
LE = z3.Function("loader_element", *_S, I, Str)
LW = z3.Function("loader_wavelength", *_S, I, R)
LI = z3.Function("loader_intensity", *_S, I, R)
LOADER = "rascal.util.load_calibration_lines"
OPTS = ("min_intensity", "min_distance", "vacuum", "pressure", "temperature", "relative_humidity", "linelist", "brightest_n_lines")


def loader_args(c, element, lo, hi, a):
    return [zstr(element), zreal(lo), zreal(hi), zreal(a["min_intensity"]), zreal(a["min_distance"]), zbool(a["vacuum"]),
            zreal(a["pressure"]), zreal(a["temperature"]), zreal(a["relative_humidity"]), zstr(a["linelist"]),
            zint(a["brightest_n_lines"])]


class Loader(Contract):
    """the line loader as its callers see it: some lines, determined by the arguments
    (which ones is C01)"""
    qual = LOADER

    def requires(self, c):
        yield "limits at which the conversion is defined", lor(c.val(c.a["vacuum"]), land(
            compare(">", c.val(c.a["min_atlas_wavelength"]), F(2000)), compare(">", c.val(c.a["max_atlas_wavelength"]), F(2000))))

    def result(self, c):
        a = {k: c.val(v) for k, v in c.a.items()}
        t = loader_args(c, a["elements"], a["min_atlas_wavelength"], a["max_atlas_wavelength"], a)
        n = LN(*t)
        c.st.add(n >= 0)
        return Tup([c.E.new_nd(c.st, Seq(n, (lambda f: lambda k: f(*t, zint(k)))(f), dt)) for f, dt in ((LE, "s"), (LW, "f"), (LI, "f"))])


DEFAULTS = {"min_intensity": F(10), "min_distance": F(10), "vacuum": False, "pressure": F(101325), "temperature": F("273.15"),
            "relative_humidity": F(0), "linelist": "nist", "brightest_n_lines": 1000}


def opts(c, how):
    if how == "default":
        return {}
    return {"min_intensity": c.real("mi"), "min_distance": c.real("md"), "vacuum": c.bool("vac"), "pressure": c.real("press"),
            "temperature": c.real("temp"), "relative_humidity": c.real("rh"), "linelist": c.str("linelist"),
            "brightest_n_lines": c.int("N")}


def element_seq(c, v):
    """the requested elements as a sequence of strings"""
    if v is None:
        return Seq(0, items=[])
    if is_strv(v):
        return Seq(1, items=[v])
    return c.oldseq(v)


def appended(c, old, new, n_new, elem):
    """new is old followed by n_new lines, of which elem(p) is a (name, formula fn) list"""
    yield "as many lines as before and the lines added", compare("==", new.n, arith("+", old.n, n_new))
    yield "the earlier lines stay", c.forall(old.n, lambda k: zbool(line_eq(c)(old.at(k), new.at(k))))


class Add(Contract):
    qual = "rascal.atlas.Atlas.add"
    els, limits, how = "list", "given", "given"

    def setup(self, c):
        d = {"self": atlas_object(c)}
        if self.els != "none":
            d["elements"] = c.str("element") if self.els == "one" else c.list("elements", "s")
        if self.limits == "given":
            d["min_atlas_wavelength"], d["max_atlas_wavelength"] = c.real("lo"), c.real("hi")
        d.update(opts(c, self.how))
        return d

    def limit(self, c, st=None):
        s = c.a["self"]
        if self.limits == "given":
            return c.a["min_atlas_wavelength"], c.a["max_atlas_wavelength"]
        st = c.old or c.st
        t = c.fld(s, "range_tolerance", st)
        return (arith("-", c.fld(s, "min_atlas_wavelength", st), t), arith("+", c.fld(s, "max_atlas_wavelength", st), t))

    def requires(self, c):
        lo, hi = self.limit(c)
        yield "limits at which the conversion is defined", lor(c.a.get("vacuum", False), land(compare(">", lo, F(2000)), compare(">", hi, F(2000))))

    def modifies(self, c):
        return [("fld", c.a["self"], "atlas_lines"), ("heap", c.val(c.fld(c.a["self"], "atlas_lines", c.old), c.old))]

    def raises(self, c, et):
        lo, hi = self.limit(c)
        if et == "ValueError":
            old, new = lines_of(c, c.a["self"], c.old), lines_of(c, c.a["self"])
            return [("refused only for a limit that is not finite", lor(lnot(zbool(isfin(lo))), lnot(zbool(isfin(hi))))),
                    ("lines unchanged", seq_equal_form(c, old, new))]
        return False

    def ensures(self, c):
        lo, hi = self.limit(c)
        yield "limits are finite", land(zbool(isfin(lo)), zbool(isfin(hi)))
        old, new = lines_of(c, c.a["self"], c.old), lines_of(c, c.a["self"])
        es = element_seq(c, c.a.get("elements"))
        a = {k: c.a.get(k, DEFAULTS[k]) for k in OPTS}
        yield from added_lines(c, es, lo, hi, a, old, new)


def added_lines(c, es, lo, hi, a, old, new):
    t = lambda i: loader_args(c, es.at(i), lo, hi, a)
    if es.items is not None and len(es.items) == 0:
        yield "no line added", compare("==", new.n, old.n)
        return
    if es.items is not None and len(es.items) == 1:
        n = LN(*t(0))
        row, col = (lambda p: 0), (lambda p: p)
    else:
        f = flat_dom(c.E, es.n, lambda i: LN(*t(i)))
        n, row, col = f.N, f.row, f.col
    yield "one line per line selected", compare("==", new.n, arith("+", old.n, n))
    yield "the earlier lines stay", c.forall(old.n, lambda k: zbool(line_eq(c)(old.at(k), new.at(k))))
    ln = lambda p: new.at(arith("+", old.n, p))
    for fld, f in (("wavelength", LW), ("element", LE), ("intensity", LI)):
        yield "the %s is that of the line selected, element by element" % fld, c.forall(n, lambda p: zbool(compare(
            "==", fieldf(c, ln(p), fld), f(*t(row(p)), zint(col(p))))))


class New(Contract):
    """the constructor: settings stored, lines of the elements added"""
    qual = "rascal.atlas.Atlas.__init__"
    els = "list"

    def setup(self, c):
        o = c.obj("rascal.atlas.Atlas", {})
        d = {"self": o, "min_atlas_wavelength": c.real("lo"), "max_atlas_wavelength": c.real("hi"), "range_tolerance": c.real("tol")}
        d.update({k: v for k, v in opts(c, "given").items() if k != "brightest_n_lines"})
        if self.els != "none":
            d["elements"] = c.list("elements", "s")
        return d

    def requires(self, c):
        yield "limits at which the conversion is defined", lor(c.a["vacuum"], land(
            compare(">", c.a["min_atlas_wavelength"], F(2000)), compare(">", c.a["max_atlas_wavelength"], F(2000))))

    def modifies(self, c):
        return [("obj", c.a["self"])]

    def raises(self, c, et):
        return et == "ValueError" and self.els != "none" and lor(lnot(zbool(isfin(c.a["min_atlas_wavelength"]))), lnot(zbool(isfin(c.a["max_atlas_wavelength"]))))

    def ensures(self, c):
        s = c.a["self"]
        for f in ("min_atlas_wavelength", "max_atlas_wavelength", "min_intensity", "min_distance", "range_tolerance"):
            yield f + " stored", val_eq(c, c.fld(s, f), c.a[f])
        es = element_seq(c, c.a.get("elements"))
        a = {k: c.a.get(k, DEFAULTS[k]) for k in OPTS}
        yield from added_lines(c, es, c.a["min_atlas_wavelength"], c.a["max_atlas_wavelength"], a, Seq(0, items=[]), lines_of(c, s))


class AddUser(Contract):
    qual = "rascal.atlas.Atlas.add_user_atlas"
    els, wl, it, vac = "list", "list", "list", False

    def arg(self, c, name, how, dt):
        if how == "scalar":
            return c.str(name) if dt == "s" else c.real(name)
        return c.nd(name, dt) if how == "nd" else c.list(name, dt)

    def setup(self, c):
        d = {"self": atlas_object(c), "elements": self.arg(c, "els", self.els, "s"), "wavelengths": self.arg(c, "wls", self.wl, "f")}
        if self.it != "none":
            d["intensities"] = self.arg(c, "ints", self.it, "f")
        if self.vac:
            d.update(vacuum=True, pressure=c.real("press"), temperature=c.real("temp"), relative_humidity=c.real("rh"))
        return d

    def col(self, c, name):
        v = c.a[name]
        return Seq(1, items=[v]) if is_scalar(v) else (c.oldseq(v) if c.old is not None else c.seq(v))

    def requires(self, c):
        w = self.col(c, "wavelengths")
        yield "at least one line", compare(">=", w.n, 1)
        if self.vac:
            T = c.a["temperature"]
            yield "temperature in range", land(compare(">", T, F("0.0001")), compare("<", T, F(600)))
            yield "pressure formula defined", compare("!=", arith("+", 1, arith("*", F("0.003661"), arith("-", T, F("273.15")))), 0)
            yield "wavelengths in range", c.forall(w.n, lambda k: compare(">", w.at(k), F(2000)))

    def modifies(self, c):
        s = c.a["self"]
        return [("fld", s, "atlas_lines"), ("fld", s, "min_atlas_wavelength"), ("fld", s, "max_atlas_wavelength"),
                ("heap", c.val(c.fld(s, "atlas_lines", c.old), c.old))]

    def lens_equal(self, c):
        e, w = self.col(c, "elements"), self.col(c, "wavelengths")
        r = compare("==", e.n, w.n)
        if self.it != "none":
            r = land(r, compare("==", e.n, self.col(c, "intensities").n))
        return r

    def raises(self, c, et):
        if et in ("AssertionError", "ValueError"):
            old, new = lines_of(c, c.a["self"], c.old), lines_of(c, c.a["self"])
            return [("refused only for different lengths", lnot(self.lens_equal(c))),
                    ("lines unchanged", seq_equal_form(c, old, new))]
        return False

    def ensures(self, c):
        e, w = self.col(c, "elements"), self.col(c, "wavelengths")
        it = self.col(c, "intensities") if self.it != "none" else None
        yield "accepted only with equal lengths", self.lens_equal(c)
        old, new = lines_of(c, c.a["self"], c.old), lines_of(c, c.a["self"])
        yield "one line per element", compare("==", new.n, arith("+", old.n, e.n))
        yield "the earlier lines stay", c.forall(old.n, lambda k: zbool(line_eq(c)(old.at(k), new.at(k))))
        ln = lambda p: new.at(arith("+", old.n, p))
        if self.vac:
            k2 = c03.Convert(qual=c03.V2A, op="/", how="nd", defaults=False)
            wv = lambda p: k2.value(c, w.at(p))
        else:
            wv = w.at
        yield "its element", c.forall(e.n, lambda p: zbool(compare("==", fieldf(c, ln(p), "element"), e.at(p))))
        yield "its wavelength", c.forall(e.n, lambda p: zbool(compare("==", fieldf(c, ln(p), "wavelength"), wv(p))))
        yield "its intensity", c.forall(e.n, lambda p: zbool(compare("==", fieldf(c, ln(p), "intensity"), it.at(p) if it is not None else 0)))


class Column(Contract):
    def setup(self, c):
        return {"self": atlas_object(c)}

    def ensures(self, c):
        old = lines_of(c, c.a["self"], c.old)
        if self.field is None:
            yield "number of lines", compare("==", c.ret, old.n)
            return
        r = c.seq(c.ret)
        yield "as many as lines", compare("==", r.n, old.n)
        yield "in order", c.forall(old.n, lambda k: zbool(compare("==", r.at(k), fieldf(c, old.at(k), self.field))))


class Clear(Contract):
    qual = "rascal.atlas.Atlas.clear"

    def setup(self, c):
        return {"self": atlas_object(c)}

    def modifies(self, c):
        return [("fld", c.a["self"], "atlas_lines"), ("heap", c.val(c.fld(c.a["self"], "atlas_lines", c.old), c.old))]

    def ensures(self, c):
        yield "empty", compare("==", lines_of(c, c.a["self"]).n, 0)


class Listing(Contract):
    qual = "rascal.atlas.Atlas.list"

    def setup(self, c):
        return {"self": atlas_object(c)}


class CalAdd(Contract):
    """lines added through a calibrator: to its atlas, or to a new one"""
    qual = CAL + ".add_atlas"
    els, limits, how, first = "list", "given", "given", False

    def setup(self, c):
        d = {"self": calibrator_object(c, atlas=None if self.first else "atlas", pairs=c.table("oldpairs", 2)),
             "elements": c.str("element") if self.els == "one" else c.list("elements", "s")}
        if self.limits == "given":
            d.update(min_atlas_wavelength=c.real("lo"), max_atlas_wavelength=c.real("hi"))
        d.update({k: v for k, v in opts(c, self.how).items() if k not in ("linelist", "brightest_n_lines")})
        if self.how == "given":
            d.update(candidate_tolerance=c.real("ct"), constrain_poly=c.bool("cp"))
        return d

    def limit(self, c):
        if self.limits == "given":
            return c.a["min_atlas_wavelength"], c.a["max_atlas_wavelength"]
        v = lambda n: c.val(c.fld(c.a["self"], n, c.old or c.st))
        return arith("-", v("min_wavelength"), v("range_tolerance")), arith("+", v("max_wavelength"), v("range_tolerance"))

    def requires(self, c):
        lo, hi = self.limit(c)
        yield "limits at which the conversion is defined", lor(c.a.get("vacuum", False), land(compare(">", lo, F(2000)), compare(">", hi, F(2000))))

    def before(self, c):
        return Seq(0, items=[]) if self.first else lines_of(c, c.fld(c.a["self"], "atlas", c.old), c.old)

    def now(self, c):
        return lines_of(c, c.val(c.fld(c.a["self"], "atlas")))

    def modifies(self, c):
        s = c.a["self"]
        out = [("fld", s, f) for f in ("pairs", "candidate_tolerance", "constrain_poly", "atlas")]
        if not self.first:
            a = c.fld(s, "atlas", c.old)
            out += [("fld", a, f) for f in ("atlas_lines", "min_atlas_wavelength", "max_atlas_wavelength")]
            out.append(("heap", c.val(c.fld(a, "atlas_lines", c.old), c.old)))
        return out

    def raises(self, c, et):
        lo, hi = self.limit(c)
        if et == "ValueError":
            ref = lor(lnot(zbool(isfin(lo))), lnot(zbool(isfin(hi))))
            if self.first:
                return [("refused only for a limit that is not finite", ref)]
            return [("refused only for a limit that is not finite", ref),
                    ("lines unchanged", seq_equal_form(c, self.before(c), self.now(c)))]
        return False

    def kept(self, c):
        s = c.a["self"]
        if not self.first:
            yield "the atlas is the same", c.val(c.fld(s, "atlas")) == c.fld(s, "atlas", c.old)

    def ensures(self, c):
        yield from self.kept(c)
        lo, hi = self.limit(c)
        a = {k: c.a.get(k, DEFAULTS[k]) for k in OPTS}
        yield from added_lines(c, element_seq(c, c.a["elements"]), lo, hi, a, self.before(c), self.now(c))


class CalAddUser(CalAdd):
    qual = CAL + ".add_user_atlas"
    ints, vac = True, False

    def setup(self, c):
        n = c.int("n_new", 1)
        d = {"self": calibrator_object(c, atlas=None if self.first else "atlas", pairs=c.table("oldpairs", 2)),
             "elements": c.list("els", "s", n), "wavelengths": c.list("wls", "f", n)}
        if self.ints:
            d["intensities"] = c.list("ints", "f", n)
        if self.vac:
            d.update(vacuum=True, pressure=c.real("press"), temperature=c.real("temp"), relative_humidity=c.real("rh"))
        return d

    def requires(self, c):
        if self.vac:
            w, T = c.seq(c.a["wavelengths"]), c.a["temperature"]
            yield "temperature in range", land(compare(">", T, F("0.0001")), compare("<", T, F(600)))
            yield "pressure formula defined", compare("!=", arith("+", 1, arith("*", F("0.003661"), arith("-", T, F("273.15")))), 0)
            yield "wavelengths in range", c.forall(w.n, lambda k: compare(">", w.at(k), F(2000)))

    def raises(self, c, et):
        return False

    def ensures(self, c):
        yield from self.kept(c)
        old, new = self.before(c), self.now(c)
        e, w = c.oldseq(c.a["elements"]), c.oldseq(c.a["wavelengths"])
        it = c.oldseq(c.a["intensities"]) if self.ints else None
        if self.vac:
            k2 = c03.Convert(qual=c03.V2A, op="/", how="nd", defaults=False)
            wv = lambda p: k2.value(c, w.at(p))
        else:
            wv = w.at
        yield "one line per element", compare("==", new.n, arith("+", old.n, e.n))
        yield "the earlier lines stay", c.forall(old.n, lambda k: zbool(line_eq(c)(old.at(k), new.at(k))))
        ln = lambda p: new.at(arith("+", old.n, p))
        yield "its element", c.forall(e.n, lambda p: zbool(compare("==", fieldf(c, ln(p), "element"), e.at(p))))
        yield "its wavelength", c.forall(e.n, lambda p: zbool(compare("==", fieldf(c, ln(p), "wavelength"), wv(p))))
        yield "its intensity", c.forall(e.n, lambda p: zbool(compare("==", fieldf(c, ln(p), "intensity"), it.at(p) if it is not None else 0)))


class CalClear(CalAdd):
    qual = CAL + ".clear_atlas"

    def setup(self, c):
        return {"self": calibrator_object(c, pairs=c.table("oldpairs", 2))}

    def requires(self, c):
        return []

    def raises(self, c, et):
        return False

    def ensures(self, c):
        yield from self.kept(c)
        yield "empty", compare("==", self.now(c).n, 0)


A = "rascal.atlas.Atlas."
TABLE = [Loader(), PairsStub(), c03.Convert(qual=c03.V2A, op="/", how="nd", defaults=False)]
CONTRACTS = ([Add(case="%s, limits %s" % (e, l), els=e, limits=l) for e, l in (("list", "given"), ("list", "default"), ("one", "given"), ("none", "default"))]
             + [Add(case="list, default options", how="default"), New(case="elements"), New(case="no elements", els="none")]
             + [AddUser(case=", ".join(x) + (", converted" if v else ""), els=x[0], wl=x[1], it=x[2], vac=v) for x, v in (
                 (("list", "list", "list"), False), (("list", "list", "none"), False), (("nd", "nd", "nd"), False),
                 (("scalar", "scalar", "scalar"), False), (("scalar", "scalar", "none"), False), (("list", "nd", "list"), True),
                 (("list", "list", "none"), True))]
             + [Column(qual=A + "get_lines", field="wavelength"), Column(qual=A + "get_elements", field="element"),
                Column(qual=A + "get_intensities", field="intensity"), Column(qual=A + "__len__", field=None), Clear(), Listing()]
             + [CalAdd(case="elements", ), CalAdd(case="one element, default limits", els="one", limits="default"),
                CalAdd(case="first", first=True), CalAdd(case="first, defaults", first=True, limits="default", how="default"),
                CalAdd(case="default options", how="default"),
                CalAddUser(case="further"), CalAddUser(case="first", first=True), CalAddUser(case="first, no intensities", first=True, ints=False),
                CalAddUser(case="converted", vac=True), CalClear()])
