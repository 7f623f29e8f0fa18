"""Contracts of the line loader and its filters (C01, C02)."""
from fractions import Fraction as F
from pyvc.contract import *
from pyvc.npmodel import FILE_N, FILE_C
from . import c03


def elements_arg(c, how):
    if how == "one":
        return c.str("element")
    return c.list("elements", "s")


class Rows:
    """the rows of the line list, as the specification reads them"""

    def __init__(self, c, path, elements):
        self.c, self.p = c, zstr(path)
        self.n = FILE_N(self.p)
        self.elements = elements

    def el(self, r):
        return FILE_C(self.p, zint(r), 0)

    def wl(self, r):
        return PARSE(FILE_C(self.p, zint(r), 1))

    def it(self, r):
        return PARSE(FILE_C(self.p, zint(r), 2))

    def requested(self, r):
        e = self.elements
        if is_strv(e):
            return compare("==", self.el(r), e)
        s = self.c.oldseq(e)
        return self.c.exists(s.n, lambda i: compare("==", s.at(i), self.el(r)))

    def first(self, r):
        """no earlier line of a requested element has the same wavelength"""
        return self.c.forall(r, lambda q: zbool(lnot(land(self.requested(q), compare("==", self.wl(q), self.wl(r))))))


class FilterSeparation(Contract):
    qual = "rascal.util.filter_separation"

    def setup(self, c):
        return {"wavelengths": c.nd("wl", self.dt), "min_separation": c.real("sep")}

    def requires(self, c):
        w = c.seq(c.a["wavelengths"])
        yield "ascending", c.forall(arith("-", w.n, 1), lambda k: compare("<=", w.at(k), w.at(k + 1)))

    def result(self, c):
        w = c.seq(c.a["wavelengths"])
        f, nm = c.E.fresh_fun("sepmask", [I], B)
        return c.E.new_nd(c.st, Seq(w.n, lambda k: f(zint(k)), "b"))

    def ensures(self, c):
        w = c.oldseq(c.a["wavelengths"])
        s = c.val(c.a["min_separation"])
        r = c.seq(c.ret)
        n = w.n
        yield "length", compare("==", r.n, n)
        yield "boolean", r.dt == "b"
        yield "kept exactly when every adjacent line is far enough", c.forall(n, lambda k: zbool(r.at(k)) == zbool(land(
            lor(compare("==", k, 0), compare(">=", arith("-", w.at(k), w.at(k - 1)), s)),
            lor(compare("==", k + 1, n), compare(">=", arith("-", w.at(k + 1), w.at(k)), s)))))


class FilterWavelengths(Contract):
    qual = "rascal.util.filter_wavelengths"

    def setup(self, c):
        n = c.int("n_lines", 0)
        return {"lines": c.table("lines", 3, n, dt="s"), "min_atlas_wavelength": c.real("lo"), "max_atlas_wavelength": c.real("hi")}

    def ensures(self, c):
        t = c.oldseq(c.a["lines"])
        r = c.seq(c.ret)
        lo, hi = c.a["min_atlas_wavelength"], c.a["max_atlas_wavelength"]
        w = lambda k: PARSE(t.cols[1].at(k))
        yield "three columns", isinstance(r, Table) and len(r.cols) == 3
        d = r.cols[0].dom
        c.need(d is not None and all(x.dom is d for x in r.cols), "columns selected alike")
        yield "rows of the input", c.forall(r.n, lambda k: zbool(land(
            compare(">=", d.src(k), 0), compare("<", d.src(k), t.n),
            *[compare("==", r.cols[j].at(k), t.cols[j].at(d.src(k))) for j in range(3)])))
        yield "inside the limits", c.forall(r.n, lambda k: zbool(land(compare("<=", lo, w(d.src(k))), compare("<=", w(d.src(k)), hi))))
        yield "every wavelength inside the limits is there", c.forall(t.n, lambda k: zbool(implies(
            land(compare("<=", lo, w(k)), compare("<=", w(k), hi),
                 c.forall(k, lambda q: zbool(compare("!=", w(q), w(k))))),
            land(compare(">=", d.inv(k), 0), compare("<", d.inv(k), r.n), compare("==", d.src(d.inv(k)), k)))))
        yield "ascending and once", c.forall(r.n, lambda k: zbool(implies(compare(">", k, 0), compare("<", w(d.src(arith("-", k, 1))), w(d.src(k))))))
        yield "the first of equal wavelengths", c.forall(r.n, lambda k: c.forall(d.src(k), lambda q: zbool(compare("!=", w(q), w(d.src(k))))))


class Load(Contract):
    qual = "rascal.util.load_calibration_lines"
    els, mi, N, path, vac, only = "list", "float", True, "file", True, None

    def setup(self, c):
        d = {"elements": elements_arg(c, self.els), "min_atlas_wavelength": c.real("lo"), "max_atlas_wavelength": c.real("hi"),
             "min_distance": c.real("sep"), "vacuum": self.vac}
        d["linelist"] = "nist" if self.path == "nist" else c.str("path")
        mi = self.mi
        d["min_intensity"] = None if mi == "none" else (c.real("mi") if mi == "float" else c.int("mi") if mi == "int" else
                                                       c.list("mi", "f", c.int("n_mi", 0)))
        if self.N:
            d["brightest_n_lines"] = c.int("N", 0)
        if not self.vac:
            d.update(pressure=c.real("press"), temperature=c.real("temp"), relative_humidity=c.real("rh"))
        return d

    def requires(self, c):
        if self.path == "file":
            yield "not the built-in list", z3.Not(z3.Function("str_lower", Str, Str)(c.a["linelist"]) == str_const("nist"))
        if not self.vac:
            T = c.a["temperature"]
            yield "temperature in range", land(compare(">", T, F("0.0001")), compare("<", T, F(600)))
            yield "pressure formula defined", compare("!=", arith("+", 1, arith("*", F("0.003661"), arith("-", T, F("273.15")))), 0)
            yield "limits in range", land(compare(">", c.a["min_atlas_wavelength"], F(2000)), compare(">", c.a["max_atlas_wavelength"], F(2000)))
            r = self.rows(c)
            yield "line list in range", c.forall(r.n, lambda k: compare(">", r.wl(k), F(2000)))
        if self.mi == "list":
            e, m = c.seq(c.a["elements"]), c.seq(c.a["min_intensity"])
            yield "elements named once", c.forall(e.n, lambda i: c.forall(i, lambda j: compare("!=", e.at(i), e.at(j))))

    def raises(self, c, et):
        if et == "AssertionError" and self.mi == "list":
            return compare("!=", c.oldseq(c.a["elements"]).n, c.oldseq(c.a["min_intensity"]).n)
        if et == "ValueError" and self.path == "file":
            return True  # the file does not exist
        return False

    def rows(self, c):
        p = c.a["linelist"]
        if self.path == "nist":
            from pyvc.npmodel import resource_path
            p = resource_path(c.E, "rascal", "arc_lines/nist_clean.csv")
        return Rows(c, p, c.a["elements"])

    def hooks(self, c):
        c.d["sep"] = []

        def seen(E, st, k, env):
            # ghost: the list of wavelengths the separations are judged in
            st.ghost["sep_arg"] = env["wavelengths"]
            st.ghost["sep_seq"] = E.seq(st, env["wavelengths"])
        c.E.on_call[FilterSeparation.qual] = seen

    def ensures(self, c):
        for name, f in self.clauses(c):
            if self.only is None or any(name.startswith(x) for x in self.only):
                yield name, f

    def clauses(self, c):
        r = self.rows(c)
        res = c.val(c.ret)
        ok = isinstance(res, Tup) and len(res.items) == 3
        yield "three columns", ok
        if not ok:
            return
        E_, W_, I_ = [c.seq(x) for x in res.items]
        d = I_.dom
        c.need(d is not None and E_.dom is d, "columns selected alike")
        T = c.gho("sep_seq")
        sep = c.a["min_distance"]
        td = T.dom if T is not None else d
        tn = T.n if T is not None else I_.n
        lo, hi = c.a["min_atlas_wavelength"], c.a["max_atlas_wavelength"]
        if not self.vac:
            k = c03.Convert(qual=c03.A2V, op="*", how="pair", defaults=False)
            cc = Ctx(c.E, c.st, k, {x: c.a[x] for x in ("temperature", "pressure", "relative_humidity")})
            lo, hi = k.value(cc, lo), k.value(cc, hi)
            k2 = c03.Convert(qual=c03.V2A, op="/", how="nd", defaults=False)
            back = lambda w: k2.value(cc, w)
        else:
            back = lambda w: w
        mi = self.mi

        def bright(q):
            if mi == "none":
                return True
            if mi != "list":
                return compare(">=", r.it(q), c.a["min_intensity"])
            e, m = c.oldseq(c.a["elements"]), c.oldseq(c.a["min_intensity"])
            return c.exists(e.n, lambda i: land(compare("==", e.at(i), r.el(q)), compare(">=", r.it(q), m.at(i))))

        def cand(q, first=True):
            return land(r.requested(q), compare("<=", lo, r.wl(q)), compare("<=", r.wl(q), hi), bright(q),
                        r.first(q) if first else True)
        rng = lambda q: land(compare(">=", q, 0), compare("<", q, r.n))
        yield "each row is one line of the list", c.forall(I_.n, lambda k: zbool(land(
            rng(d.src(k)), compare("==", E_.at(k), r.el(d.src(k))), compare("==", I_.at(k), r.it(d.src(k))),
            compare("==", W_.at(k), back(r.wl(d.src(k)))))))
        yield "as many wavelengths as lines", compare("==", W_.n, I_.n)
        yield "only lines of the requested elements", c.forall(I_.n, lambda k: zbool(r.requested(d.src(k))))
        yield "only lines within the limits", c.forall(I_.n, lambda k: zbool(land(compare("<=", lo, r.wl(d.src(k))), compare("<=", r.wl(d.src(k)), hi))))
        yield "only lines bright enough", c.forall(I_.n, lambda k: zbool(bright(d.src(k))))
        yield "ascending, a wavelength once", c.forall(I_.n, lambda k: zbool(implies(
            compare(">", k, 0), compare("<", r.wl(d.src(arith("-", k, 1))), r.wl(d.src(k))))))
        # the lines before thinning
        if self.N:
            N = c.a["brightest_n_lines"]
            yield "at most N lines", compare("<=", tn, N)
            yield "N is reached unless all the lines are kept", c.forall(r.n, lambda q: zbool(implies(
                land(compare("<", tn, N), cand(q)), land(td.member(q)))))
            yield "the brightest ones", c.forall(r.n, lambda q: c.forall(tn, lambda k: zbool(implies(
                land(cand(q), lnot(td.member(q))), compare(">=", r.it(td.src(k)), r.it(q))))))
        else:
            yield "no line is missing", c.forall(r.n, lambda q: zbool(implies(cand(q), td.member(q))))
        if T is not None:
            yield "separations judged among the lines selected, in vacuum", c.forall(tn, lambda k: zbool(land(
                rng(td.src(k)), cand(td.src(k), False), compare("==", T.at(k), r.wl(td.src(k))))))
            far = lambda k: land(lor(compare("==", k, 0), compare(">=", arith("-", T.at(k), T.at(arith("-", k, 1))), sep)),
                                 lor(compare("==", arith("+", k, 1), tn), compare(">=", arith("-", T.at(arith("+", k, 1)), T.at(k)), sep)))
            yield "thinned only by the separation", c.forall(tn, lambda k: zbool(implies(
                lor(compare("<=", sep, 0), far(k)),
                land(d.member(td.src(k)), compare(">=", d.inv(td.src(k)), 0), compare("<", d.inv(td.src(k)), I_.n), compare("==", d.src(d.inv(td.src(k))), td.src(k))))))
            yield "blended lines dropped", c.forall(I_.n, lambda k: zbool(implies(compare(">", sep, 0),
                land(td.member(d.src(k)), far(td.inv(d.src(k)))))))
        else:
            yield "not thinned", compare("<=", sep, 0)


TABLE = [FilterSeparation(dt="f"), c03.Convert(qual=c03.V2A, op="/", how="nd", defaults=False),
         c03.Convert(qual=c03.A2V, op="*", how="nd", defaults=False)]
