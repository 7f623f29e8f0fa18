"""C10: the candidate pairs are the peaks times the lines of the current atlas."""
from .cal import *
from .c04 import Loader, opts
from . import c03
from pyvc.npmodel import flat_dom, MODELS
from pyvc.npmodel import SIMPLEX, polygon_vertices, mask_seq


def polygon(c, s):
    """(x, y) lies in the polygon spanned by the widened limits"""
    E = c.E
    g = {n: c.val(c.fld(s, n)) for n in ("max_intercept", "min_intercept", "candidate_tolerance", "max_wavelength", "range_tolerance")}
    pm = MODELS["numpy.max"](E, c.st, [c.fld(s, "pixel_list")], {})
    a = lambda x, op, y: arith(op, x, y)
    ct, rt, mw = g["candidate_tolerance"], g["range_tolerance"], g["max_wavelength"]
    V = [(F(0), a(g["max_intercept"], "+", ct)), (F(0), a(g["min_intercept"], "-", ct)),
         (pm, a(a(mw, "-", rt), "-", ct)), (pm, a(a(mw, "+", rt), "+", ct))]
    flat = polygon_vertices(V)
    return lambda x, y: compare(">=", SIMPLEX(*flat, zreal(x), zreal(y)), 0)


def pairs_spec(c, s):
    """pairs == peaks x lines (within the polygon), peaks slowest"""
    E = c.E
    P = c.seq(c.val(c.fld(s, "peaks")))
    atlas = c.val(c.fld(s, "atlas"))
    yield "an atlas is set", atlas is not None
    if atlas is None:
        return
    L = lines_of(c, atlas)
    f = flat_dom(E, P.n, lambda r: L.n)
    T = c.seq(c.val(c.fld(s, "pairs")))
    X = lambda r: P.at(f.row(r))
    Y = lambda r: fieldf(c, L.at(f.col(r)), "wavelength")
    cp = c.val(c.fld(s, "constrain_poly"))
    cp = False if cp is None else c.E.truthy(c.st, cp)
    tc = c.st.truth(cp) if is_z(cp) else cp
    if tc is None:
        raise NeedSplit(cp)
    empty = isinstance(T, Seq)
    if empty:
        yield "no pairs only without peaks or lines", land(compare("==", T.n, 0), lor(compare("==", P.n, 0), compare("==", L.n, 0)))
        return
    yield "two columns", len(T.cols) == 2
    base = Seq(f.N, lambda r: Tup([X(r), Y(r)]), "o")
    if not tc:
        yield "as many pairs as combinations", compare("==", T.n, f.N)
        yield "the number of combinations", compare("==", f.N, arith("*", P.n, L.n))
        yield "peaks vary slowest", c.forall(T.n, lambda k: zbool(compare("==", T.cols[0].at(k), X(k))))
        yield "each with the lines in order", c.forall(T.n, lambda k: zbool(compare("==", T.cols[1].at(k), Y(k))))
        return
    d = T.cols[0].dom
    c.need(d is not None and T.cols[1].dom is d, "columns selected alike")
    ins = polygon(c, s)
    inside = lambda r: ins(X(r), Y(r))
    res = Seq(T.n, lambda k: Tup([T.cols[0].at(k), T.cols[1].at(k)]), "o")
    res.dom = d
    yield from filtered(c, base, res, inside, lambda x, y: land(*[compare("==", u, v) for u, v in zip(x.items, y.items)]), "pairs in the polygon")


class Pairs(Contract):
    """shared: the mutators of atlas and search range end with the right pairs"""
    poly = None
    atlas = "atlas"
    peaks = "f"

    def cal(self, c):
        kw = {}
        if self.poly is not None:
            kw["constrain_poly"] = self.poly
        return calibrator_object(c, atlas=self.atlas, pairs=c.table("oldpairs", 2), peaks=self.peaks, **kw)

    def setup(self, c):
        return {"self": self.cal(c)}
    noframe = True

    def raises(self, c, et):
        return et == "QhullError"

    def ensures(self, c):
        yield from pairs_spec(c, c.a["self"])


class Generate(Pairs):
    qual = CAL + "._generate_pairs"
    noframe = False

    def modifies(self, c):
        return [("fld", c.a["self"], "pairs")]


class SetAtlas(Pairs):
    qual = CAL + ".set_atlas"
    how = "given"

    def setup(self, c):
        d = {"self": self.cal(c), "atlas": atlas_object(c, "new")}
        if self.how == "given":
            d.update(candidate_tolerance=c.real("ct"), constrain_poly=c.bool("cp"))
        return d
    noframe = False

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("pairs", "atlas", "candidate_tolerance", "constrain_poly")]

    def ensures(self, c):
        s = c.a["self"]
        yield "the atlas given is the current one", c.val(c.fld(s, "atlas")) == c.a["atlas"]
        yield "candidate tolerance", val_eq(c, c.fld(s, "candidate_tolerance"), c.a.get("candidate_tolerance", F(10)))
        yield "polygon constraint", val_eq(c, c.fld(s, "constrain_poly"), c.a.get("constrain_poly", False))
        yield from pairs_spec(c, s)


class AddAtlas(Pairs):
    qual = CAL + ".add_atlas"
    els, limits = "list", "given"

    def setup(self, c):
        d = {"self": self.cal(c), "elements": c.str("element") if self.els == "one" else c.list("elements", "s")}
        if self.limits == "given":
            d.update(min_atlas_wavelength=c.real("lo"), max_atlas_wavelength=c.real("hi"))
        d.update({k: v for k, v in opts(c, "given").items() if k not in ("linelist", "brightest_n_lines")})
        d.update(candidate_tolerance=c.real("ct"), constrain_poly=c.bool("cp"))
        return d

    def requires(self, c):
        s = c.a["self"]
        v = lambda n: c.val(c.fld(s, n))
        lo = c.a.get("min_atlas_wavelength", arith("-", v("min_wavelength"), v("range_tolerance")))
        hi = c.a.get("max_atlas_wavelength", arith("+", v("max_wavelength"), v("range_tolerance")))
        yield "limits at which the conversion is defined", land(compare(">", lo, F(2000)), compare(">", hi, F(2000)))

    def raises(self, c, et):
        return et in ("QhullError", "ValueError")


class AddUser(Pairs):
    qual = CAL + ".add_user_atlas"

    def setup(self, c):
        n = c.int("n_new", 1)
        return {"self": self.cal(c), "elements": c.list("els", "s", n), "wavelengths": c.list("wls", "f", n), "intensities": c.list("ints", "f", n),
                "candidate_tolerance": c.real("ct"), "constrain_poly": c.bool("cp")}

    def raises(self, c, et):
        return et in ("QhullError",)


class Remove(Pairs):
    qual = CAL + ".remove_atlas_lines_range"

    def setup(self, c):
        return {"self": self.cal(c), "wavelength": c.real("wavelength"), "tolerance": c.real("tolerance")}


class Clear(Pairs):
    qual = CAL + ".clear_atlas"


class Hough(Pairs):
    qual = CAL + ".set_hough_properties"

    def setup(self, c):
        from .c11 import HOUGH
        d = {"self": self.cal(c)}
        for name, (t, _) in HOUGH.items():
            d[name] = opt(c, name, t)
        return d


class Cal(Pairs):
    """the pairs are right before, too"""
    qual = CAL + ".set_calibrator_properties"

    def setup(self, c):
        d = {"self": self.cal(c), "num_pix": opt(c, "num_pix", "f")}
        g = c.bool("given_pixel_list")
        d["pixel_list"] = Alt([(g, c.nd("pixel_list_arg", "f", c.int("n_pixel_list_arg", 1))), (z3.Not(g), None)])
        s = d["self"]
        o = c.st.heap[s.id]
        P, L = c.seq(o.f["peaks"]), lines_of(c, o.f["atlas"])
        f = flat_dom(c.E, P.n, lambda r: L.n)
        T = Table([Seq(f.N, lambda r: P.at(f.row(r)), "f"), Seq(f.N, lambda r: fieldf(c, L.at(f.col(r)), "wavelength"), "f")], "f")
        if self.poly:
            ins = polygon(c, s)
            T = mask_seq(c.E, c.st, T, Seq(f.N, lambda r: ins(T.cols[0].at(r), T.cols[1].at(r)), "b"))
        c.st.heap[s.id] = HObj(o.cls, dict(o.f, pairs=c.E.new_nd(c.st, T)))
        return d

    def requires(self, c):
        from .c11 import limits_follow
        s = c.a["self"]
        for g, v in c.a["num_pix"].alts:
            if v is not None:
                yield "positive number of pixels", implies(g, compare(">", v, 1))
        yield "positive number of pixels before", compare(">", c.val(c.fld(s, "num_pix")), 1)
        for n, f in limits_follow(c, s):
            yield n, f


TABLE = [Loader(), c03.Convert(qual=c03.V2A, op="/", how="nd", defaults=False)]
CONTRACTS = ([Generate(case="free", poly=False), Generate(case="polygon", poly=True), Generate(case="free, integer peaks", poly=False, peaks="i"),
              Generate(case="polygon, integer peaks", poly=True, peaks="i"),
              SetAtlas(case="options given"), SetAtlas(case="first, defaults", how="default", atlas=None),
              AddAtlas(case="first", atlas=None), AddAtlas(case="further"), AddAtlas(case="one element, default limits", els="one", limits="default"),
              AddUser(case="further"), AddUser(case="first", atlas=None)]
             + [k(case="free" if not p else "polygon", poly=p) for k in (Remove, Clear, Hough, Cal) for p in (False, True)])
