"""Contracts of the Hough transform (C06, C07, C08)."""
from fractions import Fraction as F
from pyvc.contract import *
from pyvc.npmodel import flat_dom, isfin

HT = "rascal.houghtransform.HoughTransform"
FIELDS = ("hough_points", "hough_lines", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept")


def hough_object(c, points=None, name="ht_", **kw):
    # not the names of the calibrator's settings: those of a transform need not be the same
    f = {"hough_points": points, "hough_lines": None, "hist": None, "xedges": None, "yedges": None}
    f.update({x: c.real(name + x) for x in ("min_slope", "max_slope", "min_intercept", "max_intercept")})
    f.update(kw)
    return c.obj(HT, f)


def limits(c):
    s = c.a["self"]
    return [c.fld(s, x, c.old) for x in ("min_slope", "max_slope", "min_intercept", "max_intercept")]


def points_of(c):
    return c.seq(c.val(c.fld(c.a["self"], "hough_points")))


class Grid_(Contract):
    """generate_hough_points"""
    qual = HT + ".generate_hough_points"
    dt = "f"

    def setup(self, c):
        n = c.int("n_pairs", 1)
        return {"self": hough_object(c), "x": c.nd("x", self.dt, n), "y": c.nd("y", "f", n), "num_slopes": c.int("num_slopes", 2)}

    def modifies(self, c):
        return [("fld", c.a["self"], "hough_points")]

    def ensures(self, c):
        yield from self.points(c, points_of(c), limits(c), c.oldseq(c.a["x"]), c.oldseq(c.a["y"]), c.a["num_slopes"])

    @staticmethod
    def points(c, t, lims, x, y, n):
        ok = isinstance(t, Table) and len(t.cols) == 2
        yield "two columns", ok
        if not ok:
            return
        g, q = t.cols
        lo, hi, ilo, ihi = lims
        slope = lambda s: arith("+", lo, arith("*", s, arith("/", arith("-", hi, lo), arith("-", n, 1))))
        icpt = lambda s, j: arith("-", y.at(j), arith("*", slope(s), x.at(j)))
        inside = lambda s, j: land(compare("<=", ilo, icpt(s, j)), compare("<=", icpt(s, j), ihi))
        f = flat_dom(c.E, n, lambda r: x.n)
        d = q.dom
        c.need(d is not None and g.dom is d, "columns selected alike")
        yield "as many gradients as intercepts", compare("==", g.n, q.n)
        yield "every point is that of a grid gradient and a pair, inside the limits", c.forall(q.n, lambda k: zbool((lambda s, j: land(
            compare(">=", s, 0), compare("<", s, n), compare(">=", j, 0), compare("<", j, x.n),
            compare("==", g.at(k), slope(s)), compare("==", q.at(k), icpt(s, j)), inside(s, j)))(f.row(d.src(k)), f.col(d.src(k)))))
        yield "every grid gradient and pair inside the limits gives a point", c.forall(n, lambda s: c.forall(x.n, lambda j: zbool(implies(
            inside(s, j), (lambda k: land(compare(">=", k, 0), compare("<", k, q.n), compare("==", d.src(k), f.flat(s, j))))(d.inv(f.flat(s, j)))))))
        yield "one point each", c.forall(q.n, lambda k: zbool(implies(compare(">", k, 0), compare("<", d.src(arith("-", k, 1)), d.src(k)))))
        yield "first gradient is the minimum", compare("==", slope(0), lo)
        yield "last gradient is the maximum", compare("==", slope(arith("-", n, 1)), hi)


class Brute(Contract):
    """generate_hough_points_brute_force"""
    qual = HT + ".generate_hough_points_brute_force"
    dt = "f"

    def setup(self, c):
        n = c.int("n_pairs", 2)
        return {"self": hough_object(c), "x": c.nd("x", self.dt, n), "y": c.nd("y", "f", n)}

    def requires(self, c):
        yield "finite limits", land(*[land(compare("<", v, PINF), compare("<", arith("-", 0, PINF), v)) for v in limits_in(c)])

    def modifies(self, c):
        return [("fld", c.a["self"], "hough_points")]

    def ensures(self, c):
        yield from self.points(c, points_of(c), limits(c), c.oldseq(c.a["x"]), c.oldseq(c.a["y"]))

    @staticmethod
    def points(c, t, lims, x, y):
        ok = isinstance(t, Table) and len(t.cols) == 2
        yield "two columns", ok
        if not ok:
            return
        g, q = t.cols
        lo, hi, ilo, ihi = lims
        d = q.dom
        c.need(d is not None and g.dom is d, "columns selected alike")
        fs = [f for f in c.E.flats if same(f.N, d.rn)]
        c.need(fs, "pairs enumerated by a nested loop")
        f = fs[0]
        ps = [p for p in c.E.perms if same(p.n, x.n)]
        P = ps[0].src if ps else (lambda k: k)
        n = x.n
        yield "as many gradients as intercepts", compare("==", g.n, q.n)

        def at(fn):
            def h(k):
                i = f.row(d.src(k))
                j = arith("+", arith("+", i, 1), f.col(d.src(k)))
                return zbool(land(*fn(k, i, j, P(i), P(j))))
            return h
        yield "every point belongs to two different pairs", c.forall(q.n, at(lambda k, i, j, a, b: [
            compare(">=", i, 0), compare("<", i, j), compare("<", j, n), compare(">=", a, 0), compare("<", a, n),
            compare(">=", b, 0), compare("<", b, n), compare("!=", a, b)]))
        yield "at different pixels", c.forall(q.n, at(lambda k, i, j, a, b: [compare("!=", x.at(a), x.at(b))]))
        line = lambda k, a: compare("==", arith("+", q.at(k), arith("*", g.at(k), x.at(a))), y.at(a))
        yield "the line goes through the second", c.forall(q.n, at(lambda k, i, j, a, b: [line(k, b)]))
        yield "the line goes through the first", c.forall(q.n, at(lambda k, i, j, a, b: [line(k, a)]))
        yield "strictly inside the limits", c.forall(q.n, at(lambda k, i, j, a, b: [
            compare("<", lo, g.at(k)), compare("<", g.at(k), hi), compare("<", ilo, q.at(k)), compare("<", q.at(k), ihi)]))
        grad = lambda a, b: arith("/", arith("-", y.at(b), y.at(a)), arith("-", x.at(b), x.at(a)))
        icpt = lambda a, b: arith("-", y.at(b), arith("*", grad(a, b), x.at(b)))

        def complete(i, j):
            a, b = P(i), P(j)
            fl = f.flat(i, arith("-", arith("-", j, i), 1))
            return zbool(implies(land(compare("<", i, j), compare("!=", x.at(a), x.at(b)), compare("<", lo, grad(a, b)), compare("<", grad(a, b), hi),
                                      compare("<", ilo, icpt(a, b)), compare("<", icpt(a, b), ihi)),
                                 (lambda k: land(compare(">=", k, 0), compare("<", k, q.n), compare("==", d.src(k), fl)))(d.inv(fl))))
        yield "every two pairs with a line inside the limits give a point", c.forall(n, lambda j: c.forall(j, lambda i: complete(i, j)))
        yield "one point each", c.forall(q.n, lambda k: zbool(implies(compare(">", k, 0), compare("<", d.src(arith("-", k, 1)), d.src(k)))))


def limits_in(c):
    s = c.a["self"]
    return [c.fld(s, x) for x in ("min_slope", "max_slope", "min_intercept", "max_intercept")]


class AddPoints(Contract):
    qual = HT + ".add_hough_points"
    what = "array"

    def setup(self, c):
        n = c.int("n_old", 0)
        pts = c.table("old", 2, n)
        m = c.int("n_new", 0)
        new = c.table("new", 2, m)
        d = {"self": hough_object(c, pts)}
        if self.what == "array":
            d["hp"] = new
        elif self.what == "hough":
            d["hp"] = hough_object(c, new, "other_")
        elif self.what == "list":
            d["hp"] = c.list("pts", "f")
        elif self.what == "number":
            d["hp"] = c.real("pts")
        c.d["new"] = new
        return d

    always_raises = property(lambda self: self.what in ("list", "number"))

    def modifies(self, c):
        return [("fld", c.a["self"], "hough_points")] if not self.always_raises else []

    def raises(self, c, et):
        return et == "TypeError" and self.always_raises

    def ensures(self, c):
        if self.always_raises:
            yield "refused", False
            return
        t = points_of(c)
        ok = isinstance(t, Table) and len(t.cols) == 2
        yield "two columns", ok
        if not ok:
            return
        old = c.seq(c.val(c.fld(c.a["self"], "hough_points", c.old), c.old), c.old)
        new = c.oldseq(c.d["new"])
        yield "as many as both", compare("==", t.n, arith("+", old.n, new.n))
        for j in range(2):
            yield "the existing points stay, column %d" % j, c.forall(old.n, lambda k: compare("==", t.cols[j].at(k), old.cols[j].at(k)))
            yield "the points added follow unaltered, column %d" % j, c.forall(new.n, lambda k: compare(
                "==", t.cols[j].at(arith("+", old.n, k)), new.cols[j].at(k)))


def binned_object(c):
    """a transform with a histogram of arbitrary content"""
    nx, ny = c.int("n_xbins", 1), c.int("n_ybins", 1)
    h = c.fun("hist", "f", 2)
    hist = c.E.new(c.st, HSeq("nd", Grid(nx, ny, lambda i, j: h(zint(i), zint(j)), "f")))
    w, v, x0, y0 = c.real("xw"), c.real("yw"), c.real("x0"), c.real("y0")
    edge = lambda a, b: (lambda k: arith("+", a, arith("*", zreal(zint(k)), b)))
    xe = c.E.new(c.st, HSeq("nd", Seq(arith("+", nx, 1), edge(x0, w), "f")))
    ye = c.E.new(c.st, HSeq("nd", Seq(arith("+", ny, 1), edge(y0, v), "f")))
    return hough_object(c, c.table("pts", 2), "binned_", hist=hist, xedges=xe, yedges=ye)


def ranked(c, s=None):
    """hough_lines are the centres of all the bins by descending count"""
    s = s or c.a["self"]
    h = c.seq(c.val(c.fld(s, "hist")))
    xe, ye = c.seq(c.val(c.fld(s, "xedges"))), c.seq(c.val(c.fld(s, "yedges")))
    L = c.seq(c.val(c.fld(s, "hough_lines")))
    yield "one line per bin", compare("==", L.n, arith("*", h.n, h.m))
    d = L.dom
    if d is None and c.E.perms:
        P = c.E.perms[-1]
        src, inv = (lambda k: P.src(arith("-", arith("-", L.n, 1), k))), (lambda r: arith("-", arith("-", L.n, 1), P.inv(r)))
    else:
        c.need(d is not None, "order of the ranked lines")
        src, inv = d.src, d.inv
    f = flat_dom(c.E, h.n, lambda r: h.m)
    mid = lambda e, i: arith("/", arith("+", e.at(i), e.at(arith("+", i, 1))), 2)

    def item(k, j):
        x = L.at(k)
        if isinstance(x, Tup):
            return x.items[j]
        return c.seq(x).at(j)
    B_ = lambda k: (f.row(src(k)), f.col(src(k)))
    yield "a line is that of a bin", c.forall(L.n, lambda k: zbool(land(
        compare(">=", src(k), 0), compare("<", src(k), L.n), compare(">=", B_(k)[0], 0), compare("<", B_(k)[0], h.n),
        compare(">=", B_(k)[1], 0), compare("<", B_(k)[1], h.m))))
    yield "gradient of the bin's centre", c.forall(L.n, lambda k: zbool(compare("==", item(k, 0), mid(xe, B_(k)[0]))))
    yield "intercept of the bin's centre", c.forall(L.n, lambda k: zbool(compare("==", item(k, 1), mid(ye, B_(k)[1]))))
    yield "every bin is there once", c.forall(h.n, lambda i: c.forall(h.m, lambda j: zbool((lambda k: land(
        compare(">=", k, 0), compare("<", k, L.n), compare("==", src(k), f.flat(i, j))))(inv(f.flat(i, j))))))
    yield "no bin twice", c.forall(L.n, lambda k: zbool(compare("==", inv(src(k)), k)))
    yield "counts never increase", c.forall(L.n, lambda k: zbool(implies(compare(">", k, 0), compare(
        ">=", h.at(*B_(arith("-", k, 1))), h.at(*B_(k))))))


class Rank(Contract):
    qual = HT + "._rank_bins"

    def setup(self, c):
        return {"self": binned_object(c)}

    def modifies(self, c):
        return [("fld", c.a["self"], "hough_lines"), ("fld", c.a["self"], "hist_sorted_arg")]

    def ensures(self, c):
        yield from ranked(c)


class Bin(Contract):
    qual = HT + ".bin_hough_points"

    def setup(self, c):
        return {"self": hough_object(c, c.table("pts", 2, c.int("n_pts", 1))), "xbins": c.int("xbins", 1), "ybins": c.int("ybins", 1)}

    def modifies(self, c):
        return [("fld", c.a["self"], x) for x in ("hough_lines", "hist_sorted_arg", "hist", "xedges", "yedges")]

    def ensures(self, c):
        from pyvc.npmodel import hist2d_of
        s = c.a["self"]
        p = c.seq(c.val(c.fld(s, "hough_points", c.old), c.old), c.old)
        exp = hist2d_of(c.E, c.st, p.cols[0], p.cols[1], c.a["xbins"], c.a["ybins"]).items
        for name, e in zip(("hist", "xedges", "yedges"), exp):
            yield "%s is that of numpy's 2-d histogram of gradients and intercepts" % name, seq_equal_form(c, c.seq(c.val(c.fld(s, name))), c.seq(e))
        yield from ranked(c)


class Transform(Contract):
    """do_hough_transform: the pairs, limits and sizes of the calibrator go into the transform, whose points and
    ranked lines the calibrator then holds; nothing else is changed"""
    qual = "rascal.calibrator.Calibrator.do_hough_transform"
    brute, bins = False, False

    def setup(self, c):
        from .cal import calibrator_object
        ht = hough_object(c, c.table("before", 2), hough_lines=c.list("lines_before", "f"))
        s = calibrator_object(c, pairs=c.table("pairs", 2, c.int("n_pairs", 2)), ht=ht, hough_points=c.table("held", 2), hough_lines=c.list("lines_held", "f"))
        return {"self": s, "brute_force": self.brute}

    def requires(self, c):
        s = c.a["self"]
        yield "at least two gradients", compare(">=", c.fld(s, "num_slopes"), 2)
        yield "at least a bin each way", land(compare(">=", c.fld(s, "xbins"), 1), compare(">=", c.fld(s, "ybins"), 1))
        if self.brute:
            yield "finite limits", land(*[land(compare("<", v, PINF), compare("<", arith("-", 0, PINF), v)) for v in self.limits(c)])

    def raises(self, c, et):
        return et == "AssertionError" and lor(*[lnot(zbool(isfin(v))) for v in self.limits(c, c.old)])

    def limits(self, c, st=None):
        return [c.fld(c.a["self"], x, st) for x in ("min_slope", "max_slope", "min_intercept", "max_intercept")]

    def modifies(self, c):
        s = c.a["self"]
        h = c.val(c.fld(s, "ht", c.old), c.old)
        return [("fld", s, "hough_points"), ("fld", s, "hough_lines")] + [("fld", h, x) for x in FIELDS + ("hist_sorted_arg",)]

    def ensures(self, c):
        from pyvc.npmodel import hist2d_of
        s = c.a["self"]
        h = c.val(c.fld(s, "ht"))
        for x, v in zip(("min_slope", "max_slope", "min_intercept", "max_intercept"), self.limits(c, c.old)):
            yield "the transform has the %s of the calibrator" % x, compare("==", c.fld(h, x), v)
        for x in ("hough_points", "hough_lines"):
            a, b = c.val(c.fld(s, x)), c.val(c.fld(h, x))
            yield "the calibrator holds the %s of the transform" % x, same(a, b)
        pairs = c.seq(c.val(c.fld(s, "pairs", c.old), c.old), c.old)
        t = c.seq(c.val(c.fld(s, "hough_points")))
        if not self.bins:
            if self.brute:
                yield from Brute.points(c, t, self.limits(c, c.old), *pairs.cols)
            else:
                yield from Grid_.points(c, t, self.limits(c, c.old), *pairs.cols, c.fld(s, "num_slopes", c.old))
            return
        exp = hist2d_of(c.E, c.st, t.cols[0], t.cols[1], c.fld(s, "xbins", c.old), c.fld(s, "ybins", c.old)).items
        for name, e in zip(("hist", "xedges", "yedges"), exp):
            yield "%s is that of numpy's 2-d histogram of gradients and intercepts" % name, seq_equal_form(c, c.seq(c.val(c.fld(h, name))), c.seq(e))
        yield from ranked(c, h)
