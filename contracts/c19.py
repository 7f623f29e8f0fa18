"""C19: refined peaks."""
from .cal import *
from pyvc.npmodel import MODELS, isfin
from pyvc.terms import div


def trunc(p):
    return ite(zbool(compare(">=", p, 0)), z3.ToInt(zreal(p)), -z3.ToInt(-zreal(p))) if zreal(p).sort() == R and not (is_z(p) and p.sort() == I) else p


class Refine(Contract):
    qual = "rascal.util.refine_peaks"
    spec, peaks, sdt, pdt, width = "nd", "nd", "f", "f", True

    def setup(self, c):
        mk = lambda how: c.nd if how == "nd" else c.list
        d = {"spectrum": mk(self.spec)("spec", self.sdt), "peaks": mk(self.peaks)("peaks", self.pdt)}
        if self.width:
            d["window_width"] = c.int("width", 1)
        return d

    def requires(self, c):
        st = c.old or c.st
        P, S = c.seq(c.a["peaks"], st), c.seq(c.a["spectrum"], st)
        yield "peaks on the spectrum", c.forall(P.n, lambda k: land(compare(">=", P.at(k), 0), compare("<", P.at(k), S.n)))

    def window(self, c, i):
        """first pixel of the window of peak i, and the pixel behind its last"""
        st = c.old or c.st
        P, S = c.seq(c.a["peaks"], st), c.seq(c.a["spectrum"], st)
        w = c.a["window_width"] if self.width else 10
        at = trunc(P.at(i))
        mx, mn = (lambda a, b: ite(zbool(compare(">=", a, b)), a, b)), (lambda a, b: ite(zbool(compare("<=", a, b)), a, b))
        return mx(arith("-", at, w), 0), mn(arith("+", at, w), S.n)

    def raw(self, c, i):
        """the window of peak i"""
        S = c.seq(c.a["spectrum"], c.old or c.st)
        lo, hi = self.window(c, i)
        return Seq(arith("-", hi, lo), lambda k: zreal(S.at(arith("+", lo, k))), "f")

    def scaled(self, c, i):
        """the window of peak i scaled to the largest finite one"""
        c.need(c.d.get("max"), "the maximum of a window")
        j, M = c.d["max"][:2]
        M, W = subst_value(M, [(j, zint(i))]), self.raw(c, i)
        return Seq(W.n, lambda k: div(W.at(k), zreal(M)), "f")

    def hooks(self, c):
        E = c.E

        def top(E, st, s, which, w):
            if which in ("max", "nanmax") and len(E.binders) == 1:
                c.d["max"] = (E.binders[-1][0], s.at(w), [w] + ([s.dom.src(w)] if s.dom is not None else []))
        E.hooks["extremum"] = [top]

        def fit(E, st, fun, x, y, ps, vals, fail):
            keep, c.st = c.st, st
            try:
                if len(E.binders) != 1:
                    raise Unsupported("the peaks are not fitted one by one")
                i = E.binders[-1][0]
                forms = list(self.fitted(c, i, fun, x, y, ps))
            finally:
                c.st = keep
            for name, f in forms:
                E.oblige("fit of a peak: %s" % name, st, f, "hook", "curve_fit")
            c.d["fit"] = (i, vals, fail, x.n, (y.dom or x.dom))
        E.hooks["curve_fit"] = [fit]

    def fitted(self, c, i, fun, x, y, ps):
        E = c.E
        a, m, s, p = (z3.Real(fresh_name(n)) for n in "amsp")
        g = E.call(fun, [p, a, m, s], {}, c.st.copy())
        e = MODELS["numpy.exp"](E, c.st, [arith("/", arith("-", 0, power(arith("-", p, m), 2)), arith("+", arith("*", 2, power(s, 2)), F("1e-9")))], {})
        yield "the function fitted is the Gaussian", compare("==", g, arith("*", a, e))
        yield "height, centre and width are fitted", same(ps.n, 3)
        Y, W = self.scaled(c, i), self.raw(c, i)
        M = c.d["max"][1]
        yield "scaled to a finite sample of the window", c.exists_hint(W.n, lambda k: land(zbool(isfin(W.at(k))), compare("==", W.at(k), M)), c.d["max"][2] + c.positions(W.at, M))
        yield "no finite sample of the window is larger", c.forall(W.n, lambda k: zbool(lor(lnot(isfin(W.at(k))), compare("<=", W.at(k), M))))
        yield "a value for each pixel", compare("==", x.n, y.n)
        res = Seq(x.n, lambda k: Tup([x.at(k), y.at(k)]), "o")
        res.dom = y.dom if y.dom is not None else x.dom
        base = Seq(Y.n, lambda k: Tup([k, Y.at(k)]), "o")
        yield from filtered(c, base, res, lambda k: zbool(isfin(Y.at(k))), lambda u, v: land(*[compare("==", p, q) for p, q in zip(u.items, v.items)]),
                            "the finite samples of the window, scaled to the largest finite one")

    def ensures(self, c):
        S, P = c.oldseq(c.a["spectrum"]), c.oldseq(c.a["peaks"])
        out = c.seq(c.ret)
        c.need(out.dom is not None, "selection of peaks")
        c.need(c.d.get("fit"), "the fit of a peak")
        c.need(isinstance(out.dom.parent, tuple) and isinstance(out.dom.parent[0], type(out.dom)), "peaks fitted before duplicates are left out")
        i, vals, fail, m, dom = c.d["fit"]
        of = lambda t, k: subst_value(t, [(i, zint(k))])
        first = out.dom.parent[0]
        centre = lambda k: arith("+", self.window(c, k)[0], of(vals[1], k))
        fitted = Seq(first.n, lambda j: centre(first.src(j)), "f")
        fitted.dom = first

        def good(k):
            return land(compare(">=", of(m, k), 3), lnot(of(fail, k)), compare(">=", of(vals[0], k), 0),
                        compare(">=", of(vals[1], k), 0), compare("<=", of(vals[1], k), S.n))
        c.need(dom is not None, "selection of samples")
        finite = lambda k, t: land(compare(">=", t, 0), compare("<", t, self.raw(c, k).n), isfin(self.scaled(c, k).at(t)))
        yield "samples are counted only where some are finite", c.forall(P.n, lambda k: zbool(implies(compare(">", of(m, k), 0), finite(k, of(dom.src(0), k)))))
        yield "every finite sample is counted", c.forall(P.n, lambda k: c.forall(self.raw(c, k).n, lambda t: zbool(implies(finite(k, t), land(
            compare(">=", of(dom.inv(t), k), 0), compare("<", of(dom.inv(t), k), of(m, k)))))))
        base = Seq(P.n, lambda k: centre(k), "f")
        yield from filtered(c, base, fitted, good, lambda u, v: compare("==", u, v), "centres of the peaks that could be fitted")

        def apart(j):
            d = MODELS["numpy.isclose"](c.E, c.st, [fitted.at(arith("-", j, 1)), fitted.at(j)], {})
            return land(compare(">", fitted.at(j), 0), compare("<", fitted.at(j), S.n), lor(compare("<=", j, 0), lnot(d)))
        yield from filtered(c, fitted, out, apart, lambda u, v: compare("==", u, v), "centres on the spectrum and apart from the one before")


TABLE = []
CONTRACTS = [Refine(case="arrays"), Refine(case="lists", spec="list", peaks="list"), Refine(case="integers", sdt="i", pdt="i"), Refine(case="default width", width=False)]
