"""C16: matching the peaks to the atlas with a solution."""
from .cal import *
from pyvc.npmodel import MODELS, unique_of, extremum, filter_dom, any_term, isnan


class MatchPeaks(Contract):
    qual = CAL + ".match_peaks"
    fam = "poly"
    coef = "nd"
    refine = False
    refit = False
    degree = False
    delta = False

    def setup(self, c):
        s = calibrator_object(c, fit_coeff=c.nd("held_coef", "f", c.int("n_held", 1)), **family(self.fam))
        d = {"self": s, "tolerance": c.real("tol"), "refine": self.refine, "robust_refit": self.refit}
        if self.coef is not None:
            d["fit_coeff"] = (c.nd if self.coef == "nd" else c.list)("coef", "f", c.int("n_coef", 1))
        if self.degree:
            d["fit_deg"] = c.int("deg", 1)
        if self.refine and self.delta:
            d["n_delta"] = c.int("ndelta", 1)
        return d

    def hooks(self, c):
        def got(E, st, fun, x0, extra, kw, res):
            c.d.setdefault("shift", []).append(res)
        c.E.hooks["minimize"] = [got]

    def shift(self, c):
        """what the refinement adds to the coefficients"""
        return c.d["shift"][-1]

    def peaks(self, c):
        st = c.old or c.st
        return c.seq(c.val(c.fld(c.a["self"], "peaks", st), st), st)

    def lines(self, c):
        st = c.old or c.st
        at = c.val(c.fld(c.a["self"], "atlas", st), st)
        L = lines_of(c, at, st)
        return Seq(L.n, lambda k: fieldf(c, L.at(k), "wavelength"), "f")

    def given(self, c):
        v = c.a.get("fit_coeff")
        st = c.old or c.st
        return c.seq(c.val(c.fld(c.a["self"], "fit_coeff", st), st) if v is None else v, st)

    def requires(self, c):
        P = self.peaks(c)
        yield "peaks are distinct", c.forall(P.n, lambda i: c.forall(i, lambda j: zbool(compare("!=", P.at(i), P.at(j)))))
        A = self.lines(c)
        yield "there are peaks and lines", land(compare(">", P.n, 0), compare(">", A.n, 0))

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("fit_coeff", "matched_peaks", "matched_atlas", "residuals", "rms", "peak_utilisation", "atlas_utilisation")]

    def used(self, c):
        """the coefficients the peaks are matched with"""
        g = self.given(c)
        if not self.refine:
            return g
        c.need(c.d.get("shift"), "the refinement")
        x = self.shift(c)
        return Seq(g.n, lambda k: ite(land(zint(k) >= 0, zint(k) < zint(x.n)), arith("+", g.at(k), x.at(k)), g.at(k)), "f")

    def ensures(self, c):
        s = c.a["self"]
        P, A = self.peaks(c), self.lines(c)
        f = lambda n: c.val(c.fld(s, n))
        r = as_seq(c.ret)
        yield "seven values returned", isinstance(r, Seq) and same(r.n, 7)
        if self.refine and c.val(r.at(1)) is None:
            yield "nothing is matched only where the refinement gives no numbers", c.exists(self.given(c).n, lambda k: zbool(isnan(self.used(c).at(k))))
            return
        for k, n in enumerate(("fit_coeff", "matched_peaks", "matched_atlas", "rms", "residuals", "peak_utilisation", "atlas_utilisation")):
            a, b = c.val(r.at(k)), f(n)
            yield "returns the %s held" % n, same(a, b) or (val_eq(c, a, b) if is_scalar(a) else seq_equal_form(c, c.seq(a), c.seq(b)))
        X, Y = c.seq(f("matched_peaks")), c.seq(f("matched_atlas"))
        yield "as many peaks as lines", compare("==", X.n, Y.n)
        cf = self.used(c)
        tol = c.a["tolerance"]
        d = lambda p, y: MODELS["builtins.abs"](c.E, c.st, [arith("-", y, poly_at(c, self.fam, cf, p))], {})
        yield "lines ascend", c.forall(arith("-", Y.n, 1), lambda t: zbool(compare("<", Y.at(t), Y.at(arith("+", t, 1)))))
        at_peak = lambda t, fn: c.exists_hint(P.n, lambda i: land(compare("==", X.at(t), P.at(i)), fn(i)), c.positions(P.at, X.at(t)))
        yield "every peak is a peak of the calibrator", c.forall(Y.n, lambda t: at_peak(t, lambda i: True))
        yield "every line is one of the atlas, nearer than the tolerance", c.forall(Y.n, lambda t: c.exists_hint(A.n, lambda j: land(
            compare("==", Y.at(t), A.at(j)), compare("<", d(X.at(t), A.at(j)), tol)), c.positions(A.at, Y.at(t))))
        # among the lines near the i-th peak, the place of the j-th line of the atlas
        place = c.lam([P.n, A.n], lambda i, j: filter_dom(c.E, A.n, lambda q: zbool(compare("<", d(P.at(i), A.at(q)), tol))).inv(j))

        def closest(t, j):
            h = c.positions(P.at, X.at(t))
            q = z3.Int(fresh_name("q"))
            f = zbool(compare("<=", d(X.at(t), Y.at(t)), d(X.at(t), A.at(j))))
            return z3.ForAll([q], z3.Implies(q == zint(place(h[0], j)), f)) if h else f
        yield "the line is the closest of its peak", c.forall(Y.n, lambda t: c.forall(A.n, lambda j: closest(t, j)))
        yield "no peak twice", c.forall(Y.n, lambda t: c.forall(t, lambda u: zbool(compare("!=", X.at(t), X.at(u)))))
        # every peak with a line near it takes the first of its closest lines; that line is matched
        for n, fm in self.completeness(c, P, A, X, Y, d, tol, cf):
            yield n, fm
        res = c.seq(f("residuals"))
        rc = c.seq(f("fit_coeff"))
        want = lambda k: arith("-", Y.at(k), poly_at(c, self.fam, rc, X.at(k)))
        yield "as many residuals as pairs", compare("==", res.n, X.n)
        yield "residual is line minus solution", c.forall(X.n, lambda k: zbool(compare("==", res.at(k), want(k))))
        yield "rms of the residuals", compare("==", f("rms"), rms_of(c, X.n, want))
        yield "peak utilisation", compare("==", f("peak_utilisation"), arith("/", X.n, P.n))
        yield "atlas utilisation", compare("==", f("atlas_utilisation"), arith("/", X.n, A.n))
        for n, fm in self.solution(c, rc, X, Y):
            yield n, fm

    def completeness(self, c, P, A, X, Y, d, tol, cf):
        """a peak with a line near it takes the first of its closest lines; that line is matched,
        by a peak at most as far from it"""
        E, st = c.E, c.st
        near = lambda i: (lambda j: zbool(compare("<", d(P.at(i), A.at(j)), tol)))
        e = lambda p, y: MODELS["builtins.abs"](E, st, [arith("-", poly_at(c, self.fam, cf, p), y)], {})

        dn = c.lam([P.n], lambda i: filter_dom(E, A.n, near(i)).n)
        ds = c.lam([P.n, dn], lambda i, q: filter_dom(E, A.n, near(i)).src(q))
        has = c.lam([P.n], lambda i: any_term(E, A.n, near(i)))
        F = filter_dom(E, P.n, lambda i: zbool(has(i)))

        def taken(k):
            i = F.src(k)
            cand = lambda q: A.at(ds(i, q))
            return cand(extremum(E, st, Seq(dn(i), lambda q: e(P.at(i), cand(q)), "f"), "min"))
        T = c.mapped(F.n, taken)
        u = unique_of(E, st, T)
        k = F.inv
        yield "every peak with a line near it, or one as close, has its closest line", c.forall(P.n, lambda i: zbool(implies(
            c.exists(A.n, near(i)), c.exists_hint(Y.n, lambda t: land(compare("==", Y.at(t), T.at(k(i))), compare("<=", e(X.at(t), Y.at(t)), e(P.at(i), T.at(k(i))))), [u.pos(k(i))]))))
        yield "that line is the closest", c.forall(P.n, lambda i: c.forall(A.n, lambda j: zbool(implies(
            near(i)(j), land(compare("<=", e(P.at(i), T.at(k(i))), d(P.at(i), A.at(j))), compare("<", e(P.at(i), T.at(k(i))), tol))))))

    def solution(self, c, rc, X, Y):
        g = self.given(c)
        if not self.refit:
            yield "the coefficients are the %s ones" % ("refined" if self.refine else "given"), seq_equal_form(c, rc, self.used(c))
        if self.refit:
            deg = c.a["fit_deg"] if self.degree else arith("-", g.n, 1)
            e = robust_coef(c, X, Y, deg)
            fit, kept = seq_equal_form(c, rc, e), seq_equal_form(c, rc, self.used(c))
            nan = c.exists(e.n, lambda k: zbool(isnan(e.at(k))))
            yield "the coefficients are the robust fit of the pairs, or those before where that is no number", lor(land(lnot(nan), fit), land(nan, kept))


class Robust(RobustFit):
    """without points it gives no numbers"""

    def requires(self, c):
        for n, f in RobustFit.requires(self, c):
            if n != "some points":
                yield n, f


TABLE = [Robust()]
CONTRACTS = ([MatchPeaks(case=f + " coefficients", fam=f) for f in POLY]
             + [MatchPeaks(case="list of coefficients", coef="list"), MatchPeaks(case="held coefficients", coef=None)]
             + [MatchPeaks(case="refit" + (", degree" if d else ""), refit=True, degree=d) for d in (False, True)]
             + [MatchPeaks(case="refit, held coefficients", refit=True, coef=None), MatchPeaks(case="refit, legendre", refit=True, fam="legendre")]
             + [MatchPeaks(case="refined" + (", some" if d else ""), refine=True, delta=d) for d in (False, True)]
             + [MatchPeaks(case="refined and refit", refine=True, refit=True)])
