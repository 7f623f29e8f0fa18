"""C14: what a fit returns belongs together and obeys the limits set."""
from .cal import *
from pyvc.npmodel import MODELS, contains
from pyvc.loops import LoopInv
from .c13 import CONTRACTS as MATCHING


def settled(st, v):
    """the value with the alternatives the path excludes taken out; split where several remain"""
    if not isinstance(v, Alt):
        return v
    a = [(g, x) for g, x in v.alts if st.truth(g) is not False]
    if len(a) == 1:
        return a[0][1]
    kinds = {x is None for _, x in a}
    if len(a) > 2 or len(kinds) < 2:
        raise NeedSplit(a[0][0])
    return Alt(a)


def none_of(v):
    return lor(*[g for g, x in v.alts if x is None]) if isinstance(v, Alt) else (v is None)


def iff(a, b):
    return land(implies(a, b), implies(b, a))


def some(v):
    """the value where it is not None"""
    if not isinstance(v, Alt):
        return v
    return [x for g, x in v.alts if x is not None][0]


class Points(Contract):
    """_get_candidate_points_*: it sets the candidate sets (to which, is C12)"""

    def result(self, c):
        s = c.val(c.a["self"])
        o = c.st.heap[s.id]
        c.st.heap[s.id] = HObj(o.cls, dict(o.f, candidates=Opq("candidate sets")))
        return None


class MostCommon(Contract):
    """_get_most_common_candidates as the fit sees it: parallel lists (of which, is C12)"""
    qual = CAL + "._get_most_common_candidates"

    def result(self, c):
        E = c.E
        n = E.fresh("n_cand", I)
        c.st.add(n >= 0)
        xs = [E.fresh_fun("cand%d" % j, [I], R)[0] for j in (0, 1)]
        L = [E.new(c.st, HSeq("list", Seq(n, (lambda f: lambda k: f(zint(k)))(f), "f"))) for f in xs]
        return Tup(L)


class Matched(Contract):
    """_match_bijective as the fit sees it (proved in C13)"""
    qual = CAL + "._match_bijective"

    def dictionary(self, c):
        d = c.val(c.a["candidates"])
        h = c.st.heap[d.id] if isinstance(d, Ref) else None
        if not isinstance(h, HDict):
            raise Unsupported("candidates are no dictionary")
        return c.E.sym_dict(h)

    def requires(self, c):
        P, d = c.seq(c.val(c.a["peaks"])), self.dictionary(c)
        yield "every peak has a candidate", c.forall(P.n, lambda i: zbool(land(d.has(zreal(P.at(i))), compare(">=", d.get(zreal(P.at(i))).n, 1))))
        yield "peaks are distinct", c.forall(P.n, lambda i: c.forall(i, lambda j: zbool(compare("!=", P.at(i), P.at(j)))))
        yield "some peak", compare(">", P.n, 0)

    def result(self, c):
        E, st = c.E, c.st
        P, d = c.seq(c.val(c.a["peaks"])), self.dictionary(c)
        pv = c.val(c.fld(c.val(c.a["self"]), "polyval"))
        fam = [f for f in POLY if isinstance(pv, Mod) and pv.path == POLY[f][1]]
        if not fam:
            raise Unsupported("family of polynomials")
        n = E.fresh("n_match", I)
        st.add(n >= 1)
        st.add(n <= zint(P.n))
        pk, npk = E.fresh_fun("match_peak", [I], I)
        cd, ncd = E.fresh_fun("match_line", [I], I)
        X = Seq(n, lambda t: P.at(pk(zint(t))), "f")
        line = lambda t: d.get(zreal(X.at(t)))
        Y = Seq(n, lambda t: line(t).at(cd(zint(t))), "f")
        cf = c.seq(c.val(c.a["fit_coeff"]))
        err = Seq(n, lambda t: MODELS["builtins.abs"](E, st, [arith("-", poly_at(c, fam[0], cf, X.at(t)), Y.at(t))], {}), "f")
        t, u = z3.Int(fresh_name("t")), z3.Int(fresh_name("u"))
        rg = z3.And(t >= 0, t < n)
        E.fact(z3.Implies(rg, z3.And(pk(t) >= 0, pk(t) < zint(P.n))), [npk], "matched peak", vars=[t], pats=[pk(t)])
        E.fact(z3.Implies(rg, z3.And(cd(t) >= 0, cd(t) < zint(line(t).n))), [ncd], "matched line", vars=[t], pats=[cd(t)])
        two = z3.And(t >= 0, t < u, u < n)
        E.fact(z3.Implies(two, zbool(compare("!=", X.at(t), X.at(u)))), [npk], "no peak twice", vars=[t, u], pats=[(pk(t), pk(u))])
        E.fact(z3.Implies(two, zbool(compare("<", Y.at(t), Y.at(u)))), [ncd], "lines ascend", vars=[t, u], pats=[(cd(t), cd(u))])
        return Tup([E.new_nd(st, v) for v in (err, X, Y)])


def solution(c, st, p, n, mp, ma, res, rms, x, y, deg, fam, s):
    """clauses: coefficients, number of matches, peaks, lines, residuals and rms that belong together"""
    f = lambda name: c.val(c.fld(s, name, st), st)
    tol = f("ransac_tolerance")
    X, Y, Rz, C = mp, ma, res, p
    yield "a coefficient for every order", compare("==", C.n, arith("+", deg, 1))
    yield "as many peaks as matches", compare("==", X.n, n)
    yield "as many lines as matches", compare("==", Y.n, n)
    yield "as many residuals as matches", compare("==", Rz.n, n)
    hints = lambda k: c.positions(y.at, Y.at(k)) + c.positions(x.at, X.at(k))
    yield "every pair is a candidate peak with a candidate line of it", c.forall(n, lambda k: c.exists_hint(x.n, lambda j: land(
        compare("==", X.at(k), x.at(j)), compare("==", Y.at(k), y.at(j))), hints(k)))
    yield "no peak twice", c.forall(n, lambda k: c.forall(k, lambda l: zbool(compare("!=", X.at(k), X.at(l)))))
    yield "no line twice", c.forall(n, lambda k: c.forall(k, lambda l: zbool(compare("!=", Y.at(k), Y.at(l)))))

    def want(k):
        d = arith("-", poly_at(c, fam, C, X.at(k)), Y.at(k))
        return ite(zbool(compare(">", MODELS["builtins.abs"](c.E, st, [d], {}), tol)), zreal(tol), zreal(d))
    yield "residual is solution minus line, or the tolerance", c.forall(n, lambda k: zbool(compare("==", Rz.at(k), want(k))))
    sq = c.E.new_nd(st, Seq(Rz.n, lambda k: arith("*", Rz.at(k), Rz.at(k)), "f"))
    yield "rms of the residuals", compare("==", rms, MODELS["numpy.sqrt"](c.E, st, [arith("/", MODELS["numpy.sum"](c.E, st, [sq], {}), Rz.n)], {}))
    yield "more matches than the degree", compare(">", n, deg)
    yield "minimum matches", compare(">=", n, f("minimum_matches"))
    P = c.seq(f("peaks"), st)
    yield "minimum peak utilisation", compare(">=", n, arith("*", f("minimum_peak_utilisation"), P.n))
    yield "minimum fit error", compare(">=", rms, f("minimum_fit_error"))


class Ransac(Contract):
    qual = CAL + "._solve_candidate_ransac"
    havoc_ok = True  # the properties of what the trials leave are those of any value they could leave
    fam, linear, close, brute, progress, guess, edges, known = "poly", True, False, False, False, False, True, False

    def setup(self, c):
        ht = {k: None for k in ("hough_points", "hough_lines", "min_slope", "max_slope", "min_intercept", "max_intercept", "hist", "xedges", "yedges")}
        if self.edges:
            ht.update(xedges=c.nd("xedges", "f", c.int("n_xe", 2)), yedges=c.nd("yedges", "f", c.int("n_ye", 2)), hist=Opq("hist"))
        kw = dict(family(self.fam))
        if self.known:
            n = c.int("n_known", 0)
            kw.update(pix_known=c.nd("pix_known", "f", n), wave_known=c.nd("wave_known", "f", n))
        s = calibrator_object(c, linear=self.linear, filter_close=self.close, ht=c.obj("rascal.houghtransform.HoughTransform", ht), **kw)
        d = {"self": s, "fit_deg": c.int("fit_deg", 0), "fit_coeff": None, "max_tries": c.int("max_tries", 0), "candidate_tolerance": c.real("ct"),
             "brute_force": self.brute, "progress": self.progress}
        if self.guess:
            d["fit_coeff"] = c.nd("guess", "f", c.int("n_guess", 1))
        return d

    CHANGES = ("candidates", "candidate_peak", "candidate_arc", "fit_deg", "sample_size", "matched_peaks", "matched_atlas")

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in self.CHANGES]

    def result(self, c):
        E, st = c.E, c.st
        s = c.val(c.a["self"])
        o = st.heap[s.id]
        pv = c.val(o.f["polyval"])
        c.d["fam"] = [f for f in POLY if isinstance(pv, Mod) and pv.path == POLY[f][1]]
        if not c.d["fam"]:
            raise Unsupported("family of polynomials")

        def fresh(name, seq="nd"):
            n = E.fresh("n_" + name, I)
            st.add(n >= 0)
            f = E.fresh_fun(name, [I], R)[0]
            q = Seq(n, lambda k: f(zint(k)), "f")
            return E.new_nd(st, q) if seq == "nd" else E.new(st, HSeq("list", q))
        st.heap[s.id] = HObj(o.cls, dict(o.f, candidates=Opq("candidate sets"), fit_deg=c.val(c.a["fit_deg"]), sample_size=E.fresh("sample", I),
                                         **{k: fresh(k, "list") for k in ("candidate_peak", "candidate_arc", "matched_peaks", "matched_atlas")}))
        ok, valid = E.fresh("fitted", B), E.fresh("valid", B)
        return Tup([Alt([(ok, fresh("coef")), (lnot(ok), None)]), E.fresh("rms", R), Alt([(ok, fresh("residual")), (lnot(ok), None)]), E.fresh("n_match", I), valid])

    def raises(self, c, et):
        return True  # nothing is promised for a fit that fails

    def hooks(self, c):
        E = c.E

        def loop(E, node, st, locs, seq):
            names = {l[1] for l in locs if l[0] == "env"}
            if "best_p" in names:
                return LoopInv("best fit", lambda E, s, k: list(self.best(c, s)))
            return None
        E.loop_invariant = loop

    def best(self, c, s):
        """what is held as the best fit so far, in state s"""
        me = c.a["self"]
        keep, c.st = c.st, s
        try:
            g = lambda n: settled(s, s.env[n])
            p, res, n = g("best_p"), g("best_residual"), g("best_inliers")
            nothing = none_of(p)
            for l in ("matched_peaks", "matched_atlas"):
                a, b = c.seq(c.val(c.fld(me, l, c.old), c.old), c.old), c.seq(c.val(c.fld(me, l, s), s), s)
                yield "without a fit yet %s is as before" % l, implies(nothing, seq_equal_form(c, a, b))
            yield "without a fit yet there are no matches", implies(nothing, compare("==", n, 0))
            yield "residuals just where there is a fit", iff(nothing, none_of(res))
            if nothing is True or none_of(res) is True:
                return
            sq = lambda v: c.seq(v, s)
            for name, f in solution(c, s, sq(some(p)), n, *[sq(c.val(c.fld(me, l, s), s)) for l in ("matched_peaks", "matched_atlas")], sq(some(res)),
                                    g("best_err"), sq(s.env["x"]), sq(s.env["y"]), c.val(c.fld(me, "fit_deg", s), s), self.fam, me):
                yield name, implies(lnot(nothing), f)
        finally:
            c.st = keep

    def ensures(self, c):
        r = as_seq(c.ret)
        ok = isinstance(r, Seq) and same(r.n, 5)
        yield "five values returned", ok
        if not ok:
            return
        p, rms, res, n, valid = [r.at(k) for k in range(5)]
        s = c.a["self"]
        if p is None:
            return
        nothing = none_of(p)
        yield "residuals just where there is a solution", iff(nothing, none_of(res))
        if none_of(res) is True:
            return
        mp, ma = (c.seq(c.val(c.fld(s, l))) for l in ("matched_peaks", "matched_atlas"))
        x, y = (c.seq(c.val(c.fld(s, l))) for l in ("candidate_peak", "candidate_arc"))
        fam = c.d["fam"][0] if c.d.get("fam") else self.fam
        for name, f in solution(c, c.st, c.seq(some(p)), n, mp, ma, c.seq(some(res)), rms, x, y, c.val(c.a["fit_deg"]), fam, s):
            yield name, implies(lnot(nothing), f)


class HoughStub(Contract):
    """do_hough_transform as the fit sees it: it sets the transform (to what, is C06 to C08) and the pairs"""
    qual = CAL + ".do_hough_transform"

    def result(self, c):
        s = c.val(c.a["self"])
        o = c.st.heap[s.id]
        h = c.val(o.f["ht"])
        c.st.heap[h.id] = HObj(c.st.heap[h.id].cls, {k: Opq(k) for k in c.st.heap[h.id].f})
        c.st.heap[s.id] = HObj(o.cls, dict(o.f, hough_points=Opq("points"), hough_lines=Opq("lines"), pairs=Opq("pairs")))
        return None


class Fit(Contract):
    qual = CAL + ".fit"
    fam, guess, held = "poly", False, False

    def setup(self, c):
        kw = dict(hough_points=Opq("points"), hough_lines=Opq("lines")) if self.held else {}
        s = calibrator_object(c, **kw)
        d = {"self": s, "max_tries": c.int("max_tries", 0), "fit_deg": c.int("fit_deg", 0), "fit_tolerance": c.real("fit_tol"), "fit_type": self.fam,
             "candidate_tolerance": c.real("ct"), "brute_force": c.bool("brute"), "progress": c.bool("progress")}
        if self.guess:
            d["fit_coeff"] = c.nd("guess", "f", c.int("n_guess", 1))
        return d

    def raises(self, c, et):
        return True

    def modifies(self, c):
        s = c.a["self"]
        return [("fld", s, f) for f in Ransac.CHANGES + (
            "max_tries", "fit_coeff", "fit_tolerance", "fit_type", "brute_force", "progress", "polyfit", "polyval", "minimum_matches",
            "rms", "residual", "peak_utilisation", "atlas_utilisation", "hough_points", "hough_lines", "pairs")] + [("obj", c.val(c.fld(s, "ht", c.old), c.old))]

    def ensures(self, c):
        s = c.a["self"]
        f = lambda n, st=None: c.val(c.fld(s, n, st), st)
        r = as_seq(c.ret)
        ok = isinstance(r, Seq) and same(r.n, 7)
        yield "seven values returned", ok
        if not ok:
            return
        for k, n in enumerate(("fit_coeff", "matched_peaks", "matched_atlas", "rms", "residual", "peak_utilisation", "atlas_utilisation")):
            a, b = settled(c.st, c.val(r.at(k))), settled(c.st, f(n))
            yield "returns the %s held" % n, same(a, b) or (val_eq(c, a, b) if is_scalar(a) else seq_equal_form(c, c.seq(a), c.seq(b)))
        coef, res = settled(c.st, f("fit_coeff")), settled(c.st, f("residual"))
        X, Y = c.seq(f("matched_peaks")), c.seq(f("matched_atlas"))
        x, y = c.seq(f("candidate_peak")), c.seq(f("candidate_arc"))
        deg = arith("-", c.oldseq(c.a["fit_coeff"]).n, 1) if self.guess else c.a["fit_deg"]
        yield "a solution", not none_of(coef)
        for name, fm in solution(c, c.st, c.seq(some(coef)), X.n, X, Y, c.seq(some(res)), f("rms"), x, y, deg, self.fam, s):
            yield name, fm
        P = c.oldseq(c.val(c.fld(s, "peaks", c.old), c.old))
        A = lines_of(c, c.val(c.fld(s, "atlas", c.old), c.old), c.old)
        yield "peak utilisation", compare("==", f("peak_utilisation"), arith("/", X.n, P.n))
        yield "atlas utilisation", compare("==", f("atlas_utilisation"), arith("/", X.n, A.n))
        m = f("minimum_matches", c.old)
        yield "minimum matches are those set, or all there can be", land(*[compare("<=", f("minimum_matches"), v) for v in (m, P.n, A.n)], lor(
            *[compare("==", f("minimum_matches"), v) for v in (m, P.n, A.n)]))


TABLE = [Points(qual=CAL + "._get_candidate_points_linear"), Points(qual=CAL + "._get_candidate_points_poly"), MostCommon(), Matched(), RobustFit(), HoughStub(), Ransac()]
CONTRACTS = MATCHING + [Ransac(case="plain"), Ransac(case="polynomial candidates", linear=False), Ransac(case="close lines left out", close=True), Ransac(case="every combination", brute=True),
             Ransac(case="progress", progress=True), Ransac(case="guess", guess=True), Ransac(case="no transform", edges=False), Ransac(case="known pairs", known=True),
             Ransac(case="legendre", fam="legendre"), Ransac(case="chebyshev", fam="chebyshev"),
             Fit(case="poly"), Fit(case="legendre", fam="legendre"), Fit(case="chebyshev", fam="chebyshev"), Fit(case="guess", guess=True), Fit(case="transform held", held=True)]
