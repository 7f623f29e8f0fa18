"""C12: the candidates of the Hough lines and the pairs offered to the fit."""
from .cal import *
from pyvc.npmodel import MODELS, unique_of, flat_dom, filter_dom, argsort_dom


class Near(Contract):
    qual = CAL + "._get_candidate_points_linear"

    def setup(self, c):
        s = calibrator_object(c, pairs=c.table("pairs", 2), hough_lines=c.table("lines", 2), candidates=UNDEF)
        return {"self": s, "candidate_tolerance": c.real("ct")}

    def modifies(self, c):
        return [("fld", c.a["self"], "candidates")]

    def ensures(self, c):
        s = c.a["self"]
        P = c.oldseq(c.fld(s, "pairs", c.old))
        L = c.oldseq(c.fld(s, "hough_lines", c.old))
        T = c.seq(c.val(c.fld(s, "candidates")))
        yield "one set per line", compare("==", T.n, L.n)
        ct = c.a["candidate_tolerance"]
        v = lambda n: c.val(c.fld(s, n, c.old))
        sd = arith("*", arith("+", v("range_tolerance"), v("linearity_tolerance")), F("1.1775"))
        line = z3.Int(fresh_name("line"))
        rg = [line >= 0, line < zint(L.n)]
        c.E.binders.append((line, rg))
        try:
            at = T.at(line)
            c.need(isinstance(at, Tup), "a tuple per line")
            out = []
            fit = lambda r: arith("+", arith("*", L.cols[0].at(line), P.cols[0].at(r)), L.cols[1].at(line))
            diff = lambda r: arith("-", fit(r), P.cols[1].at(r))
            keep = lambda r: land(compare("<=", diff(r), ct), compare("<=", arith("-", 0, diff(r)), ct))
            out.append(("peaks, lines and weights", len(at.items) == 3))
            X, Y, W = (c.E.seq(c.st, x) for x in at.items)
            out.append(("as many lines as peaks", compare("==", X.n, Y.n)))
            out.append(("as many weights as peaks", compare("==", X.n, W.n)))
            c.need(X.dom is not None, "selection")
            base = Seq(P.n, lambda r: Tup([P.cols[0].at(r), P.cols[1].at(r)]), "o")
            res = Seq(X.n, lambda k: Tup([X.at(k), Y.at(k)]), "o")
            res.dom = X.dom
            out += list(filtered(c, base, res, keep, lambda x, y: land(*[compare("==", u, v) for u, v in zip(x.items, y.items)]), "pairs near the line"))
            d = lambda k: arith("-", Y.at(k), arith("+", arith("*", L.cols[0].at(line), X.at(k)), L.cols[1].at(line)))
            e = lambda k: MODELS["numpy.exp"](c.E, c.st, [arith("/", arith("-", 0, power(d(k), 2)), arith("+", arith("*", 2, power(sd, 2)), F("1e-9")))], {})
            out.append(("weight is the Gaussian of the distance", c.forall(X.n, lambda k: zbool(compare("==", W.at(k), e(k))))))
        finally:
            c.E.binders.pop()
        for n, f in out:
            yield n, (f if isinstance(f, bool) else z3.ForAll([line], z3.Implies(z3.And(*rg), f)))


class Offered(Contract):
    qual = CAL + "._get_most_common_candidates"
    weighted = True

    def setup(self, c):
        s = calibrator_object(c)
        n = c.int("n_sets", 0)
        ln = z3.Function("in_set_len", I, I)
        fs = [z3.Function("in_set_" + x, I, I, R) for x in ("peak", "line", "weight")]
        q = z3.Int(fresh_name("q"))
        c.assume(z3.ForAll([q], ln(q) >= 0, patterns=[ln(q)]))
        sets = Seq(n, lambda i: Tup([Seq(ln(zint(i)), (lambda f: lambda k: f(zint(i), zint(k)))(f), "f") for f in fs]), "o")
        c.d["sets"] = (n, ln, fs)
        return {"self": s, "candidates": c.E.new(c.st, HSeq("list", sets)), "top_n_candidate": c.int("topn", 1), "weighted": self.weighted}

    def ensures(self, c):
        n, ln, fs = c.d["sets"]
        f = flat_dom(c.E, n, lambda i: ln(zint(i)))
        P, Y, W = (Seq(f.N, (lambda g: lambda r: g(zint(f.row(r)), zint(f.col(r))))(g), "f") for g in fs)
        yield "two lists", isinstance(c.ret, Tup) and len(c.ret.items) == 2
        OP, OY = (c.seq(x) for x in c.ret.items)
        yield "as many lines as peaks", compare("==", OP.n, OY.n)
        E, st = c.E, c.st
        U = unique_of(E, st, P)

        def of_peak(u):
            """the candidates of the u-th distinct peak: selection, distinct lines"""
            d = filter_dom(E, P.n, lambda r: zbool(compare("==", P.at(r), U.seq.at(u))))
            return d, unique_of(E, st, Seq(d.n, None, "f", dom=d, g=Y.at))

        def support(u, j):
            """total weight (or number) of the candidates of the peak at its j-th line"""
            d, Q = of_peak(u)
            e = filter_dom(E, d.n, lambda k: zbool(compare("==", Y.at(d.src(k)), Q.seq.at(j))))
            return MODELS["numpy.sum"](E, st, [E.new_nd(st, Seq(e.n, lambda k: W.at(d.src(e.src(k))) if self.weighted else F(1), "f"))], {})
        topn = c.a["top_n_candidate"]
        nl = c.lam([U.n], lambda u: of_peak(u)[1].n)
        line = c.lam([U.n, nl], lambda u, j: of_peak(u)[1].seq.at(j))
        total = c.lam([U.n, nl], support)
        f2 = flat_dom(E, U.n, lambda u: MODELS["builtins.min"](E, st, [topn, nl(u)], {}))
        yield "as many as asked for or available per peak", compare("==", OP.n, f2.N)
        yield "the peaks in ascending order", c.forall(OP.n, lambda t: zbool(compare("==", OP.at(t), U.seq.at(f2.row(t)))))

        def index(t):
            """which line of its peak is offered at t"""
            h = c.positions(lambda j: line(f2.row(t), j), OY.at(t))
            c.need(h, "index of the line offered")
            return h[0]
        yield "every line offered is a candidate of the peak", c.forall(OP.n, lambda t: land(
            compare(">=", index(t), 0), compare("<", index(t), nl(f2.row(t))), zbool(compare("==", OY.at(t), line(f2.row(t), index(t))))))
        inv = c.lam([U.n, nl], lambda u, j: argsort_dom(E, Seq(nl(u), lambda q: arith("-", 0, total(u, q)), "f")).inv(j))
        nxt = lambda t: arith("+", t, 1)
        yield "strongest first", c.forall(arith("-", OP.n, 1), lambda t: zbool(implies(compare("==", f2.row(t), f2.row(nxt(t))),
            compare(">=", total(f2.row(t), index(t)), total(f2.row(t), index(nxt(t)))))))
        yield "no line twice for a peak", c.forall(OP.n, lambda t: c.forall(t, lambda q: zbool(implies(
            compare("==", f2.row(t), f2.row(q)), compare("!=", OY.at(t), OY.at(q))))))
        yield "no stronger line is left out", c.forall(U.n, lambda u: c.forall(nl(u), lambda j: lor(
            c.exists_hint(OP.n, lambda t: land(compare("==", f2.row(t), u), compare("==", index(t), j)), [f2.flat(u, inv(u, j))]),
            c.forall(OP.n, lambda t: zbool(implies(compare("==", f2.row(t), u), compare(">=", total(u, index(t)), total(u, j))))))))


CONTRACTS = [Near(), Offered(case="weighted"), Offered(case="not weighted", weighted=False)]
