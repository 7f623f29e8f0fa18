"""C13: the one-to-one matching of peaks and candidate lines."""
from .cal import *
from pyvc.npmodel import MODELS, unique_of, extremum


class Candidates:
    """a map from the peaks to their candidate lines (at least one each)"""

    def __init__(self, c, keyed):
        N = z3.Function("in_n_cand", R, I)
        Y = z3.Function("in_cand", R, I, R)
        self.N, self.Y = N, Y
        self.keyed = keyed
        self.ref = c.E.new(c.st, HDict(has=lambda k: keyed(k), get=lambda k: self.lines(k)))

    def lines(self, p):
        p = zreal(p)
        return Seq(self.N(p), lambda j: self.Y(p, zint(j)), "f")


class Match(Contract):
    qual = CAL + "._match_bijective"
    fam = "poly"
    peaks = "nd"

    def setup(self, c):
        s = calibrator_object(c, **family(self.fam))
        P = c.nd("pk", "f", c.int("n_pk", 1)) if self.peaks == "nd" else c.list("pk", "f", c.int("n_pk", 1))
        Ps = c.seq(P)
        c.d["cand"] = Candidates(c, lambda k: c.exists(Ps.n, lambda i: zbool(compare("==", Ps.at(i), k))))
        return {"self": s, "candidates": c.d["cand"].ref, "peaks": P, "fit_coeff": c.nd("coef", "f", c.int("n_coef", 1))}

    def requires(self, c):
        P, K = c.seq(c.a["peaks"]), c.d["cand"]
        yield "every peak has a candidate", c.forall(P.n, lambda i: compare(">=", K.N(zreal(P.at(i))), 1))
        yield "peaks are distinct", c.forall(P.n, lambda i: c.forall(i, lambda j: zbool(compare("!=", P.at(i), P.at(j)))))

    def fit(self, c, p):
        return poly_at(c, self.fam, c.oldseq(c.a["fit_coeff"]), p)

    def ensures(self, c):
        P, K = c.oldseq(c.a["peaks"]), c.d["cand"]
        yield "three results", isinstance(c.ret, Tup) and len(c.ret.items) == 3
        err, X, Y = (c.seq(v) for v in c.ret.items)
        yield "as many errors as lines", compare("==", err.n, Y.n)
        yield "as many peaks as lines", compare("==", X.n, Y.n)
        yield "lines ascend", c.forall(arith("-", Y.n, 1), lambda t: zbool(compare("<", Y.at(t), Y.at(arith("+", t, 1)))))
        def d(p, y):
            return MODELS["builtins.abs"](c.E, c.st, [arith("-", self.fit(c, p), y)], {})
        cand = lambda i: (lambda j: K.Y(zreal(P.at(i)), zint(j)))
        ncand = lambda i: K.N(zreal(P.at(i)))
        yield "the error is the distance of the fit to the line", c.forall(Y.n, lambda t: zbool(compare("==", err.at(t), d(X.at(t), Y.at(t)))))
        at_peak = lambda t, fn: c.exists_hint(P.n, lambda i: land(compare("==", X.at(t), P.at(i)), fn(i)), c.positions(P.at, X.at(t)))
        yield "every pair is a candidate", c.forall(Y.n, lambda t: at_peak(t, lambda i: c.exists(ncand(i), lambda j: zbool(compare("==", Y.at(t), cand(i)(j))))))
        yield "the line is the closest of its peak", c.forall(Y.n, lambda t: at_peak(t, lambda i: c.forall(ncand(i), lambda j: zbool(
            compare("<=", err.at(t), d(P.at(i), cand(i)(j)))))))
        yield "no peak twice", c.forall(Y.n, lambda t: c.forall(t, lambda u: zbool(compare("!=", X.at(t), X.at(u)))))

        # the line each peak takes: the first of its closest ones
        def taken(i):
            e = Seq(ncand(i), lambda j: d(P.at(i), cand(i)(j)), "f")
            return cand(i)(extremum(c.E, c.st, e, "min"))
        T = c.mapped(P.n, taken)
        u = unique_of(c.E, c.st, T)
        yield "a line taken by a peak is matched, by a peak at most as far", c.forall(P.n, lambda i: c.exists_hint(Y.n, lambda t: land(
            compare("==", Y.at(t), T.at(i)), compare("<=", err.at(t), d(P.at(i), T.at(i)))), [u.pos(i)]))


CONTRACTS = [Match(case=f, fam=f) for f in POLY] + [Match(case="peaks as list", peaks="list")]
