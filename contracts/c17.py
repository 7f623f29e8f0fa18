"""C17: manual edits of the matched pairs and the manual refit."""
from .cal import *


class Pair(Contract):
    kind, dt = "list", "f"

    def cal(self, c, **kw):
        n = c.int("n_pairs", 0)
        mk = c.list if self.kind == "list" else c.nd
        return calibrator_object(c, matched_peaks=mk("mp", self.dt, n), matched_atlas=mk("ma", "f", n), **family("poly"), **kw)

    def both(self, c, st=None):
        st = st or c.st
        s = c.a["self"]
        return [c.seq(c.val(c.fld(s, f, st), st), st) for f in ("matched_peaks", "matched_atlas")]


class Listing(Pair):
    qual = CAL + ".get_pix_wave_pairs"

    def setup(self, c):
        return {"self": self.cal(c)}

    def ensures(self, c):
        x, y = self.both(c, c.old)
        r = c.seq(c.ret)
        yield "every pair", compare("==", r.n, x.n)

        def row(k):
            t = as_seq(r.at(k))
            if not isinstance(t, Seq) or not same(t.n, 3):
                return False
            return zbool(land(compare("==", t.at(0), k), compare("==", t.at(1), x.at(k)), compare("==", t.at(2), y.at(k))))
        yield "with its position", c.forall(x.n, row)


class AddPair(Pair):
    qual = CAL + ".add_pix_wave_pair"

    def setup(self, c):
        return {"self": self.cal(c), "pix": c.real("pix"), "wave": c.real("wave")}

    def modifies(self, c):
        s = c.a["self"]
        return [("fld", s, f) for f in ("matched_peaks", "matched_atlas")] + [
            ("heap", c.val(c.fld(s, f, c.old), c.old)) for f in ("matched_peaks", "matched_atlas")]

    def ensures(self, c):
        (x, y), (X, Y) = self.both(c, c.old), self.both(c)
        pix, wave = c.a["pix"], c.a["wave"]
        c.need(c.E.inserts, "position of the insertion")
        p = c.E.inserts[-1]
        yield "one pair more", land(compare("==", X.n, arith("+", x.n, 1)), compare("==", Y.n, arith("+", y.n, 1)))
        yield "a position", land(compare(">=", p, 0), compare("<=", p, x.n))
        yield "the pixel given", compare("==", X.at(p), pix)
        yield "the wavelength given at the same position", compare("==", Y.at(p), wave)
        for nm, a, b in (("pixel", x, X), ("wavelength", y, Y)):
            yield "every earlier %s stays" % nm, c.forall(p, lambda k: compare("==", b.at(k), a.at(k)))
            yield "every later %s follows" % nm, c.forall(a.n, lambda k: zbool(implies(compare(">=", k, p), compare("==", b.at(arith("+", k, 1)), a.at(k)))))
        asc = c.forall(x.n, lambda k: c.forall(k, lambda j: zbool(compare("<=", x.at(j), x.at(k)))))
        yield "pairs in ascending order of pixel stay so", implies(asc, c.forall(X.n, lambda k: zbool(implies(compare(">", k, 0), compare(
            "<=", X.at(arith("-", k, 1)), X.at(k))))))


class RemovePair(Pair):
    qual = CAL + ".remove_pix_wave_pair"

    def setup(self, c):
        return {"self": self.cal(c), "arg": c.int("arg", 0)}
    modifies = AddPair.modifies

    def raises(self, c, et):
        if et != "IndexError":
            return False
        (x, y), (X, Y) = self.both(c, c.old), self.both(c)
        return [("refused only for a position without a pair", compare(">=", c.a["arg"], x.n)),
                ("nothing changed", land(seq_equal_form(c, x, X), seq_equal_form(c, y, Y)))]

    def ensures(self, c):
        (x, y), (X, Y) = self.both(c, c.old), self.both(c)
        p = c.a["arg"]
        yield "one pair less", land(compare("==", X.n, arith("-", x.n, 1)), compare("==", Y.n, arith("-", y.n, 1)))
        for nm, a, b in (("pixel", x, X), ("wavelength", y, Y)):
            yield "every earlier %s stays" % nm, c.forall(p, lambda k: compare("==", b.at(k), a.at(k)))
            yield "every later %s follows" % nm, c.forall(b.n, lambda k: zbool(implies(compare(">=", k, p), compare("==", b.at(k), a.at(arith("+", k, 1))))))


class Refit(Pair):
    qual = CAL + ".manual_refit"
    given, how, fam = "both", "degree", "poly"

    def setup(self, c):
        n = c.int("n_held", 0)
        mk = c.list if self.kind == "list" else c.nd
        nc = c.int("n_coef", 1)
        d = {"self": calibrator_object(c, matched_peaks=mk("mp", "f", n), matched_atlas=mk("ma", "f", n), fit_coeff=c.nd("held_coef", "f", nc), **family(self.fam))}
        mk = c.nd if self.dt == "nd" else c.list
        if self.given in ("both", "peaks"):
            d["matched_peaks"] = mk("x", "f")
        if self.given in ("both", "atlas"):
            d["matched_atlas"] = mk("y", "f")
        if "degree" in self.how:
            d["degree"] = c.int("degree")
        if "x0" in self.how:
            d["x0"] = c.list("x0", "f")
        return d

    def points(self, c):
        s = c.a["self"]
        out = []
        for a in ("matched_peaks", "matched_atlas"):
            v = c.a.get(a)
            out.append(c.seq(c.val(c.fld(s, a, c.old), c.old), c.old) if v is None else c.oldseq(v))
        return out

    def deg(self, c):
        if "degree" in self.how:
            return c.a["degree"]
        if "x0" in self.how:
            return arith("-", c.oldseq(c.a["x0"]).n, 1)
        return arith("-", c.oldseq(c.val(c.fld(c.a["self"], "fit_coeff", c.old), c.old)).n, 1)

    def modifies(self, c):
        return [("fld", c.a["self"], f) for f in ("fit_coeff", "matched_peaks", "matched_atlas", "residuals", "rms")]

    def accepted(self, c):
        x, y = self.points(c)
        d = self.deg(c)
        ok = [compare("==", x.n, y.n), compare(">", x.n, 0), compare(">", d, 0), compare("<", d, x.n)]
        if "degree" in self.how and "x0" in self.how:
            ok.append(compare("==", c.oldseq(c.a["x0"]).n, arith("+", d, 1)))
        return land(*ok)

    def raises(self, c, et):
        if et in ("AssertionError", "ValueError"):
            return [("refused only unequal or too few pairs or an unusable degree", lnot(self.accepted(c)))]
        return False

    def ensures(self, c):
        s = c.a["self"]
        yield "unequal or too few pairs are refused", self.accepted(c)
        x, y = self.points(c)
        d = self.deg(c)
        f = lambda n: c.val(c.fld(s, n))
        coef = c.seq(f("fit_coeff"))
        exp = robust_coef(c, x, y, d)
        yield "as many coefficients as the degree asks for", compare("==", coef.n, exp.n)
        yield "the robust fit of the pairs with the degree", c.forall(exp.n, lambda k: zbool(compare("==", coef.at(k), exp.at(k))))
        X, Y = self.both(c)
        yield "pixels held", seq_equal_form(c, X, x)
        yield "wavelengths held", seq_equal_form(c, Y, y)
        res = c.seq(f("residuals"))
        yield "as many residuals as pairs", compare("==", res.n, x.n)
        want = lambda k: arith("-", y.at(k), poly_at(c, self.fam, coef, x.at(k)))
        yield "residual is line minus solution", c.forall(x.n, lambda k: zbool(compare("==", res.at(k), want(k))))
        yield "rms of the residuals", compare("==", f("rms"), rms_of(c, x.n, want))
        r = as_seq(c.ret)
        yield "five values returned", isinstance(r, Seq) and same(r.n, 5)
        for k, n in enumerate(("fit_coeff", "matched_peaks", "matched_atlas", "rms", "residuals")):
            a, b = c.val(r.at(k)), f(n)
            yield "returns the %s held" % n, same(a, b) or (val_eq(c, a, b) if n == "rms" else seq_equal_form(c, c.seq(a), c.seq(b)))


TABLE = [RobustFit()]
CONTRACTS = ([Listing(case="list"), Listing(case="array", kind="nd")]
             + [AddPair(case=k + ", " + {"f": "float", "i": "integer"}[d], kind=k, dt=d) for k in ("list", "nd") for d in "fi"]
             + [RemovePair(case=k, kind=k) for k in ("list", "nd")]
             + [Refit(case="%s given, %s" % (g, h or "held degree"), given=g, how=h) for g in ("both", "none") for h in ("", "degree", "x0", "degree x0")]
             + [Refit(case="peaks given", given="peaks", how=""), Refit(case="atlas given", given="atlas", how=""),
                Refit(case="arrays", dt="nd"), Refit(case="held arrays", kind="nd", given="none", how=""),
                Refit(case="legendre", fam="legendre"), Refit(case="chebyshev", fam="chebyshev")])
