"""Contracts of the polynomial models and the robust fit (C15, used by C18)."""
from .cal import *
from pyvc.npmodel import sum_term

M = "rascal.models."


def horner_sum(c, n, at, x):
    """sum over i < n of at(i) * x**i: lowest order first"""
    if isinstance(n, int):
        r = 0
        for i in range(n):
            r = arith("+", r, arith("*", at(i), power(x, i)))
        return r
    m = arith("-", n, 1)
    return arith("+", at(0), sum_term(c.E, c.st, m, lambda r: arith("*", at(arith("+", r, 1)), power(x, arith("+", r, 1)))))


def power(x, i):
    return arith("**", x, i)


def evaluate(c, f, x):
    """call a polynomial in the exit state"""
    return c.E.call(f, [x], {}, c.st)


class Polynomial(Contract):
    """polynomial(a, degree): highest order first"""
    qual = M + "polynomial"
    degree, kind, dt, xdt = None, "nd", "f", "f"

    def setup(self, c):
        n = c.int("n_coef", 1) if self.degree is None else self.degree + self.extra + 1
        mk = c.nd if self.kind == "nd" else c.list
        d = {"a": mk("coef", self.dt, n)}
        d["degree"] = c.int("degree", 0) if self.degree is None else self.degree
        return d
    extra = 0
    always_raises = property(lambda self: self.extra != 0)

    def raises(self, c, et):
        return et in ("AssertionError", "ValueError") and compare("!=", c.oldseq(c.a["a"]).n, arith("+", c.a["degree"], 1))

    def ensures(self, c):
        a = c.oldseq(c.a["a"])
        n = arith("+", c.a["degree"], 1)
        yield "exactly degree + 1 coefficients", compare("==", a.n, n)
        if self.extra:
            return
        asc = lambda i: a.at(arith("-", arith("-", n, 1), i))
        x = c.real("at") if self.xdt == "f" else c.int("at")
        v = c.val(evaluate(c, c.ret, x))
        if not isinstance(n, int):
            c.need(c.E.sums, "sum over the coefficients")
        yield "value at a number", compare("==", v, horner_sum(c, n, asc, x))
        xs = c.nd("points", self.xdt)
        vs = c.val(evaluate(c, c.ret, xs))
        X = c.seq(xs)
        # a constant may come as a single number
        if is_scalar(vs):
            yield "a single value only for a constant", land(compare("==", n, 1), compare("==", vs, asc(0)))
        else:
            vs = c.seq(vs)
            yield "as many values as points", compare("==", vs.n, X.n)
            yield "value at every point of an array", c.forall(X.n, lambda k: zbool(compare("==", vs.at(k), horner_sum(c, n, asc, X.at(k)))))


class Normalise(Contract):
    qual = M + "normalise_input"

    def setup(self, c):
        n = c.int("n_pts", 1)
        return {"x": c.nd("x", "f", n), "y": c.nd("y", "f", n)}

    def requires(self, c):
        yield from scales_positive(c)

    def ensures(self, c):
        r = c.seq(c.ret)
        yield "two arrays", same(r.n, 2)
        for j, name in enumerate(("x", "y")):
            s = c.oldseq(c.a[name])
            q = c.seq(c.val(r.at(j)))
            sc = std(c, c.a[name])
            yield name + ": as many", compare("==", q.n, s.n)
            yield name + ": divided by the standard deviation", c.forall(s.n, lambda k: compare("==", q.at(k), arith("/", s.at(k), sc)))


def std(c, v):
    from pyvc.npmodel import MODELS
    return MODELS["numpy.std"](c.E, c.st, [v], {})


def scales_positive(c):
    for name in ("x", "y"):
        yield name + " not all equal", compare(">", std(c, c.a[name]), 0)


class Fit(Contract):
    """robust_polyfit"""
    qual = M + "robust_polyfit"
    degree, x0, dt, x0dt = 2, None, "f", "f"

    def setup(self, c):
        n = c.int("n_pts", 1)
        d = {"x": c.nd("x", self.dt, n), "y": c.nd("y", self.dt, n)}
        d["degree"] = c.int("degree", 1) if self.degree is None else self.degree
        if self.x0:
            k = arith("+", d["degree"], 1)
            d["x0"] = (c.list if self.x0 == "list" else c.nd)("x0", self.x0dt, k)
        return d

    def requires(self, c):
        yield from scales_positive(c)

    def hooks(self, c):
        E = c.E
        k = self

        def lsq(E, st, fun, x0, args, kw, res):
            c.d["solved"] = c.d.get("solved", 0) + 1
            deg = c.a["degree"]
            loss = E.val(st, kw.get("loss", "linear"))
            E.oblige(k.label + ": Huber loss", st, loss == "huber" if isinstance(loss, str) else False, "post", "least_squares")
            E.oblige(k.label + ": Huber loss turns linear at one standard deviation", st, compare("==", E.val(st, kw.get("f_scale", 1)), 1), "post", "least_squares")
            if set(kw) - {"loss", "f_scale", "args", "diff_step", "method", "ftol", "xtol", "gtol", "max_nfev", "x_scale", "jac", "verbose", "kwargs"} or "kwargs" in kw:
                raise Unsupported("least_squares options")
            E.oblige(k.label + ": one parameter per coefficient", st, compare("==", x0.n, arith("+", deg, 1)), "post", "least_squares")
            # the residuals for any parameters
            P = c.nd("parameters", "f", arith("+", deg, 1))
            c2 = Ctx(E, st, k, c.a)
            c2.old = c.old
            probe = st.copy()
            E.obs_in = None
            P2 = E.new(probe, HSeq("nd", c.seqv("parameters", "f", arith("+", deg, 1))))
            r = E.seq(probe, E.call(fun, [P2] + list(args), {}, probe))
            c2.st = probe
            x, y = c.oldseq(c.a["x"]), c.oldseq(c.a["y"])
            sx, sy = std(c2, c.a["x"]), std(c2, c.a["y"])
            p = c.seqv("parameters", "f", arith("+", deg, 1))
            if not isinstance(deg, int):
                c.need(E.sums, "sum over the coefficients")
            n = arith("+", deg, 1)
            if not isinstance(r, Seq):
                raise Unsupported("residuals that are no array")

            def ok(i, orders):
                u = arith("/", x.at(i), sx)
                out = []
                for o in orders:
                    at = (lambda j: p.at(arith("-", deg, j))) if o == "high" else p.at
                    d = arith("-", arith("/", y.at(i), sy), horner_sum(c2, n, at, u))
                    out += [compare("==", r.at(i), d), compare("==", r.at(i), arith("-", 0, d))]
                return lor(*out)
            E.oblige(k.label + ": all the points take part", probe, compare("==", r.n, x.n), "post", "least_squares")
            E.oblige(k.label + ": residuals are those of a polynomial of the degree at the scaled points", probe,
                     c2.forall(x.n, lambda i: zbool(ok(i, ("high",) if not isinstance(deg, int) else ("high", "low")))), "post", "least_squares")
            c.d["fun"], c.d["args"], c.d["res"] = fun, args, res
        E.hooks["least_squares"] = [lsq]

    def ensures(self, c):
        x, y = c.oldseq(c.a["x"]), c.oldseq(c.a["y"])
        deg = c.a["degree"]
        r = c.seq(c.ret)
        yield "degree + 1 coefficients", compare("==", r.n, arith("+", deg, 1))
        c.need("fun" in c.d, "a minimisation")
        sx, sy = std(c, c.a["x"]), std(c, c.a["y"])
        res = c.d["res"]
        if isinstance(deg, int):
            one = lambda j, low: compare("==", r.at(j), arith("/", arith("*", res.at(j if low else deg - j), sy), power(sx, j)))
            yield "coefficients in the original units, lowest order first", lor(*[land(*[one(j, low) for j in range(deg + 1)]) for low in (False, True)])
        if isinstance(deg, int) and deg <= 3:
            # residuals of the minimiser, in the original units, are those of the polynomial returned
            st = c.st.copy()
            q = c.E.seq(st, c.E.call(c.d["fun"], [c.E.new(st, HSeq("nd", res))] + list(c.d["args"]), {}, st))
            co = [r.at(j) for j in range(deg + 1)]
            u = c.real("u")
            hi = horner_sum(c, deg + 1, lambda j: res.at(deg - j), arith("/", u, sx))
            lo = horner_sum(c, deg + 1, res.at, arith("/", u, sx))
            v = horner_sum(c, deg + 1, lambda j: co[j], u)
            yield "the polynomial at any x is the y-scale times the normalised one at x over the x-scale", lor(
                compare("==", v, arith("*", sy, hi)), compare("==", v, arith("*", sy, lo)))
            i = c.int("i", 0)
            d = arith("-", y.at(i), horner_sum(c, deg + 1, lambda j: co[j], x.at(i)))
            e = arith("*", sy, q.at(i))
            yield "the residuals of the minimiser are those of the polynomial returned", implies(
                compare("<", i, x.n), lor(compare("==", e, d), compare("==", e, arith("-", 0, d))))
        for_any = lambda j: compare("==", r.at(j), arith("/", arith("*", res.at(arith("-", deg, j)), sy), power(sx, j)))
        if not isinstance(deg, int):
            yield "coefficients in the original units, lowest order first", c.forall(arith("+", deg, 1), lambda j: zbool(for_any(j)))


class Derivative(Contract):
    qual = "rascal.util._derivative"
    kind, n, dt = "nd", None, "f"

    def setup(self, c):
        n = self.n if self.n is not None else c.int("n_coef", 1)
        return {"p": (c.nd if self.kind == "nd" else c.list)("coef", self.dt, n)}

    def ensures(self, c):
        p, r = c.oldseq(c.a["p"]), c.seq(c.ret)
        yield "one coefficient less", compare("==", r.n, arith("-", p.n, 1))
        yield "i times the i-th coefficient", c.forall(r.n, lambda k: zbool(compare("==", r.at(k), arith("*", arith("+", k, 1), p.at(arith("+", k, 1))))))
