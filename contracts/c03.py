"""C03: air/vacuum conversion (NIST modified Edlen equation, IAPWS vapour pressure)."""
from fractions import Fraction as F
from pyvc.contract import *

# the specification, as functions of real numbers; opaque at call sites
PSV = z3.Function("spec_vapour_pressure", R, R)             # t [C] -> Pa
EDLEN = z3.Function("spec_edlen", R, R, R, R, R)            # wavelength [A], t [C], p [Pa], pv [Pa] -> n


def vapour_spec(t):
    K = [None] + [F(x) for x in (
        "1.16705214528e03", "-7.24213167032e05", "-1.70738469401e01", "1.20208247025e04", "-3.23255503223e06",
        "1.49151086135e01", "-4.82326573616e03", "4.05113405421e05", "-2.38555575678e-01", "6.50175348448e02")]
    a = arith
    T = a("+", t, F("273.15"))
    om = a("+", T, a("/", K[9], a("-", T, K[10])))
    om2 = a("*", om, om)
    A = a("+", a("+", om2, a("*", K[1], om)), K[2])
    Bq = a("+", a("+", a("*", K[3], om2), a("*", K[4], om)), K[5])
    C = a("+", a("+", a("*", K[6], om2), a("*", K[7], om)), K[8])
    disc = a("-", a("*", Bq, Bq), a("*", a("*", 4, A), C))
    X = a("+", a("-", 0, Bq), SQRT(zreal(disc)))
    y = a("/", a("*", 2, C), X)
    return a("*", F(10) ** 6, a("*", a("*", y, y), a("*", y, y))), X, a("-", T, K[10])


def edlen_spec(w, t, p, pv):
    a = arith
    T = a("+", t, F("273.15"))
    um = a("/", w, F(10000))
    S = a("/", 1, a("*", um, um))
    ns = a("+", 1, a("*", F("1e-8"), a("+", a("+", F("8342.54"), a("/", F(2406147), a("-", F(130), S))),
                                       a("/", F(15998), a("-", F("38.9"), S)))))
    X = a("/", a("+", 1, a("*", a("*", F("1e-8"), a("-", F("0.601"), a("*", F("0.00972"), t))), p)),
          a("+", 1, a("*", F("0.003661"), t)))
    ntp = a("+", 1, a("/", a("*", a("*", p, a("-", ns, 1)), X), F("96095.43")))
    n = a("-", ntp, a("*", a("*", a("*", F("1e-10"), a("/", F("292.75"), T)),
                             a("-", F("3.7345"), a("*", F("0.0401"), S))), pv))
    return n


def conditions_ok(t):
    """temperature [C] at which the equations are defined"""
    return land(compare(">", t, F("-273.15")), compare("<", t, F(350)))


class VapourPressure(Contract):
    qual = "rascal.util.get_vapour_pressure"

    def setup(self, c):
        return {"temperature": c.real("t")}

    def requires(self, c):
        t = c.a["temperature"]
        yield "temperature in range", conditions_ok(t)
        if not c.calling:
            # the denominator of the formula is not zero at any temperature in the
            # range (checked numerically by the oracle; assumed)
            yield "formula defined", vapour_spec(t)[1] != 0

    def result(self, c):
        return PSV(zreal(c.a["temperature"]))

    def ensures(self, c):
        t = c.a["temperature"]
        if c.calling:
            return
        yield "IAPWS formula", compare("==", c.ret, vapour_spec(t)[0])


class PartialPressure(Contract):
    qual = "rascal.util.get_vapour_partial_pressure"

    def setup(self, c):
        return {"relative_humidity": c.real("rh"), "vapour_pressure": c.real("pv")}

    def result(self, c):
        return c.E.fresh("ppart", R)

    def ensures(self, c):
        yield "percent of the vapour pressure", compare("==", arith("*", c.ret, F(100)), arith("*", c.a["relative_humidity"], c.a["vapour_pressure"]))


def wl_input(c, how):
    if how == "scalar":
        return c.real("w")
    if how == "list":
        return c.list("w", "f")
    if how == "intlist":
        return c.list("w", "i")
    if how == "pair":
        return Tup([c.real("w0"), c.real("w1")])
    return c.nd("w", "i" if how == "int" else "f")


def wl_view(c, v):
    """(n or None, element function) of an input in the entry state"""
    if is_scalar(v):
        return None, lambda k: v
    s = c.oldseq(v) if c.old is not None else c.seq(v)
    return s.n, s.at


def each(c, v, ret, fn):
    """formula fn(input element, output element) for every element"""
    n, at = wl_view(c, v)
    if n is None:
        r = c.val(ret)
        if not is_scalar(r):
            r = c.seq(r).at(0)
        return fn(at(0), r)
    r = c.seq(ret)
    return land(compare("==", r.n, n), c.forall(n, lambda k: fn(at(k), r.at(k))))


def wl_ok(c, v):
    """wavelengths for which the dispersion formula is defined (above 2000 A)"""
    n, at = wl_view(c, v)
    f = lambda w: compare(">", w, F(2000))
    return f(at(0)) if n is None else c.forall(n, lambda k: f(at(k)))


class Edlen(Contract):
    qual = "rascal.util.edlen_refraction"

    def setup(self, c):
        return {"wavelengths": wl_input(c, self.how), "temperature": c.real("t"), "pressure": c.real("p"),
                "vapour_partial_pressure": c.real("pv")}

    def requires(self, c):
        yield "wavelengths in range", wl_ok(c, c.a["wavelengths"])
        yield "temperature in range", compare(">", c.a["temperature"], F("-273.15"))
        yield "pressure formula defined", compare("!=", arith("+", 1, arith("*", F("0.003661"), c.a["temperature"])), 0)

    def result(self, c):
        n, at = wl_view(c, c.a["wavelengths"])
        t, p, pv = (zreal(c.a[x]) for x in ("temperature", "pressure", "vapour_partial_pressure"))
        if n is None:
            return EDLEN(zreal(at(0)), t, p, pv)
        return c.E.new_nd(c.st, Seq(n, lambda k: EDLEN(zreal(at(k)), t, p, pv), "f"))

    def ensures(self, c):
        if c.calling:
            return
        t, p, pv = (c.a[x] for x in ("temperature", "pressure", "vapour_partial_pressure"))
        yield "modified Edlen equation", each(c, c.a["wavelengths"], c.ret, lambda w, n: compare("==", n, edlen_spec(w, t, p, pv)))


class Convert(Contract):
    """vacuum_to_air_wavelength / air_to_vacuum_wavelength"""

    def setup(self, c):
        d = {"wavelengths": wl_input(c, self.how)}
        if not self.defaults:
            d.update(temperature=c.real("temp"), pressure=c.real("press"), relative_humidity=c.real("rh"))
        return d

    def cond(self, c):
        T = c.a.get("temperature", F("273.15"))
        p = c.a.get("pressure", 101325)
        rh = c.a.get("relative_humidity", 0)
        return T, p, rh

    def requires(self, c):
        T, p, rh = self.cond(c)
        yield "temperature in range", land(compare(">", T, F("0.0001")), compare("<", T, F(600)))
        yield "wavelengths in range", wl_ok(c, c.a["wavelengths"])
        yield "pressure formula defined", compare("!=", arith("+", 1, arith("*", F("0.003661"), arith("-", T, F("273.15")))), 0)

    def index(self, c, w):
        T, p, rh = self.cond(c)
        t = arith("-", T, F("273.15"))
        pv = arith("/", arith("*", zreal(rh), PSV(zreal(t))), F(100))
        return EDLEN(zreal(w), zreal(t), zreal(p), zreal(pv))

    def result(self, c):
        n, at = wl_view(c, c.a["wavelengths"])
        if n is None:
            return self.value(c, at(0))
        return c.E.new_nd(c.st, Seq(n, lambda k: self.value(c, at(k)), "f"))

    def value(self, c, w):
        return arith(self.op, w, self.index(c, w))

    def ensures(self, c):
        if c.calling:
            return
        yield "wavelength %s refractive index" % self.op, each(c, c.a["wavelengths"], c.ret, lambda w, r: compare("==", r, self.value(c, w)))

    def modifies(self, c):
        return []


V2A, A2V = "rascal.util.vacuum_to_air_wavelength", "rascal.util.air_to_vacuum_wavelength"
TABLE = [VapourPressure(), PartialPressure(), Edlen(how="nd"),
         Convert(qual=V2A, op="/", how="nd", defaults=False), Convert(qual=A2V, op="*", how="nd", defaults=False)]
CONTRACTS = [VapourPressure(), PartialPressure()] + [Edlen(case=h, how=h) for h in ("nd", "int", "list", "intlist", "scalar")]
for q, op in ((V2A, "/"), (A2V, "*")):
    for h in ("nd", "int", "list", "intlist", "scalar", "pair"):
        CONTRACTS.append(Convert(qual=q, op=op, case=h, how=h, defaults=False))
    for h in ("nd", "scalar"):
        CONTRACTS.append(Convert(qual=q, op=op, case=h + ", default conditions", how=h, defaults=True))
