import numpy as np
from rascal import util
from .common import *

MIN_CASES = 100


def fixed():
    for how in ("list", "nd", "scalar", "tuple"):
        yield dict(w=[4000.0, 5555.5, 9000.0], how=how, T=273.15, p=101325.0, rh=0.0, default=False)
        yield dict(w=[4000.0, 5555.5, 9000.0], how=how, T=293.15, p=90000.0, rh=50.0, default=False)
        yield dict(w=[4000.0, 5555.5, 9000.0], how=how, T=273.15, p=101325, rh=0, default=True)
    yield dict(w=[4000, 6000, 9000], how="nd", T=300, p=100000, rh=100, default=False)
    yield dict(w=[4000, 6000, 9000], how="list", T=300, p=100000, rh=100, default=False)


def generate(rng):
    ints = rng.random() < 0.2
    w = [rng.uniform(2500, 15000) for _ in range(rng.choice([1, 1, 2, 5]))]
    if ints:
        w = [int(x) for x in w]
    d = rng.random() < 0.15
    return dict(w=w, how=rng.choice(["list", "nd", "scalar", "tuple"]), T=273.15 if d else rng.uniform(250, 330), p=101325 if d else rng.uniform(50000, 120000),
                rh=0 if d else rng.choice([0.0, 10.0, rng.uniform(0, 100), 100.0]), default=d)


def vapour(t):
    from math import sqrt
    K = [None, 1.16705214528e03, -7.24213167032e05, -1.70738469401e01, 1.20208247025e04, -3.23255503223e06, 1.49151086135e01,
         -4.82326573616e03, 4.05113405421e05, -2.38555575678e-01, 6.50175348448e02]
    T = t + 273.15
    om = T + K[9] / (T - K[10])
    A = om ** 2 + K[1] * om + K[2]
    Bq = K[3] * om ** 2 + K[4] * om + K[5]
    C = K[6] * om ** 2 + K[7] * om + K[8]
    X = -Bq + sqrt(Bq ** 2 - 4 * A * C)
    return 1e6 * (2 * C / X) ** 4


def index(w, T, p, rh):
    t = T - 273.15
    S = 1.0 / (w / 1e4) ** 2
    ns = 1 + 1e-8 * (8342.54 + 2406147.0 / (130 - S) + 15998.0 / (38.9 - S))
    X = (1 + 1e-8 * (0.601 - 0.00972 * t) * p) / (1 + 0.003661 * t)
    ntp = 1 + p * (ns - 1) * X / 96095.43
    pv = rh / 100 * vapour(t)
    return ntp - 1e-10 * (292.75 / (t + 273.15)) * (3.7345 - 0.0401 * S) * pv


def check(c):
    import copy
    T, p, rh = c["T"], c["p"], c["rh"]
    w = c["w"]
    arg = {"list": lambda: list(w), "nd": lambda: np.array(w), "scalar": lambda: w[0], "tuple": lambda: tuple(w)}[c["how"]]()
    before = copy.deepcopy(arg)
    kw = {} if c["default"] else dict(temperature=T, pressure=p, relative_humidity=rh)
    ws = w[:1] if c["how"] == "scalar" else w
    if abs(util.get_vapour_pressure(T - 273.15) / vapour(T - 273.15) - 1) > 1e-12:
        return "vapour pressure %r, formula %r" % (util.get_vapour_pressure(T - 273.15), vapour(T - 273.15))
    for f, op in ((util.vacuum_to_air_wavelength, -1), (util.air_to_vacuum_wavelength, 1)):
        got = np.atleast_1d(f(arg, **kw))
        exp = [x * index(x, T, p, rh) ** op for x in ws]
        if not closelist(got, exp, rel=1e-13, ab=0):
            return "%s gives %s, formula %s" % (f.__name__, list(got), exp)
        if not np.array_equal(arg, before):
            return "input changed"
        # positional order of the conditions
        if not c["default"]:
            g2 = np.atleast_1d(f(arg, T, p, rh))
            if not np.array_equal(g2, got):
                return "positional conditions differ from keywords"
