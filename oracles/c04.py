import numpy as np
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.util import load_calibration_lines, vacuum_to_air_wavelength
from .common import *

MIN_CASES = 10


def user(els=["He", "Xe"], wl=[5000.0, 4000.0], it=[3.0, 7.0], how="list", conv=False):
    return dict(op="user", els=els, wl=wl, it=it, how=how, conv=conv)


def add(els=["Xe", "He"], lo=4000.0, hi=7000.0, **k):
    return dict(op="add", els=els, lo=lo, hi=hi, opts=k)


def fixed():
    yield dict(cfg=[4000.0, 6000.0, 500.0], ops=[add()])
    yield dict(cfg=[4000.0, 6000.0, 137.0], ops=[add(lo=None, hi=None)])
    yield dict(cfg=[4000.0, 6000.0, 137.0], ops=[add(lo=None, hi=5500.0), add(lo=4100.0, hi=None, els="Hg")])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[add(els=["He", "He"], min_intensity=5, min_distance=0.0, brightest_n_lines=3)])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[add(els=["Xe", "He"], vacuum=True, min_distance=1.0)])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[add(els=["Xe"], temperature=300.0, pressure=60000.0, relative_humidity=50.0)])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[add(lo=float("inf"))])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[user(), add(hi=float("nan")), user(wl=[1.0])])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[add(els=None)])
    yield dict(cfg=[4000.0, 6000.0, 0.0], els=["Xe", "He"], ops=[dict(op="clear"), user()])
    for how in ("list", "nd", "tuple"):
        yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[user(how=how), user(how=how, it=None), user(how=how, conv=True)])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[user(els="He", wl=5000.0, it=2.0), user(els="He", wl=4000.0, it=None), user(els="Argon", wl=4100.0, it=0)])
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[user(it=[1.0]), user(els=["He"]), user(it=[0.0, 5.0])])
    # through a calibrator
    for first in (True, False):
        c = dict(cfg=[4000.0, 6000.0, 137.0], cal=True, first=first)
        yield dict(c, ops=[add(lo=None, hi=None)])
        yield dict(c, ops=[add(lo=None, hi=5500.0, min_intensity=30.0), add(lo=4100.0, hi=None, els="Hg")])
        yield dict(c, ops=[add(els=["Xe"], temperature=300.0, pressure=60000.0, relative_humidity=50.0), user(), dict(op="clear"), user(conv=True)])
        yield dict(c, ops=[user(it=None), add(els=["Xe", "He"], vacuum=True, min_distance=1.0), user(how="nd")])
        yield dict(c, ops=[user(), add(lo=float("inf")), add(els=["He"], hi=float("nan"))])
    # a long list, to see one that is cut or reordered
    yield dict(cfg=[4000.0, 6000.0, 0.0], ops=[user(els=["E%d" % (i % 7) for i in range(1500)], wl=[9000.0 - 3.0 * ((i * 7) % 1500) for i in range(1500)], it=[float(i % 5) for i in range(1500)])])


def generate(rng):
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.25:
            k = {}
            for o, vs in (("min_intensity", [0, 10, 50.5]), ("min_distance", [0, 1.0, 20]), ("vacuum", [True, False]), ("brightest_n_lines", [1, 4, 1000]),
                          ("temperature", [280.0]), ("pressure", [90000.0]), ("relative_humidity", [30.0])):
                if rng.random() < 0.4:
                    k[o] = rng.choice(vs)
            els = rng.sample(["He", "Hg", "Xe", "Zn"], rng.randint(1, 3))
            ops.append(add(els if rng.random() < 0.8 else els[0], rng.choice([None, 4000.0, 4500.0]), rng.choice([None, 6000.0, 5000.0]), **k))
        elif r < 0.9:
            n = rng.randint(1, 6)
            m = n if rng.random() < 0.8 else rng.randint(1, 6)
            q = n if rng.random() < 0.8 else rng.randint(1, 6)
            ops.append(user([rng.choice(["He", "Xe"]) for _ in range(n)], grid_vals(rng, m, 3000.0, 9000.0), rng.choice([None, grid_vals(rng, q, 0.0, 9.0)]),
                            rng.choice(["list", "nd", "tuple"]), rng.random() < 0.2))
        else:
            ops.append(dict(op="clear"))
    d = dict(cfg=[4000.0, 6000.0, rng.choice([0.0, 100.0, 500.0])], ops=ops)
    if rng.random() < 0.3:
        d.update(cal=True, first=rng.random() < 0.5)
        for o in ops:
            if o["op"] == "add":
                o["opts"].pop("brightest_n_lines", None)
        if ops[0]["op"] == "clear":
            d["first"] = False
    return d


def cast(v, how):
    if isinstance(v, list):
        return list(v) if how == "list" else (np.array(v) if how == "nd" else tuple(v))
    return v


def check(c):
    if c.get("cal"):
        cal = Calibrator([10.0, 55.5, 80.0])
        cal.set_calibrator_properties(num_pix=100)
        cal.set_hough_properties(min_wavelength=c["cfg"][0], max_wavelength=c["cfg"][1], range_tolerance=c["cfg"][2])
        if not c["first"]:
            cal.set_atlas(Atlas())
        return run(c, cal, lambda: cal.atlas if cal.atlas is not None else Atlas(), cal.add_atlas, cal.add_user_atlas, cal.clear_atlas)
    a = Atlas(min_atlas_wavelength=c["cfg"][0], max_atlas_wavelength=c["cfg"][1], range_tolerance=c["cfg"][2], elements=c.get("els"),
              **({"linelist": "nist"} if c.get("els") else {}))
    if (a.min_atlas_wavelength, a.max_atlas_wavelength, a.range_tolerance) != tuple(c["cfg"]):
        return "settings of the constructor"
    return run(c, a, lambda: a, a.add, a.add_user_atlas, a.clear)


def run(c, owner, atlas, f_add, f_user, f_clear):
    exp = []
    cal = bool(c.get("cal"))

    def loaded(els, lo, hi, o):
        out = []
        for e in ([els] if isinstance(els, str) else els or []):
            d = dict(min_intensity=10.0, min_distance=10.0, vacuum=False, pressure=101325.0, temperature=273.15, relative_humidity=0.0, linelist="nist", brightest_n_lines=1000)
            d.update(o)
            E, W, Q = load_calibration_lines(e, lo, hi, **d)
            out += [(str(x), float(y), float(z)) for x, y, z in zip(E, W, Q)]
        return out
    if c.get("els"):
        exp += loaded(c["els"], c["cfg"][0], c["cfg"][1], {})
    for op in c["ops"]:
        refused = None
        if op["op"] == "clear":
            f_clear()
            exp = []
        elif op["op"] == "add":
            cmin, cmax = (owner.min_wavelength, owner.max_wavelength) if cal else (owner.min_atlas_wavelength, owner.max_atlas_wavelength)
            lo = op["lo"] if op["lo"] is not None else cmin - owner.range_tolerance
            hi = op["hi"] if op["hi"] is not None else cmax + owner.range_tolerance
            k = dict(op["opts"])
            if op["lo"] is not None:
                k["min_atlas_wavelength"] = op["lo"]
            if op["hi"] is not None:
                k["max_atlas_wavelength"] = op["hi"]
            bad = not (np.isfinite(lo) and np.isfinite(hi))
            els = op["els"]
            arg = list(els) if isinstance(els, list) else els
            try:
                f_add(arg, **k)
                refused = False
            except ValueError:
                refused = True
            if refused != bad:
                return "limits %s %s %s" % (lo, hi, "refused" if refused else "accepted")
            if arg != els:
                return "the list of elements was changed"
            if not bad:
                exp += loaded(els, lo, hi, op["opts"])
        else:
            e, w, i = (cast(op[x], op["how"]) for x in ("els", "wl", "it"))
            ln = lambda v: len(v) if isinstance(v, list) else 1
            bad = ln(op["els"]) != ln(op["wl"]) or (op["it"] is not None and ln(op["it"]) != ln(op["els"]))
            try:
                f_user(e, w, i, vacuum=op["conv"])
                refused = False
            except (AssertionError, ValueError):
                refused = True
            if refused != bad:
                return "%s: %s" % ("refused" if refused else "accepted", op)
            if not bad:
                W = op["wl"] if isinstance(op["wl"], list) else [op["wl"]]
                W = [float(x) for x in vacuum_to_air_wavelength(W)] if op["conv"] else W
                E = op["els"] if isinstance(op["els"], list) else [op["els"]]
                Q = [0] * len(W) if op["it"] is None else (op["it"] if isinstance(op["it"], list) else [op["it"]])
                exp += list(zip(E, W, Q))
        a = atlas()
        got = list(zip([str(x) for x in a.get_elements()], [float(x) for x in a.get_lines()], [float(x) for x in a.get_intensities()]))
        if len(a.get_elements()) != len(a) or len(a.get_lines()) != len(a) or len(a.get_intensities()) != len(a):
            return "columns of different lengths"
        if got != [(x, float(y), float(z)) for x, y, z in exp]:
            return "after %s: %d lines %s, expected %d: %s" % (op["op"], len(got), got[:6], len(exp), exp[:6])
