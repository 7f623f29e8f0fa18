import os, tempfile
import numpy as np
from rascal.util import filter_separation, load_calibration_lines, air_to_vacuum_wavelength
from .common import *

MIN_CASES = 200


def fixed():
    yield dict(kind="f", wl=[], s=1.0)
    yield dict(kind="f", wl=[5.0], s=1.0)
    yield dict(kind="f", wl=[5.0, 6.0], s=1.0)
    yield dict(kind="f", wl=[5.0, 5.5], s=1.0)
    yield dict(kind="f", wl=[1.0, 5.0, 9.0, 9.5, 20.0, 21.0, 22.0], s=1.0)
    yield dict(kind="f", wl=[1, 5, 9, 10, 20, 21, 22], s=2)
    yield dict(kind="l", rows=[["He", 5000.0, 50.0], ["He", 5000.5, 2.0], ["Xe", 5001.0, 99.0], ["He", 5010.0, 60.0]], els=["He"], mi=10, md=1.0, N=None, vac=True)
    yield dict(kind="l", rows=[["He", 5000.0, 50.0], ["He", 5000.5, 40.0], ["He", 5010.0, 60.0], ["He", 5020.0, 45.0], ["He", 5020.6, 70.0]], els=["He"], mi=10, md=1.0, N=3, vac=True)
    yield dict(kind="l", rows=[["He", 5000.0, 50.0], ["He", 5001.0, 40.0], ["He", 9010.0, 60.0]], els=["He"], mi=10, md=1.0, N=None, vac=False)
    for md in (0.0, -1.0):
        yield dict(kind="l", rows=[["He", 5000.0, 50.0], ["He", 5000.5, 40.0], ["He", 5010.0, 60.0]], els=["He"], mi=10, md=md, N=None, vac=False)


def generate(rng):
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 2, 3, 4, 6, 12, 40])
        ints = rng.random() < 0.3
        wl = sorted(set(grid_vals(rng, n, 0.0, rng.choice([4.0, 10.0, 60.0]), 1.0 if ints else 0.5)))
        if ints:
            wl = [int(w) for w in wl]
        return dict(kind="f", wl=wl, s=rng.choice([0, 0.5, 1.0, 1, 2.0, 5.0]))
    n = rng.choice([1, 2, 3, 6, 15])
    rows, used = [], set()
    for i in range(n):
        w = 5000.0 + 0.5 * rng.randint(0, 60)
        if w in used:
            continue
        used.add(w)
        rows.append([rng.choice(["He", "Xe", "Ar"]), w, float(rng.choice([0, 5, 10, 11, 50, 51, 52, 53, 90]))])
    return dict(kind="l", rows=rows, els=rng.choice([["He"], ["He", "Xe"], ["He", "Xe", "Ar"]]), mi=rng.choice([None, 0, 10, 10.5]),
                md=rng.choice([0, 0.5, 1.0, 2.0, -1]), N=rng.choice([None, None, 1, 2, 4, 30]), vac=rng.random() < 0.7)


def nontrivial(c):
    return len(c.get("wl", c.get("rows"))) > 1


def keep(wl, s):
    n = len(wl)
    return [(i == 0 or wl[i] - wl[i - 1] >= s) and (i == n - 1 or wl[i + 1] - wl[i] >= s) for i in range(n)]


def check(c):
    if c["kind"] == "f":
        w = np.array(c["wl"]) if c["wl"] else np.array([], dtype=float)
        got = filter_separation(w, c["s"])
        if [bool(x) for x in got] != keep(c["wl"], c["s"]):
            return "mask %s, expected %s" % (list(got), keep(c["wl"], c["s"]))
        return
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "lines.csv")
    try:
        with open(fn, "w") as f:
            for r in c["rows"]:
                f.write("%s,%r,%r\n" % tuple(r))
            # two rows at least, so that the file is a table
            f.write("Zz,100.0,0.0\nZz,200.0,0.0\n")
        kw = {} if c["mi"] is None else {"min_intensity": c["mi"]}
        el, wl, it = load_calibration_lines(c["els"], 4000.0, 8000.0, min_distance=c["md"], vacuum=c["vac"], linelist=fn,
                                            brightest_n_lines=c["N"], min_intensity=c["mi"])
    finally:
        os.unlink(fn) if os.path.exists(fn) else None
        os.rmdir(d)
    lo, hi = (4000.0, 8000.0) if c["vac"] else air_to_vacuum_wavelength((4000.0, 8000.0))
    rows = sorted([r for r in c["rows"] if r[0] in c["els"] and lo <= r[1] <= hi and r[2] >= (c["mi"] or 0 if c["mi"] is not None else -1)], key=lambda r: r[1])
    if c["N"] is not None and len(rows) > c["N"]:
        ints = sorted([r[2] for r in rows], reverse=True)
        cut = ints[c["N"] - 1] if c["N"] else None
        if cut is not None and ints[c["N"]:] and ints[c["N"]] == cut:
            return None  # tie at the limit: several correct answers
        rows = [r for r in rows if c["N"] and r[2] >= cut]
    k = keep([r[1] for r in rows], c["md"]) if c["md"] > 0 else [True] * len(rows)
    exp = [r for r, q in zip(rows, k) if q]
    if [str(e) for e in el] != [r[0] for r in exp] or not closelist(it, [r[2] for r in exp]) or not closelist(wl, [r[1] for r in exp], ab=0.0 if c["vac"] else 5.0):
        return "lines %s, expected %s" % (list(zip(el, wl, it)), exp)
