import os, tempfile
import numpy as np
from rascal.util import load_calibration_lines, filter_wavelengths, filter_intensity, air_to_vacuum_wavelength, vacuum_to_air_wavelength
import rascal
from .common import *

MIN_CASES = 60
NIST = os.path.join(os.path.dirname(rascal.__file__), "arc_lines", "nist_clean.csv")


def base(**k):
    d = dict(rows=[["He", 5000.0, 50.0], ["Xe", 5010.0, 9.0], ["He", 5020.0, 10.0], ["Ar", 5030.0, 99.0], ["He", 5003.0, 70.0]],
             els=["He"], lo=4000.0, hi=6000.0, mi=10, md=1.0, N=None, vac=True, cond=[101325.0, 273.15, 0.0])
    d.update(k)
    return d


def fixed():
    yield base()
    yield base(els="He")
    yield base(els=["Xe", "He"], mi=[9.0, 60.0])
    yield base(els=["He", "Xe"], mi=[50, 9])
    yield base(els=["Ar", "He"], N=2)
    yield base(N=0)
    yield base(N=99, mi=None)
    yield base(lo=5000.0, hi=5020.0)
    yield base(rows=[["He", 5000.0, 50.0], ["He", 5000.0, 40.0], ["Xe", 4990.0, 70.0], ["He", 4980.5, 8.0]], els=["He", "Xe"])
    # more lines than any fixed size, unsorted
    yield base(rows=[["He", 5000.0 + 3.0 * ((i * 37) % 101), float(i % 17)] for i in range(101)], mi=5, N=30)
    yield base(vac=False, cond=[90000.0, 290.0, 40.0])
    # a limit between the air and the vacuum wavelength of a line
    for d in (0.5, 1.0, 1.3, 1.4, 1.5):
        yield base(vac=False, hi=5020.0 - d, cond=[101325.0, 273.15, 0.0])
        yield base(vac=False, lo=5000.0 - d, cond=[60000.0, 300.0, 90.0])
    yield dict(kind="nist", els=["Xe"], lo=4000.0, hi=9000.0, mi=20, md=5, N=50, vac=False, cond=[101325.0, 273.15, 0.0])
    yield dict(kind="nist", els=["He", "Hg"], lo=3000.0, hi=9000.0, mi=[3.0, 5.0], md=0, N=None, vac=True, cond=[101325.0, 273.15, 0.0])
    yield dict(kind="nist", els="Ne", lo=3000.0, hi=9000.0, mi=10, md=0.5, N=20, vac=True, cond=[101325.0, 273.15, 0.0])


def generate(rng):
    if rng.random() < 0.03:
        els = rng.sample(["He", "Hg", "Xe", "Ne", "Ar", "Kr", "Cu"], rng.randint(1, 3))
        return dict(kind="nist", els=els, lo=float(rng.choice([3000, 4000, 5000])), hi=float(rng.choice([6000, 9000, 15000])),
                    mi=rng.choice([None, 0, 10, 55.5, [float(rng.randint(0, 60)) for _ in els]]), md=rng.choice([0, 1, 10.0]),
                    N=rng.choice([None, 5, 40]), vac=rng.random() < 0.5, cond=[101325.0, 273.15, 0.0])
    n = rng.choice([1, 2, 3, 5, 9, 20, 45])
    span = rng.choice([10, 60, 400])
    rows = [[rng.choice(["He", "Xe", "Ar", "Hg"]), 5000.0 + 0.5 * rng.randint(0, span), float(rng.choice([0, 5, 9.5, 10, 11, rng.randint(0, 200)]))] for _ in range(n)]
    els = rng.sample(["He", "Xe", "Ar", "Kr"], rng.randint(1, 4))
    mi = rng.choice([None, 0, 10, 10.5, [float(rng.choice([0, 9.5, 10, 60])) for _ in els]])
    if len(els) == 1 and rng.random() < 0.3:
        els = els[0]
    lo = 5000.0 + 0.5 * rng.randint(-4, span // 3)
    hi = 5000.0 + 0.5 * rng.randint(span // 2, span + 4)
    if rng.random() < 0.2:
        lo, hi = hi, lo
    cond = rng.choice([[101325.0, 273.15, 0.0], [60000.0, 300.0, 90.0], [90000.0, 260.0, 10.0]])
    return base(rows=rows, els=els, lo=lo, hi=hi, mi=mi, md=rng.choice([0, -1, 0.5, 1.0, 2.0, 10]), N=rng.choice([None, None, 0, 1, 2, 5, 60]), vac=rng.random() < 0.6, cond=cond)


def nontrivial(c):
    return len(c.get("rows", [0, 0])) > 1


def keep(wl, s):
    n = len(wl)
    return [(i == 0 or wl[i] - wl[i - 1] >= s) and (i == n - 1 or wl[i + 1] - wl[i] >= s) for i in range(n)]


def check(c):
    p, T, rh = c["cond"]
    kw = dict(min_intensity=c["mi"], min_distance=c["md"], vacuum=c["vac"], pressure=p, temperature=T, relative_humidity=rh, brightest_n_lines=c["N"])
    els = c["els"] if isinstance(c["els"], str) else list(c["els"])
    if isinstance(kw["min_intensity"], list):
        kw["min_intensity"] = list(kw["min_intensity"])
    if c.get("kind") == "nist":
        rows = [r.strip().split(",") for r in list(open(NIST))[1:]]
        rows = [[r[0][:12], float(r[1][:12]), float(r[2][:12])] for r in rows if len(r) >= 3]
        el, wl, it = load_calibration_lines(els, c["lo"], c["hi"], **kw)
    else:
        rows = c["rows"]
        d = tempfile.mkdtemp()
        fn = os.path.join(d, "lines.csv")
        try:
            with open(fn, "w") as f:
                for r in rows:
                    f.write("%s,%r,%r\n" % tuple(r))
                f.write("Zz,100.0,0.0\nZz,200.0,0.0\n")
            el, wl, it = load_calibration_lines(els, c["lo"], c["hi"], linelist=fn, **kw)
        finally:
            os.unlink(fn)
            os.rmdir(d)
    lo, hi = c["lo"], c["hi"]
    if not c["vac"]:
        lo, hi = [float(x) for x in air_to_vacuum_wavelength((lo, hi), T, p, rh)]
    req = [els] if isinstance(els, str) else els
    mi = c["mi"]
    need = lambda e: -np.inf if mi is None else (mi[req.index(e)] if isinstance(mi, list) else mi)
    seen, cand = set(), []
    for r in rows:
        if r[0] in req and r[1] not in seen:
            seen.add(r[1])
            if lo <= r[1] <= hi and r[2] >= need(r[0]):
                cand.append(r)
    # near a limit the rounding of the conversion decides
    if not c["vac"] and any(min(abs(r[1] - lo), abs(r[1] - hi)) < 1e-6 for r in rows):
        return
    cand.sort(key=lambda r: r[1])
    N = c["N"]
    if N is not None and len(cand) > N:
        ints = sorted((r[2] for r in cand), reverse=True)
        if N and ints[N - 1] == ints[N]:
            # several correct answers: check what all of them share
            must = [r for r in cand if r[2] > ints[N]]
            if c["md"] > 0:
                return
            got = {(str(e), float(i)) for e, i in zip(el, it)}
            if len(el) != N or not all((r[0], r[2]) in got for r in must):
                return "%d lines, expected the %d brightest of %s: got %s" % (len(el), N, cand, list(zip(el, wl, it)))
            return
        cut = ints[N - 1] if N else None
        cand = [r for r in cand if N and r[2] >= cut]
    k = keep([r[1] for r in cand], c["md"]) if c["md"] > 0 else [True] * len(cand)
    exp = [r for r, q in zip(cand, k) if q]
    w = [r[1] for r in exp]
    if not c["vac"] and w:
        w = [float(x) for x in vacuum_to_air_wavelength(w, T, p, rh)]
    if len(el) != len(wl) or len(el) != len(it):
        return "columns of different lengths"
    if [str(e) for e in el] != [r[0] for r in exp] or not closelist(it, [r[2] for r in exp]) or not closelist(wl, w):
        return "lines %s, expected %s" % (list(zip(el, wl, it))[:12], list(zip([r[0] for r in exp], w, [r[2] for r in exp]))[:12])
