import json, os, shutil, tempfile, random
import numpy as np
from rascal.houghtransform import HoughTransform
from rascal.calibrator import Calibrator
from rascal.atlas import Atlas
from .common import *

MIN_CASES = 60
FIELDS = ("hough_points", "hist", "xedges", "yedges", "min_slope", "max_slope", "min_intercept", "max_intercept", "hough_lines")


def base(**kw):
    d = dict(p=[[1.0, 2.0], [1.5, 4.0], [3.0, 8.0]], b=[2, 3], lim=[0.5, 4.25, -3.0, 100.0], fmt="npy", delim="+", name="h", via="ht", fit=False)
    d.update(kw)
    return d


def fixed():
    for via in ("ht", "cal"):
        for fmt, delim in (("npy", "+"), ("json", "+"), ("npy+json", "+"), ("json+npy", "+"), ("npy|json", "|"), ("txt", "+")):
            yield base(fmt=fmt, delim=delim, via=via)
        for fmt in ("npy", "json"):
            for name in ("npy", "a.json.x", "json", "a.npy.b", "x_npy", "n", "a.b"):
                yield base(fmt=fmt, name=name, via=via)
    for fmt in ("npy", "json"):
        yield base(p=[], fmt=fmt)
        yield base(p=[[1.0, 5.0]], b=[1, 1], fmt=fmt)
        yield base(lim=[0, 4, -3, 100], fmt=fmt)
        for b in ([2, 2], [3, 3], [3, 2], [2, 8], [8, 1], [1, 8], [8, 8], [2, 5]):
            yield base(p=[[i / 7.0, i * i * 1.1] for i in range(8)], b=b, fmt=fmt)
        yield base(fmt=fmt, via="cal", fit=True)


def generate(rng):
    n = rng.choice([1, 2, 3, 8, 30])
    fmt = rng.choice(["npy", "json", "npy+json", "json+npy"])
    return base(p=[[rng.uniform(0.5, 4), rng.uniform(-3, 100)] for _ in range(n)], b=[rng.choice([1, 2, 3, 8, 11]), rng.choice([1, 2, 5, 8, 9])],
                lim=[rng.uniform(0, 1), rng.uniform(1, 9), rng.choice([-1e-17, -3.0, 0.1]), rng.uniform(10, 1e5)], fmt=fmt, via=rng.choice(["ht", "cal"]),
                name=rng.choice(["h", "a.b", "npy", "x.json.y"]), fit=rng.random() < 0.1)


def make(c):
    h = HoughTransform()
    h.set_constraints(*c["lim"])
    h.hough_points = np.array(c["p"], dtype=float).reshape(-1, 2)
    h.bin_hough_points(*c["b"])
    return h


def snapshot(h):
    return {f: np.array(getattr(h, f), dtype=float) for f in FIELDS}


def differs(a, b, what):
    for f in a:
        x, y = a[f], np.array(b[f], dtype=float)
        if x.shape != y.shape:
            return "%s: %s has shape %s, saved %s" % (what, f, y.shape, x.shape)
        if not np.array_equal(x, y):
            return "%s: %s is %s, saved %s" % (what, f, y.tolist(), x.tolist())


def npy_content(v):
    if len(v) != 8:
        return None
    return {f: (v[i] if i < 4 else np.array(v[i]).reshape(-1)[0]) for i, f in enumerate(FIELDS[:8])}


def calibrator(h=None):
    cal = Calibrator(np.array([1.0, 2.0, 3.0, 5.0, 8.0, 9.0]), spectrum=np.ones(12))
    cal.set_hough_properties(num_slopes=20, xbins=4, ybins=4, min_wavelength=1000.0, max_wavelength=2000.0)
    a = Atlas()
    a.add_user_atlas(["A"] * 6, [1100.0, 1200.0, 1300.0, 1500.0, 1800.0, 1900.0])
    cal.set_atlas(a)
    if h is not None:
        cal.ht = h
    return cal


def check(c):
    d = tempfile.mkdtemp(prefix="c09_")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        return inside(c, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def inside(c, d):
    h = make(c)
    snap = snapshot(h)
    kinds = [k for k in c["fmt"].split(c["delim"]) if k in ("npy", "json")]
    saver = h.save if c["via"] == "ht" else calibrator(h).save_hough_transform
    # content instead of a file
    got = saver(filename=c["name"], fileformat=c["fmt"], delimiter=c["delim"], to_disk=False)
    if os.listdir(d):
        return "files %s written with to_disk=False" % os.listdir(d)
    if kinds:
        parts = {kinds[0]: got} if len(kinds) == 1 else dict(zip(("npy", "json"), got))
        for k, v in parts.items():
            v = npy_content(v) if k == "npy" else v
            if v is None or set(v) != set(FIELDS[:8]):
                return "%s content is incomplete" % k
            if k == "json":
                v = dict(v, hough_points=np.array(v["hough_points"], dtype=float).reshape(np.shape(v["hough_points"]) if len(v["hough_points"]) else (-1, 2)))
            e = differs({f: snap[f] for f in FIELDS[:8]}, v, "%s content" % k)
            if e:
                return e
    elif got is not None:
        return "content %r for no known format" % (got,)
    saver(filename=c["name"], fileformat=c["fmt"], delimiter=c["delim"])
    if sorted(os.listdir(d)) != sorted(c["name"] + "." + k for k in kinds):
        return "files written: %s" % sorted(os.listdir(d))
    e = differs(snap, snapshot(h), "after saving")
    if e:
        return e
    for k in kinds:
        for name in (c["name"], c["name"] + "." + k):
            if name.endswith("." + k) and name == c["name"]:
                continue
            if c["via"] == "ht":
                g = make(dict(c, p=[[0.0, 1.0]] * 3, b=[2, 2], lim=[9.0, 8.0, 7.0, 6.0]))
                g.load(name, k)
            else:
                cal = calibrator()
                cal.do_hough_transform()
                cal.load_hough_transform(name, k)
                g = cal.ht
                for f in ("hough_points", "hough_lines"):
                    e = differs({f: snap[f]}, {f: getattr(cal, f)}, "calibrator")
                    if e:
                        return e
            e = differs(snap, snapshot(g), "%s loaded as %s" % (k, name))
            if e:
                return e
            if not isinstance(g.hough_points, np.ndarray):
                return "points are no array"
            if c["fit"] and c["via"] == "cal":
                e = fit(cal, snap)
                if e:
                    return e
    for name in ("txt", "NPY", "", "npz"):
        g = make(c)
        try:
            g.load(c["name"], name)
        except ValueError:
            e = differs(snap, snapshot(g), "after a refused load")
            if e:
                return e
            continue
        return "file type %r accepted" % name


def fit(cal, snap):
    """the lines used for the candidates of the next fit"""
    used = []
    if not hasattr(cal, "_get_candidate_points_linear"):
        return
    orig = cal._get_candidate_points_linear

    def spy(*a, **kw):
        used.append(np.array(cal.hough_lines, dtype=float))
        return orig(*a, **kw)
    cal._get_candidate_points_linear = spy
    st = np.random.get_state()
    np.random.seed(1)
    try:
        cal.fit(max_tries=2, fit_deg=1, progress=False)
    except Exception:
        pass
    finally:
        np.random.set_state(st)
    for u in used:
        if u.shape != snap["hough_lines"].shape or not np.array_equal(u, snap["hough_lines"]):
            return "the fit did not use the loaded lines"
    for f in ("hough_points", "hough_lines"):
        e = differs({f: snap[f]}, {f: getattr(cal, f)}, "after the fit")
        if e:
            return e
