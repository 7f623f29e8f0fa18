import numpy as np
from rascal.calibrator import Calibrator
from rascal.atlas import Atlas
from .common import *

MIN_CASES = 30


def atlas_of(wl):
    a = Atlas()
    if wl:
        a.add_user_atlas(["U"] * len(wl), list(wl))
    return a


WL = [3000.0, 3500.0, 4000.0, 4500.0, 5000.0, 6000.0, 7000.0, 8000.0, 8999.0, 9000.0, 9500.0, 100.0]


def fixed():
    P = [10.0, 50.0, 90.0]
    for poly in (False, True):
        yield dict(peaks=P, pix=100, ops=[["set", WL, 10.0, poly], ["remove", 4000.0, 600.0], ["clear"], ["user", [4000.0, 5000.0], 5.0, poly]])
        yield dict(peaks=P, pix=100, ops=[["user", [4000.0], 5.0, poly], ["add", ["Hg"], 5.0, poly], ["hough", {"min_wavelength": 3500.0, "range_tolerance": 200.0}]])
        yield dict(peaks=P, pix=100, ops=[["add", ["Hg"], 5.0, poly], ["remove", 5460.0, 50.0], ["set", WL, 10.0, poly]])
        yield dict(peaks=P, pix=100, ops=[["set", WL, 0.0, poly], ["hough", {"max_wavelength": 8000.0}], ["pix", 200], ["hough", {"range_tolerance": 1000.0}]])
        yield dict(peaks=[5.0], pix=100, ops=[["set", [5000.0], 0.0, poly], ["clear"], ["hough", {}]])
        yield dict(peaks=P, pix=100, ops=[["set", WL, 10.0, poly], ["list"], ["setx", [4000.0]], ["setx", []]])


def generate(rng):
    n = rng.randint(1, 6)
    peaks = sorted(rng.sample(range(1, 99), n))
    if rng.random() < 0.5:
        peaks = [float(p) for p in peaks]
    if rng.random() < 0.3:
        rng.shuffle(peaks)
    ops = []
    for k in range(rng.randint(1, 5)):
        what = rng.choice(["set", "user", "remove", "clear", "hough", "pix", "add", "setx"])
        if k == 0 and what not in ("set", "user"):
            what = "set"
        wl = [rng.randint(280, 960) * 10.0 for _ in range(rng.choice([1, 2, 5, 12]))]
        ct, poly = rng.choice([0.0, 10.0, 500.0]), rng.random() < 0.5
        ops.append({"set": ["set", wl, ct, poly], "user": ["user", wl, ct, poly], "add": ["add", [rng.choice(["Hg", "Ne", "Kr"])], ct, poly],
                    "remove": ["remove", rng.choice(wl), rng.choice([0.0, 50.0, 1500.0])], "clear": ["clear"], "setx": ["setx", wl],
                    "hough": ["hough", {n: v for n, v in (("min_wavelength", rng.choice([3000.0, 4000.0])), ("max_wavelength", rng.choice([7000.0, 9000.0])),
                                                          ("range_tolerance", rng.choice([100.0, 500.0])), ("linearity_tolerance", 50.0)) if rng.random() < 0.5}],
                    "pix": ["pix", rng.choice([100, 150, 400])]}[what])
    return dict(peaks=peaks, pix=100, ops=ops)


def check(c):
    cal = Calibrator(np.array(c["peaks"]), None)
    cal.set_calibrator_properties(num_pix=c["pix"])
    for op in c["ops"]:
        k = op[0]
        if k == "set":
            cal.set_atlas(atlas_of(op[1]), candidate_tolerance=op[2], constrain_poly=op[3])
        elif k == "setx":
            cal.set_atlas(atlas_of(op[1]))
        elif k == "user":
            cal.add_user_atlas(["U"] * len(op[1]), list(op[1]), candidate_tolerance=op[2], constrain_poly=op[3])
        elif k == "add":
            cal.add_atlas(op[1], min_atlas_wavelength=4000.0, max_atlas_wavelength=6000.0, candidate_tolerance=op[2], constrain_poly=op[3])
        elif k == "remove":
            cal.remove_atlas_lines_range(op[1], op[2])
        elif k == "clear":
            cal.clear_atlas()
        elif k == "hough":
            cal.set_hough_properties(**op[1])
        elif k == "pix":
            cal.set_calibrator_properties(num_pix=op[1])
        if k in ("set", "user", "add") and (cal.candidate_tolerance != op[2] or bool(cal.constrain_poly) != op[3]):
            return "options of %s not stored" % k
        r = compare(cal, c["peaks"])
        if r:
            return "after %s: %s" % (op, r)


def hull_side(V, x, y):
    """signed distance of the point inside the convex polygon V (counter-clockwise)"""
    m = []
    for (ax, ay), (bx, by) in zip(V, V[1:] + V[:1]):
        m.append(((bx - ax) * (y - ay) - (by - ay) * (x - ax)) / max(1e-12, np.hypot(bx - ax, by - ay)))
    return min(m)


def compare(cal, peaks):
    lines = [l.wavelength for l in cal.atlas.atlas_lines]
    full = [(p, w) for p in peaks for w in lines]
    got = [tuple(map(float, p)) for p in np.asarray(cal.pairs).reshape(-1, 2)]
    if not cal.constrain_poly:
        if got != full:
            return "%d pairs, %d combinations; first %s, %s" % (len(got), len(full), got[:3], full[:3])
        return
    pm = float(np.max(cal.pixel_list))
    t, rt = cal.candidate_tolerance, cal.range_tolerance
    V = [(0.0, cal.min_intercept - t), (pm, cal.max_wavelength - rt - t), (pm, cal.max_wavelength + rt + t), (0.0, cal.max_intercept + t)]
    eps = 1e-6
    i = 0
    for p in full:
        s = hull_side(V, *p)
        here = i < len(got) and got[i] == (float(p[0]), float(p[1]))
        if s > eps and not here:
            return "pair %s inside the polygon is missing" % (p,)
        if here:
            if s < -eps:
                return "pair %s outside the polygon is there" % (p,)
            i += 1
    if i != len(got):
        return "pair %s does not belong there" % (got[i],)
