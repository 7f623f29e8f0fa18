"""C09: saving and loading a Hough transform."""
from .hough import *
from .cal import CAL, calibrator_object
from pyvc.npmodel import fkey, ends_with

LIMITS = ("min_slope", "max_slope", "min_intercept", "max_intercept")
ARRAYS = ("hough_points", "hist", "xedges", "yedges")


def content(c, o, st):
    """the eight things a transform consists of, in the order they are written"""
    E = c.E
    v = [E.freeze(st, c.fld(o, a, st)) for a in ARRAYS]
    return v + [c.val(c.fld(o, a, st), st) for a in LIMITS]


def as_npy(v):
    return Tup(v[:4] + [Tup([x]) for x in v[4:]])


def as_json(v):
    return Rec(None, dict(zip(ARRAYS + LIMITS, v)))


def rows(s):
    """arrays, lists of rows and lists of numbers alike"""
    if isinstance(s, Seq) and s.items is None:
        x = s.at(z3.Int("row_probe"))
        if isinstance(x, Seq) and isinstance(x.n, int):
            return Table([Seq(s.n, (lambda j: lambda k: s.at(k).at(j))(j), x.dt) for j in range(x.n)], x.dt)
        if isinstance(x, Seq):
            return Grid(s.n, x.n, lambda i, j: s.at(i).at(j), x.dt)
        if isinstance(x, Tup):
            return Table([Seq(s.n, (lambda j: lambda k: s.at(k).items[j])(j), "f") for j in range(len(x.items))], "f")
    return s


def same_content(c, got, v, how):
    """got (a frozen list of eight, or a frozen mapping) has the content v"""
    names = ARRAYS + LIMITS
    if how == "npy":
        g = as_seq(got)
        yield "eight entries", isinstance(g, Seq) and g.n == 8
        if not (isinstance(g, Seq) and g.n == 8):
            return
        items = [g.at(k) for k in range(8)]
        for k in range(4, 8):
            s = as_seq(items[k])
            ok = isinstance(s, Seq)
            yield "%s in an entry of its own" % names[k], ok and compare("==", s.n, 1)
            if not ok:
                return
            items[k] = s.at(0)
    else:
        ok = isinstance(got, Rec) and set(got.f) == set(names)
        yield "the eight named entries", ok
        if not ok:
            return
        items = [got.f[n] for n in names]
    for n, a, b in zip(names, items, v):
        yield "%s as held" % n, val_eq(c, rows(a), rows(b))


class Save(Contract):
    qual = HT + ".save"
    fmt, delim, disk = "npy", "+", True

    def obj(self, c):
        return binned_object(c)

    def setup(self, c):
        d = {"self": self.obj(c), "filename": c.str("filename"), "fileformat": self.fmt, "delimiter": self.delim, "to_disk": self.disk}
        return d

    def ht(self, c):
        return c.a["self"]

    def ensures(self, c):
        v = content(c, self.ht(c), c.old)
        files = c.st.ghost.get("files", {})
        kinds = [k for k in ("npy", "json") if k in self.fmt.split(self.delim)]
        if not self.disk:
            yield "nothing is written", not files
            r = c.val(c.ret)
            if not kinds:
                yield "no format, nothing returned", r is None
                return
            if len(kinds) == 2:
                yield "both contents", isinstance(r, Tup) and len(r.items) == 2
                if not (isinstance(r, Tup) and len(r.items) == 2):
                    return
            got = r.items if len(kinds) == 2 else [r]
            for k, g in zip(kinds, got):
                for n, f in same_content(c, frozen(c, g), v, k):
                    yield "%s returned: %s" % (k, n), f
            return
        names = {fkey(c.E.str_concat(c.a["filename"], "." + k)): k for k in kinds}
        yield "exactly the files of the formats asked for", set(files) == set(names)
        for key, k in names.items():
            if key not in files:
                continue
            yield "%s file is of that format" % k, files[key][0] == k
            if files[key][0] != k:
                continue
            for n, f in same_content(c, files[key][2], v, k):
                yield "%s file: %s" % (k, n), f


def frozen(c, v):
    v = c.val(v)
    if isinstance(v, Ref) and isinstance(c.st.heap[v.id], HDict):
        d = c.st.heap[v.id]
        c.need(d.items is not None, "dictionary with known keys")
        return Rec(None, {k: c.E.freeze(c.st, x) for k, x in d.items})
    return c.E.freeze(c.st, v)


class Load(Contract):
    qual = HT + ".load"
    how, ext = "npy", False

    def obj(self, c):
        return hough_object(c)

    def ht(self, c):
        return c.a["self"]

    def setup(self, c):
        s = self.obj(c)
        src = binned_object(c)
        c.d["src"] = src
        base = c.str("filename")
        path = c.E.str_concat(base, "." + self.how)
        v = content(c, src, c.st)
        if self.how == "npy":
            x = as_npy(v)
        else:
            x = as_json([jsonlist(a) for a in v])
        c.st.ghost["files"] = {fkey(path): (self.how, path, x)}
        return {"self": s, "filename": path if self.ext else base, "filetype": self.how}

    def requires(self, c):
        if not self.ext:
            yield "the name does not end in the extension", lnot(ends_with(c.a["filename"], "." + self.how))

    def modifies(self, c):
        return [("obj", self.ht(c))]

    def ensures(self, c):
        s, src = self.ht(c), c.d["src"]
        for n in ARRAYS + LIMITS:
            yield "%s as saved" % n, val_eq(c, c.E.freeze(c.st, c.fld(s, n)), c.E.freeze(c.old, c.fld(src, n, c.old)))
        p = c.seq(c.val(c.fld(s, "hough_points")))
        ok = isinstance(p, Table) and len(p.cols) == 2
        yield "the points are in two columns, also if there are none", ok and (not p.fromlist or compare(">", p.n, 0))
        yield "the file stays", len(c.st.ghost.get("files", {})) == 1
        keep = c.a
        c.a = dict(c.a, self=s)
        try:
            yield from ranked(c)
        finally:
            c.a = keep


def jsonlist(a):
    """what a json file gives back for an array"""
    if isinstance(a, Table):
        r = Seq(a.n, lambda k: listed(Seq(len(a.cols), items=[x.at(k) for x in a.cols], dt=a.dt)), "o")
    elif isinstance(a, Grid):
        r = Seq(a.n, lambda i: listed(Seq(a.m, lambda j: a.at(i, j), a.dt)), "o")
    elif isinstance(a, Seq):
        r = Seq(a.n, a.at, a.dt)
    else:
        return a
    return listed(r)


def listed(s):
    s.extra = "list"
    return s


class LoadOther(Contract):
    qual = HT + ".load"
    always_raises = True

    def setup(self, c):
        return {"self": hough_object(c), "filename": c.str("filename"), "filetype": c.str("filetype")}

    def requires(self, c):
        yield "neither of the two types", land(compare("!=", c.a["filetype"], "npy"), compare("!=", c.a["filetype"], "json"))

    def raises(self, c, et):
        return et == "ValueError"


class CalSave(Save):
    qual = CAL + ".save_hough_transform"

    def setup(self, c):
        d = Save.setup(self, c)
        c.d["ht"] = d["self"]
        d["self"] = calibrator_object(c, ht=d["self"])
        return d

    def ht(self, c):
        return c.d["ht"]


class CalLoad(Load):
    qual = CAL + ".load_hough_transform"

    def obj(self, c):
        c.d["ht"] = hough_object(c)
        return calibrator_object(c, ht=c.d["ht"], hough_points=c.table("stale_points", 2), hough_lines=c.table("stale_lines", 2))

    def ht(self, c):
        return c.d["ht"]

    def modifies(self, c):
        return [("obj", c.d["ht"])] + [("fld", c.a["self"], f) for f in ("hough_points", "hough_lines")]

    def ensures(self, c):
        s = c.a["self"]
        for n in ("hough_points", "hough_lines"):
            yield "the calibrator uses the loaded %s" % n, seq_equal_form(c, c.seq(c.val(c.fld(s, n))), c.seq(c.val(c.fld(c.d["ht"], n))))
        yield from Load.ensures(self, c)


CASES = [("npy", "+"), ("json", "+"), ("npy+json", "+"), ("json|npy", "|"), ("txt", "+")]
CONTRACTS = ([Save(case="%s, %s" % (f, "file" if d else "content"), fmt=f, delim=x, disk=d) for f, x in CASES for d in (True, False)]
             + [CalSave(case="%s, %s" % (f, "file" if d else "content"), fmt=f, delim=x, disk=d) for f, x in CASES[:3] for d in (True, False)]
             + [k(case="%s, %s extension" % (h, "with" if e else "without"), how=h, ext=e) for k in (Load, CalLoad) for h in ("npy", "json") for e in (True, False)]
             + [LoadOther(case="other file type")])
for k in CONTRACTS:
    k.inline = True
