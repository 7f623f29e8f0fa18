"""C22: what the caller hands in stays as it was.

Every contract of the other properties is taken up again with the one clause that the arguments
(with all that can be reached from them, the object the method is called on excepted) are the same
at every exit, by return or by exception; nothing else is claimed or used of the functions called."""
import importlib
from .cal import *
from pyvc.values import HSeq, HObj, HView, HDict, Ref

SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21"]


# attributes that may hold the very arrays the caller gave
HELD = ("pix_known", "wave_known", "pixel_list", "coefficients")
# nothing that could be changed is handed in
SCALAR = {"rascal.util.get_vapour_pressure", "rascal.util.get_vapour_partial_pressure", "rascal.houghtransform.HoughTransform.set_constraints",
          "rascal.synthetic.SyntheticSpectrum.set_wavelength_limit"} | {"rascal.atlas.Atlas." + n for n in (
              "get_lines", "get_elements", "get_intensities", "__len__", "clear", "list", "remove_atlas_lines_range")} | {
              "rascal.houghtransform.HoughTransform." + n for n in ("_rank_bins", "bin_hough_points", "save", "load")}


def reach(heap, v, out):
    """heap cells that can be reached from a value"""
    if isinstance(v, Ref):
        if v.id in out:
            return
        o = heap.get(v.id)
        out[v.id] = o
        if isinstance(o, HObj):
            for x in o.f.values():
                reach(heap, x, out)
        elif isinstance(o, HView):
            reach(heap, Ref(o.base.id) if not isinstance(o.base, Ref) else o.base, out)
        elif isinstance(o, HSeq) and isinstance(o.val, Seq) and o.val.items is not None:
            for x in o.val.items:
                reach(heap, x, out)
    elif isinstance(v, Tup):
        for x in v.items:
            reach(heap, x, out)
    elif isinstance(v, Alt):
        for _, x in v.alts:
            reach(heap, x, out)


class Kept(Contract):
    noframe = True

    def __init__(self, inner, **kw):
        self.inner = inner
        super().__init__(qual=inner.qual, case=inner.case, pydiv=inner.pydiv, inlines=inner.inlines, **kw)
        self.havoc_ok, self.always_raises = getattr(inner, "havoc_ok", False), getattr(inner, "always_raises", False)

    def __getattr__(self, name):
        if name in ("inner", "table"):
            raise AttributeError(name)
        return getattr(self.inner, name)

    def setup(self, c):
        return self.inner.setup(c)

    def requires(self, c):
        return self.inner.requires(c)

    def given(self, c):
        out = {}
        for n, v in c.a.items():
            if n != "self":
                reach(c.old.heap, v, out)
        me = c.a.get("self")
        if isinstance(me, Ref) and isinstance(c.old.heap.get(me.id), HObj):
            # held without a copy: still the caller's
            for f in HELD:
                reach(c.old.heap, c.fld(me, f, c.old), out)
        return out

    def unchanged(self, c):
        n = 0
        for r, o in self.given(c).items():
            o1 = c.st.heap.get(r)
            if o1 is o:
                continue
            n += 1
            if isinstance(o, HObj) and isinstance(o1, HObj):
                for f in sorted(set(o.f) | set(o1.f)):
                    a, b = o.f.get(f, UNDEF), o1.f.get(f, UNDEF)
                    if not same(a, b):
                        yield "argument unchanged: %s" % f, val_eq(c, c.E.freeze(c.old, a) if isinstance(a, Ref) else a, c.E.freeze(c.st, b) if isinstance(b, Ref) else b)
            elif isinstance(o, HSeq) and isinstance(o1, HSeq):
                yield "argument unchanged", same(o.val, o1.val) or seq_equal_form(c, o.val, o1.val)
            else:
                yield "argument unchanged", False
        if not n:
            yield "arguments unchanged", True

    def ensures(self, c):
        return self.unchanged(c)

    def raises(self, c, et):
        return list(self.unchanged(c))


class Own(Kept):
    """the calibrator holds copies"""

    def ensures(self, c):
        yield from self.unchanged(c)
        s = c.a["self"]
        ours, theirs = {}, self.given(c)
        for f in ("peaks", "spectrum"):
            reach(c.st.heap, c.fld(s, f), ours)
        yield "peaks and spectrum held are copies", not set(ours) & set(theirs)


class Used(Contract):
    """a function called: what it may change is arbitrary afterwards"""

    def __init__(self, inner, **kw):
        self.inner = inner
        super().__init__(qual=inner.qual, case=inner.case, **kw)

    def __getattr__(self, name):
        if name in ("inner", "table"):
            raise AttributeError(name)
        return getattr(self.inner, name)

    def apply(self, E, st, env):
        c = Ctx(E, st, self, env)
        c.calling = True
        c.old = st.copy()
        for et, cond in self.inner.throws(c):
            E.require(st, lnot(cond), et, "call of " + self.qual)
        return self.inner.result(c)


class Plain(Kept):
    """a function that has no other contract: given by its arguments"""

    def __init__(self, qual, case, args):
        Contract.__init__(self, qual=qual, case=case, inner=Contract(), args=args)

    def setup(self, c):
        return self.args(c)

    def requires(self, c):
        return []


U, M = "rascal.util.", "rascal.models."
CONTRACTS = [Plain(U + "filter_intensity", n, (lambda f: lambda c: dict(elements=c.list("el", "s"), lines=c.table("lines", 3, dt="s"), **f(c)))(f)) for n, f in (
    ("no threshold", lambda c: {}), ("one threshold", lambda c: {"min_intensity": c.real("mi")}), ("list of thresholds", lambda c: {"min_intensity": c.list("mi", "f")}),
    ("array of thresholds", lambda c: {"min_intensity": c.nd("mi", "f")}))]
CONTRACTS += [Plain(U + "gauss", "array", lambda c: dict(x=c.nd("x", "f"), a=c.real("a"), x0=c.real("x0"), sigma=c.real("s"))),
              Plain(M + "poly_cost_function", "arrays", lambda c: dict(a=c.nd("a", "f", 3), x=c.nd("x", "f"), y=c.nd("y", "f"), degree=2))]
for name in SOURCES:
    m = importlib.import_module("contracts." + name)
    t = {k.qual: Used(k) for k in getattr(m, "TABLE", ())}
    for k in m.CONTRACTS:
        if k.qual in SCALAR:
            continue
        w = (Own if k.qual == CAL + ".__init__" else Kept)(k, table=t)
        CONTRACTS.append(w)
TABLE = []
