"""Contracts: pre/postconditions and frame conditions on functions of /repo."""
import z3, time, traceback
from .values import *
from .terms import *
from .engine import Engine, State, Exit, plain, decorator
from .prover import discharge_all, Obligation, smt2, discharge

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SORTS = {"i": I, "f": R, "b": B, "s": Str}


class Ctx:
    """a function's contract at entry/exit (verification) or at a call site"""

    def __init__(self, E, st, contract, args=None):
        self.E, self.st, self.k = E, st, contract
        self.old = None
        self.a = args or {}
        self.ret = None
        self.calling = False
        self.d = {}
        self.where = ""

    # ---------------- symbolic inputs
    def real(self, name):
        return z3.Real("in_" + name)

    def int(self, name, lo=None):
        v = z3.Int("in_" + name)
        if lo is not None:
            self.st.add(v >= lo)
        return v

    def bool(self, name):
        return z3.Bool("in_" + name)

    def str(self, name):
        return z3.Const("in_" + name, Str)

    def fun(self, name, dt, args=1):
        return z3.Function("in_" + name, *([I] * args + [SORTS[dt]]))

    def seqv(self, name, dt="f", n=None):
        if n is None:
            n = self.int("n_" + name, 0)
        f = self.fun(name, dt)
        return Seq(n, lambda k: f(zint(k)), dt)

    def nd(self, name, dt="f", n=None):
        return self.E.new(self.st, HSeq("nd", self.seqv(name, dt, n)))

    def list(self, name, dt="f", n=None):
        return self.E.new(self.st, HSeq("list", self.seqv(name, dt, n)))

    def table(self, name, ncols, n=None, dt="f", fromlist=False):
        if n is None:
            n = self.int("n_" + name, 0)
        cols = [self.seqv("%s%d" % (name, j), dt, n) for j in range(ncols)]
        return self.E.new(self.st, HSeq("nd", Table(cols, dt, fromlist)))

    def obj(self, qual, fields):
        cls = self.E.lookup_fun_cls(qual)
        return self.E.new(self.st, HObj(cls, dict(fields)))

    def assume(self, f):
        self.st.add(f)

    # ---------------- reading states
    def val(self, v, st=None):
        return self.E.val(st or self.st, v)

    def seq(self, v, st=None):
        return self.E.seq(st or self.st, v)

    def fld(self, ref, name, st=None):
        st = st or self.st
        v = st.heap[ref.id].f.get(name, UNDEF)
        return v

    def gho(self, name):
        """ghost value, None when it was not set on this path"""
        v = self.st.ghost.get(name, UNDEF)
        if isinstance(v, Alt):
            v = self.E.val(self.st, v)
        return None if v is UNDEF else v

    def oldseq(self, v):
        return self.E.seq(self.old, v)

    # ---------------- formulas
    def forall(self, n, fn, lo=0, name="k", pats=None):
        """forall k in [lo, n): fn(k)"""
        if isinstance(n, int) and isinstance(lo, int) and n <= lo:
            return True
        k = z3.Int(fresh_name(name))
        rg = [k >= zint(lo), k < zint(n)]
        self.E.binders.append((k, rg))
        try:
            b = fn(k)
            ps = pats(k) if pats else None
        finally:
            self.E.binders.pop()
        if isinstance(b, bool):
            return b if b else compare("<=", n, lo)
        return z3.ForAll([k], z3.Implies(z3.And(*rg), b), **({"patterns": ps} if ps else {}))

    def forall_t(self, sorts, fn):
        """forall over terms of the given sorts (no range)"""
        vs = [z3.Const(fresh_name("x"), s) for s in sorts]
        for v in vs:
            self.E.binders.append((v, []))
        try:
            b = fn(*vs)
        finally:
            del self.E.binders[len(self.E.binders) - len(vs):]
        if isinstance(b, bool):
            return b
        return z3.ForAll(vs, b)

    def exists(self, n, fn, name="w"):
        if isinstance(n, int) and n <= 0:
            return False
        k = z3.Int(fresh_name(name))
        rg = [k >= 0, k < zint(n)]
        self.E.binders.append((k, rg))
        try:
            b = fn(k)
        finally:
            self.E.binders.pop()
        if isinstance(b, bool) and not b:
            return False
        return z3.Exists([k], z3.And(*(rg + ([b] if not isinstance(b, bool) else []))))

    def need(self, cond, what):
        """a witness the clauses are phrased with; without it they cannot be stated"""
        if not cond:
            raise Unsupported("no witness: " + what)

    def mapped(self, n, fn, dt="f"):
        """the sequence fn(0), ..., fn(n - 1); symbols fn introduces depend on the position"""
        k = z3.Int(fresh_name("k"))
        self.E.binders.append((k, [k >= 0, k < zint(n)]))
        try:
            v = fn(k)
        finally:
            self.E.binders.pop()
        return Seq(n, lambda q: subst_value(v, [(k, zint(q))]), dt)

    def lam(self, ns, fn):
        """fn as a function of positions below ns (each a length, or a function of the positions
        before it giving one): evaluated once, then instantiated, so that the symbols it introduces
        are functions of the positions"""
        vs = []
        for n in ns:
            k = z3.Int(fresh_name("k"))
            n = n(*vs) if callable(n) else n
            self.E.binders.append((k, [k >= 0, k < zint(n)]))
            vs.append(k)
        try:
            v = fn(*vs)
        finally:
            del self.E.binders[len(self.E.binders) - len(vs):]
        return lambda *q: subst_value(v, [(k, zint(x)) for k, x in zip(vs, q)])

    def exists_hint(self, n, fn, hints):
        """exists k in [0, n): fn(k), with terms to try first (equivalent to exists)"""
        out = []
        for w in hints:
            f = fn(w)
            out.append(land(compare(">=", w, 0), compare("<", w, n), zbool(f) if not isinstance(f, bool) else f))
        return lor(*out, self.exists(n, fn))

    def positions(self, at, value):
        """terms k for which at(k) is syntactically the value"""
        from .npmodel import match_term
        v = z3.Int(fresh_name("pos"))
        a = to_z(at(v))
        b = to_z(value)
        if not occurs(v, a):
            return []
        f = []
        return [f[0]] if match_term(a, b, v, f) and f else []

    def seq_eq(self, a, b):
        """same length and same elements"""
        return seq_equal_form(self, a, b)


def val_eq(c, a, b):
    """formula: two values (in frozen form) are equal"""
    if same(a, b):
        return True
    if isinstance(a, Alt) or isinstance(b, Alt):
        aa = a.alts if isinstance(a, Alt) else [(True, a)]
        bb = b.alts if isinstance(b, Alt) else [(True, b)]
        out = []
        for g, x in aa:
            for h, y in bb:
                gh = land(g, h)
                if gh is False:
                    continue
                out.append(implies(gh, val_eq(c, x, y)))
        return land(*out)
    if a is None or b is None or a is UNDEF or b is UNDEF:
        return a is b
    if is_scalar(a) and is_scalar(b):
        try:
            return compare("==", a, b)
        except Unsupported:
            if is_z(a) and is_z(b) and a.sort() == b.sort():
                return a == b
            return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        return land(*[val_eq(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.f.keys() != b.f.keys():
            return False
        return land(*[val_eq(c, a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, (Seq, Table, Grid, Tup)) and isinstance(b, (Seq, Table, Grid, Tup)):
        return seq_equal_form(c, a, b)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return a is b
    return False


def as_seq(v):
    if isinstance(v, Tup):
        return Seq(len(v.items), items=v.items)
    return v


def seq_equal_form(c, a, b):
    a, b = as_seq(a), as_seq(b)
    if a is b:
        return True
    if isinstance(a, Table) and isinstance(b, Table):
        if len(a.cols) != len(b.cols):
            return False
        return land(*[seq_equal_form(c, x, y) for x, y in zip(a.cols, b.cols)])
    if isinstance(a, Grid) and isinstance(b, Grid):
        return land(compare("==", a.n, b.n), compare("==", a.m, b.m),
                    c.forall(a.n, lambda i: c.forall(a.m, lambda j: val_eq(c, a.at(i, j), b.at(i, j)))))
    if isinstance(a, Seq) and isinstance(b, Seq):
        n = compare("==", a.n, b.n)
        if n is False:
            return False
        if a.items is not None and b.items is not None:
            return land(*[val_eq(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a.n, int) or isinstance(b.n, int):
            m = a.n if isinstance(a.n, int) else b.n
            if m <= 12:
                return land(n, *[val_eq(c, a.at(k), b.at(k)) for k in range(m)])
        return land(n, c.forall(a.n, lambda k: val_eq(c, a.at(k), b.at(k))))
    return False


class Contract:
    qual = None
    case = ""
    inline = False       # at call sites: execute the body instead
    inlines = ()         # functions whose contract is not used while verifying this one
    pydiv = False
    timeout = None
    prop = None
    trusted = False

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    # ---- to override
    def setup(self, c):
        """symbolic arguments: dict name -> value"""
        raise NotImplementedError

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def raises(self, c, etype):
        """formula (or list of named formulas) that has to hold when the function
        raises etype; False: it must not"""
        return False

    def modifies(self, c):
        """locations that may change: ('heap', ref) or ('fld', ref, name) or ('obj', ref)"""
        return []

    def hooks(self, c):
        pass

    def ghost(self, c):
        """ghost values shared by the clauses, computed in the exit state"""

    # ---- call site
    def throws(self, c):
        return []

    def result(self, c):
        raise NotImplementedError

    def apply(self, E, st, env):
        c = Ctx(E, st, self, env)
        c.calling = True
        c.old = st.copy()
        for name, f in self.requires(c):
            E.oblige("call %s: %s" % (self.qual, name), st, f, kind="pre", where=(st.fn.qual if st.fn else ""))
            st.add(f)
        for et, cond in self.throws(c):
            E.require(st, lnot(cond), et, "call of " + self.qual)
        c.ret = self.result(c)
        for name, f in self.ensures(c):
            st.add(f)
        return c.ret

    @property
    def label(self):
        return self.qual + ("[%s]" % self.case if self.case else "")


class Report:
    def __init__(self, label):
        self.label = label
        self.obs = []
        self.error = None
        self.unsupported = None
        self.missing = False
        self.functions = set()
        self.assumed = set()
        self.called = set()
        self.notes = []
        self.gen_time = 0.0
        self.solve_time = 0.0
        self.vac = []
        self.lost = []


def generate(srcdir, k, table):
    """run the executor on the contract's function; returns (engine, report)"""
    rep = Report(k.label)
    t0 = time.time()
    E = Engine(srcdir, dict(getattr(k, "table", None) or table))
    E.current = k
    try:
        f = E.lookup_fun(k.qual)
        if f is None:
            rep.missing = True
            return E, rep
        st = State()
        st.fn = f
        c = Ctx(E, st, k)
        kw = k.setup(c)
        c.a = kw
        for name, form in k.requires(c):
            st.add(form)
        k.hooks(c)
        if not plain(f.node, f.cls is not None):
            raise Unsupported("decorated function " + f.qual)
        if f.cls is not None and decorator(f.node) == "staticmethod":
            kw = {p: v for p, v in kw.items() if p != "self"}
        st.env = E.bind(f, [], kw, st)
        # the function under verification is executed, not called
        c.old = st.copy()
        E.obs_entry = len(E.obs)
        E.used.add(f.qual)
        entry = st.copy()
        n, ex = E.exec_block(f.node.body, st)
        exits = ([Exit("return", n, None, "end")] if n is not None else []) + ex
        nret = 0
        for x in exits:
            c.st = x.st
            c.where = x.where
            tag = "%s (%s)" % (k.label, str(x.where).split(":")[0])
            if x.kind == "return":
                nret += 1
                c.ret = x.val
                for cond, rv, rst in ret_alts(E, x):
                    c.ret, c.st = rv, rst
                    clauses(E, c, k, tag, x)
            elif x.kind == "raise":
                r = k.raises(c, x.val)
                if not isinstance(r, list):
                    r = [("no %s" % x.val, r)]
                for name, form in r:
                    if form is True:
                        continue
                    E.oblige("%s: %s [%s]" % (tag, name, x.where), x.st, form, "raise", str(x.where), timeout=k.timeout)
                frame(E, c, k, tag + " raising")
            else:
                raise Unsupported("loop exit outside a loop")
        # vacuity: the precondition and the normal exits are consistent
        rep.vac = [("entry", entry)] + [("exit %s" % x.where, x.st) for x in exits if x.kind == "return"][:3]
        if nret == 0 and not getattr(k, "always_raises", False):
            E.oblige("%s: returns" % k.label, entry, False, "post", "function never returns")
        from .npmodel import finish_facts
        finish_facts(E)
    except Unsupported as e:
        rep.unsupported = str(e)
    except PyRaise as e:
        rep.unsupported = "exception %s at %s while setting up the clauses" % (e.etype, e.where)
    except NeedSplit as e:
        rep.unsupported = "condition-dependent value in a clause: %s" % (str(e.cond)[:80])
    rep.obs = E.obs
    rep.functions = {f for f in E.used if f.startswith("rascal.")}
    rep.assumed = set(E.assumed)
    rep.called = set(E.called_contracts)
    rep.notes = list(E.notes)
    rep.lost = sorted(set(E.lost))
    rep.gen_time = time.time() - t0
    return E, rep


def clauses(E, c, k, tag, x, depth=0):
    """the postconditions in one exit state, by cases where a value depends on a condition"""
    if c.st.dead():
        return
    st, rv = c.st, c.ret
    n0 = len(E.obs)
    try:
        k.ghost(c)
        for name, form in k.ensures(c):
            E.oblige("%s: %s" % (tag, name), c.st, form, "post", str(x.where), timeout=k.timeout)
        frame(E, c, k, tag)
    except NoSequence as e:
        # nothing where the postcondition speaks of a list or array
        E.oblige("%s: %s" % (tag, e), c.st, False, "post", str(x.where), timeout=k.timeout)
    except NeedSplit as e:
        if depth > 8:
            raise
        del E.obs[n0:]
        for g in (e.cond, lnot(e.cond)):
            t = st.truth(g)
            if t is False:
                continue
            s = st.copy()
            s.add(g, True)
            c.st, c.ret = s, rv
            clauses(E, c, k, tag, x, depth + 1)


def ret_alts(E, x):
    """split a condition-dependent return value"""
    v = x.val
    if not isinstance(v, Alt):
        return [(True, v, x.st)]
    out = []
    for g, y in v.alts:
        t = x.st.truth(g)
        if t is False:
            continue
        s = x.st.copy()
        s.add(g, True)
        out.append((g, y, s))
    return out


def frame(E, c, k, tag):
    """everything reachable at entry that is not in modifies is unchanged"""
    if getattr(k, "noframe", False):
        return
    allowed_heap, allowed_fld, allowed_obj = set(), set(), set()
    for m in k.modifies(c):
        if m[0] == "heap":
            allowed_heap.add(m[1].id)
        elif m[0] == "fld":
            allowed_fld.add((m[1].id, m[2]))
        else:
            allowed_obj.add(m[1].id)
    forms = []
    for r, o in c.old.heap.items():
        o1 = c.st.heap.get(r)
        if o1 is o or r in allowed_heap or r in allowed_obj:
            continue
        if isinstance(o, HObj) and isinstance(o1, HObj):
            for f in set(o.f) | set(o1.f):
                if (r, f) in allowed_fld:
                    continue
                a, b = o.f.get(f, UNDEF), o1.f.get(f, UNDEF)
                if same(a, b):
                    continue
                forms.append(("%s unchanged" % f, val_eq(c, E.freeze(c.old, a) if isinstance(a, Ref) else a,
                                                         E.freeze(c.st, b) if isinstance(b, Ref) else b)))
        elif isinstance(o, HSeq) and isinstance(o1, HSeq):
            if same(o.val, o1.val):
                continue
            forms.append(("argument content unchanged", seq_equal_form(c, o.val, o1.val)))
        else:
            forms.append(("cell unchanged", False))
    if not forms:
        ob = E.oblige("%s: frame" % tag, c.st, True, "frame")
    for name, f in forms:
        E.oblige("%s: frame: %s" % (tag, name), c.st, f, "frame", timeout=k.timeout)


def verify(srcdir, k, table, timeout=10, jobs=4):
    """generate and discharge; returns a plain dict (picklable)"""
    try:
        E, rep = generate(srcdir, k, table)
    except RecursionError:
        rep = Report(k.label)
        rep.unsupported = "recursion limit"
        E = None
    t0 = time.time()
    res = {"label": rep.label, "qual": k.qual, "unsupported": rep.unsupported, "missing": rep.missing,
           "functions": sorted(rep.functions), "assumed": sorted(rep.assumed), "called": sorted(rep.called),
           "notes": rep.notes, "obligations": [], "vacuous": [], "gen_time": rep.gen_time}
    if rep.unsupported is None and not rep.missing:
        discharge_all(rep.obs, timeout, jobs)
        vobs = []
        for nm, st in rep.vac:
            ob = Obligation("vacuity " + nm, st.forms(), z3.BoolVal(False), E.facts)
            ob.text = smt2(ob)
            vobs.append(ob)
        from .prover import vacuity
        for ob in vobs:
            if vacuity(ob):
                res["vacuous"].append(ob.name)
        for o in rep.obs:
            res["obligations"].append({"name": o.name, "kind": o.kind, "status": o.status, "backend": o.backend,
                                       "time": round(o.time, 2), "detail": o.detail, "where": o.where})
            if o.status != "proved":
                res["obligations"][-1]["smt"] = o.text[0]
        if rep.lost and not getattr(k, "havoc_ok", False) and any(o.status != "proved" for o in rep.obs):
            # what such a loop leaves is not known well enough to decide the rest
            res["unsupported"] = "; ".join(rep.lost)
            res["obligations"] = []
    res["solve_time"] = time.time() - t0
    return res


# ---------------------------------------------------------------- clause builders
def filtered(c, base, res, keep, eq, name="result"):
    """res is exactly the elements k of base with keep(k), in order; eq(x, y):
    element x of base equals element y of res.  The ghost witness is the index map
    the code itself computed (positions of res -> positions of base)."""
    d = res.dom
    if d is None:
        if isinstance(res.n, int) and res.n == 0:
            yield name + ": nothing that should be kept is missing", c.forall(base.n, lambda r: lnot(keep(r)))
            return
        # no selection took place: the whole of base, in order
        yield name + ": same length", compare("==", res.n, base.n)
        yield name + ": same elements", c.forall(res.n, lambda k: land(keep(k), eq(base.at(k), res.at(k))))
        return
    bd = base.dom
    src = (lambda k: bd.inv(d.src(k))) if bd is not None else d.src
    inv = (lambda r: d.inv(bd.src(r))) if bd is not None else d.inv
    yield name + ": every element is one that should be kept", c.forall(res.n, lambda k: zbool(land(
        compare(">=", src(k), 0), compare("<", src(k), base.n), keep(src(k)), eq(base.at(src(k)), res.at(k)))))
    yield name + ": every element that should be kept is there", c.forall(base.n, lambda r: zbool(implies(
        keep(r), land(compare(">=", inv(r), 0), compare("<", inv(r), res.n), compare("==", src(inv(r)), r)))))
    yield name + ": order kept, nothing twice", c.forall(res.n, lambda k: zbool(implies(
        compare(">", k, 0), compare("<", src(arith("-", k, 1)), src(k)))))


def atlas_object(c, name="atlas", n=None):
    """an atlas with arbitrary lines"""
    E = c.E
    line = E.lookup_fun_cls("rascal.atlas.AtlasLine")
    W, El, In, So = (c.fun(name + "_" + x, s) for x, s in (("wl", "f"), ("el", "s"), ("int", "f"), ("src", "s")))
    if n is None:
        n = c.int("n_" + name, 0)
    seq = Seq(n, lambda k: Rec(line, {"wavelength": W(zint(k)), "element": El(zint(k)), "intensity": In(zint(k)), "source": So(zint(k))}), "o")
    lst = E.new(c.st, HSeq("list", seq))
    o = c.obj("rascal.atlas.Atlas", {
        "atlas_lines": lst, "min_atlas_wavelength": c.real(name + "_min"), "max_atlas_wavelength": c.real(name + "_max"),
        "min_intensity": c.real(name + "_minint"), "min_distance": c.real(name + "_mindist"), "range_tolerance": c.real(name + "_tol")})
    return o


def lines_of(c, atlas, st=None):
    st = st or c.st
    return c.E.seq(st, c.val(c.fld(atlas, "atlas_lines", st), st))


def fieldf(c, rec, f):
    """field of a list element (a record or, while it was just made, an object)"""
    if isinstance(rec, Rec):
        return rec.f[f]
    return c.E.getattr(rec, f, c.st)


def line_eq(c, fields=("wavelength", "element", "intensity", "source")):
    return lambda x, y: land(*[val_eq(c, fieldf(c, x, f), fieldf(c, y, f)) for f in fields])
