"""Symbolic executor / verification condition generator for the Python of /repo.

The functions are read from /repo's current source on every run (ast), executed
symbolically for all inputs, and every contract clause becomes an obligation.
Loops over sequences are summarised for every length (see loops.py); the rest of
the subset is described in DESIGN.md.
"""
import ast, os
from fractions import Fraction
import z3
from .values import *
from .terms import *
from .prover import Fact, Obligation


_quant = {}


def has_quant(e):
    k = e.get_id()
    r = _quant.get(k)
    if r is None:
        seen, stack, res = set(), [e], False
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                res = True
                break
            stack.extend(x.children())
        _quant[k] = r = (e, res)
    return r[1]


def linear(t):
    """an integer term as ({id: (term, coefficient)}, constant)"""
    if z3.is_int_value(t):
        return {}, t.as_long()
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            co, c0 = {}, 0
            for n, u in enumerate(t.children()):
                s = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and n) else 1
                d, c = linear(u)
                c0 += s * c
                for i, (v, f) in d.items():
                    co[i] = (v, co.get(i, (v, 0))[1] + s * f)
            return {i: p for i, p in co.items() if p[1]}, c0
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            d, c = linear(t.arg(1))
            f = t.arg(0).as_long()
            return {i: (v, f * g) for i, (v, g) in d.items() if f}, f * c
    return {t.get_id(): (t, 1)}, 0


def int_bound(c):
    """comparison of integers as (key, terms, lower, upper): lower <= sum <= upper"""
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_int(c.arg(0)):
        return None
    (p, a), (q, b) = linear(c.arg(0)), linear(c.arg(1))
    co = dict(p)
    for i, (v, f) in q.items():
        co[i] = (v, co.get(i, (v, 0))[1] - f)
    co = {i: x for i, x in co.items() if x[1]}
    d = b - a
    lo, hi = {z3.Z3_OP_LE: (None, d), z3.Z3_OP_LT: (None, d - 1), z3.Z3_OP_GE: (d, None),
              z3.Z3_OP_GT: (d + 1, None), z3.Z3_OP_EQ: (d, d)}[k]
    if co and co[min(co)][1] < 0:
        co = {i: (v, -f) for i, (v, f) in co.items()}
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    key = ("b",) + tuple(sorted((i, f) for i, (v, f) in co.items()))
    return key, tuple(v for v, f in co.values()), lo, hi


class State:
    __slots__ = ("env", "heap", "pc", "known", "ghost", "fn")

    def __init__(self):
        self.env, self.heap, self.pc, self.known, self.ghost = {}, {}, (), {}, {}
        self.fn = None

    def copy(self):
        s = State()
        s.env, s.heap, s.pc, s.known, s.ghost = (
            dict(self.env), dict(self.heap), self.pc, dict(self.known), dict(self.ghost))
        s.fn = self.fn
        return s

    def _learn(self, c, val):
        if isinstance(c, bool):
            return
        self.known[c.get_id()] = (c, val)
        b = int_bound(c)
        if b is not None:
            key, terms, lo, hi = b
            if not val:
                lo, hi = (hi + 1, None) if lo is None else (None, lo - 1) if hi is None else (None, None)
            l0, h0 = self.known[key][1] if key in self.known else (None, None)
            self.known[key] = (terms, (l0 if lo is None else lo if l0 is None else max(lo, l0),
                                       h0 if hi is None else hi if h0 is None else min(hi, h0)))
        if z3.is_not(c):
            self._learn(c.arg(0), not val)
        elif z3.is_and(c) and val:
            for x in c.children():
                self._learn(x, True)
        elif z3.is_or(c) and not val:
            for x in c.children():
                self._learn(x, False)

    def add(self, c, branch=False):
        """assume c (in place)"""
        if isinstance(c, bool):
            if not c:
                self.pc = self.pc + ((z3.BoolVal(False), branch),)
            return self
        if z3.is_true(c):
            return self
        self.pc = self.pc + ((c, branch),)
        self._learn(c, True)
        return self

    def truth(self, g):
        if isinstance(g, bool):
            return g
        k = self.known.get(g.get_id())
        if k is not None:
            return k[1]
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        if z3.is_not(g):
            t = self.truth(g.arg(0))
            return None if t is None else not t
        if z3.is_and(g):
            r = True
            for x in g.children():
                t = self.truth(x)
                if t is False:
                    return False
                if t is None:
                    r = None
            return r
        if z3.is_or(g):
            r = False
            for x in g.children():
                t = self.truth(x)
                if t is True:
                    return True
                if t is None:
                    r = None
            return r
        b = int_bound(g)
        if b is not None:
            key, terms, lo, hi = b
            l, h = (0, 0) if len(key) == 1 else self.known[key][1] if key in self.known else (None, None)
            if (lo is None or l is not None and l >= lo) and (hi is None or h is not None and h <= hi):
                return True
            if lo is not None and h is not None and h < lo or hi is not None and l is not None and l > hi:
                return False
        return None

    def forms(self):
        return [c for c, _ in self.pc]

    def dead(self):
        return any(z3.is_false(c) for c, _ in self.pc)


class Exit:
    __slots__ = ("kind", "st", "val", "where")

    def __init__(self, kind, st, val=None, where=None):
        self.kind, self.st, self.val, self.where = kind, st, val, where


EXC_PARENTS = {
    "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
    "AssertionError": "Exception", "AttributeError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "NotImplementedError": "RuntimeError",
    "LinAlgError": "Exception", "OptimizeWarning": "Exception", "StopIteration": "Exception",
    "FileNotFoundError": "OSError", "OSError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "Exception": "BaseException",
}


def exc_matches(e, h):
    while e is not None:
        if e == h:
            return True
        e = EXC_PARENTS.get(e, "Exception" if e not in ("BaseException", "Exception") else
                            ("BaseException" if e == "Exception" else None))
    return False


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.g = {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.g[n.name] = Fun(n, self, "%s.%s" % (name, n.name))
            elif isinstance(n, ast.ClassDef):
                self.g[n.name] = Cls("%s.%s" % (name, n.name), n, self)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.g[a.asname or a.name.split(".")[0]] = Mod(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if n.level:
                        self.g[a.asname or a.name] = ("rel", n.module, a.name)
                    else:
                        self.g[a.asname or a.name] = Mod("%s.%s" % (n.module, a.name))
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Name) and n.value is not None:
                        self.g[t.id] = ("const", n.value)


class RMod:
    def __init__(self, name):
        self.name = name


BUILTIN_NAMES = {
    "len", "range", "enumerate", "zip", "abs", "min", "max", "sum", "int", "float", "str", "bool",
    "list", "tuple", "dict", "set", "isinstance", "print", "all", "any", "sorted", "open", "round",
    "reversed", "map", "filter", "type", "hasattr", "getattr", "repr", "frozenset", "id", "iter", "next", "callable",
    "object", "setattr", "pow", "slice", "divmod", "NotImplemented",
}


class Engine:
    def __init__(self, srcdir, contracts=None):
        self.srcdir = srcdir
        self.mods = {}
        self.facts = []
        self.binders = []  # (const, range condition)
        self.contracts = contracts or {}
        self.pend = []
        self.depth = 0
        self.obs = []
        self.cache = {}
        self.canon = {}
        self.terms = {}
        self.rec = []
        self.replay = []
        self.keep = []
        self.used = set()        # functions executed (inlined)
        self.assumed = set()     # assumed models used
        self.called_contracts = set()
        self.on_call = {}
        self.inserts = []
        self.notes = []
        self.current = None
        self.sums = {}
        self.toks = {}
        self.loopmode = {}
        self.cont_stack = []
        self.callgoals = []
        self.flats = []
        self.perms = []
        self.nonneg = set()      # function symbols whose values are never negative
        self.hooks = {}
        self.loop_invariant = None
        self.globs, self.gmods = {}, {}
        self.lost = []           # loops executed with arbitrary values for all they change
        self.tqdm_passthrough = True
        self.splits = 0
        self.ground = []
        self.qcache = {}
        self.qtime = 0.0
        from . import npmodel
        self.models = npmodel.MODELS
        self.methods = npmodel.METHODS

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            p = os.path.join(self.srcdir, *name.split(".")) + ".py"
            if not os.path.exists(p):
                raise Unsupported("module %s not found" % name)
            m = self.mods[name] = Module(name, p)
        return m

    def mglobal(self, mod, name, st=None):
        v = mod.g.get(name)
        if v is None:
            return None
        if isinstance(v, tuple) and v[0] == "rel":
            _, m, n = v
            pkg = mod.name.rsplit(".", 1)[0]
            if m is None:
                return RMod("%s.%s" % (pkg, n))
            return self.mglobal(self.module("%s.%s" % (pkg, m)), n, st)
        if isinstance(v, tuple) and v[0] == "const":
            key = ("const", mod.name, name)
            if key not in self.cache:
                s = State()
                s.fn = Fun(None, mod, mod.name)
                try:
                    val = self.eval(v[1], s)
                    if s.heap:
                        # module level list: snapshot
                        val = self.freeze(s, val)
                except (Unsupported, NeedSplit, PyRaise):
                    val = Opq(name)
                self.cache[key] = val
            return self.cache[key]
        return v

    def lookup_fun(self, qual):
        """qual: rascal.util.f or rascal.atlas.Atlas.add"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if os.path.exists(os.path.join(self.srcdir, *parts[:i]) + ".py"):
                m = self.module(mn)
                v = self.mglobal(m, parts[i])
                for p in parts[i + 1:]:
                    if isinstance(v, Cls):
                        node = v.methods.get(p)
                        if node is None:
                            return None
                        v = Fun(node, v.mod, "%s.%s" % (v.qual, p), cls=v)
                    else:
                        return None
                return v
        return None

    def lookup_fun_cls(self, qual):
        parts = qual.split(".")
        m = self.module(".".join(parts[:-1]))
        v = self.mglobal(m, parts[-1])
        if not isinstance(v, Cls):
            raise Unsupported("class %s not found" % qual)
        return v

    # ------------------------------------------------------------ symbols
    def live_binders(self, deps):
        out = []
        for b, r in self.binders:
            if deps is None or any(occurs(b, d) for d in deps):
                out.append(b)
        # ranges may mention outer binders
        return out

    def fresh_fun(self, name, args, ret, deps=None):
        """fresh function symbol, lifted over the active loop binders"""
        bs = self.live_binders(deps)
        sig = tuple(str(x) for x in [b.sort() for b in bs] + list(args) + [ret])
        if self.replay and self.replay[-1]:
            # the symbols of the same object over other loop variables
            if self.rec[-1] and self.rec[-1][0][0] == name and self.rec[-1][0][1] == sig:
                _, _, nm, c = self.rec[-1].pop(0)
                if not bs and not args:
                    return (lambda: c), nm
                return (lambda *a: c(*(bs + list(a)))), nm
            self.replay[-1] = False
        nm = fresh_name(name)
        if not bs and not args:
            c = z3.Const(nm, ret)
            if self.rec:
                self.rec[-1].append((name, sig, nm, c))
            return (lambda: c), nm
        f = z3.Function(nm, *([b.sort() for b in bs] + list(args) + [ret]))
        if self.rec:
            self.rec[-1].append((name, sig, nm, f))
        return (lambda *a: f(*(bs + list(a)))), nm

    def fresh(self, name, sort, deps=None):
        f, nm = self.fresh_fun(name, [], sort, deps)
        return f()

    def fact(self, form, keys, why="", vars=(), pats=None, guard=True, carrier=None):
        """record a valid formula; universally closed over vars and active binders"""
        if isinstance(form, bool) and form:
            return
        if isinstance(keys, str):
            keys = [keys]
        body = form if not isinstance(form, bool) else z3.BoolVal(form)
        if guard is not True:
            body = z3.Implies(guard, body) if not isinstance(guard, bool) else body
        vs = list(vars)
        rng = []
        for b, r in self.binders:
            if occurs(b, body) or any(occurs(b, p) for p in (pats or []) if is_z(p)):
                vs.append(b)
        # ranges of used binders (may use outer binders)
        nv = len(list(vars))
        used = set(id(v) for v in vs)
        for b, r in reversed(self.binders):
            if id(b) in used or any(occurs(b, q) for q in rng):
                if id(b) not in used:
                    vs.append(b)
                    used.add(id(b))
                rng.extend([q for q in r if not isinstance(q, bool)])
        for b, r in self.binders:
            if id(b) not in used and any(occurs(b, q) for q in rng):
                vs.append(b)
                used.add(id(b))
        if rng:
            body = z3.Implies(z3.And(*rng) if len(rng) > 1 else rng[0], body)
        if nv == 0 and not has_quant(body):
            self.ground.append((frozenset(keys), body))
        if vs:
            ps = []
            for p in pats or []:
                if isinstance(p, (list, tuple)):
                    ps.append(z3.MultiPattern(*p))
                else:
                    ps.append(p)
            # every pattern has to mention all variables
            good = []
            for p, raw in zip(ps, pats or []):
                raws = list(raw) if isinstance(raw, (list, tuple)) else [raw]
                miss = [v for v in vs if not any(occurs(v, q) for q in raws)]
                if not miss:
                    good.append(p)
                elif carrier is not None and is_z(carrier) and all(occurs(v, carrier) for v in miss):
                    # a term over the enclosing variables completes the pattern
                    good.append(z3.MultiPattern(*(raws + [carrier])))
            body = z3.ForAll(vs, body, patterns=good) if good else z3.ForAll(vs, body)
        self.facts.append(Fact(body, keys, why))

    def quick(self, st, cond, vars=None):
        """cond holds, decided with the ground part of the path condition only"""
        if isinstance(cond, bool):
            return cond
        if st is not None and st.truth(cond) is True:
            return True
        pcs = [c for c, _ in st.pc if not has_quant(c)] if st is not None else []
        key = (cond.get_id(), tuple(c.get_id() for c in pcs), len(self.ground))
        r = self.qcache.get(key)
        if r is not None:
            return r[0]
        import time
        t0 = time.time()
        seeds = [cond] + pcs
        syms = set()
        for f in seeds:
            syms |= consts_of(f)
        inc, todo, changed = [], list(self.ground), True
        while changed:
            changed = False
            rest = []
            for ks, f in todo:
                if ks & syms:
                    inc.append(f)
                    syms |= consts_of(f)
                    changed = True
                else:
                    rest.append((ks, f))
            todo = rest
        s = z3.Solver()
        s.set("timeout", 300)
        for f in inc:
            s.add(f)
        for f in pcs:
            s.add(f)
        s.add(z3.Not(cond))
        res = s.check() == z3.unsat
        self.qtime += time.time() - t0
        self.keep.append((cond, pcs))
        self.qcache[key] = (res, cond)
        return res

    def prove(self, st, goal, ms=1000):
        """the goal follows from the path condition and the facts (found within the time)"""
        from .prover import Obligation, smt2
        s = z3.Solver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("timeout", ms)
        s.from_string(smt2(Obligation("", st.forms(), goal, self.facts))[0])
        return s.check() == z3.unsat

    def probe_call(self, fun, args, probe, st):
        """run a callback that a library function calls an unknown number of
        times: only its exceptions matter; it must not change anything"""
        before = dict(probe.heap)
        saved = self.pend
        self.pend = []
        try:
            v = self.call(fun, args, {}, probe)
            for r, o in before.items():
                if probe.heap.get(r) is not o:
                    raise Unsupported("callback changes the state")
            for x in self.pend:
                for r, o in before.items():
                    if x.st.heap.get(r) is not o:
                        raise Unsupported("callback changes the state")
                if x.kind == "raise":
                    e = st.copy()
                    e.add(self.fresh("cbraises", z3.BoolSort()), True)
                    e.pc = e.pc + tuple(x.st.pc[len(probe.pc):][:0])
                    for c, b in x.st.pc[len(st.pc):]:
                        e.add(c, b)
                    saved.append(Exit("raise", e, x.val, x.where))
            return v
        finally:
            self.pend = saved

    # ------------------------------------------------------------ obligations
    def oblige(self, name, st, goal, kind="post", where="", extra=(), timeout=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        ob = Obligation(name, st.forms() + list(extra), goal, self.facts, where, kind, timeout)
        self.obs.append(ob)
        return ob

    def require(self, st, cond, etype, what=""):
        """the operation raises etype unless cond: split off the raising exit"""
        if isinstance(cond, bool):
            if cond:
                return
            raise PyRaise(etype, what)
        t = st.truth(cond)
        if t is True:
            return
        s = z3.simplify(cond)
        if z3.is_true(s):
            return
        if t is False or z3.is_false(s):
            raise PyRaise(etype, what)
        e = st.copy()
        e.add(lnot(cond), True)
        self.pend.append(Exit("raise", e, etype, what))
        st.add(cond, False)

    def may_raise(self, st, etype, what=""):
        """nondeterministic exception"""
        b = self.fresh("raises", z3.BoolSort())
        self.require(st, z3.Not(b), etype, what)

    # ------------------------------------------------------------ values
    def val(self, st, v):
        """resolve a condition-dependent value under the path condition"""
        while isinstance(v, Alt):
            left = []
            for g, x in v.alts:
                t = st.truth(g)
                if t is True:
                    left = [(True, x)]
                    break
                if t is None:
                    left.append((g, x))
            if not left:
                raise PyRaise("AssertionError", "infeasible")
            if len(left) == 1:
                v = left[0][1]
                continue
            raise NeedSplit(self.split_atom(st, left[0][0]))
        return v

    def split_atom(self, st, g):
        if z3.is_and(g) or z3.is_or(g):
            for x in g.children():
                if st.truth(x) is None:
                    return self.split_atom(st, x)
        if z3.is_not(g):
            return self.split_atom(st, g.arg(0))
        return g

    def heap(self, st, r):
        return st.heap[r.id]

    def new(self, st, obj):
        r = Ref()
        st.heap[r.id] = obj
        return r

    def new_nd(self, st, val):
        return self.new(st, HSeq("nd", val))

    def new_list(self, st, val):
        return self.new(st, HSeq("list", val))

    def is_seqlike(self, st, v):
        if isinstance(v, (Seq, Table, Grid, Tup)):
            return True
        if isinstance(v, Ref):
            o = st.heap[v.id]
            return isinstance(o, (HSeq, HView))
        return False

    def kind(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HSeq):
                return o.kind
            if isinstance(o, HView):
                return "nd"
            if isinstance(o, HObj):
                return "obj"
            if isinstance(o, HDict):
                return "dict"
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Seq):
            return v.extra if v.extra in ("list", "tuple") else "nd"
        if isinstance(v, (Table, Grid)):
            return "nd"
        return None

    def seq(self, st, v):
        """content of a sequence value: Seq | Table | Grid"""
        r = self.seq_raw(st, v)
        if isinstance(r, Seq) and r.log is not None:
            raise Unsupported("content of a list or array that the loop is changing")
        return r

    def seq_raw(self, st, v):
        v = self.val(st, v)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HSeq):
                return o.val
            if isinstance(o, HView):
                return self.view_content(st, o)
            if isinstance(o, HDict):
                return self.dict_keys(st, o)
            raise Unsupported("sequence expected, got %s" % type(o).__name__)
        if isinstance(v, Tup):
            return Seq(len(v.items), items=v.items, dt=self.guess_dt(v.items))
        if isinstance(v, (Seq, Table, Grid)):
            return v
        if isinstance(v, SetV):
            return v.seq
        if isinstance(v, Opq):
            raise Unsupported("content of unknown value %s" % v.what)
        if v is None or v is UNDEF:
            raise NoSequence("sequence expected, got %r" % (v,))
        raise Unsupported("sequence expected, got %r" % (v,))

    def guess_dt(self, items):
        dts = set()
        for x in items:
            if isinstance(x, bool) or z3.is_bool(x) if not isinstance(x, (Tup, Seq, Ref, Rec, Alt)) and x is not None else False:
                dts.add("b")
            elif isinstance(x, Fraction) or (is_z(x) and x.sort() == z3.RealSort()):
                dts.add("f")
            elif isinstance(x, int) or (is_z(x) and x.sort() == z3.IntSort()):
                dts.add("i")
            elif is_strv(x):
                dts.add("s")
            else:
                dts.add("o")
        if not dts:
            return "f"
        if len(dts) == 1:
            return dts.pop()
        if dts <= {"i", "f", "b"}:
            return "f" if "f" in dts else "i"
        return "o"

    def view_content(self, st, o):
        b = self.seq(st, o.base)
        if o.col is not None:
            return b.cols[o.col]
        from .npmodel import slice_seq
        if isinstance(b, Seq):
            return slice_seq(self, st, b, o.start, o.n)
        if isinstance(b, Table):
            return Table([slice_seq(self, st, c, o.start, o.n) for c in b.cols], b.dt)
        raise Unsupported("view")

    def set_content(self, st, ref, val):
        """overwrite the content of an array (writing through views)"""
        o = st.heap[ref.id]
        if isinstance(o, HView):
            if o.col is not None:
                b = self.seq(st, o.base)
                cols = list(b.cols)
                cols[o.col] = val
                self.set_content(st, o.base, Table(cols, b.dt, b.fromlist))
                return
            b = self.seq(st, o.base)
            if not isinstance(b, Seq) or not isinstance(val, Seq):
                raise Unsupported("write through a 2-d view")
            start, n = o.start, o.n
            nb = Seq(b.n, lambda k: merge_value(
                land(compare(">=", k, start), compare("<", k, arith("+", start, n))),
                val.at(arith("-", k, start)), b.at(k)), b.dt)
            self.set_content(st, o.base, nb)
            return
        st.heap[ref.id] = HSeq(o.kind, val)

    def length(self, st, v):
        v = self.val(st, v)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HDict):
                if o.items is not None:
                    return len(o.items)
                if o.keys is not None:
                    return o.keys.n
                raise Unsupported("len of map")
            if isinstance(o, HObj):
                m = self.find_method(o.cls, "__len__")
                if m is None:
                    raise PyRaise("TypeError", "len")
                return self.call(m, [v], {}, st)
        if isinstance(v, str):
            return len(v)
        if v is None or is_number(v) or isinstance(v, (bool,)):
            raise PyRaise("TypeError", "len() of a scalar or None")
        if isinstance(v, SetV):
            from .npmodel import unique_of
            return unique_of(self, st, v.seq).n
        s = self.seq(st, v)
        if isinstance(s, Seq) and s.log is not None:
            raise Unsupported("len of a list being built")
        return s.n

    def truthy(self, st, v):
        v = self.val(st, v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_py_num(v):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if z3.is_bool(v) if is_z(v) else False:
            return v
        if is_z(v) and z3.is_arith(v):
            return v != 0
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HSeq) and o.kind == "list" or isinstance(o, HDict):
                n = self.length(st, v)
                return compare(">", n, 0)
            if isinstance(o, HObj):
                m = self.find_method(o.cls, "__len__")
                if m is not None:
                    return compare(">", self.call(m, [v], {}, st), 0)
                return True
            s = self.seq(st, v)
            if isinstance(s, Seq) and isinstance(s.n, int) and s.n == 1:
                return self.truthy(st, s.at(0))
            raise Unsupported("truth value of an array")
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Seq):
            return compare(">", v.n, 0)
        if isinstance(v, (Mod, Fun, Cls, Rec, PyFn, Bound)):
            return True
        if isinstance(v, Opq):
            return self.fresh("opq", z3.BoolSort())
        raise Unsupported("truth value of %r" % (v,))

    def freeze(self, st, v):
        """immutable snapshot of a value (for elements of symbolic lists)"""
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HSeq):
                s = o.val
                if isinstance(s, Seq):
                    if s.log is not None:
                        raise Unsupported("snapshot of a list being built")
                    if s.items is not None:
                        s = Seq(s.n, items=[self.freeze(st, x) for x in s.items], dt=s.dt)
                    else:
                        s2 = Seq(s.n, s._at, s.dt, s.dom, s.g, None, s.inv)
                        s = s2
                    s.extra = o.kind if o.kind == "list" else s.extra
                return s
            if isinstance(o, HView):
                return self.view_content(st, o)
            if isinstance(o, HObj):
                return Rec(o.cls, {k: self.freeze(st, x) for k, x in o.f.items()})
            raise Unsupported("snapshot of %s" % type(o).__name__)
        if isinstance(v, Tup):
            return Tup([self.freeze(st, x) for x in v.items])
        if isinstance(v, Alt):
            return Alt([(g, self.freeze(st, x)) for g, x in v.alts])
        return v

    # ------------------------------------------------------------ merging
    def merge_states(self, base, c, a, b):
        """state equal to a when c holds, else b; both continue base"""
        if a is None:
            return b
        if b is None:
            return a
        n = len(base.pc)
        r = base.copy()
        nc = lnot(c)
        for src, cc in ((a, c), (b, nc)):
            for flag in (True, False):
                fs = [x for x, br in src.pc[n:] if br == flag and not (is_z(cc) and x.eq(cc))]
                if fs:
                    r.add(implies(cc, z3.And(*fs) if len(fs) > 1 else fs[0]), flag)
        env = {}
        for k in set(a.env) | set(b.env):
            env[k] = merge_value(c, a.env.get(k, UNDEF), b.env.get(k, UNDEF))
        r.env = env
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                heap[k] = x or y
            elif x is y:
                heap[k] = x
            else:
                heap[k] = self.merge_obj(c, x, y)
        r.heap = heap
        gh = {}
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k, UNDEF), b.ghost.get(k, UNDEF)
            if k == "files" or isinstance(x, dict) or isinstance(y, dict):
                x = {} if x is UNDEF else x
                y = {} if y is UNDEF else y
                d = {}
                for kk in list(x) + [q for q in y if q not in x]:
                    d[kk] = merge_value(c, x.get(kk, UNDEF), y.get(kk, UNDEF))
                gh[k] = d
            else:
                gh[k] = merge_value(c, x, y)
        r.ghost = gh
        return r

    def merge_obj(self, c, x, y):
        if type(x) is not type(y):
            raise Unsupported("merge of different objects")
        if isinstance(x, HSeq):
            if x.kind != y.kind:
                raise Unsupported("merge of list and array cell")
            v = merge_value(c, x.val, y.val)
            if isinstance(v, Alt):
                raise Unsupported("merge of arrays of different shape in one cell")
            return HSeq(x.kind, v)
        if isinstance(x, HObj):
            f = {}
            for k in set(x.f) | set(y.f):
                f[k] = merge_value(c, x.f.get(k, UNDEF), y.f.get(k, UNDEF))
            return HObj(x.cls, f)
        if isinstance(x, HDict):
            if x.log is not None or y.log is not None:
                return self.merge_dict_logs(c, x, y)
            if x.items is not None and y.items is not None:
                kx, ky = [k for k, _ in x.items], [k for k, _ in y.items]
                if len(kx) == len(ky) and all(same(p, q) for p, q in zip(kx, ky)):
                    return HDict(items=[(k, merge_value(c, v, w)) for (k, v), (_, w) in zip(x.items, y.items)])
                if not kx or not ky:
                    pass
            xs, ys = self.sym_dict(x), self.sym_dict(y)
            keys = None
            if xs.keys is not None and ys.keys is not None:
                keys = merge_seq(c, xs.keys, ys.keys)
            r = HDict(has=lambda k: merge_value(c, xs.has(k), ys.has(k)),
                      get=lambda k: merge_value(c, xs.get(k), ys.get(k)), keys=keys)
            return r
        if isinstance(x, HView) and x.base.id == y.base.id and x.col == y.col:
            return HView(x.base, merge_value(c, x.start, y.start), merge_value(c, x.n, y.n), x.col)
        raise Unsupported("merge of %s" % type(x).__name__)

    def merge_dict_logs(self, c, a, b):
        la, lb = a.log or (), b.log or ()
        p = 0
        while p < len(la) and p < len(lb) and la[p] is lb[p]:
            p += 1
        log = list(la[:p])
        log += [(land(c, e[0]),) + tuple(e[1:]) for e in la[p:]]
        log += [(land(lnot(c), e[0]),) + tuple(e[1:]) for e in lb[p:]]
        r = HDict(a.items, a.has, a.get, a.keys)
        r.log = tuple(log)
        return r

    def sym_dict(self, d):
        if d.items is None:
            return d
        items = d.items

        def has(k):
            return lor(*[compare("==", k, kk) for kk, _ in items])

        def get(k):
            if not items:
                return UNDEF
            v = items[-1][1]
            for kk, x in reversed(items[:-1]):
                v = merge_value(compare("==", k, kk), x, v)
            return v

        ks = [k for k, _ in items]
        return HDict(has=has, get=get, keys=Seq(len(ks), items=ks))

    def dict_keys(self, st, d):
        if d.items is not None:
            ks = [k for k, _ in d.items]
            return Seq(len(ks), items=ks, dt=self.guess_dt(ks))
        if d.keys is not None:
            return d.keys
        raise Unsupported("keys of map")

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        exits = []
        for i, s in enumerate(stmts):
            st, ex = self.exec_stmt(s, st)
            exits += ex
            if st is None:
                break
        return st, exits

    def exec_stmt(self, s, st, depth=0):
        saved = self.pend
        self.pend = []
        c = st.copy()
        try:
            n, ex = self.dispatch(s, c)
            ex = self.pend + ex
        except NeedSplit as e:
            self.pend = saved
            self.splits = self.splits + 1 if depth else 1
            if depth > 60 or self.splits > 300:
                raise Unsupported("cases without end (line %s)" % getattr(s, "lineno", "?"))
            g = e.cond
            a = st.copy().add(g, True)
            b = st.copy().add(lnot(g), True)
            na, ea = self.exec_stmt(s, a, depth + 1)
            nb, eb = self.exec_stmt(s, b, depth + 1)
            return self.merge_states(st, g, na, nb), ea + eb
        except PyRaise as e:
            ex = self.pend + [Exit("raise", c, e.etype, "line %s: %s" % (getattr(s, "lineno", "?"), e.where or ""))]
            n = None
        except Unsupported as e:
            if not getattr(e, "located", False):
                e.located = True
                e.args = ("%s (line %s of %s)" % (e.args[0] if e.args else "", getattr(s, "lineno", "?"), st.fn.qual if st.fn else "?"),)
            self.pend = saved
            raise
        finally:
            p = self.pend
            self.pend = saved
        for x in ex:
            if x.where is None:
                x.where = "line %s" % getattr(s, "lineno", "?")
            elif not str(x.where).startswith("line"):
                x.where = "line %s: %s" % (getattr(s, "lineno", "?"), x.where)
        if n is not None and n.dead():
            n = None
        ex = [x for x in ex if not x.st.dead()]
        return n, ex

    def dispatch(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, st)

    def x_Pass(self, s, st):
        return st, []

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.eval(s.value, st)
        return st, []

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st, []

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return st, []

    def x_AugAssign(self, s, st):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.val(st, self.name(t.id, st))
            v = self.eval(s.value, st)
            st.env[t.id] = self.inplace(op, cur, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.val(st, self.eval(t.value, st))
            cur = self.val(st, self.getattr(o, t.attr, st))
            v = self.eval(s.value, st)
            self.setattr(o, t.attr, self.inplace(op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            o = self.val(st, self.eval(t.value, st))
            idx = self.eval_index(t.slice, st)
            cur = self.getitem(o, idx, st)
            v = self.eval(s.value, st)
            cur = self.val(st, cur)
            if isinstance(cur, Ref):
                new = self.binop(op, self.seq_val(st, cur), v, st)
            else:
                new = self.binop(op, cur, v, st)
            self.setitem(o, idx, new, st)
        else:
            raise Unsupported("augmented assignment target")
        return st, []

    def seq_val(self, st, r):
        return r

    def inplace(self, op, cur, v, st):
        if isinstance(cur, Ref):
            o = st.heap[cur.id]
            if isinstance(o, (HSeq, HView)):
                k = self.kind(st, cur)
                if k == "nd":
                    old = self.seq(st, cur)
                    r = self.binop(op, cur, v, st)
                    new = self.seq(st, r)
                    if isinstance(old, Seq) and isinstance(new, Seq) and old.dt == "i" and new.dt == "f":
                        raise PyRaise("TypeError", "in-place operation casts to int")
                    if isinstance(old, Seq) and isinstance(new, Seq):
                        self.require(st, compare("==", old.n, new.n), "ValueError", "in-place broadcast")
                    self.set_content(st, cur, new)
                    return cur
                if op == "+":
                    self.call_method(cur, "extend", [v], {}, st)
                    return cur
        if isinstance(cur, (Seq, Table, Grid)):
            raise Unsupported("in-place operation on an element of a symbolic list")
        return self.binop(op, cur, v, st)

    def x_If(self, s, st):
        t = self.truthy(st, self.eval(s.test, st))
        if not isinstance(t, bool):
            tt = st.truth(t)
            if tt is not None:
                t = tt
        if isinstance(t, bool):
            return self.exec_block(s.body if t else s.orelse, st)
        t = unz(z3.simplify(t)) if z3.is_true(z3.simplify(t)) or z3.is_false(z3.simplify(t)) else t
        if isinstance(t, bool):
            return self.exec_block(s.body if t else s.orelse, st)
        a = st.copy().add(t, True)
        b = st.copy().add(lnot(t), True)
        na, ea = self.exec_block(s.body, a)
        nb, eb = self.exec_block(s.orelse, b)
        return self.merge_states(st, t, na, nb), ea + eb

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        return None, [Exit("return", st, v, "line %d" % s.lineno)]

    def x_Raise(self, s, st):
        name = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        self.eval(a, st)
                    except Unsupported:
                        pass
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        else:
            name = st.ghost.get("exc", "Exception")
        return None, [Exit("raise", st, name, "line %d: raise" % s.lineno)]

    def x_Assert(self, s, st):
        t = self.truthy(st, self.eval(s.test, st))
        self.require(st, t, "AssertionError", "assert")
        return st, []

    def x_Break(self, s, st):
        return None, [Exit("break", st)]

    def x_Continue(self, s, st):
        return None, [Exit("continue", st)]

    def x_FunctionDef(self, s, st):
        st.env[s.name] = Fun(s, st.fn.mod, "%s.%s" % (st.fn.qual, s.name), env=dict(st.env))
        return st, []

    def x_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            v = Mod(a.name if a.asname else a.name.split(".")[0])
            if v.path.split(".")[0] in DRAWING:
                # nothing is known of what a drawing library gives, it leaves what it is handed alone
                self.assumed.add(v.path + ".*")
                v = Opq(v.path)
            self.bind_import(st, n, v)
        return st, []

    def bind_import(self, st, n, v):
        if n in self.global_names(st):
            # a module-level name of the module: the import is the only thing that binds it
            self.gmods[(st.fn.mod.name, n)] = v
        else:
            st.env[n] = v

    def global_names(self, st):
        return self.globs.get(id(st.fn.node), ()) if st.fn is not None and self.globs else ()

    def x_ImportFrom(self, s, st):
        for a in s.names:
            if s.level:
                pkg = st.fn.mod.name.rsplit(".", 1)[0]
                if s.module is None:
                    st.env[a.asname or a.name] = RMod("%s.%s" % (pkg, a.name))
                else:
                    st.env[a.asname or a.name] = self.mglobal(self.module("%s.%s" % (pkg, s.module)), a.name, st)
            else:
                st.env[a.asname or a.name] = Mod("%s.%s" % (s.module, a.name))
        return st, []

    def x_Global(self, s, st):
        bound = set()
        for n in ast.walk(st.fn.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                bound |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in s.names:
                raise Unsupported("assignment to a global")
        if not set(s.names) <= bound:
            raise Unsupported("global")
        self.keep.append(st.fn.node)
        self.globs.setdefault(id(st.fn.node), set()).update(s.names)
        return st, []

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.val(st, self.eval(t.value, st))
                i = self.eval_index(t.slice, st)
                self.call_method(o, "__delitem__", [i], {}, st)
            else:
                raise Unsupported("del")
        return st, []

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def x_Try(self, s, st):
        n, ex = self.exec_block(s.body, st)
        out = []
        res = n
        if n is not None and s.orelse:
            res, e2 = self.exec_block(s.orelse, n)
            out += e2
        base = st
        for x in ex:
            if x.kind != "raise":
                out.append(x)
                continue
            h = None
            for hd in s.handlers:
                names = self.handler_names(hd, st)
                if names is None or any(exc_matches(x.val, q) for q in names):
                    h = hd
                    break
            if h is None:
                out.append(x)
                continue
            hs = x.st.copy()
            if h.name:
                hs.env[h.name] = Opq("exception")
            hs.ghost["exc"] = x.val
            hn, he = self.exec_block(h.body, hs)
            out += he
            if hn is not None:
                br = [c for c, b in x.st.pc[len(base.pc):] if b]
                cond = land(*br) if br else True
                if cond is True:
                    # raised unconditionally
                    res = hn if res is None else res
                    continue
                res = self.merge_states(base, cond, hn, res)
        if s.finalbody:
            if res is not None:
                res, e3 = self.exec_block(s.finalbody, res)
                out += e3
            o2 = []
            for x in out:
                fs, fe = self.exec_block(s.finalbody, x.st)
                o2 += fe
                if fs is not None:
                    x.st = fs
                    o2.append(x)
            out = o2
        return res, out

    def handler_names(self, hd, st):
        if hd.type is None:
            return None
        ts = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        return [t.id if isinstance(t, ast.Name) else t.attr for t in ts]

    def x_For(self, s, st):
        from .loops import exec_for
        return exec_for(self, s, st)

    def x_While(self, s, st):
        from .loops import exec_while
        return exec_while(self, s, st)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.val(st, v)
            items = self.unpack(st, v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            o = self.val(st, self.eval(t.value, st))
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.val(st, self.eval(t.value, st))
            self.setitem(o, self.eval_index(t.slice, st), v, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, st, v, n):
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise PyRaise("ValueError", "unpack")
            return v.items
        if isinstance(v, Opq):
            return [Opq(v.what)] * n
        s = self.seq(st, v)
        if isinstance(s, Seq):
            self.require(st, compare("==", s.n, n), "ValueError", "unpack")
            return [s.at(i) for i in range(n)]
        if isinstance(s, Table):
            self.require(st, compare("==", s.n, n), "ValueError", "unpack")
            return [self.getitem(v, i, st) for i in range(n)]
        raise Unsupported("unpack")

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref):
            h = st.heap[o.id]
            if isinstance(h, HObj):
                f = dict(h.f)
                f[name] = v
                st.heap[o.id] = HObj(h.cls, f)
                return
        if isinstance(o, Opq):
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, st)

    def ev(self, e, st):
        return self.val(st, self.eval(e, st))

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float("inf") else Opq("inf")
        if v is Ellipsis:
            return ELLIPSIS
        return v

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def name(self, n, st):
        if n in st.env:
            v = st.env[n]
            v = self.val(st, v) if isinstance(v, Alt) and any(x is UNDEF for _, x in v.alts) else v
            if v is UNDEF:
                raise PyRaise("UnboundLocalError", n)
            if v is STALE:
                raise Unsupported("object bound to a name inside a loop, used after it")
            return v
        if st.fn is not None:
            if st.fn.env is not None and n in st.fn.env:
                v = st.fn.env[n]
                if v is UNDEF:
                    raise PyRaise("NameError", n)
                return v
            v = self.mglobal(st.fn.mod, n, st)
            if v is not None:
                return v
            v = self.gmods.get((st.fn.mod.name, n))
            if v is not None:
                return v
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if n in BUILTIN_NAMES or n in EXC_PARENTS:
            return Mod("builtins." + n)
        raise PyRaise("NameError", n)

    def e_Tuple(self, e, st):
        return Tup(self.eval_elts(e.elts, st))

    def eval_elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq(st, self.ev(x.value, st))
                if isinstance(s, Table):
                    raise Unsupported("star of 2-d")
                if not isinstance(s.n, int):
                    raise Unsupported("star of symbolic length")
                out += [s.at(i) for i in range(s.n)]
            else:
                out.append(self.eval(x, st))
        return out

    def e_List(self, e, st):
        its = self.eval_elts(e.elts, st)
        return self.new_list(st, Seq(len(its), items=its, dt=self.guess_dt(its)))

    def e_Set(self, e, st):
        its = self.eval_elts(e.elts, st)
        return SetV(Seq(len(its), items=its, dt=self.guess_dt(its)))

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            items.append((self.ev(k, st), self.eval(v, st)))
        return self.new(st, HDict(items=items))

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    self.eval(v.value, st)
                except Unsupported:
                    pass
        if all(isinstance(v, ast.Constant) for v in e.values):
            return "".join(v.value for v in e.values)
        # concatenation of strings is tracked when the parts are strings
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, st)
                except Unsupported:
                    x = None
                if not is_strv(x) or v.format_spec is not None:
                    return self.fresh("fstr", Str)
                parts.append(x)
        r = parts[0]
        for p in parts[1:]:
            r = self.str_concat(r, p)
        return r

    def e_IfExp(self, e, st):
        t = self.truthy(st, self.eval(e.test, st))
        if not isinstance(t, bool):
            k = st.truth(t)
            t = t if k is None else k
        if isinstance(t, bool):
            return self.eval(e.body if t else e.orelse, st)
        if self.pure(e.body) and self.pure(e.orelse):
            raise_split = False
            base = st.copy()
            a = st.copy().add(t, True)
            b = st.copy().add(lnot(t), True)
            va = self.eval(e.body, a)
            vb = self.eval(e.orelse, b)
            r = self.merge_states(base, t, a, b)
            st.heap, st.pc, st.known, st.ghost = r.heap, r.pc, r.known, r.ghost
            return merge_value(t, va, vb)
        raise NeedSplit(t)

    def pure(self, e):
        return not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(e))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for nxt in e.values[1:]:
            t = self.truthy(st, v)
            if not isinstance(t, bool):
                k = st.truth(t)
                t = t if k is None else k
            if isinstance(t, bool):
                if t != isand:
                    return v if not is_z(v) else t
                v = self.eval(nxt, st)
                continue
            # symbolic: evaluate the rest under the condition
            base = st.copy()
            a = st.copy().add(t if isand else lnot(t), True)
            rest = ast.BoolOp(op=e.op, values=e.values[e.values.index(nxt):]) if len(e.values[e.values.index(nxt):]) > 1 else nxt
            ast.copy_location(rest, e)
            w = self.eval(rest, a)
            w = self.val(a, w)
            tw = self.truthy(a, w)
            b = base.copy().add(lnot(t) if isand else t, True)
            r = self.merge_states(base, t if isand else lnot(t), a, b)
            st.heap, st.pc, st.known, st.ghost = r.heap, r.pc, r.known, r.ghost
            if (is_z(v) and z3.is_bool(v) or isinstance(v, bool)) :
                return land(t, tw) if isand else lor(t, tw)
            return land(t, tw) if isand else lor(t, tw)
        return v

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return lnot(self.truthy(st, v))
        if isinstance(e.op, ast.USub):
            return self.unary(lambda x: arith("-", 0, x) if not isinstance(x, Fraction) else -x, v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, bool) and not isinstance(e.operand, ast.Constant):
                return not v  # numpy bool
            if is_z(v) and z3.is_bool(v):
                return lnot(v)
            return self.unary(lambda x: lnot(zbool(x)), v, st)
        raise Unsupported("unary operator")

    def unary(self, f, v, st, dt=None):
        from .npmodel import lift1
        if isinstance(v, Opq):
            return Opq(v.what)
        if is_scalar(v):
            return f(v)
        if self.is_seqlike(st, v) and (self.kind(st, v) == "nd" or dt is not None):
            return self.new_nd(st, lift1(f, self.seq(st, v), dt))
        raise PyRaise("TypeError", "unary operand")

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(OPS[type(e.op)], a, b, st)

    def str_concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        f = z3.Function("concat", Str, Str, Str)
        return f(zstr(a), zstr(b))

    def binop(self, op, a, b, st):
        from .npmodel import lift2, concat_seq, repeat_seq
        a, b = self.val(st, a), self.val(st, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("binop")
        if op in ("&", "|", "^"):
            if is_scalar(a) and is_scalar(b):
                return self.bitop(op, a, b)
            return self.new_nd(st, lift2(self, st, lambda x, y: self.bitop(op, x, y), self.arr(st, a), self.arr(st, b), "b"))
        sa, sb = is_scalar(a) and a is not None, is_scalar(b) and b is not None
        if sa and sb:
            if op == "+" and is_strv(a) and is_strv(b):
                return self.str_concat(a, b)
            if op == "%" and is_strv(a):
                return self.fresh("str", Str)
            if is_strv(a) or is_strv(b):
                if op == "*":
                    return self.fresh("str", Str)
                raise PyRaise("TypeError", "string operand")
            return self.scalar_arith(op, a, b, st)
        if a is None or b is None:
            raise PyRaise("TypeError", "operand None")
        ka, kb = self.kind(st, a), self.kind(st, b)
        if is_strv(a) and op == "%":
            return self.fresh("str", Str)
        if ka in ("list", "tuple") and kb in ("list", "tuple") and op == "+":
            s = concat_seq(self, st, self.seq(st, a), self.seq(st, b))
            return self.new_list(st, s) if ka == "list" else (Tup(s.items) if s.items is not None else s)
        if op == "*" and (ka in ("list", "tuple") and sb or kb in ("list", "tuple") and sa):
            s, n = (a, b) if ka in ("list", "tuple") else (b, a)
            if not is_intlike(n):
                raise PyRaise("TypeError", "a list times a number that is no integer")
            r = repeat_seq(self, st, self.freeze(st, s) if self.kind(st, s) == "list" else self.seq(st, s), n)
            return self.new_list(st, r)
        if ka == "nd" or kb == "nd":
            x, y = self.arr(st, a), self.arr(st, b)
            dt = None
            return self.new_nd(st, lift2(self, st, lambda p, q: self.elem_arith(op, p, q), x, y, dt))
        if (sa and is_z(a) or sb and is_z(b)) and {ka, kb} & {"list", "tuple"}:
            # numpy numbers turn the list into an array, Python's refuse it
            if self.numpy_number(a if sa else b):
                return self.new_nd(st, lift2(self, st, lambda p, q: self.elem_arith(op, p, q), self.arr(st, a), self.arr(st, b), None))
            # of either kind: both outcomes
            self.lost.append("operands of %s: a list and a number of either kind" % op)
            self.require(st, self.fresh("npnum", z3.BoolSort()), "TypeError", "operands of " + op)
            return self.new_nd(st, lift2(self, st, lambda p, q: self.elem_arith(op, p, q), self.arr(st, a), self.arr(st, b), None))
        raise PyRaise("TypeError", "operands of %s" % op)

    @staticmethod
    def numpy_number(v):
        """results of numpy reductions"""
        if z3.is_app(v) and v.decl().name() in ("std", "polyval"):
            return True
        return z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_POWER) and any(Engine.numpy_number(u) for u in v.children())

    def scalar_arith(self, op, a, b, st):
        if op in ("/", "//", "%"):
            z = compare("==", b, 0)
            if z is True or z is False:
                pass
            elif self.current is not None and getattr(self.current, "pydiv", False):
                self.require(st, lnot(z), "ZeroDivisionError", "division by zero")
        return arith(op, a, b)

    def elem_arith(self, op, a, b):
        return arith(op, a, b)

    def bitop(self, op, a, b):
        ba = isinstance(a, bool) or (is_z(a) and z3.is_bool(a))
        bb = isinstance(b, bool) or (is_z(b) and z3.is_bool(b))
        if ba and bb:
            if op == "&":
                return land(a, b)
            if op == "|":
                return lor(a, b)
            return zbool(a) != zbool(b)
        raise Unsupported("bit operation on integers")

    def arr(self, st, v):
        if is_scalar(v):
            return v
        return self.seq(st, v)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            res.append(self.cmp(op, left, right, st))
            left = right
        if len(res) == 1:
            return res[0]
        return land(*[self.truthy(st, x) for x in res])

    def cmp(self, op, a, b, st):
        from .npmodel import lift2, contains
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b, st)
            return r if t is ast.Is else lnot(r)
        if t is ast.In or t is ast.NotIn:
            r = contains(self, st, b, a)
            return r if t is ast.In else lnot(r)
        o = CMPS[t]
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.fresh("cmp", z3.BoolSort())
        ka, kb = self.kind(st, a), self.kind(st, b)
        if ka == "nd" or kb == "nd":
            if (ka in ("list",) and kb == "nd" or kb in ("list",) and ka == "nd") and o == "==":
                s = self.seq(st, a if ka == "list" else b)
                x = self.seq(st, a if ka == "nd" else b)
                if isinstance(s, Seq) and s.items is not None and len(s.items) == 0:
                    # array == []: numpy gives an empty array or False: falsy unless the array is empty of the right shape
                    return False
            return self.new_nd(st, lift2(self, st, lambda p, q: compare(o, p, q), self.arr(st, a), self.arr(st, b), "b"))
        if ka in ("list", "tuple") and kb in ("list", "tuple"):
            x, y = self.seq(st, a), self.seq(st, b)
            if o in ("==", "!=") and isinstance(x, Seq) and isinstance(y, Seq):
                r = self.seq_eq(st, x, y)
                return r if o == "==" else lnot(r)
        if (ka is not None) != (kb is not None) and o in ("==", "!="):
            return o == "!="
        if a is None or b is None:
            if o in ("==", "!="):
                return compare(o, a, b)
            raise PyRaise("TypeError", "comparison with None")
        if is_scalar(a) and is_scalar(b):
            if is_strv(a) != is_strv(b) and o not in ("==", "!="):
                raise PyRaise("TypeError", "comparison of string and number")
            return compare(o, a, b)
        return compare(o, a, b)

    def seq_eq(self, st, x, y):
        if isinstance(x.n, int) and isinstance(y.n, int):
            if x.n != y.n:
                return False
            return land(*[compare("==", x.at(i), y.at(i)) for i in range(x.n)])
        if isinstance(x.n, int) and x.n == 0:
            return compare("==", y.n, 0)
        if isinstance(y.n, int) and y.n == 0:
            return compare("==", x.n, 0)
        raise Unsupported("comparison of symbolic lists")

    def is_(self, a, b, st):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)) or (is_z(b) and z3.is_bool(b)):
            x = isinstance(a, bool) or (is_z(a) and z3.is_bool(a))
            y = isinstance(b, bool) or (is_z(b) and z3.is_bool(b))
            if x and y:
                return compare("==", a, b)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Mod) and isinstance(b, Mod):
            return a == b
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.fresh("is", z3.BoolSort())
        raise Unsupported("is")

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(o, e.attr, st)

    def find_method(self, cls, name):
        if cls is None:
            return None
        n = cls.methods.get(name)
        if n is not None:
            return Fun(n, cls.mod, "%s.%s" % (cls.qual, name), cls=cls)
        return None

    def bound(self, o, name, m, st):
        """the attribute of an object that names a method of its class"""
        d = decorator(m.node)
        if d == "staticmethod":
            return m
        if d == "classmethod":
            return Bound(m.cls, name, m)
        if d == "property":
            return self.call_fun(m, [o], {}, st)
        return Bound(o, name, m)

    def getattr(self, o, name, st):
        if isinstance(o, Mod):
            from .npmodel import np_const
            c = np_const(o.path + "." + name)
            return Mod(o.path + "." + name) if c is None else c
        if isinstance(o, RMod):
            v = self.mglobal(self.module(o.name), name, st)
            if v is None:
                raise PyRaise("AttributeError", name)
            return v
        if isinstance(o, Opq):
            return Opq(o.what + "." + name)
        if isinstance(o, Ref):
            h = st.heap[o.id]
            if isinstance(h, HObj):
                if name in h.f:
                    v = h.f[name]
                    if isinstance(v, Alt) and any(x is UNDEF for _, x in v.alts):
                        v = self.val(st, v)
                    if v is UNDEF:
                        raise PyRaise("AttributeError", name)
                    return v
                m = self.find_method(h.cls, name)
                if m is not None:
                    return self.bound(o, name, m, st)
                pm = getattr(h.cls, "pymethods", {}).get(name)
                if pm is not None:
                    return PyFn(name, lambda E, s_, a, k_, o=o, pm=pm: pm(E, s_, o, a, k_))
                if name == "__class__":
                    return h.cls
                ca = self.class_attr(h.cls, name, st)
                if ca is not UNDEF:
                    return ca
                raise PyRaise("AttributeError", name)
        if isinstance(o, Rec):
            if name in o.f:
                return o.f[name]
            m = self.find_method(o.cls, name)
            if m is not None:
                return self.bound(o, name, m, st)
            raise PyRaise("AttributeError", name)
        if isinstance(o, Cls):
            m = self.find_method(o, name)
            if m is not None:
                return Bound(o, name, m) if decorator(m.node) == "classmethod" else m
            ca = self.class_attr(o, name, st)
            if ca is not UNDEF:
                return ca
            if name == "__name__":
                return o.qual.rsplit(".", 1)[-1]
        if o is None:
            raise PyRaise("AttributeError", "None.%s" % name)
        from .npmodel import seq_attr
        r = seq_attr(self, st, o, name)
        if r is not None:
            return r
        return Bound(o, name)

    def class_attr(self, cls, name, st):
        for n in cls.node.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        s = State()
                        s.fn = Fun(None, cls.mod, cls.qual)
                        return self.freeze(s, self.eval(n.value, s))
        return UNDEF

    def eval_index(self, e, st):
        if isinstance(e, ast.Tuple):
            return Tup([self.eval_index(x, st) for x in e.elts])
        return self.val(st, self.eval(e, st))

    def e_Slice(self, e, st):
        f = lambda x: None if x is None else self.ev(x, st)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.eval_index(e.slice, st)
        return self.getitem(o, i, st)

    def getitem(self, o, i, st):
        from .npmodel import getitem
        return getitem(self, st, o, i)

    def setitem(self, o, i, v, st):
        from .npmodel import setitem
        return setitem(self, st, o, i, v)

    def e_Lambda(self, e, st):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)], decorator_list=[], lineno=e.lineno, col_offset=0)
        return Fun(node, st.fn.mod, st.fn.qual + ".<lambda>", env={**(st.fn.env or {}), **st.env})

    def e_ListComp(self, e, st):
        from .loops import exec_comp
        return exec_comp(self, e, st)

    def e_GeneratorExp(self, e, st):
        from .loops import exec_comp
        r = exec_comp(self, e, st)
        return r

    def e_SetComp(self, e, st):
        from .loops import exec_comp
        return SetV(self.seq(st, exec_comp(self, e, st)))

    def e_DictComp(self, e, st):
        from .loops import exec_dictcomp
        return exec_dictcomp(self, e, st)

    def e_Starred(self, e, st):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.ev(a.value, st)
                if isinstance(s, Opq):
                    args.append(s)
                    continue
                q = self.seq(st, s)
                if isinstance(q, Table):
                    # rows of a 2-column transposed table
                    raise Unsupported("star argument of 2-d array")
                if not isinstance(q.n, int):
                    raise Unsupported("star argument of symbolic length")
                args += [q.at(i) for i in range(q.n)]
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                if isinstance(d, Ref) and isinstance(st.heap[d.id], HDict) and st.heap[d.id].items is not None:
                    for kk, vv in st.heap[d.id].items:
                        kw[kk] = vv
                    continue
                raise Unsupported("** argument")
            kw[k.arg] = self.eval(k.value, st)
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, node=None):
        f = self.val(st, f)
        if isinstance(f, Bound):
            if f.fun is not None:
                return self.call_fun(f.fun, [f.obj] + list(args), kw, st)
            return self.call_method(f.obj, f.name, args, kw, st)
        if isinstance(f, Fun):
            return self.call_fun(f, args, kw, st)
        if isinstance(f, Cls):
            return self.construct(f, args, kw, st)
        if isinstance(f, PyFn):
            return f.fn(self, st, args, kw)
        if isinstance(f, Opq):
            return Opq(f.what + "()")
        if isinstance(f, Mod):
            m = self.find_model(f.path)
            if m is None:
                raise Unsupported("call of %s (no assumed contract)" % f.path)
            self.assumed.add(f.path)
            return m(self, st, args, kw)
        raise PyRaise("TypeError", "call of %r" % (f,))

    def find_model(self, path):
        m = self.models.get(path)
        if m is None:
            for pre, fn in self.models.items():
                if pre.endswith(".*") and path.startswith(pre[:-1]):
                    return fn
        return m

    def call_method(self, o, name, args, kw, st):
        o = self.val(st, o)
        args = list(args)
        if isinstance(o, Opq):
            return Opq(o.what + "." + name + "()")
        k = self.kind(st, o)
        if k is None:
            if is_strv(o):
                k = "str"
            elif isinstance(o, SetV):
                k = "set"
            elif is_number(o):
                k = "num"
        m = self.methods.get((k, name))
        if m is None and k in ("list", "nd", "tuple"):
            m = self.methods.get(("seq", name))
        if m is None and isinstance(o, Seq) and name in ("set_description", "set_postfix", "set_description_str", "refresh"):
            self.assumed.add("tqdm.tqdm")
            return None  # a progress bar around the sequence
        if m is None:
            if k == "list" or k == "tuple" or k == "str" or k == "dict":
                if not hasattr({"list": list, "tuple": tuple, "str": str, "dict": dict}[k], name):
                    raise PyRaise("AttributeError", "a %s has no %s" % (k, name))
                raise Unsupported("method %s.%s" % (k, name))
            raise Unsupported("method %s on %r" % (name, o))
        return m(self, st, o, args, kw)

    def construct(self, cls, args, kw, st):
        init = self.find_method(cls, "__init__")
        r = self.new(st, HObj(cls, {}))
        if init is not None:
            self.call_fun(init, [r] + list(args), kw, st)
        return r

    def bind(self, f, args, kw, st):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments to " + f.qual)
            env[a.vararg.arg] = Tup(args[len(params):])
            args = args[: len(params)]
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for p, v in zip(params, args):
            env[p] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k in env:
                raise PyRaise("TypeError", "multiple values for " + k)
            if k not in params and k not in kwonly:
                raise PyRaise("TypeError", "unexpected argument %s to %s" % (k, f.qual))
            env[k] = v
        defs = a.defaults
        for p, d in zip(params[len(params) - len(defs):], defs):
            if p not in env:
                env[p] = self.default(f, d, st)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in env and d is not None:
                env[p] = self.default(f, d, st)
        for p in params + kwonly:
            if p not in env:
                raise PyRaise("TypeError", "missing argument %s of %s" % (p, f.qual))
        return env

    def default(self, f, d, st):
        s = State()
        s.fn = f
        s.heap = st.heap
        return self.eval(d, s)

    def call_fun(self, f, args, kw, st):
        c = self.contracts.get(f.qual)
        if c is not None and not c.inline and not (self.current is not None and f.qual in self.current.inlines):
            env = self.bind(f, args, kw, st)
            self.called_contracts.add(f.qual)
            if f.qual in self.on_call:
                self.on_call[f.qual](self, st, c, env)
            return c.apply(self, st, env)
        return self.inline(f, args, kw, st)

    def inline(self, f, args, kw, st):
        if self.depth > 25:
            raise Unsupported("call depth (recursion?) at " + f.qual)
        env = self.bind(f, args, kw, st)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsupported("generator " + f.qual)
        if not plain(f.node, f.cls is not None):
            raise Unsupported("decorated function " + f.qual)
        self.used.add(f.qual)
        self.depth += 1
        saved_env, saved_fn = st.env, st.fn
        saved_pend = self.pend
        self.pend = []
        s = st.copy()
        s.env = env
        s.fn = f
        base = s.copy()
        try:
            n, ex = self.exec_block(f.node.body, s)
        finally:
            self.depth -= 1
            self.pend = saved_pend
        rets = []
        if n is not None:
            rets.append((n, None))
        raises = []
        for x in ex:
            if x.kind == "return":
                rets.append((x.st, x.val))
            elif x.kind == "raise":
                x.st.env, x.st.fn = saved_env, saved_fn
                raises.append(x)
            else:
                raise Unsupported("break outside loop")
        for x in raises:
            self.pend.append(x)
        if not rets:
            # always raises
            st.add(False)
            if len(raises) >= 1:
                last = raises[-1]
                self.pend.remove(last)
                st.heap, st.pc, st.known, st.ghost = last.st.heap, last.st.pc, last.st.known, last.st.ghost
                raise PyRaise(last.val, last.where)
            raise PyRaise("AssertionError", "no return from " + f.qual)
        ms, mv = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            br = [c for c, b in s2.pc[len(base.pc):] if b]
            cond = land(*br)
            if cond is True:
                ms, mv = s2, v2
                continue
            ms.env = {}
            s2e = s2.copy()
            s2e.env = {}
            bb = base.copy()
            bb.env = {}
            mv = merge_value(cond, v2, mv)
            ms = self.merge_states(bb, cond, s2e, ms)
        st.heap, st.pc, st.known, st.ghost = ms.heap, ms.pc, ms.known, ms.ghost
        st.env, st.fn = saved_env, saved_fn
        return mv


def decorator(node):
    d = node.decorator_list
    return d[0].id if len(d) == 1 and isinstance(d[0], ast.Name) else None


def plain(node, method):
    """no decorator but the ones that only say how a method is bound"""
    return not node.decorator_list or method and decorator(node) in ("staticmethod", "classmethod", "property")


DRAWING = ("matplotlib", "plotly")

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//",
       ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
