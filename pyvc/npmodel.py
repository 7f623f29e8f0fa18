"""Assumed contracts: Python builtins, numpy, scipy and the standard library.

Every entry states what the generator assumes about a function it does not
execute.  Which of them a proof used is listed in the evidence.
"""
from fractions import Fraction
import z3
from .values import *
from .terms import *

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
MODELS = {}
METHODS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def method(kind, *names):
    def deco(f):
        for k in kind.split("|"):
            for n in names:
                METHODS[(k, n)] = f
        return f
    return deco


# ------------------------------------------------------------------ keys
def key_of(E, v, depth=0):
    if is_z(v):
        E.terms[v.get_id()] = v
        return ("z", v.get_id())
    if v is None or isinstance(v, (bool, str)):
        return (type(v).__name__, v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, Fraction):
        return ("q", v)
    if isinstance(v, Tup):
        return ("tup",) + tuple(key_of(E, x, depth) for x in v.items)
    if isinstance(v, Rec):
        return ("rec", id(v.cls)) + tuple((k, key_of(E, v.f[k], depth)) for k in sorted(v.f))
    if isinstance(v, Alt):
        return ("alt",) + tuple((key_of(E, g), key_of(E, x, depth)) for g, x in v.alts)
    if isinstance(v, Seq):
        return seq_key(E, v, depth)
    if isinstance(v, Table):
        return ("table",) + tuple(seq_key(E, c, depth) for c in v.cols)
    if isinstance(v, Grid):
        return ("grid", key_of(E, v.n), key_of(E, v.m), key_of(E, v.at(K0[depth], K0[depth + 1])))
    E.keep.append(v)
    return ("obj", id(v))


def seq_key(E, s, depth=0):
    if s.tok is not None and depth == 0:
        return s.tok
    if s.items is not None:
        r = ("items",) + tuple(key_of(E, x, depth) for x in s.items)
    else:
        r = ("seq", key_of(E, s.n), key_of(E, s.at(K0[depth]), depth + 1))
    if depth == 0:
        s.tok = r
        E.keep.append(s)
    return r


def canon_term(v):
    """simplified form of a term, so that keys do not depend on spelling"""
    if is_z(v):
        return unz_keep(z3.simplify(v, arith_lhs=False, som=False))
    return v


def cached(E, key, mk):
    """the object of a key.  Under loop variables the symbols are functions of those
    that occur in the key; the same key over other loop variables names the same symbols"""
    r = E.cache.get(key)
    if r is None:
        ck = canon_key(E, key)
        old = E.canon.get(ck) if ck is not None else None
        E.rec.append(list(old) if old is not None else [])
        E.replay.append(old is not None)
        try:
            r = E.cache[key] = mk()
        finally:
            rec = E.rec.pop()
            E.replay.pop()
        if ck is not None and old is None:
            E.canon[ck] = rec
    return r


def canon_key(E, key):
    """the key with the loop variables that occur in it replaced by numbered ones"""
    if not E.binders:
        return None
    bs = [b for b, _ in E.binders]
    used = {}

    def occ(i):
        return consts_of(E.terms[i])

    def collect(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == "z" and isinstance(k[1], int):
                if k[1] in E.terms:
                    o = occ(k[1])
                    for j, b in enumerate(bs):
                        if b.decl().name() in o:
                            used[j] = b
                return
            for x in k:
                collect(x)
    collect(key)
    if not used:
        return None
    pairs = [(used[j], z3.Const("?B%d" % n, used[j].sort())) for n, j in enumerate(sorted(used))]
    ids = {b.decl().name() for b, _ in pairs}

    def sub(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == "z" and isinstance(k[1], int):
                t = E.terms.get(k[1])
                if t is None or not (occ(k[1]) & ids):
                    return k
                u = z3.substitute(t, *pairs)
                E.terms[u.get_id()] = u
                return ("z", u.get_id())
            return tuple(sub(x) for x in k)
        return k
    return ("canon", len(pairs), sub(key))


def rng(k, n):
    return [zint(k) >= 0, zint(k) < zint(n)]


def var(name="k"):
    return z3.Int(fresh_name(name))


def vars_patterns(e, v):
    from .loops import pick_patterns
    if not is_z(e):
        return []
    return pick_patterns(e, v)


def zz(f):
    return f if not isinstance(f, bool) else z3.BoolVal(f)


# ------------------------------------------------------------------ index spaces
def identity_dom(E, n):
    def mk():
        return Dom(("id", key_of(E, n)), n, n, lambda k: k, lambda r: r,
                   lambda r: land(compare(">=", r, 0), compare("<", r, n)), True)
    return cached(E, ("iddom", key_of(E, n)), mk)


def match_term(a, b, v, found):
    """b == a[v := t] for one t"""
    if z3.eq(a, v):
        if found:
            return z3.eq(found[0], b)
        found.append(b)
        return True
    if z3.eq(a, b):
        return not occurs(v, a)
    if not (z3.is_app(a) and z3.is_app(b)) or not z3.eq(a.decl(), b.decl()) or a.num_args() != b.num_args() or a.num_args() == 0:
        return False
    return all(match_term(x, y, v, found) for x, y in zip(a.children(), b.children()))


def self_instances(m, v):
    """terms t such that m compares something of v with the same of t"""
    out = []

    def walk(e):
        if z3.is_quantifier(e):
            return
        if z3.is_eq(e):
            x, y = e.children()
            for p, q in ((x, y), (y, x)):
                f = []
                if occurs(v, p) and not occurs(v, q) and match_term(p, q, v, f) and f and not any(z3.eq(f[0], o) for o in out):
                    out.append(f[0])
        elif z3.is_and(e):
            for c in e.children():
                walk(c)
    walk(m)
    return out


def enum_dom(E, rn, member, key, deps, upper=None, perm_of=None):
    """increasing enumeration of {r | member(r)}"""
    def mk():
        N_, nn = E.fresh_fun("N", [], I, deps)
        SIG, ns = E.fresh_fun("sig", [I], I, deps)
        RHO, nr = E.fresh_fun("rho", [I], I, deps)
        N = N_()
        E.nonneg |= {ns, nr}
        keys = [nn, ns, nr]
        k, l, r = var(), var("l"), var("r")
        E.fact(z3.And(N >= 0, N <= zint(rn if upper is None else upper)), [nn], "filter")
        if upper is not None:
            E.fact(N <= zint(rn), [nn], "filter")
        s = SIG(k)
        E.fact(z3.Implies(z3.And(*rng(k, N)), zz(land(s >= 0, s < zint(rn), member(s), RHO(s) == k))), keys, "filter",
               vars=[k], pats=[s])
        m = zz(land(r >= 0, r < zint(rn), member(r)))
        E.fact(z3.Implies(m, z3.And(RHO(r) >= 0, RHO(r) < N, SIG(RHO(r)) == r)), keys, "filter complete",
               vars=[r], pats=[RHO(r)] + vars_patterns(m, r), carrier=N)
        # the predicate compares with one of the elements themselves: that one is selected
        for t in self_instances(m, r):
            mt = z3.substitute(m, (r, t))
            E.fact(z3.Implies(mt, z3.And(RHO(t) >= 0, RHO(t) < N, SIG(RHO(t)) == t)), keys, "filter complete", pats=[N])
        E.fact(z3.Implies(z3.And(k >= 0, k < l, l < N), SIG(k) < SIG(l)), keys, "filter order",
               vars=[k, l], pats=[(SIG(k), SIG(l))])
        d = Dom(key, rn, N, lambda q: SIG(zint(q)), lambda q: RHO(zint(q)),
                lambda q: land(compare(">=", q, 0), compare("<", q, rn), member(q)), True)
        return d
    return cached(E, key, mk)


def range_of(p, k, n):
    """(lo, hi) such that for 0 <= k < n: p(k) iff lo <= k < hi; lo a number"""
    if z3.is_and(p):
        lo, hi = 0, n
        for c in p.children():
            b = range_of(c, k, n)
            if b is None or (b[1] is not n and hi is not n):
                return None
            lo, hi = max(lo, b[0]), hi if b[1] is n else b[1]
        return lo, hi
    neg = z3.is_not(p)
    q = p.arg(0) if neg else p
    if not z3.is_app(q) or q.num_args() != 2 or q.arg(0).sort() != I:
        return None
    x, y = q.children()
    op = q.decl().kind()
    flip = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}
    no = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT}
    if z3.eq(y, k):
        x, y, op = y, x, flip.get(op, op)
    if not z3.eq(x, k) or occurs(k, y):
        return None
    y = z3.simplify(y)
    c = y.as_long() if z3.is_int_value(y) else None
    if op == z3.Z3_OP_EQ:
        if neg and c == 0:
            return 1, n
        if neg and same(arith("-", n, 1), c if c is not None else y):
            return 0, arith("-", n, 1)
        return None
    if neg:
        op = no.get(op)
    if op in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        return None if c is None else (max(0, c + (op == z3.Z3_OP_GT)), n)
    if op in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        hi = y if c is None else c
        return 0, arith("+", hi, 1) if op == z3.Z3_OP_LE else hi
    return None


def range_dom(E, n, lo, hi):
    def mk():
        top = hi if hi is n or same(hi, n) else ite(compare("<", hi, n), hi, n)
        m = arith("-", top, lo)
        m = ite(compare(">", m, 0), m, 0)
        return Dom(("range", key_of(E, n), lo, key_of(E, hi)), n, m, lambda k: arith("+", k, lo), lambda r: arith("-", r, lo),
                   lambda r: land(compare(">=", r, lo), compare("<", r, top)), True)
    return cached(E, ("rangedom", key_of(E, n), lo, key_of(E, hi)), mk)


def filter_dom(E, n, pred):
    p = pred(K0[0])
    p = canon_term(p)
    if p is True:
        return identity_dom(E, n)
    b = range_of(p, K0[0], n) if is_z(p) else None
    if b is not None:
        return range_dom(E, n, *b)
    key = ("fd", key_of(E, n), key_of(E, p))
    d = enum_dom(E, n, pred, key, [x for x in (p, n) if is_z(x)])
    return d


def filter_root(E, dom, pred):
    p = canon_term(pred(K0[0]))
    if p is True:
        return dom
    E.keep.append(dom)
    key = ("fr", id(dom), key_of(E, p))
    mem = lambda r: land(dom.member(r), pred(r))
    m0 = mem(K0[0])
    d = enum_dom(E, dom.rn, mem, key, [x for x in (m0, dom.rn, dom.n) if is_z(x)], upper=dom.n)
    d.parent = (dom, pred)
    return d


def compose_pos(E, seq, d):
    """d: index space over the positions of seq -> index space over seq's root"""
    s = seq.dom
    if s is None:
        return d
    if d.tok[0] == "id" and d.rn is not None and same(d.n, seq.n):
        return s
    E.keep.append((s, d))

    def mk():
        r = Dom(("comp", id(s), id(d)), s.rn, d.n,
                lambda k: s.src(d.src(k)),
                (lambda q: d.inv(s.inv(q))),
                (lambda q: land(s.member(q), d.member(s.inv(q)))), s.incr and d.incr)
        r.parent = (s, d)
        return r
    return cached(E, ("comp", id(s), id(d)), mk)


class Flat:
    pass


def flat_dom(E, n, lenfn):
    L0 = canon_term(lenfn(K0[0]))
    key = ("flat", key_of(E, n), key_of(E, L0))
    deps = [x for x in (n, L0) if is_z(x)]

    def mk():
        f = Flat()
        ROW, a = E.fresh_fun("row", [I], I, deps)
        COL, b = E.fresh_fun("col", [I], I, deps)
        FL, c = E.fresh_fun("flat", [I, I], I, deps)
        N_, d = E.fresh_fun("NF", [], I, deps)
        N = N_()
        keys = [a, b, c, d]
        p, q, r, cc = var("p"), var("q"), var("r"), var("c")
        L = lambda k: zint(lenfn(k))
        E.fact(N >= 0, [d], "flat")
        E.fact(z3.Implies(z3.And(*rng(p, N)), z3.And(ROW(p) >= 0, ROW(p) < zint(n), COL(p) >= 0, COL(p) < L(ROW(p)),
                                                   FL(ROW(p), COL(p)) == p)), keys, "flat", vars=[p], pats=[ROW(p), COL(p)])
        E.fact(z3.Implies(z3.And(r >= 0, r < zint(n), cc >= 0, cc < L(r)),
                        z3.And(FL(r, cc) >= 0, FL(r, cc) < N, ROW(FL(r, cc)) == r, COL(FL(r, cc)) == cc)),
               keys, "flat", vars=[r, cc], pats=[FL(r, cc)])
        E.fact(z3.Implies(z3.And(p >= 0, p < q, q < N), z3.Or(ROW(p) < ROW(q), z3.And(ROW(p) == ROW(q), COL(p) < COL(q)))),
               keys, "flat order", vars=[p, q], pats=[(ROW(p), ROW(q)), (COL(p), COL(q))])
        # lexicographic successor order the other way round
        r2, c2 = var("r"), var("c")
        E.fact(z3.Implies(z3.And(r >= 0, r < zint(n), cc >= 0, cc < L(r), r2 >= 0, r2 < zint(n), c2 >= 0, c2 < L(r2),
                               z3.Or(r < r2, z3.And(r == r2, cc < c2))), FL(r, cc) < FL(r2, c2)),
               keys, "flat order", vars=[r, cc, r2, c2], pats=[(FL(r, cc), FL(r2, c2))])
        if not occurs(K0[0], to_z(L0)):
            E.fact(N == zint(n) * zint(lenfn(0)), [d], "flat size")
            E.fact(z3.Implies(z3.And(r >= 0, r < zint(n), cc >= 0, cc < L(r)), FL(r, cc) == r * L(0) + cc), [c], "flat", vars=[r, cc], pats=[FL(r, cc)])
        else:
            E.fact((N == 0) == z3.ForAll([r], z3.Implies(z3.And(*rng(r, n)), L(r) <= 0)), [d], "flat empty")
        f.row, f.col, f.flat, f.N = (lambda k: ROW(zint(k))), (lambda k: COL(zint(k))), (lambda r, c: FL(zint(r), zint(c))), N
        f.n, f.len = n, lenfn
        f.dom = identity_dom(E, N)
        E.flats.append(f)
        return f
    return cached(E, key, mk)


# ------------------------------------------------------------------ elementwise
def sample_dt(E, v):
    return E.guess_dt([v])


def lift1(f, s, dt=None):
    if isinstance(s, Table):
        return Table([lift1(f, c, dt) for c in s.cols], dt or s.dt)
    if isinstance(s, Grid):
        return Grid(s.n, s.m, lambda i, j: f(s.at(i, j)), dt or s.dt)
    if s.items is not None:
        its = [f(x) for x in s.items]
        return Seq(s.n, items=its, dt=dt or _dt(its))
    if dt is None:
        dt = _dt([f(s.at(K0[10]))])
    r = Seq(s.n, lambda k: f(s.at(k)), dt)
    if s.dom is not None and s.g is not None:
        r.dom, r.g = s.dom, (lambda q: f(s.g(q)))
    return r


def _dt(items):
    d = set()
    for x in items:
        if isinstance(x, bool) or (is_z(x) and z3.is_bool(x)):
            d.add("b")
        elif is_real(x):
            d.add("f")
        elif is_intlike(x):
            d.add("i")
        elif is_strv(x):
            d.add("s")
        else:
            d.add("o")
    if len(d) == 1:
        return d.pop()
    if d and d <= {"i", "f"}:
        return "f"
    return "o" if d else "f"


def lift2(E, st, f, x, y, dt=None):
    sx, sy = is_scalar(x), is_scalar(y)
    if sx and sy:
        return f(x, y)
    if sy:
        return lift1(lambda a: f(a, y), x, dt)
    if sx:
        return lift1(lambda b: f(x, b), y, dt)
    if isinstance(x, Seq) and isinstance(y, Seq):
        if x.items is not None and y.items is not None and len(x.items) == len(y.items):
            its = [f(a, b) for a, b in zip(x.items, y.items)]
            return Seq(x.n, items=its, dt=dt or _dt(its))
        if isinstance(x.n, int) and x.n == 1 and not same(x.n, y.n):
            a0 = x.at(0)
            return lift1(lambda b: f(a0, b), y, dt)
        if isinstance(y.n, int) and y.n == 1 and not same(x.n, y.n):
            b0 = y.at(0)
            return lift1(lambda a: f(a, b0), x, dt)
        if dt is None:
            dt = _dt([f(x.at(K0[10]), y.at(K0[10]))])
        eq = compare("==", x.n, y.n)
        if E.quick(st, eq):
            r = Seq(x.n, lambda k: f(x.at(k), y.at(k)), dt)
            if x.dom is not None and x.dom is y.dom and x.g is not None and y.g is not None:
                r.dom, r.g = x.dom, (lambda q: f(x.g(q), y.g(q)))
            return r
        one = lor(eq, compare("==", x.n, 1), compare("==", y.n, 1))
        E.require(st, one, "ValueError", "shapes do not match")
        if E.quick(st, eq):
            return Seq(x.n, lambda k: f(x.at(k), y.at(k)), dt)
        n = merge_value(compare("==", x.n, 1), y.n, x.n)
        ix = lambda k: merge_value(land(compare("==", x.n, 1), lnot(eq)), 0, k)
        iy = lambda k: merge_value(land(compare("==", y.n, 1), lnot(eq)), 0, k)
        return Seq(n, lambda k: f(x.at(ix(k)), y.at(iy(k))), dt)
    if isinstance(x, Table) and isinstance(y, Table) and len(x.cols) == len(y.cols):
        return Table([lift2(E, st, f, a, b, dt) for a, b in zip(x.cols, y.cols)], dt or x.dt)
    if isinstance(x, Table) and len(x.cols) == 1 and isinstance(y, Seq):
        c = x.cols[0]
        return Grid(c.n, y.n, lambda i, j: f(c.at(i), y.at(j)), dt or "f")
    if isinstance(y, Table) and len(y.cols) == 1 and isinstance(x, Seq):
        c = y.cols[0]
        return Grid(c.n, x.n, lambda i, j: f(x.at(j), c.at(i)), dt or "f")
    if isinstance(x, Grid) and isinstance(y, Seq):
        E.require(st, compare("==", x.m, y.n), "ValueError", "broadcast")
        return Grid(x.n, x.m, lambda i, j: f(x.at(i, j), y.at(j)), dt or x.dt)
    if isinstance(y, Grid) and isinstance(x, Seq):
        E.require(st, compare("==", y.m, x.n), "ValueError", "broadcast")
        return Grid(y.n, y.m, lambda i, j: f(x.at(j), y.at(i, j)), dt or y.dt)
    if isinstance(x, Grid) and isinstance(y, Grid):
        return Grid(x.n, x.m, lambda i, j: f(x.at(i, j), y.at(i, j)), dt or x.dt)
    if isinstance(x, Table) and isinstance(y, Seq) and isinstance(y.n, int) and y.n == len(x.cols):
        return Table([lift1(lambda a, b=y.at(j): f(a, b), c, dt) for j, c in enumerate(x.cols)], dt or x.dt)
    if isinstance(y, Table) and isinstance(x, Seq) and isinstance(x.n, int) and x.n == len(y.cols):
        return Table([lift1(lambda b, a=x.at(j): f(a, b), c, dt) for j, c in enumerate(y.cols)], dt or y.dt)
    raise Unsupported("broadcast of %s and %s" % (type(x).__name__, type(y).__name__))


def concat_seq(E, st, a, b):
    if isinstance(a, Table) or isinstance(b, Table):
        if isinstance(a, Table) and isinstance(b, Table) and len(a.cols) == len(b.cols):
            return Table([concat_seq(E, st, p, q) for p, q in zip(a.cols, b.cols)], a.dt)
        raise Unsupported("concatenation of tables")
    if isinstance(a.n, int) and a.n == 0:
        return b
    if isinstance(b.n, int) and b.n == 0:
        return a
    if a.items is not None and b.items is not None:
        its = a.items + b.items
        return Seq(len(its), items=its, dt=_dt(its))
    n = arith("+", a.n, b.n)
    dt = a.dt if a.dt == b.dt else ("f" if {a.dt, b.dt} <= {"i", "f"} else "o")
    an = a.n

    def at(k):
        c = compare("<", k, an)
        if isinstance(c, bool):
            return a.at(k) if c else b.at(arith("-", k, an))
        return merge_value(c, a.at(k), b.at(arith("-", k, an)))
    return Seq(n, at, dt)


def repeat_seq(E, st, s, n):
    if isinstance(n, int) and s.items is not None:
        return Seq(len(s.items) * max(n, 0), items=s.items * max(n, 0), dt=s.dt)
    if isinstance(s.n, int) and s.n == 1:
        v = s.at(0)
        nn = n if isinstance(n, int) and n >= 0 else (n if E.quick(st, compare(">=", n, 0)) else merge_value(compare(">", n, 0), n, 0))
        return Seq(nn, lambda k: v, s.dt)
    raise Unsupported("repetition of a list")


def slice_seq(E, st, s, start, n):
    if isinstance(start, int) and start == 0 and same(n, s.n):
        return s
    if isinstance(start, int) and isinstance(n, int) and s.items is not None:
        its = s.items[start:start + n]
        return Seq(len(its), items=its, dt=s.dt)
    r = Seq(n, lambda k: s.at(arith("+", k, start)), s.dt)
    if s.dom is not None and s.g is not None:
        d = s.dom
        E.keep.append(d)
        key = ("slice", id(d), key_of(E, start), key_of(E, n))

        def mk():
            nd = Dom(key, d.rn, n, lambda k: d.src(arith("+", k, start)),
                     (lambda q: arith("-", d.inv(q), start)),
                     (lambda q: land(d.member(q), compare(">=", d.inv(q), start), compare("<", d.inv(q), arith("+", start, n)))), d.incr)
            nd.parent = (d, None)
            return nd
        r.dom, r.g = cached(E, key, mk), s.g
        r.extra = s.extra if s.extra == "index" else None
    return r


def reverse_seq(E, s):
    if s.items is not None:
        return Seq(s.n, items=s.items[::-1], dt=s.dt)
    n = s.n
    r = Seq(n, lambda k: s.at(arith("-", arith("-", n, 1), k)), s.dt)
    if s.dom is not None and s.g is not None:
        d = s.dom
        E.keep.append(d)
        key = ("rev", id(d))

        def mk():
            nd = Dom(key, d.rn, d.n, lambda k: d.src(arith("-", arith("-", n, 1), k)),
                     (lambda q: arith("-", arith("-", n, 1), d.inv(q))), d.member, False)
            nd.parent = (d, None)
            return nd
        r.dom, r.g = cached(E, key, mk), s.g
        r.extra = s.extra if s.extra == "index" else None
    return r


def index_seq(E, d):
    """index array enumerating the positions of d"""
    r = Seq(d.n, None, "i", dom=d, g=lambda q: q)
    r.extra = "index"
    return r


def is_index(s):
    return isinstance(s, Seq) and s.extra == "index" and s.dom is not None


def fancy(E, st, a, idx):
    """a[idx] for an integer array idx"""
    if isinstance(a, Table):
        return Table([fancy(E, st, c, idx) for c in a.cols], a.dt)
    if is_index(idx) and same_n(E, st, idx.dom.rn, a.n):
        d = idx.dom
        if a.dom is not None and a.g is not None:
            return Seq(d.n, None, a.dt, dom=compose_pos(E, a, d), g=a.g)
        r = Seq(d.n, None, a.dt, dom=d, g=a.at)
        return r
    if idx.items is not None:
        its = [a.at(norm_index(E, st, a.n, x)) for x in idx.items]
        return Seq(len(its), items=its, dt=a.dt)
    # general: every index has to be in range
    k = var()
    v = zint(idx.at(k))
    inr = z3.Implies(z3.And(*rng(k, idx.n)), z3.And(v >= -zint(a.n), v < zint(a.n)))
    if not E.quick(st, inr, vars=[k]):
        E.require(st, z3.ForAll([k], inr), "IndexError", "index array out of range")
    nonneg = E.quick(st, z3.Implies(z3.And(*rng(k, idx.n)), v >= 0), vars=[k])

    def at(q):
        i = idx.at(q)
        if not nonneg:
            i = merge_value(compare("<", i, 0), arith("+", i, a.n), i)
        return a.at(i)
    r = Seq(idx.n, at, a.dt)
    if idx.dom is not None and idx.g is not None:
        r.dom = idx.dom
        r.g = lambda q: a.at(idx.g(q) if nonneg else merge_value(compare("<", idx.g(q), 0), arith("+", idx.g(q), a.n), idx.g(q)))
    return r


def same_n(E, st, a, b):
    return same(a, b) or E.quick(st, compare("==", a, b))


def mask_seq(E, st, a, m):
    """a[m] for a boolean array m"""
    if isinstance(a, Table):
        return Table([mask_seq(E, st, c, m) for c in a.cols], a.dt)
    if not same_n(E, st, a.n, m.n):
        E.require(st, compare("==", a.n, m.n), "IndexError", "boolean index of another length")
    if a.items is not None and m.items is not None and all(isinstance(x, bool) for x in m.items):
        its = [x for x, b in zip(a.items, m.items) if b]
        return Seq(len(its), items=its, dt=a.dt)
    bm = lambda v: v if isinstance(v, bool) or z3.is_bool(v) else compare("!=", v, 0)
    if a.dom is not None and a.g is not None:
        if m.dom is a.dom and m.g is not None and a.dom.incr:
            d = filter_root(E, a.dom, lambda q: bm(m.g(q)))
            return Seq(d.n, None, a.dt, dom=d, g=a.g)
        d = filter_dom(E, a.n, lambda q: bm(m.at(q)))
        return Seq(d.n, None, a.dt, dom=compose_pos(E, a, d), g=a.g)
    d = filter_dom(E, a.n, lambda q: bm(m.at(q)))
    return Seq(d.n, None, a.dt, dom=d, g=a.at)


def nonneg(E, i):
    """i is a position some enumeration, sort or search gave: never negative, whatever its argument
    (outside its domain such a function may be taken to be 0)"""
    return z3.is_app(i) and i.decl().name() in E.nonneg


def norm_index(E, st, n, i, exc="IndexError"):
    if isinstance(i, bool) or i is None or isinstance(i, (Fraction, str)):
        raise PyRaise("IndexError" if exc == "IndexError" else exc, "index of a wrong type")
    if isinstance(i, int):
        if i >= 0:
            E.require(st, compare("<", i, n), exc, "index %d" % i)
            return i
        E.require(st, compare(">=", n, -i), exc, "index %d" % i)
        return arith("+", n, i)
    if not is_z(i) or i.sort() != I:
        if is_z(i) and i.sort() == R:
            raise PyRaise("IndexError", "index is a float")
        raise Unsupported("index %r" % (i,))
    if nonneg(E, i) or E.quick(st, i >= 0):
        E.require(st, True if E.quick(st, i < zint(n)) else i < zint(n), exc, "index")
        return i
    E.require(st, z3.And(i >= -zint(n), i < zint(n)), exc, "index")
    if E.quick(st, i < 0):
        return arith("+", n, i)
    return merge_value(i < 0, arith("+", n, i), i)


def clip(E, st, v, n):
    """slice bound"""
    if isinstance(v, (Fraction,)) or is_real(v):
        raise PyRaise("TypeError", "slice bound is a float")
    if isinstance(v, int):
        if v >= 0:
            if isinstance(n, int):
                return min(v, n)
            if v == 0 or E.quick(st, compare("<=", v, n)):
                return v
            return merge_value(compare("<=", v, n), v, n)
        w = arith("+", n, v)
        if E.quick(st, compare(">=", w, 0)):
            return w
        return merge_value(compare(">=", w, 0), w, 0)
    v = zint(v)
    if not E.quick(st, v >= 0):
        v = zint(merge_value(v < 0, merge_value(v + zint(n) >= 0, v + zint(n), 0), v))
    if not E.quick(st, v <= zint(n)):
        v = zint(merge_value(v <= zint(n), v, n))
    return v


def slice_bounds(E, st, s, n):
    a = 0 if s.a is None else clip(E, st, s.a, n)
    b = n if s.b is None else clip(E, st, s.b, n)
    ln = arith("-", b, a)
    if is_z(ln):
        ln = canon_term(ln)
    if isinstance(ln, int):
        return a, max(ln, 0)
    if not E.quick(st, ln >= 0):
        ln = merge_value(ln >= 0, ln, 0)
    return a, ln


def any_term(E, n, pred):
    """exists k < n with pred(k)"""
    if isinstance(n, int) and n <= 30:
        return lor(*[pred(k) for k in range(n)])
    p = canon_term(pred(K0[0]))
    if p is False:
        return False
    key = ("any", key_of(E, n), key_of(E, p))

    def mk():
        deps = [x for x in (n, p) if is_z(x)]
        b_, nb = E.fresh_fun("any", [], B, deps)
        w_, nw = E.fresh_fun("anyw", [], I, deps)
        b, w = b_(), w_()
        E.fact(z3.Implies(b, zz(land(w >= 0, w < zint(n), pred(w)))), [nb, nw], "any")
        k = var()
        body = pred(k)
        E.fact(z3.Implies(zz(land(k >= 0, k < zint(n), body)), b), [nb], "any", vars=[k], pats=vars_patterns(zz(body), k))
        return b
    return cached(E, key, mk)


def all_term(E, n, pred):
    return lnot(any_term(E, n, lambda k: lnot(pred(k))))


def in_fun(E, s):
    """membership predicate of a sequence"""
    key = ("in", seq_key(E, s))

    def mk():
        e = to_z(s.at(K0[0]))
        deps = [e, zint(s.n)]
        F, nf = E.fresh_fun("in", [e.sort()], B, deps)
        W, nw = E.fresh_fun("inw", [e.sort()], I, deps)
        x = z3.Const(fresh_name("x"), e.sort())
        E.fact(z3.Implies(F(x), z3.And(W(x) >= 0, W(x) < zint(s.n), to_z(s.at(W(x))) == x)), [nf, nw], "in", vars=[x], pats=[F(x)])
        k = var()
        ek = to_z(s.at(k))
        E.fact(z3.Implies(z3.And(*rng(k, s.n)), F(ek)), [nf], "in", vars=[k], pats=vars_patterns(ek, k) or [F(ek)])
        return F, W, e.sort()
    return cached(E, key, mk)


def contains(E, st, c, x):
    """x in c"""
    c = E.val(st, c)
    if isinstance(c, Opq) or isinstance(x, Opq):
        return E.fresh("in", B)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if is_strv(c):
        f = z3.Function("substring", Str, Str, B)
        return f(zstr(x), zstr(c))
    if isinstance(c, Ref) and isinstance(st.heap[c.id], HDict):
        d = E.sym_dict(st.heap[c.id])
        return d.has(x)
    s = E.seq_raw(st, c)
    if isinstance(s, Opq) or (isinstance(s, Seq) and s.log is not None):
        return E.fresh("in", B)
    if not isinstance(s, Seq):
        raise Unsupported("in 2-d array")
    if s.items is not None:
        return lor(*[compare("==", x, y) for y in s.items])
    F, W, srt = in_fun(E, s)
    if not is_scalar(x) or x is None:
        raise Unsupported("membership of %r" % (x,))
    if srt == R:
        return F(zreal(x)) if is_number(x) else False
    if srt == I:
        if is_real(x):
            return land(z3.IsInt(zreal(x)), F(z3.ToInt(zreal(x))))
        return F(zint(x)) if is_number(x) else False
    if srt == Str:
        return F(zstr(x)) if is_strv(x) else False
    return F(to_z(x))


# ------------------------------------------------------------------ order
def argsort_dom(E, s, kind="argsort"):
    key = (kind, seq_key(E, s))

    def mk():
        n = s.n
        e0 = to_z(s.at(K0[0]))
        deps = [e0, zint(n)]
        PI, np_ = E.fresh_fun("perm", [I], I, deps)
        PV, nv = E.fresh_fun("pinv", [I], I, deps)
        E.nonneg |= {np_, nv}
        keys = [np_, nv]
        k, l, r = var(), var("l"), var("r")
        E.fact(z3.Implies(z3.And(*rng(k, n)), z3.And(PI(k) >= 0, PI(k) < zint(n), PV(PI(k)) == k)), keys, "perm", vars=[k], pats=[PI(k)])
        E.fact(z3.Implies(z3.And(*rng(r, n)), z3.And(PV(r) >= 0, PV(r) < zint(n), PI(PV(r)) == r)), keys, "perm",
               vars=[r], pats=[PV(r)] + vars_patterns(to_z(s.at(r)), r))
        E.fact(z3.Implies(z3.And(k >= 0, k <= l, l < zint(n)), zreal(s.at(PI(k))) <= zreal(s.at(PI(l)))) if is_number(e0)
               else z3.BoolVal(True), keys, "sorted", vars=[k, l], pats=[(PI(k), PI(l))])
        d = Dom(key, n, n, lambda q: PI(zint(q)), lambda q: PV(zint(q)),
                lambda q: land(compare(">=", q, 0), compare("<", q, n)), False)
        E.perms.append(d)
        return d
    if s.items is not None and len(s.items) <= 1:
        return identity_dom(E, len(s.items))
    return cached(E, key, mk)


def sort_seq(E, st, s):
    if s.items is not None and len(s.items) <= 1:
        return s
    if s.items is not None and all(is_py_num(x) for x in s.items):
        return Seq(s.n, items=sorted(s.items), dt=s.dt)
    if is_index(s):
        d = s.dom
        if d.incr:
            return s
        E.keep.append(d)
        key = ("sortidx", id(d))
        m0 = d.member(K0[0])
        nd = enum_dom(E, d.rn, d.member, key, [x for x in (m0, d.rn, d.n) if is_z(x)])
        if ("sortidxn", id(d)) not in E.cache:
            E.cache[("sortidxn", id(d))] = True
            E.fact(zint(nd.n) == zint(d.n), [zint(nd.n).decl().name()], "same number")
        nd.parent = (d, None)
        return index_seq(E, nd)
    d = argsort_dom(E, s)
    return fancy(E, st, s, index_seq(E, d))


class Uniq:
    pass


def unique_of(E, st, s):
    """sorted distinct values"""
    if s.items is not None and len(s.items) <= 1:
        u = Uniq()
        u.n = len(s.items)
        u.seq = s
        u.index = index_seq(E, identity_dom(E, u.n))
        u.pos = lambda r: 0
        return u
    key = ("uniq", seq_key(E, s))

    def mk():
        u = Uniq()
        n = s.n
        e0 = to_z(s.at(K0[0]))
        num = is_number(e0)
        deps = [e0, zint(n)]
        N_, a = E.fresh_fun("nu", [], I, deps)
        IX, b = E.fresh_fun("ufirst", [I], I, deps)
        PO, c = E.fresh_fun("upos", [I], I, deps)
        W1_, d1 = E.fresh_fun("udup", [], I, deps)
        W2_, d2 = E.fresh_fun("udup", [], I, deps)
        N, W1, W2 = N_(), W1_(), W2_()
        keys = [a, b, c]
        k, l, r = var(), var("l"), var("r")
        v = lambda q: zreal(s.at(q)) if num else to_z(s.at(q))
        E.fact(z3.And(N >= 0, N <= zint(n), (N > 0) == (zint(n) > 0)), [a], "unique")
        E.fact(z3.Implies(z3.And(*rng(k, N)), z3.And(IX(k) >= 0, IX(k) < zint(n), PO(IX(k)) == k)), keys, "unique", vars=[k], pats=[IX(k)])
        E.fact(z3.Implies(z3.And(*rng(r, n)), z3.And(PO(r) >= 0, PO(r) < N, v(IX(PO(r))) == v(r), IX(PO(r)) <= r)), keys, "unique",
               vars=[r], pats=[PO(r)] + vars_patterns(v(r), r))
        if num:
            E.fact(z3.Implies(z3.And(k >= 0, k < l, l < N), v(IX(k)) < v(IX(l))), keys, "unique sorted", vars=[k, l], pats=[(IX(k), IX(l))])
        else:
            E.fact(z3.Implies(z3.And(k >= 0, k < l, l < N), v(IX(k)) != v(IX(l))), keys, "unique distinct", vars=[k, l], pats=[(IX(k), IX(l))])
        # as many distinct values as elements exactly when no two elements are equal
        E.fact(z3.Implies(z3.And(N == zint(n), k >= 0, k < l, l < zint(n)), v(k) != v(l)), [a], "unique count", vars=[k, l],
               pats=[(p, q) for p, q in zip(vars_patterns(v(k), k), vars_patterns(v(l), l))])
        E.fact(z3.Or(N == zint(n), z3.And(W1 >= 0, W1 < W2, W2 < zint(n), v(W1) == v(W2))), [a], "unique count")
        u.n = N
        u.first = lambda q: IX(zint(q))
        u.pos = lambda q: PO(zint(q))
        d = Dom(key, n, N, u.first, u.pos, lambda q: land(compare(">=", q, 0), compare("<", q, n), u.first(u.pos(q)) == zint(q)), False)
        u.dom = d
        u.index = index_seq(E, d)
        return u
    u = cached(E, key, mk)
    if getattr(u, "seq", None) is None:
        q = fancy(E, st, s, u.index)
        # the values are strictly increasing: an own dom, values in position order
        u.seq = q
    return u


def extremum(E, st, s, which, guard=True):
    """position of the first smallest ('min') or largest ('max') element"""
    if s.items is not None:
        its = s.items
        if len(its) == 1:
            return 0
        if all(is_py_num(x) for x in its):
            best = min(its) if which == "min" else max(its)
            return its.index(best)
    key = ("ext", which, seq_key(E, s))

    def mk():
        n = s.n
        e0 = to_z(s.at(K0[0]))
        W_, nw = E.fresh_fun("arg" + which, [], I, [e0, zint(n)])
        W = W_()
        E.nonneg.add(nw)
        k = var()
        v = lambda q: zreal(s.at(q))
        E.fact(z3.Implies(zint(n) > 0, z3.And(W >= 0, W < zint(n))), [nw], "extremum")
        le = (lambda a, b: a <= b) if which == "min" else (lambda a, b: a >= b)
        lt = (lambda a, b: a < b) if which == "min" else (lambda a, b: a > b)
        num = [z3.Not(zz(isnan(v(k))))] if which == "nanmax" else []
        E.fact(z3.Implies(z3.And(*rng(k, n), *num), z3.And(*[z3.Not(zz(isnan(v(W)))) for _ in num], le(v(W), v(k)), z3.Implies(k < W, lt(v(W), v(k))))), [nw], "extremum",
               vars=[k], pats=vars_patterns(v(k), k))
        return W
    return cached(E, key, mk)


def ext_value(E, st, s, which):
    E.require(st, compare(">", s.n, 0), "ValueError", which + " of an empty sequence")
    if s.items is not None:
        v = s.items[0]
        for x in s.items[1:]:
            v = merge_value(compare("<" if which == "min" else ">", x, v), x, v)
        return v
    w = extremum(E, st, s, which)
    for h in E.hooks.get("extremum", ()):
        h(E, st, s, which, w)
    return s.at(w)


# ------------------------------------------------------------------ sums
def sum_term(E, st, n, body):
    if isinstance(n, int) and n <= 30:
        r = 0
        for k in range(n):
            r = arith("+", r, body(k))
        return r
    b0 = canon_term(body(K0[0]))
    if is_py_num(b0) and b0 == 0:
        return b0
    z = to_z(b0)
    if z3.is_bool(z):
        return filter_dom(E, n, body).n
    key = ("sum", key_of(E, b0))

    def mk():
        srt = z.sort()
        S, ns = E.fresh_fun("sum", [I], srt, [z])
        k = var()
        E.fact(S(z3.IntVal(0)) == 0, [ns], "sum")
        E.fact(z3.Implies(k >= 0, S(k + 1) == S(k) + to_z(body(k))), [ns], "sum", vars=[k], pats=[S(k + 1)])
        if srt == R or srt == I:
            # sum of terms that are not negative is not negative
            j = var("j")
            nn = E.fresh("sumneg", I)
        rec = (S, body, [], z, [b for b, _ in E.binders if occurs(b, z)])
        E.sums[key] = rec
        return rec
    rec = cached(E, key, mk)
    if not any(same(n, m) for m in rec[2]):
        rec[2].append(n)
    return rec[0](zint(n))


def token(E, s, what="arr"):
    """constant that stands for the content of a sequence"""
    key = ("tok", seq_key(E, s))

    def mk():
        e0 = s.at(K0[0]) if s.items is None else None
        deps = [zint(s.n)]
        if s.items is None:
            deps.append(to_z(e0))
        else:
            deps += [to_z(x) for x in s.items]
        t_, nm = E.fresh_fun(what, [], Obj, deps)
        t = t_()
        E.toks[key] = (t, s, [b for b, _ in E.binders if any(occurs(b, d) for d in deps)])
        return t
    return cached(E, key, mk)


def seq_equal(E, a, b):
    """formula: two sequences have the same elements"""
    k = var()
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return zz(land(*[compare("==", x, y) for x, y in zip(a.items, b.items)]))
    ak, bk = a.at(k), b.at(k)
    if is_number(ak) and is_number(bk) and not (z3.is_bool(to_z(ak)) or z3.is_bool(to_z(bk))):
        e = zreal(ak) == zreal(bk)
    else:
        x, y = to_z(ak), to_z(bk)
        if x.sort() != y.sort():
            return z3.BoolVal(False)
        e = x == y
    ln = zz(compare("==", a.n, b.n))
    return z3.And(ln, z3.ForAll([k], z3.Implies(z3.And(*rng(k, a.n)), e)))


def finish_facts(E):
    """extensionality of tokens and sums that occur together"""
    out = []
    ts = list(E.toks.values())
    for i in range(len(ts)):
        for j in range(i):
            t1, s1, b1 = ts[i]
            t2, s2, b2 = ts[j]
            if b1 or b2:
                continue
            if ("ext", i, j) in E.cache:
                continue
            try:
                eq = seq_equal(E, s1, s2)
            except Unsupported:
                continue
            if z3.is_false(eq):
                continue
            E.cache[("ext", i, j)] = True
            out.append(("tok", z3.Implies(eq, t1 == t2), [t1.decl().name(), t2.decl().name()]))
    ss = list(E.sums.values())
    for i in range(len(ss)):
        for j in range(i):
            S1, f1, n1, z1, b1 = ss[i]
            S2, f2, n2, z2, b2 = ss[j]
            bs = list({b.get_id(): b for b in b1 + b2}.values())
            if len(bs) > 2:
                continue
            for a in n1:
                for b in n2:
                    kk = ("sext", i, j, key_of(E, a), key_of(E, b))
                    if kk in E.cache:
                        continue
                    E.cache[kk] = True
                    k = var()
                    x, y = f1(k), f2(k)
                    e = zreal(x) == zreal(y)
                    u, v = S1(zint(a)), S2(zint(b))
                    body = z3.Implies(z3.And(zint(a) == zint(b), z3.ForAll([k], z3.Implies(z3.And(*rng(k, a)), e))), zreal(u) == zreal(v))
                    if bs:
                        # sums that depend on enclosing variables
                        if not all(occurs(q, u) or occurs(q, v) for q in bs):
                            continue
                        try:
                            body = z3.ForAll(bs, body, patterns=[z3.MultiPattern(u, v)])
                        except z3.Z3Exception:
                            continue        # the lengths depend on conditions: no pattern to instantiate with
                    out.append(("sum", body, [u.decl().name(), v.decl().name()]))
    from .prover import Fact
    for why, f, keys in out:
        ft = Fact(f, keys, why)
        ft.need_all = True
        E.facts.append(ft)


# ------------------------------------------------------------------ attributes
def seq_attr(E, st, o, name):
    if isinstance(o, Rec) or is_strv(o):
        return None
    if is_number(o):
        if name in ("size", "ndim"):
            return 1 if name == "size" else 0
        if name == "T":
            return o
        return None
    if not E.is_seqlike(st, o):
        return None
    if E.kind(st, o) != "nd":
        return None
    s = E.seq_raw(st, o)
    if name == "T":
        if isinstance(s, Table):
            return Tup_nd([E.new_nd(st, c) for c in s.cols], E, st)
        if isinstance(s, Grid):
            return E.new_nd(st, Grid(s.m, s.n, lambda i, j: s.at(j, i), s.dt))
        return o
    if name == "shape":
        if isinstance(s, Table):
            return Tup([s.n, len(s.cols)])
        if isinstance(s, Grid):
            return Tup([s.n, s.m])
        return Tup([s.n])
    if name == "size":
        if isinstance(s, Table):
            return arith("*", s.n, len(s.cols))
        if isinstance(s, Grid):
            return arith("*", s.n, s.m)
        return s.n
    if name == "ndim":
        return 1 if isinstance(s, Seq) else 2
    if name == "dtype":
        return Opq("dtype")
    return None


def Tup_nd(items, E, st):
    """transposed table: sequence of columns"""
    return E.new_nd(st, Seq(len(items), items=[E.freeze(st, x) for x in items], dt="o"))


# ------------------------------------------------------------------ indexing
FULL = lambda i: isinstance(i, SliceV) and i.a is None and i.b is None and i.c is None


def concrete_int(E, v):
    return isinstance(v, int) and not isinstance(v, bool)


def getitem(E, st, o, i):
    o = E.val(st, o)
    if isinstance(o, Opq):
        return Opq(o.what + "[]")
    if isinstance(i, Opq):
        return Opq("item")
    if isinstance(o, str) or (is_z(o) and o.sort() == Str):
        return str_getitem(E, st, o, i)
    if o is None or is_number(o):
        raise PyRaise("TypeError", "not subscriptable")
    if isinstance(o, Stack3):
        if i == 0 or (isinstance(i, int) and i == 0):
            return E.new_nd(st, o.table)
        raise Unsupported("index of a 3-d array")
    if isinstance(o, Ref) and isinstance(st.heap[o.id], HDict):
        return dict_get(E, st, st.heap[o.id], i)
    if isinstance(o, Ref) and isinstance(st.heap[o.id], HObj):
        m = E.find_method(st.heap[o.id].cls, "__getitem__")
        if m is None:
            raise PyRaise("TypeError", "not subscriptable")
        return E.call(m, [o, i], {}, st)
    k = E.kind(st, o)
    s = E.seq_raw(st, o)
    if isinstance(s, Seq) and s.log is not None:
        return logged_get(E, st, o, s, i)
    if k in ("list", "tuple"):
        if isinstance(i, SliceV):
            if i.c is None or i.c == 1:
                a, n = slice_bounds(E, st, i, s.n)
                r = slice_seq(E, st, s, a, n)
            elif i.c == -1 and i.a is None and i.b is None:
                r = reverse_seq(E, s)
            else:
                raise Unsupported("slice step")
            if k == "tuple":
                return Tup(r.items) if r.items is not None else r
            return E.new_list(st, r)
        if isinstance(i, (Ref, Tup, Seq)):
            raise PyRaise("TypeError", "list indices must be integers")
        j = norm_index(E, st, s.n, i)
        return elem(E, st, s.at(j))
    # arrays
    if isinstance(s, Seq):
        if isinstance(i, Tup) and len(i.items) == 1:
            i = E.val(st, i.items[0])
        if isinstance(i, Tup):
            if any(x is None for x in i.items):
                raise Unsupported("newaxis")
            if s.n is not None and s.items is not None or s.dt == "o":
                v = getitem(E, st, o, i.items[0])
                return getitem(E, st, v, Tup(i.items[1:]) if len(i.items) > 2 else i.items[1])
            raise PyRaise("IndexError", "too many indices")
        if isinstance(i, SliceV):
            if i.c is None or (isinstance(i.c, int) and i.c == 1):
                a, n = slice_bounds(E, st, i, s.n)
                if isinstance(o, Ref) and s.dt != "o":
                    h = st.heap[o.id]
                    if isinstance(h, HView) and h.col is None:
                        return E.new(st, HView(h.base, arith("+", h.start, a), n))
                    return E.new(st, HView(o, a, n))
                return E.new_nd(st, slice_seq(E, st, s, a, n))
            if isinstance(i.c, int) and i.c == -1 and i.a is None and i.b is None:
                return E.new_nd(st, reverse_seq(E, s))
            raise Unsupported("slice step")
        if isinstance(i, (Ref, Seq, Tup)) and E.is_seqlike(st, i):
            x = E.seq(st, i)
            if isinstance(x, Table) and len(x.cols) == 1:
                return E.new_nd(st, Table([fancy(E, st, s, x.cols[0])], s.dt))
            if isinstance(x, (Table, Grid)):
                raise Unsupported("2-d index")
            if x.dt == "b":
                return E.new_nd(st, mask_seq(E, st, s, x))
            if isinstance(x.n, int) and x.n == 0:
                return E.new_nd(st, Seq(0, items=[], dt=s.dt))
            if x.dt == "i":
                return E.new_nd(st, fancy(E, st, s, x))
            raise PyRaise("IndexError", "arrays used as indices must be of integer type")
        if isinstance(i, bool) or (is_z(i) and z3.is_bool(i)):
            raise Unsupported("scalar boolean index")
        j = norm_index(E, st, s.n, i)
        return elem(E, st, s.at(j), nd=True)
    if isinstance(s, Table):
        if isinstance(i, Tup):
            r, c = i.items[0], i.items[1]
            if FULL(r):
                if isinstance(c, int):
                    if not -len(s.cols) <= c < len(s.cols):
                        raise PyRaise("IndexError", "column")
                    c = c % len(s.cols)
                    if isinstance(o, Ref):
                        return E.new(st, HView(o, 0, s.n, col=c))
                    return E.new_nd(st, s.cols[c])
                if isinstance(c, SliceV):
                    raise Unsupported("column slice")
            else:
                row = getitem(E, st, o, r)
                if E.kind(st, row) == "nd" and isinstance(E.seq(st, row), Table):
                    return getitem(E, st, row, Tup([SliceV(None, None, None), c]))
                return getitem(E, st, row, c)
            raise Unsupported("2-d index")
        if isinstance(i, SliceV):
            if i.c is None:
                a, n = slice_bounds(E, st, i, s.n)
                return E.new_nd(st, Table([slice_seq(E, st, c, a, n) for c in s.cols], s.dt))
            if i.c == -1 and i.a is None and i.b is None:
                return E.new_nd(st, Table([reverse_seq(E, c) for c in s.cols], s.dt))
            raise Unsupported("slice step")
        if isinstance(i, (Ref, Seq)) and E.is_seqlike(st, i):
            x = E.seq(st, i)
            if isinstance(x, Seq) and (x.dt == "b" or (isinstance(x.n, int) and x.n == 0)):
                return E.new_nd(st, mask_seq(E, st, s, x))
            if isinstance(x, Seq) and x.dt == "i":
                return E.new_nd(st, fancy(E, st, s, x))
            raise Unsupported("index of a 2-d array")
        j = norm_index(E, st, s.n, i)
        its = [c.at(j) for c in s.cols]
        return E.new_nd(st, Seq(len(its), items=its, dt=s.dt))
    if isinstance(s, Grid):
        if isinstance(i, Tup) and len(i.items) == 2:
            a, b = i.items
            if not isinstance(a, (SliceV, Ref)) and not isinstance(b, (SliceV, Ref)):
                return s.at(norm_index(E, st, s.n, a), norm_index(E, st, s.m, b))
            if FULL(a) and not isinstance(b, (SliceV, Ref)):
                c = norm_index(E, st, s.m, b)
                return E.new_nd(st, Seq(s.n, lambda q: s.at(q, c), s.dt))
            raise Unsupported("2-d index")
        if isinstance(i, (SliceV, Ref, Tup)):
            raise Unsupported("index of a 2-d array")
        j = norm_index(E, st, s.n, i)
        return E.new_nd(st, Seq(s.m, lambda q: s.at(j, q), s.dt))
    raise Unsupported("index")


def elem(E, st, v, nd=False):
    """element taken out of a sequence"""
    return v


def logged_get(E, st, o, s, i):
    """read of an array the enclosing loop is changing: its content before the loop,
    provided no earlier iteration changed that place (checked when the loop is
    summarised)"""
    if any(e[1] != "set" for e in s.log):
        raise Unsupported("element of a list being built")
    if s.log:
        # read after a write in the same iteration
        g, k, idx, v = s.log[-1]
        if len(s.log) == 1 and g is True and same(idx, i):
            return v
        raise Unsupported("element of an array changed in the same iteration")
    if isinstance(i, (Ref, SliceV, Tup)):
        raise Unsupported("slice of an array being changed")
    tok = s.extra
    base = tok.base
    j = norm_index(E, st, base.n, i)
    tok.reads.append(j)
    return base.at(j)


STRSLICE = z3.Function("strslice", Str, I, I, Str)


def known_suffix(o):
    """the literal a concatenated string ends with"""
    if isinstance(o, str):
        return o
    if z3.is_app(o) and o.decl().name() == "concat":
        for lit, z in STRLITS.items():
            if z.eq(o.arg(1)):
                return lit
    return None


def ends_with(o, t):
    """o ends with the literal t"""
    k = known_suffix(o)
    if k is not None and len(k) >= len(t):
        return k.endswith(t)
    return compare("==", STRSLICE(o, zint(-len(t)), zint(10 ** 9)), t)


def str_getitem(E, st, o, i):
    if isinstance(o, str):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError", "string index")
        if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
            return o[slice(i.a, i.b, i.c)]
        raise Unsupported("string index")
    if isinstance(i, SliceV) and i.c is None:
        a = 0 if i.a is None else i.a
        b = 10 ** 9 if i.b is None else i.b
        t = known_suffix(o)
        if t is not None and isinstance(a, int) and a < 0 and -a <= len(t) and (i.b is None or isinstance(i.b, int) and i.b < 0):
            return t[slice(a, i.b, None)]
        return STRSLICE(o, zint(a), zint(b))
    raise Unsupported("string index")


def dict_get(E, st, d, key, default=UNDEF):
    if isinstance(key, Alt):
        key = E.val(st, key)
    if d.log is not None:
        if d.log:
            raise Unsupported("read of a dict being built")
    if d.items is not None:
        conds = []
        for k, v in d.items:
            c = compare("==", k, key) if is_scalar(k) and is_scalar(key) else same(k, key)
            if c is True:
                return v
            if c is not False:
                conds.append((c, v))
        if not conds:
            if default is not UNDEF:
                return default
            raise PyRaise("KeyError", "%r" % (key,))
    sd = E.sym_dict(d)
    if sd.index is not None and is_z(to_z(key)):
        n, kf, vf = sd.index
        v, f = z3.Int(fresh_name("pos")), []
        if match_term(to_z(kf(v)), to_z(key), v, f) and f and E.quick(st, z3.And(f[0] >= 0, f[0] < zint(n))):
            return vf(f[0])
    h = sd.has(key)
    if default is UNDEF:
        E.require(st, h, "KeyError", "key")
        return sd.get(key)
    return merge_value(h, sd.get(key), default)


def setitem(E, st, o, i, v):
    o = E.val(st, o)
    v = E.val(st, v)
    if isinstance(o, Opq):
        return
    if isinstance(o, Ref):
        h = st.heap[o.id]
        if isinstance(h, HDict):
            return dict_set(E, st, o, h, i, v)
        if isinstance(h, HObj):
            m = E.find_method(h.cls, "__setitem__")
            if m is not None:
                E.call(m, [o, i, v], {}, st)
                return
            raise PyRaise("TypeError", "item assignment")
        from .loops import coerce_dt
        s = E.seq_raw(st, o)
        k = E.kind(st, o)
        if isinstance(s, Seq) and s.log is not None:
            if isinstance(i, (SliceV, Tup)) or (isinstance(i, Ref)):
                raise Unsupported("slice assignment in a loop")
            j = norm_index(E, st, s.n, i)
            if not is_scalar(v) or v is None:
                v = E.freeze(st, v)
                if k == "nd":
                    raise Unsupported("assignment of a sequence to an element")
            if k == "nd":
                v = coerce_dt(v, s.dt)
            n = Seq(s.n, s._at, s.dt)
            n.extra, n.log = s.extra, s.log + ((True, "set", j, v),)
            st.heap[o.id] = HSeq(h.kind, n)
            return
        if isinstance(s, Seq):
            if isinstance(i, Tup) and len(i.items) == 1:
                i = i.items[0]
            if isinstance(i, SliceV):
                if i.c is not None:
                    raise Unsupported("slice assignment with step")
                a, n = slice_bounds(E, st, i, s.n)
                if k == "list":
                    raise Unsupported("slice assignment to a list")
                if is_scalar(v):
                    val = lambda q: coerce_dt(v, s.dt)
                else:
                    w = E.seq(st, v)
                    if not isinstance(w, Seq):
                        raise Unsupported("2-d value")
                    if isinstance(w.n, int) and w.n == 1 and not same(w.n, n):
                        val = lambda q: coerce_dt(w.at(0), s.dt)
                    else:
                        if not same_n(E, st, w.n, n):
                            E.require(st, compare("==", w.n, n), "ValueError", "slice assignment of another length")
                        val = lambda q: coerce_dt(w.at(arith("-", q, a)), s.dt)
                hi = arith("+", a, n)
                new = Seq(s.n, lambda q: merge_value(land(compare(">=", q, a), compare("<", q, hi)), val(q), s.at(q)), s.dt)
                E.set_content(st, o, new)
                return
            if isinstance(i, (Ref, Seq)) and E.is_seqlike(st, i):
                x = E.seq(st, i)
                if isinstance(x, Seq) and x.dt == "b":
                    if not same_n(E, st, x.n, s.n):
                        E.require(st, compare("==", x.n, s.n), "IndexError", "mask of another length")
                    if is_scalar(v):
                        f = lambda m, c: merge_value(m, coerce_dt(v, s.dt), c)
                        new = Seq(s.n, lambda q: f(x.at(q), s.at(q)), s.dt)
                        if s.dom is not None and s.dom is x.dom and s.g is not None and x.g is not None:
                            new.dom, new.g = s.dom, (lambda q: f(x.g(q), s.g(q)))
                    else:
                        w = E.seq(st, v)
                        d = filter_dom(E, s.n, lambda q: x.at(q))
                        if not same_n(E, st, w.n, d.n):
                            E.require(st, compare("==", w.n, d.n), "ValueError", "mask assignment of another length")
                        new = Seq(s.n, lambda q: merge_value(x.at(q), coerce_dt(w.at(d.inv(q)), s.dt), s.at(q)), s.dt)
                    E.set_content(st, o, new)
                    return
                raise Unsupported("assignment with an index array")
            j = norm_index(E, st, s.n, i)
            if k == "nd":
                if is_scalar(v) and v is not None:
                    v = coerce_dt(v, s.dt)
                else:
                    raise Unsupported("assignment of a sequence to an element")
            elif not is_scalar(v) and s.items is None:
                v = E.freeze(st, v)
            if s.items is not None and isinstance(j, int):
                its = list(s.items)
                its[j] = v
                E.set_content(st, o, Seq(s.n, items=its, dt=s.dt if k == "nd" else _dt(its)))
                return
            E.set_content(st, o, Seq(s.n, lambda q: merge_value(compare("==", q, j), v, s.at(q)), s.dt))
            return
        if isinstance(s, Table):
            cols = list(s.cols)
            if isinstance(i, Tup) and len(i.items) == 2 and isinstance(i.items[1], int):
                c = i.items[1] % len(cols)
                view = E.new(st, HView(o, 0, s.n, col=c))
                if FULL(i.items[0]):
                    setitem(E, st, view, SliceV(None, None, None), v)
                else:
                    setitem(E, st, view, i.items[0], v)
                return
            raise Unsupported("assignment to a 2-d array")
        if isinstance(s, Grid):
            if isinstance(i, Tup) and len(i.items) == 2 and is_scalar(i.items[0]) and is_scalar(i.items[1]):
                a = norm_index(E, st, s.n, i.items[0])
                b = norm_index(E, st, s.m, i.items[1])
                E.set_content(st, o, Grid(s.n, s.m, lambda p, q: merge_value(land(compare("==", p, a), compare("==", q, b)), v, s.at(p, q)), s.dt))
                return
            raise Unsupported("assignment to a 2-d array")
    raise Unsupported("item assignment on %r" % (o,))


def dict_set(E, st, o, h, key, v):
    if isinstance(key, Alt):
        key = E.val(st, key)
    if h.log is not None:
        d = HDict(h.items, h.has, h.get, h.keys)
        d.log = h.log + ((True, key, E.freeze(st, v)),)
        st.heap[o.id] = d
        return
    if h.items is not None and (not is_z(key)) and all(not is_z(k) for k, _ in h.items):
        items = []
        done = False
        for k, x in h.items:
            if k == key:
                items.append((k, v))
                done = True
            else:
                items.append((k, x))
        if not done:
            items.append((key, v))
        st.heap[o.id] = HDict(items=items)
        return
    sd = E.sym_dict(h)
    v = E.freeze(st, v)
    st.heap[o.id] = HDict(has=lambda q: lor(compare("==", q, key), sd.has(q)),
                          get=lambda q: merge_value(compare("==", q, key), v, sd.get(q)))


class Stack3:
    def __init__(self, table):
        self.table = table


# ================================================================== builtins
def S(E, st, v):
    """content of an argument as Seq"""
    v = E.val(st, v)
    if isinstance(v, Opq):
        raise Unsupported("content of unknown value %s" % v.what)
    s = E.seq(st, v)
    return s


def S1(E, st, v):
    s = S(E, st, v)
    if not isinstance(s, Seq):
        raise Unsupported("1-d sequence expected")
    return s


def A(E, st, args, kw, i, name, default=UNDEF):
    if i is not None and i < len(args):
        return E.val(st, args[i])
    if name in kw:
        return E.val(st, kw[name])
    if default is UNDEF:
        raise PyRaise("TypeError", "missing argument " + str(name))
    return default


@model("builtins.len")
def m_len(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        n = E.fresh("len", I)
        E.fact(n >= 0, [n.decl().name()])
        return n
    return E.length(st, v)


@model("builtins.range")
def m_range(E, st, args, kw):
    args = [E.val(st, a) for a in args]
    for a in args:
        if is_real(a):
            raise PyRaise("TypeError", "range of a float")
    if len(args) == 1:
        a, b, c = 0, args[0], 1
    elif len(args) == 2:
        a, b, c = args[0], args[1], 1
    else:
        a, b, c = args
    if all(isinstance(x, int) for x in (a, b, c)) and len(range(a, b, c)) <= 200:
        its = list(range(a, b, c))
        r = Seq(len(its), items=its, dt="i")
    elif isinstance(c, int) and c in (1, -1):
        n = canon_term(arith("-", b, a) if c == 1 else arith("-", a, b))
        if not E.quick(st, compare(">=", n, 0)):
            n = merge_value(compare(">=", n, 0), n, 0)
        if isinstance(n, int) and n <= 200 and isinstance(a, int):
            r = Seq(n, items=list(range(a, a + c * n, c)), dt="i")
        else:
            r = Seq(n, (lambda k: arith("+", k, a)) if c == 1 else (lambda k: arith("-", a, k)), "i")
            if c == 1 and isinstance(a, int) and a == 0:
                d = identity_dom(E, n)
                r.dom, r.g, r.extra = d, (lambda q: q), "index"
    else:
        raise Unsupported("range with step")
    if r.extra is None:
        r.extra = "tuple"
    return r


@model("builtins.enumerate")
def m_enumerate(E, st, args, kw):
    from .loops import iter_seq
    s = iter_seq(E, st, args[0])
    off = A(E, st, args, kw, 1, "start", 0)
    if s.items is not None:
        r = Seq(s.n, items=[Tup([arith("+", k, off), x]) for k, x in enumerate(s.items)])
    else:
        r = Seq(s.n, lambda k: Tup([arith("+", k, off), s.at(k)]), "o")
    r.extra = "list"
    return r


@model("builtins.zip")
def m_zip(E, st, args, kw):
    from .loops import iter_seq
    ss = [iter_seq(E, st, a) for a in args]
    if not ss:
        return Seq(0, items=[])
    if all(s.items is not None for s in ss):
        n = min(s.n for s in ss)
        r = Seq(n, items=[Tup([s.items[k] for s in ss]) for k in range(n)])
        r.extra = "list"
        return r
    n = ss[0].n
    for s in ss[1:]:
        if not same_n(E, st, n, s.n):
            n = merge_value(compare("<=", n, s.n), n, s.n)
    r = Seq(n, lambda k: Tup([s.at(k) for s in ss]), "o")
    d = ss[0].dom
    if d is not None and all(s.dom is d and s.g is not None for s in ss):
        r.dom, r.g = d, (lambda q: Tup([s.g(q) for s in ss]))
    r.extra = "list"
    return r


@model("builtins.reversed")
def m_reversed(E, st, args, kw):
    r = reverse_seq(E, S1(E, st, args[0]))
    return r


@model("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
def m_abs(E, st, args, kw):
    v = E.val(st, args[0])
    return E.unary(absv, v, st, "keep") if not is_scalar(v) else absv(v)


def absv(x):
    if isinstance(x, (int, Fraction)):
        return abs(x)
    if z3.is_bool(x):
        return zint(x)
    return z3.If(x >= 0, x, -x)


def map_arr(E, st, v, f, dt=None):
    v = E.val(st, v)
    if isinstance(v, Opq):
        return Opq(v.what)
    if is_scalar(v):
        if v is None:
            raise PyRaise("TypeError", "None")
        return f(v)
    return E.new_nd(st, lift1(f, S(E, st, v), dt))


MODELS["builtins.abs"] = MODELS["numpy.abs"] = MODELS["numpy.absolute"] = MODELS["numpy.fabs"] = \
    lambda E, st, args, kw: map_arr(E, st, args[0], absv)


def minmax(which):
    def f(E, st, args, kw):
        if "key" in kw:
            raise Unsupported("min/max with key")
        if len(args) == 1:
            v = E.val(st, args[0])
            if isinstance(v, Opq):
                return E.fresh(which, R)
            s = S(E, st, v)
            if isinstance(s, Seq) and (is_scalar(s.at(K0[10])) if s.items is None else True):
                if "default" in kw and E.truthy(st, compare("==", s.n, 0)) is True:
                    return kw["default"]
                return ext_value(E, st, s, which)
            raise Unsupported("min/max of a 2-d array")
        vs = [E.val(st, a) for a in args]
        r = vs[0]
        for x in vs[1:]:
            r = merge_value(compare("<" if which == "min" else ">", x, r), x, r)
        return r
    return f


MODELS["builtins.min"] = minmax("min")
MODELS["builtins.max"] = minmax("max")


@model("builtins.sum")
def m_pysum(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return E.fresh("sum", R)
    s = S1(E, st, v)
    r = sum_term(E, st, s.n, s.at) if s.items is None else sum_term(E, st, len(s.items), s.at)
    if len(args) > 1:
        return E.binop("+", r, args[1], st)
    return r


def np_reduce_scalar(E, st, args, kw):
    v = A(E, st, args, kw, 0, "a")
    return v


def nested(E, s):
    """length and elements of s; a selection from a selection by a mask is written as by numpy.where"""
    p = s.dom.parent if s.dom is not None and s.g is not None else None
    if isinstance(p, tuple) and callable(p[1]) and not isinstance(p[1], Dom):
        outer, pred = p
        e = filter_dom(E, outer.n, lambda k: pred(outer.src(k)))
        return e.n, lambda k: s.g(outer.src(e.src(k)))
    return s.n, s.at


@model("numpy.sum", "numpy.nansum")
def m_sum(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return E.fresh("sum", R)
    ax = A(E, st, args, kw, 1, "axis", None)
    if is_scalar(v):
        return v
    s = S(E, st, v)
    if isinstance(s, Seq):
        return sum_term(E, st, *nested(E, s))
    if isinstance(s, Grid) and ax == 0:
        def col(j):
            return sum_term(E, st, s.n, lambda i: s.at(i, j))
        j = z3.Int(fresh_name("?j"))
        E.binders.append((j, []))
        try:
            t = to_z(col(j))
        finally:
            E.binders.pop()
        return E.new_nd(st, Seq(s.m, lambda q: subst_value(t, [(j, zint(q))]), "i" if t.sort() == I else "f"))
    raise Unsupported("sum of a 2-d array")


METHODS[("nd", "sum")] = lambda E, st, o, a, kw: m_sum(E, st, [o] + list(a), kw)


@model("numpy.mean")
def m_mean(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return E.fresh("mean", R)
    s = S1(E, st, v)
    return arith("/", zreal(sum_term(E, st, *nested(E, s))), s.n)


METHODS[("nd", "mean")] = lambda E, st, o, a, kw: m_mean(E, st, [o], {})

STD = z3.Function("std", Obj, R)


@model("numpy.std")
def m_std(E, st, args, kw):
    s = S1(E, st, args[0])
    t = STD(token(E, s))
    E.fact(t >= 0, [t.decl().name()])
    return t


METHODS[("nd", "std")] = lambda E, st, o, a, kw: m_std(E, st, [o], {})


def np_ext(which):
    def f(E, st, args, kw):
        v = E.val(st, args[0])
        if isinstance(v, Opq):
            return E.fresh(which, R)
        if is_scalar(v):
            return v
        if A(E, st, args, kw, 1, "axis", None) is not None:
            raise Unsupported("axis")
        s = S(E, st, v)
        if not isinstance(s, Seq):
            raise Unsupported("extremum of a 2-d array")
        return ext_value(E, st, s, which)
    return f


for _n in ("min", "amin", "nanmin"):
    MODELS["numpy." + _n] = np_ext("min")
for _n in ("max", "amax"):
    MODELS["numpy." + _n] = np_ext("max")
MODELS["numpy.nanmax"] = np_ext("nanmax")
METHODS[("nd", "min")] = lambda E, st, o, a, kw: np_ext("min")(E, st, [o], {})
METHODS[("nd", "max")] = lambda E, st, o, a, kw: np_ext("max")(E, st, [o], {})


def np_arg(which):
    def f(E, st, args, kw):
        s = S1(E, st, args[0])
        E.require(st, compare(">", s.n, 0), "ValueError", "arg%s of an empty sequence" % which)
        return extremum(E, st, s, which)
    return f


MODELS["numpy.argmin"] = np_arg("min")
MODELS["numpy.argmax"] = np_arg("max")
MODELS["numpy.nanargmin"] = np_arg("min")
METHODS[("nd", "argmin")] = lambda E, st, o, a, kw: np_arg("min")(E, st, [o], {})
METHODS[("nd", "argmax")] = lambda E, st, o, a, kw: np_arg("max")(E, st, [o], {})


@model("numpy.ptp")
def m_ptp(E, st, args, kw):
    s = S1(E, st, args[0])
    return arith("-", ext_value(E, st, s, "max"), ext_value(E, st, s, "min"))


METHODS[("nd", "ptp")] = lambda E, st, o, a, kw: m_ptp(E, st, [o], {})


def py_int(E, st, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if is_z(v):
        if z3.is_bool(v):
            return zint(v)
        if v.sort() == I:
            return v
        if v.sort() == R:
            if v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    raise Unsupported("int(%r)" % (v,))


@model("builtins.int", "numpy.int64", "numpy.int32")
def m_int(E, st, args, kw):
    if not args:
        return 0
    v = E.val(st, args[0])
    if v is None:
        raise PyRaise("TypeError", "int(None)")
    if isinstance(v, Opq):
        return E.fresh("int", I)
    if E.is_seqlike(st, v):
        s = S1(E, st, v)
        E.require(st, compare("==", s.n, 1), "TypeError", "int of a sequence")
        v = s.at(0)
    return py_int(E, st, v)


def py_float(E, st, v):
    if is_strv(v):
        if isinstance(v, str):
            try:
                return Fraction(v)
            except ValueError:
                raise PyRaise("ValueError", "float of a string")
        return PARSE(zstr(v))
    if is_number(v):
        if isinstance(v, (bool, int)):
            return Fraction(int(v))
        return zreal(v) if not isinstance(v, Fraction) else v
    raise Unsupported("float(%r)" % (v,))


@model("builtins.float", "numpy.float64", "numpy.float32")
def m_float(E, st, args, kw):
    v = E.val(st, args[0])
    if v is None:
        raise PyRaise("TypeError", "float(None)")
    if isinstance(v, Opq):
        return E.fresh("float", R)
    if E.is_seqlike(st, v):
        s = S1(E, st, v)
        E.require(st, compare("==", s.n, 1), "TypeError", "float of a sequence")
        v = s.at(0)
    return py_float(E, st, v)


@model("builtins.bool")
def m_bool(E, st, args, kw):
    return E.truthy(st, args[0])


@model("builtins.str", "builtins.repr")
def m_str(E, st, args, kw):
    if not args:
        return ""
    v = args[0]
    if is_strv(v):
        return v
    return E.fresh("str", Str)


@model("builtins.list")
def m_list(E, st, args, kw):
    if not args:
        return E.new_list(st, Seq(0, items=[], dt="o"))
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return E.new_list(st, opq_seq(E, v))
    from .loops import iter_seq
    s = iter_seq(E, st, v)
    if s.extra in ("list", "tuple") or isinstance(s.extra, str) and s.extra != "index":
        t = Seq(s.n, s._at, s.dt, s.dom, s.g, s.items, s.inv)
        s = t
    return E.new_list(st, s)


def opq_seq(E, v):
    n = E.fresh("n", I)
    E.fact(n >= 0, [n.decl().name()])
    return Seq(n, lambda k: Opq(v.what), "o")


@model("builtins.tuple")
def m_tuple(E, st, args, kw):
    if not args:
        return Tup([])
    s = S1(E, st, args[0])
    if s.items is not None:
        return Tup(s.items)
    r = Seq(s.n, s._at, s.dt, s.dom, s.g)
    r.extra = "tuple"
    return r


@model("builtins.set", "builtins.frozenset")
def m_set(E, st, args, kw):
    if not args:
        return SetV(Seq(0, items=[]))
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return v
    s = E.seq_raw(st, v)
    if isinstance(s, Seq) and s.log is not None:
        return Opq("set of a list being built")
    return SetV(s)


@method("set", "issubset", "issuperset", "isdisjoint")
def set_cmp(E, st, o, args, kw):
    return E.fresh("setcmp", B)


@model("builtins.dict", "collections.OrderedDict")
def m_dict(E, st, args, kw):
    from .loops import dict_from
    if not args:
        return E.new(st, HDict(items=[(k, v) for k, v in kw.items()]))
    v = E.val(st, args[0])
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HDict):
        return E.new(st, st.heap[v.id])
    s = S1(E, st, v)
    if s.items is not None and all(isinstance(x, Tup) and not is_z(x.items[0]) for x in s.items):
        return E.new(st, HDict(items=[tuple(x.items) for x in s.items]))
    key, value = (lambda k: s.at(k).items[0]), (lambda k: s.at(k).items[1])
    d = dict_from(E, None, s.n, lambda k: True, key, value)
    a, b = var("a"), var("b")
    if E.prove(st, z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < zint(s.n)), to_z(key(a)) != to_z(key(b))))):
        d.index = (s.n, key, value)
    return E.new(st, d)


@method("dict", "get")
def d_get(E, st, o, args, kw):
    return dict_get(E, st, st.heap[o.id], E.val(st, args[0]), E.val(st, args[1]) if len(args) > 1 else None)


@method("dict", "keys")
def d_keys(E, st, o, args, kw):
    return E.dict_keys(st, st.heap[o.id])


@method("dict", "values")
def d_values(E, st, o, args, kw):
    d = st.heap[o.id]
    if d.items is not None:
        return Seq(len(d.items), items=[v for _, v in d.items])
    if d.keys is not None:
        return Seq(d.keys.n, lambda k: d.get(d.keys.at(k)), "o")
    raise Unsupported("values of a map")


@method("dict", "items")
def d_items(E, st, o, args, kw):
    d = st.heap[o.id]
    if d.items is not None:
        return Seq(len(d.items), items=[Tup([k, v]) for k, v in d.items])
    if d.keys is not None:
        return Seq(d.keys.n, lambda k: Tup([d.keys.at(k), d.get(d.keys.at(k))]), "o")
    raise Unsupported("items of a map")


@method("dict", "copy")
def d_copy(E, st, o, args, kw):
    return E.new(st, st.heap[o.id])


@method("dict", "update")
def d_update(E, st, o, args, kw):
    d = st.heap[o.id]
    other = E.val(st, args[0]) if args else None
    items = [(k, v) for k, v in kw.items()]
    if other is not None:
        od = st.heap[other.id]
        if od.items is None:
            raise Unsupported("update with a map")
        items = list(od.items) + items
    for k, v in items:
        dict_set(E, st, o, st.heap[o.id], k, v)
    return None


@method("dict", "setdefault")
def d_setdefault(E, st, o, args, kw):
    d = st.heap[o.id]
    if d.items is None:
        raise Unsupported("setdefault")
    for k, v in d.items:
        if same(k, args[0]):
            return v
    dict_set(E, st, o, d, args[0], args[1])
    return args[1]


def type_test(E, st, v, path):
    """isinstance(v, path)"""
    k = E.kind(st, v)
    if path == "builtins.str":
        return is_strv(v)
    if path == "builtins.float":
        return isinstance(v, Fraction) or (is_z(v) and v.sort() == R)
    if path == "builtins.int":
        return isinstance(v, int) or (is_z(v) and v.sort() == I) or (is_z(v) and z3.is_bool(v))
    if path == "builtins.bool":
        return isinstance(v, bool) or (is_z(v) and z3.is_bool(v))
    if path in ("builtins.list",):
        return k == "list"
    if path == "builtins.tuple":
        return k == "tuple"
    if path == "builtins.dict":
        return k == "dict"
    if path in ("builtins.set", "builtins.frozenset"):
        return isinstance(v, SetV)
    if path == "numpy.ndarray":
        return k == "nd"
    if path in ("numpy.floating", "numpy.float64"):
        return isinstance(v, Fraction) or (is_z(v) and v.sort() == R)
    if path in ("numpy.integer", "numpy.int64"):
        return False if isinstance(v, int) else (is_z(v) and v.sort() == I)
    if path in ("numbers.Number", "numbers.Real"):
        return is_number(v)
    raise Unsupported("isinstance of " + path)


@model("builtins.isinstance")
def m_isinstance(E, st, args, kw):
    v = E.val(st, args[0])
    t = E.val(st, args[1])
    if isinstance(v, Opq):
        return E.fresh("isinstance", B)
    ts = t.items if isinstance(t, Tup) else [t]
    r = False
    for x in ts:
        if isinstance(x, Cls):
            c = st.heap[v.id].cls if isinstance(v, Ref) and isinstance(st.heap[v.id], HObj) else (v.cls if isinstance(v, Rec) else None)
            r = r or (c is not None and c.qual == x.qual)
        elif isinstance(x, Mod):
            r = r or type_test(E, st, v, x.path)
        else:
            raise Unsupported("isinstance")
    return bool(r)


@model("builtins.print", "logging.*", "warnings.*", "matplotlib.*", "plotly.*", "tqdm.*", "time.*", "pprint.*")
def m_opaque(E, st, args, kw):
    if args and getattr(E, "tqdm_passthrough", True):
        pass
    return Opq("call")


@model("builtins.print")
def m_print(E, st, args, kw):
    return None


@model("tqdm.autonotebook.tqdm", "tqdm.tqdm", "tqdm.auto.tqdm")
def m_tqdm(E, st, args, kw):
    # iterates over its argument, unchanged
    return args[0]


@model("builtins.all", "numpy.all")
def m_all(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return E.fresh("all", B)
    if is_scalar(v):
        return E.truthy(st, v)
    s = S(E, st, v)
    if isinstance(s, Seq):
        return all_term(E, s.n, lambda k: tb(E, st, s.at(k)))
    raise Unsupported("all of a 2-d array")


def tb(E, st, v):
    if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
        return v
    return E.truthy(st, v)


@model("builtins.any", "numpy.any")
def m_any(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Opq):
        return E.fresh("any", B)
    if is_scalar(v):
        return E.truthy(st, v)
    s = S(E, st, v)
    if isinstance(s, Seq):
        return any_term(E, s.n, lambda k: tb(E, st, s.at(k)))
    raise Unsupported("any of a 2-d array")


METHODS[("nd", "any")] = lambda E, st, o, a, kw: m_any(E, st, [o], {})
METHODS[("nd", "all")] = lambda E, st, o, a, kw: m_all(E, st, [o], {})
MODELS["numpy.count_nonzero"] = lambda E, st, args, kw: filter_dom(E, S1(E, st, args[0]).n, lambda k: tb(E, st, S1(E, st, args[0]).at(k))).n


@model("builtins.sorted", "numpy.sort")
def m_sorted(E, st, args, kw):
    if "key" in kw:
        raise Unsupported("sorted with key")
    v = E.val(st, args[0])
    if isinstance(v, SetV):
        s = unique_of(E, st, v.seq).seq
    else:
        s = S(E, st, v)
    if not isinstance(s, Seq):
        raise Unsupported("sort of a 2-d array")
    return E.new_list(st, sort_seq(E, st, s))


@model("numpy.percentile", "numpy.nanpercentile", "numpy.quantile", "numpy.nanquantile")
def m_percentile(E, st, args, kw):
    """some number (of an array with elements)"""
    s = E.val(st, args[0])
    if isinstance(s, Opq) or len(args) != 2 or kw or not is_number(E.val(st, args[1])):
        E.lost.append("percentiles")
        return Opq("numpy.percentile()")
    s = E.seq_raw(st, s)
    E.require(st, compare(">", s.n, 0), "IndexError", "percentile of an empty array")
    return E.fresh("percentile", R)


@model("scipy.signal.convolve")
def m_convolve(E, st, args, kw):
    """some array of numbers"""
    for a in args[:2]:
        E.require(st, compare(">", E.seq_raw(st, E.val(st, a)).n, 0), "ValueError", "convolution of an empty array")
    E.lost.append("convolution")
    n = z3.Int(fresh_name("n_convolved"))
    st.add(n >= 1)
    f, _ = E.fresh_fun("convolved", [I], R)
    return E.new_nd(st, Seq(n, lambda k: f(zint(k)), "f"))


@model("numpy.sort")
def m_npsort(E, st, args, kw):
    s = S(E, st, args[0])
    if isinstance(s, Table):
        # a new array, of which nothing is known
        E.lost.append("sort of a 2-d array")
        return Opq("numpy.sort()")
    return E.new_nd(st, sort_seq(E, st, s))


@method("nd", "sort")
def nd_sort(E, st, o, args, kw):
    E.set_content(st, o, sort_seq(E, st, S1(E, st, o)))
    return None


@method("list", "sort")
def list_sort(E, st, o, args, kw):
    if kw:
        raise Unsupported("list.sort with arguments")
    st.heap[o.id] = HSeq("list", sort_seq(E, st, S1(E, st, o)))
    return None


@model("numpy.argsort")
def m_argsort(E, st, args, kw):
    s = S1(E, st, args[0])
    return E.new_nd(st, index_seq(E, argsort_dom(E, s)))


METHODS[("nd", "argsort")] = lambda E, st, o, a, kw: m_argsort(E, st, [o], {})


@model("builtins.round", "numpy.around", "numpy.round", "numpy.rint")
def m_round(E, st, args, kw):
    v = E.val(st, args[0])
    f = z3.Function("round", R, I, R)
    d = E.val(st, args[1]) if len(args) > 1 else A(E, st, args, kw, 5, "decimals", 0)
    return map_arr(E, st, v, lambda x: f(zreal(x), zint(d)))


@model("builtins.hasattr")
def m_hasattr(E, st, args, kw):
    o, n = E.val(st, args[0]), E.val(st, args[1])
    if isinstance(n, str) and isinstance(o, (Ref, Rec)):
        try:
            E.getattr(o, n, st)
            return True
        except PyRaise:
            return False
    return E.fresh("hasattr", B)


@model("builtins.getattr")
def m_getattr(E, st, args, kw):
    o, n = E.val(st, args[0]), E.val(st, args[1])
    if not isinstance(n, str):
        raise Unsupported("getattr of a symbolic name")
    try:
        return E.getattr(o, n, st)
    except PyRaise:
        if len(args) > 2:
            return args[2]
        raise


@model("builtins.setattr")
def m_setattr(E, st, args, kw):
    n = E.val(st, args[1])
    if not isinstance(n, str):
        raise Unsupported("setattr of a symbolic name")
    E.setattr(E.val(st, args[0]), n, args[2], st)
    return None


@model("builtins.type")
def m_type(E, st, args, kw):
    return Opq("type")


@model("builtins.slice")
def m_slice(E, st, args, kw):
    a = [E.val(st, x) for x in args]
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@model("builtins.map")
def m_map(E, st, args, kw):
    f = args[0]
    s = S1(E, st, args[1])
    if s.items is not None:
        its = [E.call(f, [x], {}, st) for x in s.items]
        return E.new_list(st, Seq(len(its), items=its, dt=_dt(its)))
    if isinstance(f, Mod) and f.path in ("builtins.float", "builtins.int", "builtins.str", "builtins.abs"):
        m = E.find_model(f.path)
        return E.new_list(st, Seq(s.n, lambda k: m(E, st, [s.at(k)], {}), {"builtins.float": "f", "builtins.int": "i"}.get(f.path, "o"), s.dom,
                                  (lambda q: m(E, st, [s.g(q)], {})) if s.g else None))
    raise Unsupported("map")


@model("builtins.open")
def m_open(E, st, args, kw):
    p = E.val(st, args[0])
    return Rec(None, {"path": p, "mode": E.val(st, args[1]) if len(args) > 1 else kw.get("mode", "r")})


# ------------------------------------------------------------------ lists
@method("list", "append")
def l_append(E, st, o, args, kw):
    return l_add(E, st, o, "one", args[0])


def l_add(E, st, o, how, v):
    h = st.heap[o.id]
    s = h.val
    if how == "many":
        v = E.val(st, v)
    elif isinstance(v, Alt):
        left = [(g, x) for g, x in v.alts if st.truth(g) is not False]
        v = left[0][1] if len(left) == 1 else Alt(left) if left else v
    if s.log is not None:
        n = Seq(s.n, s._at, s.dt)
        if how == "many":
            x = E.seq_raw(st, v)
            if isinstance(x, Seq) and x.log is not None:
                raise Unsupported("extension with a list being built")
            if isinstance(x, Table):
                from .loops import table_rows
                x = table_rows(x)
            v = E.freeze(st, v) if isinstance(v, Ref) else x
            if not isinstance(v, Seq):
                v = x
        else:
            v = E.freeze(st, v)
        n.extra, n.log = s.extra, s.log + ((True, how, v),)
        st.heap[o.id] = HSeq("list", n)
        return None
    if how == "one":
        if s.items is not None:
            its = s.items + (v,)
            st.heap[o.id] = HSeq("list", Seq(len(its), items=its, dt=E.guess_dt(its)))
            return None
        add = Seq(1, items=[E.freeze(st, v)], dt=E.guess_dt([v]))
    else:
        from .loops import iter_seq
        add = iter_seq(E, st, v)
        if s.items is None or add.items is None:
            add = freeze_seq(E, st, add)
            s = freeze_seq(E, st, s)
    st.heap[o.id] = HSeq("list", concat_seq(E, st, s, add))
    return None


def freeze_seq(E, st, s):
    if s.items is not None:
        return Seq(s.n, items=[E.freeze(st, x) for x in s.items], dt=s.dt)
    return s


@method("list", "extend")
def l_extend(E, st, o, args, kw):
    return l_add(E, st, o, "many", args[0])


@method("list", "clear")
def l_clear(E, st, o, args, kw):
    if st.heap[o.id].val.log is not None:
        raise Unsupported("clear in a loop")
    st.heap[o.id] = HSeq("list", Seq(0, items=[], dt="o"))
    return None


@method("list|nd", "copy")
def l_copy(E, st, o, args, kw):
    return E.new(st, HSeq(E.kind(st, o), E.seq(st, o)))


@method("list", "insert")
def l_insert(E, st, o, args, kw):
    s = S1(E, st, o)
    p = E.val(st, args[0])
    a = clip(E, st, p, s.n)
    st.heap[o.id] = HSeq("list", insert_at(E, st, freeze_seq(E, st, s) if s.items is None else s, a, E.freeze(st, args[1]) if s.items is None else args[1]))
    return None


def insert_at(E, st, s, p, v):
    E.inserts.append(p)
    if s.items is not None and isinstance(p, int):
        its = s.items[:p] + (v,) + s.items[p:]
        return Seq(len(its), items=its, dt=E.guess_dt(its))
    return Seq(arith("+", s.n, 1), lambda k: merge_value(compare("<", k, p), s.at(k), merge_value(compare("==", k, p), v, s.at(arith("-", k, 1)))), s.dt)


def delete_at(E, st, s, p):
    if s.items is not None and isinstance(p, int):
        its = s.items[:p] + s.items[p + 1:]
        return Seq(len(its), items=its, dt=s.dt)
    return Seq(arith("-", s.n, 1), lambda k: merge_value(compare("<", k, p), s.at(k), s.at(arith("+", k, 1))), s.dt)


@method("list", "pop")
def l_pop(E, st, o, args, kw):
    s = S1(E, st, o)
    p = norm_index(E, st, s.n, E.val(st, args[0]) if args else -1)
    v = s.at(p)
    st.heap[o.id] = HSeq("list", delete_at(E, st, s, p))
    return v


@method("list", "__delitem__")
def l_delitem(E, st, o, args, kw):
    s = S1(E, st, o)
    p = norm_index(E, st, s.n, E.val(st, args[0]))
    st.heap[o.id] = HSeq("list", delete_at(E, st, s, p))
    return None


@method("list", "reverse")
def l_reverse(E, st, o, args, kw):
    st.heap[o.id] = HSeq("list", reverse_seq(E, S1(E, st, o)))
    return None


@method("list|tuple", "index")
def l_index(E, st, o, args, kw):
    s = S1(E, st, o)
    x = E.val(st, args[0])
    has = contains(E, st, s, x)
    E.require(st, has, "ValueError", "not in list")
    m = lift1(lambda y: compare("==", y, x), s, "b")
    return extremum(E, st, lift1(lambda b: merge_value(b, 1, 0), m, "i"), "max")


@method("list|tuple", "count")
def l_count(E, st, o, args, kw):
    s = S1(E, st, o)
    x = E.val(st, args[0])
    return sum_term(E, st, s.n, lambda k: compare("==", s.at(k), x))


# ------------------------------------------------------------------ strings
@method("str", "lower", "upper", "strip")
def s_case(E, st, o, args, kw):
    return z3.Function("str_lower", Str, Str)(zstr(o)) if not isinstance(o, str) else o


METHODS[("str", "lower")] = lambda E, st, o, a, kw: o.lower() if isinstance(o, str) else z3.Function("str_lower", Str, Str)(o)
METHODS[("str", "upper")] = lambda E, st, o, a, kw: o.upper() if isinstance(o, str) else z3.Function("str_upper", Str, Str)(o)
METHODS[("str", "strip")] = lambda E, st, o, a, kw: o.strip() if isinstance(o, str) and not a else z3.Function("str_strip", Str, Str)(zstr(o))


@method("str", "endswith")
def s_endswith(E, st, o, args, kw):
    t = E.val(st, args[0])
    if not isinstance(t, str) or not t:
        raise Unsupported("endswith")
    return ends_with(o, t)


@method("str", "split")
def s_split(E, st, o, args, kw):
    d = E.val(st, args[0]) if args else None
    if isinstance(o, str) and (d is None or isinstance(d, str)):
        its = o.split(d)
        return E.new_list(st, Seq(len(its), items=its, dt="s"))
    f = z3.Function("split_n", Str, Str, I)
    g = z3.Function("split_at", Str, Str, I, Str)
    a, b = zstr(o), zstr(d) if d is not None else zstr(" ")
    n = f(a, b)
    E.fact(n >= 1, ["split_n"])
    return E.new_list(st, Seq(n, lambda k: g(a, b, zint(k)), "s"))


@method("str", "format", "join", "replace", "rstrip", "lstrip", "title", "capitalize", "zfill")
def s_format(E, st, o, args, kw):
    return E.fresh("str", Str)


@method("str", "endswith", "startswith")
def s_ends(E, st, o, args, kw):
    raise Unsupported("startswith")


def s_endswith(E, st, o, args, kw):
    d = E.val(st, args[0])
    if isinstance(o, str) and isinstance(d, str):
        return o.endswith(d)
    if isinstance(d, str):
        return str_getitem(E, st, o, SliceV(-len(d), None, None)) == zstr(d)
    raise Unsupported("endswith")


METHODS[("str", "endswith")] = s_endswith


def s_startswith(E, st, o, args, kw):
    d = E.val(st, args[0])
    if isinstance(o, str) and isinstance(d, str):
        return o.startswith(d)
    if isinstance(d, str):
        return str_getitem(E, st, o, SliceV(None, len(d), None)) == zstr(d)
    raise Unsupported("startswith")


METHODS[("str", "startswith")] = s_startswith


# ================================================================== numpy
def dt_of(E, st, d):
    """dtype argument -> one of b i f s o None"""
    if d is None or d is UNDEF:
        return None
    if isinstance(d, str):
        if d.startswith("float") or d in ("f", "d", "f8"):
            return "f"
        if d.startswith("int") or d in ("i", "i8"):
            return "i"
        if d.startswith("bool"):
            return "b"
        if "U" in d or d.startswith("str"):
            return "s"
        if d == "object":
            return "o"
    if isinstance(d, Mod):
        p = d.path.split(".")[-1]
        if p.startswith("float") or p == "double":
            return "f"
        if p.startswith("int"):
            return "i"
        if p.startswith("bool"):
            return "b"
        if p == "str":
            return "s"
        if p == "object":
            return "o"
    if isinstance(d, Opq):
        return None
    raise Unsupported("dtype %r" % (d,))


def cast(E, v, dt):
    if dt is None:
        return v
    if dt == "f":
        if is_strv(v):
            return PARSE(zstr(v)) if not isinstance(v, str) else Fraction(v)
        if is_number(v):
            return py_float(E, None, v)
    if dt == "i":
        return py_int(E, None, v)
    if dt == "b":
        if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
            return v
        if isinstance(v, str):
            return v not in ("", "0", "False")
        if is_number(v):
            return compare("!=", v, 0)
    if dt == "s":
        if is_strv(v):
            return v
    if dt == "o":
        return v
    raise Unsupported("cast to %s" % dt)


def astype(E, s, dt):
    if dt is None or dt == s.dt and dt != "o":
        return s
    return lift1(lambda v: cast(E, v, dt), s, dt)


def content_array(E, st, v, dt=None):
    """value -> array content (Seq/Table/Grid) or scalar"""
    v = E.val(st, v)
    if is_scalar(v):
        return cast(E, v, dt) if v is not None else v
    if isinstance(v, Opq):
        return v
    if isinstance(v, SetV):
        raise Unsupported("array of a set")
    s = E.seq(st, v)
    if isinstance(s, (Table, Grid)):
        return astype(E, s, dt)
    # nested?
    if s.items is not None:
        if len(s.items) == 0:
            return Seq(0, items=[], dt=dt or "f")
        its = [E.val(st, x) for x in s.items]
        if all(is_scalar(x) and x is not None for x in its):
            d = dt or _dt(its)
            if d == "f":
                its = [cast(E, x, "f") for x in its]
            elif dt:
                its = [cast(E, x, dt) for x in its]
            return Seq(len(its), items=its, dt=d)
        subs = []
        for x in its:
            if x is None or is_scalar(x):
                return Seq(len(its), items=[E.freeze(st, y) for y in its], dt="o")
            c = content_array(E, st, x, dt)
            subs.append(c)
        if all(isinstance(c, Seq) and isinstance(c.n, int) for c in subs):
            m = subs[0].n
            if all(c.n == m for c in subs) and m <= 4 and len(subs) > 0 and m > 0:
                cols = []
                for j in range(m):
                    col = [c.at(j) for c in subs]
                    d = dt or _dt(col)
                    if d == "f":
                        col = [cast(E, x, "f") for x in col]
                    cols.append(Seq(len(col), items=col, dt=d))
                return Table(cols, dt or subs[0].dt)
        if all(isinstance(c, Seq) for c in subs):
            m = subs[0].n
            if all(same_n(E, st, c.n, m) for c in subs):
                def at(i, j):
                    if isinstance(i, int):
                        return subs[i].at(j)
                    r = subs[-1].at(j)
                    for q in range(len(subs) - 2, -1, -1):
                        r = merge_value(zint(i) == q, subs[q].at(j), r)
                    return r
                return Grid(len(subs), m, at, subs[0].dt)
        return Seq(len(its), items=[E.freeze(st, y) for y in its], dt="o")
    e = s.at(K0[11])
    if isinstance(e, Tup):
        m = len(e.items)
        if all(is_scalar(x) and x is not None for x in e.items):
            cols = []
            num = all(is_number(x) for x in e.items)
            anyf = any(is_real(x) for x in e.items)
            for j in range(m):
                d = dt or ("f" if anyf and num else _dt([e.items[j]]))
                c = Seq(s.n, (lambda j, d: lambda k: cast(E, s.at(k).items[j], d if d in "fi" else None))(j, d), d)
                if s.dom is not None and s.g is not None:
                    c.dom, c.g = s.dom, (lambda j, d: lambda q: cast(E, s.g(q).items[j], d if d in "fi" else None))(j, d)
                cols.append(c)
            return Table(cols, dt or cols[0].dt, fromlist=True)
        raise Unsupported("array of tuples")
    if isinstance(e, Seq):
        if e.items is not None or isinstance(e.n, int):
            m = e.n
            cols = []
            for j in range(m):
                c = Seq(s.n, (lambda j: lambda k: s.at(k).at(j))(j), e.dt)
                if s.dom is not None and s.g is not None:
                    c.dom, c.g = s.dom, (lambda j: lambda q: s.g(q).at(j))(j)
                cols.append(c)
            if m > 0:
                return astype(E, Table(cols, e.dt, fromlist=True), dt)
        if not occurs(K0[11], zint(e.n)) and is_scalar(e.at(K0[10])):
            # rows of one length
            return astype(E, Grid(s.n, e.n, lambda i, j: s.at(i).at(j), e.dt), dt)
        raise Unsupported("array of sequences")
    if isinstance(e, (Rec, Opq, Alt)) or e is None:
        return s
    d = dt or (_dt([e]))
    r = astype(E, s, d) if d != s.dt or s.extra in ("list", "tuple") else s
    if r is s and s.extra in ("list", "tuple"):
        r = Seq(s.n, s._at, s.dt, s.dom, s.g)
    if r.dt != d:
        r = Seq(r.n, r.at if r.items is None else None, d, r.dom, r.g, r.items)
    return r


def wrap(E, st, c):
    if isinstance(c, (Seq, Table, Grid)):
        return E.new_nd(st, c)
    return c


@model("numpy.array")
def m_array(E, st, args, kw):
    if E.val(st, kw.get("copy", True)) in (False, None):
        return m_asarray(E, st, args, {k: x for k, x in kw.items() if k != "copy"})
    v = A(E, st, args, kw, 0, "object")
    dt = dt_of(E, st, A(E, st, args, kw, 1, "dtype", None))
    c = content_array(E, st, v, dt)
    return wrap(E, st, c)


@model("numpy.atleast_1d")
def m_atleast(E, st, args, kw):
    if isinstance(args[0], Ref) and E.kind(st, args[0]) == "nd":
        return args[0]        # no copy
    c = content_array(E, st, args[0])
    if is_scalar(c):
        c = Seq(1, items=[c], dt=_dt([c]))
    return wrap(E, st, c)


@model("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray")
def m_asarray(E, st, args, kw):
    v = A(E, st, args, kw, 0, "a")
    dt = dt_of(E, st, A(E, st, args, kw, 1, "dtype", None))
    if isinstance(v, Ref) and E.kind(st, v) == "nd":
        s = E.seq_raw(st, v)
        if dt is None or (isinstance(s, Seq) and s.dt == dt):
            return v          # no copy: the same array
    return m_array(E, st, args, kw)


@method("nd", "astype")
def nd_astype(E, st, o, args, kw):
    dt = dt_of(E, st, A(E, st, args, kw, 0, "dtype"))
    s = S(E, st, o)
    if isinstance(s, Seq) and s.dt == "o" and s.items is None:
        raise Unsupported("astype of objects")
    if E.val(st, kw.get("copy", True)) is False and isinstance(s, Seq) and s.dt == dt:
        return o
    return E.new_nd(st, astype(E, s, dt))


@method("nd", "ravel")
def nd_ravel(E, st, o, args, kw):
    if isinstance(o, Ref) and E.kind(st, o) == "nd" and isinstance(S(E, st, o), Seq):
        return o        # no copy
    return nd_flatten(E, st, o, args, kw)


@method("nd", "flatten")
def nd_flatten(E, st, o, args, kw):
    s = S(E, st, o)
    if isinstance(s, Seq):
        return E.new_nd(st, s)
    if isinstance(s, Table) and len(s.cols) == 1:
        return E.new_nd(st, s.cols[0])
    if isinstance(s, Grid):
        return E.new_nd(st, ravel(E, s))
    raise Unsupported("flatten")


MODELS["numpy.ravel"] = lambda E, st, args, kw: nd_ravel(E, st, args[0], [], {})


def ravel(E, s):
    f = flat_dom(E, s.n, lambda k: s.m)
    r = Seq(f.N, lambda p: s.at(f.row(p), f.col(p)), s.dt)
    r.dom, r.g = f.dom, (lambda p: s.at(f.row(p), f.col(p)))
    return r


@method("nd", "reshape")
def nd_reshape(E, st, o, args, kw):
    a = [E.val(st, x) for x in args]
    s = S(E, st, o)
    if len(a) == 1 and isinstance(a[0], Tup):
        a = list(a[0].items)
    if len(a) == 1 and isinstance(a[0], int) and a[0] == -1 and isinstance(s, Seq):
        return o if isinstance(o, Ref) else E.new_nd(st, s)        # no copy
    if len(a) == 2 and isinstance(s, Table) and isinstance(a[0], int) and a[0] == -1 and isinstance(a[1], int) and a[1] == len(s.cols):
        return E.new_nd(st, Table(s.cols, s.dt))
    raise Unsupported("reshape")


@method("num", "reshape")
def num_reshape(E, st, o, args, kw):
    return E.new_nd(st, Seq(1, items=[o], dt=_dt([o])))


METHODS[("num", "flatten")] = METHODS[("num", "ravel")] = num_reshape
METHODS[("num", "astype")] = lambda E, st, o, a, kw: cast(E, o, dt_of(E, st, E.val(st, a[0])))
METHODS[("num", "item")] = lambda E, st, o, a, kw: o
METHODS[("num", "is_integer")] = lambda E, st, o, a, kw: (Fraction(o).denominator == 1) if is_py_num(o) else z3.IsInt(zreal(o))


@method("nd", "tolist")
def nd_tolist(E, st, o, args, kw):
    s = S(E, st, o)
    if isinstance(s, Seq):
        return E.new_list(st, s)
    if isinstance(s, Table):
        from .loops import table_rows
        t = table_rows(s)
        def row(f):
            def g(k):
                r = f(k)
                r = Seq(r.n, items=r.items, dt=r.dt)
                r.extra = "list"
                return r
            return g
        r = Seq(t.n, row(t.at), "o", t.dom, row(t.g) if t.g else None)
        if t.dom is not None:
            r = Seq(t.n, None, "o", t.dom, row(t.g))
        return E.new_list(st, r)
    def grow(i):
        r = Seq(s.m, lambda j: s.at(i, j), s.dt)
        r.extra = "list"
        return r
    q = Seq(s.n, grow, "o")
    return E.new_list(st, q)


@method("nd", "item")
def nd_item(E, st, o, args, kw):
    s = S1(E, st, o)
    return s.at(0)


def like(E, st, v, val, dt):
    s = content_array(E, st, v)
    if is_scalar(s):
        return val
    if isinstance(s, Seq):
        d = dt or s.dt
        if d == "s":
            x = str(val)
        else:
            x = cast(E, val, d if d in ("f", "i", "b") else None)
        r = Seq(s.n, items=[x] * s.n, dt=d) if s.items is not None else Seq(s.n, lambda k: x, d)
        if s.items is None and s.dom is not None and s.g is not None:
            r.dom, r.g = s.dom, (lambda q: x)
        return E.new_nd(st, r)
    if isinstance(s, Table):
        x = cast(E, val, dt or "f")
        return E.new_nd(st, Table([Seq(c.n, lambda k: x, dt or "f") for c in s.cols]))
    x = cast(E, val, dt or "f")
    return E.new_nd(st, Grid(s.n, s.m, lambda i, j: x, dt or "f"))


MODELS["numpy.ones_like"] = lambda E, st, args, kw: like(E, st, args[0], 1, dt_of(E, st, A(E, st, args, kw, 1, "dtype", None)))
MODELS["numpy.zeros_like"] = lambda E, st, args, kw: like(E, st, args[0], 0, dt_of(E, st, A(E, st, args, kw, 1, "dtype", None)))
MODELS["numpy.full_like"] = lambda E, st, args, kw: like(E, st, args[0], E.val(st, args[1]), dt_of(E, st, A(E, st, args, kw, 2, "dtype", None)))


@model("numpy.empty_like")
def m_empty_like(E, st, args, kw):
    s = S1(E, st, args[0])
    f, _ = E.fresh_fun("empty", [I], {"b": B, "i": I}.get(s.dt, R))
    return E.new_nd(st, Seq(s.n, lambda k: f(zint(k)), s.dt))


def filled(val, ddt="f"):
    def f(E, st, args, kw):
        shape = A(E, st, args, kw, 0, "shape")
        dt = dt_of(E, st, A(E, st, args, kw, 1, "dtype", None)) or ddt
        x = cast(E, val, dt)
        if isinstance(shape, (Tup, Ref)):
            ss = S1(E, st, shape)
            if ss.items is None:
                raise Unsupported("shape")
            if len(ss.items) == 1:
                shape = ss.items[0]
            elif len(ss.items) == 2:
                a, b = ss.items
                return E.new_nd(st, Grid(a, b, lambda i, j: x, dt))
            else:
                raise Unsupported("shape")
        if is_real(shape):
            raise PyRaise("TypeError", "shape is a float")
        if isinstance(shape, int) and shape <= 60:
            return E.new_nd(st, Seq(shape, items=[x] * shape, dt=dt))
        if not E.quick(st, compare(">=", shape, 0)):
            E.require(st, compare(">=", shape, 0), "ValueError", "negative dimension")
        return E.new_nd(st, Seq(shape, lambda k: x, dt))
    return f


MODELS["numpy.ones"] = filled(1)
MODELS["numpy.zeros"] = filled(0)


@model("numpy.full")
def m_full(E, st, args, kw):
    return filled(E.val(st, args[1]), _dt([E.val(st, args[1])]))(E, st, [args[0]], kw)


@model("numpy.empty")
def m_empty(E, st, args, kw):
    n = E.val(st, args[0])
    dt = dt_of(E, st, A(E, st, args, kw, 1, "dtype", None)) or "f"
    f, _ = E.fresh_fun("empty", [I], {"b": B, "i": I}.get(dt, R))
    return E.new_nd(st, Seq(n, lambda k: f(zint(k)), dt))


@model("numpy.arange")
def m_arange(E, st, args, kw):
    a = [E.val(st, x) for x in args if x is not None]
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], 1
    else:
        lo, hi, step = a[:3]
    unit = isinstance(step, (int, Fraction)) and step == 1
    if not unit and not (isinstance(step, (int, Fraction)) and step > 0):
        raise Unsupported("arange with a step that is not a positive constant")
    d = arith("-", hi, lo)
    isint = is_intlike(lo) and is_intlike(hi) and is_intlike(step)
    if not unit:
        d = arith("/", d if not isinstance(d, int) else Fraction(d), Fraction(step))
        n0 = -z3.ToInt(-zreal(d))
        n0 = z3.If(n0 >= 0, n0, z3.IntVal(0))
        return E.new_nd(st, Seq(z3.simplify(n0), lambda k: arith("+", lo, arith("*", step, k)) if isint else zreal(arith("+", lo, arith("*", step, k))), "i" if isint else "f"))
    if isint:
        n = d if isinstance(d, int) else zint(d)
    elif isinstance(d, Fraction):
        import math
        n = math.ceil(d)
    else:
        n = -z3.ToInt(-zreal(d))      # ceil
    if isinstance(n, int):
        n = max(n, 0)
    elif not E.quick(st, n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    dt = "i" if isint else "f"
    r = Seq(n, lambda k: arith("+", lo, k) if isint else zreal(arith("+", lo, k)), dt)
    if isinstance(lo, int) and lo == 0 and isint:
        d = identity_dom(E, n)
        r.dom, r.g, r.extra = d, (lambda q: q), "index"
    return E.new_nd(st, r)


@model("numpy.linspace")
def m_linspace(E, st, args, kw):
    a, b = A(E, st, args, kw, 0, "start"), A(E, st, args, kw, 1, "stop")
    n = A(E, st, args, kw, 2, "num", 50)
    if kw.get("endpoint", True) is not True or kw.get("retstep", False):
        raise Unsupported("linspace options")
    if is_real(n):
        raise PyRaise("TypeError", "number of samples is a float")
    E.require(st, compare(">=", n, 0), "ValueError", "number of samples")
    A0, B0 = zreal(a), zreal(b)
    nm1 = zreal(arith("-", n, 1))
    at = lambda k: z3.If(zint(n) == 1, A0, A0 + zreal(k) * ((B0 - A0) / nm1))
    return E.new_nd(st, Seq(n, at, "f"))


@model("numpy.outer")
def m_outer(E, st, args, kw):
    a, b = S1(E, st, args[0]), S1(E, st, args[1])
    return E.new_nd(st, Grid(a.n, b.n, lambda i, j: arith("*", a.at(i), b.at(j)), "f"))


@model("numpy.column_stack")
def m_column_stack(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Ref) or isinstance(v, (Tup, Seq)):
        s = E.seq(st, v)
        if isinstance(s, Grid):
            return E.new_nd(st, Grid(s.m, s.n, lambda i, j: s.at(j, i), s.dt))
        if s.items is not None:
            if not s.items:
                raise PyRaise("ValueError", "need at least one array")
            cols = []
            for x in s.items:
                c = content_array(E, st, x)
                if isinstance(c, Table):
                    cols += list(c.cols)
                elif isinstance(c, Seq):
                    cols.append(c)
                else:
                    raise Unsupported("column_stack")
            for c in cols[1:]:
                if not same_n(E, st, c.n, cols[0].n):
                    E.require(st, compare("==", c.n, cols[0].n), "ValueError", "columns of different length")
            return E.new_nd(st, Table(cols, cols[0].dt))
        e = s.at(K0[11])
        if isinstance(e, Seq):
            E.require(st, compare(">", s.n, 0), "ValueError", "need at least one array")
            if any(occurs(K0[11], to_z(x)) for x in [e.n] if is_z(x)):
                raise Unsupported("column_stack of arrays of different length")
            return E.new_nd(st, Grid(e.n, s.n, lambda i, j: s.at(j).at(i), e.dt))
    raise Unsupported("column_stack")


@model("numpy.vstack", "numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.r_")
def m_concatenate(E, st, args, kw):
    v = E.val(st, args[0])
    s = E.seq(st, v)
    if kw.get("axis", 0) not in (0,):
        raise Unsupported("axis")
    if isinstance(s, Grid):
        return E.new_nd(st, ravel(E, s))
    if isinstance(s, Table):
        if s.n is not None:
            n, m = s.n, len(s.cols)
            g = Grid(n, m, lambda i, j: _pick([c.at(i) for c in s.cols], j), s.dt)
            return E.new_nd(st, ravel(E, g))
    if s.items is not None:
        if not s.items:
            raise PyRaise("ValueError", "need at least one array to concatenate")
        cs = [content_array(E, st, x) for x in s.items]
        if any(is_scalar(c) for c in cs):
            raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
        r = cs[0]
        for c in cs[1:]:
            r = concat_cast(E, st, r, c)
        return E.new_nd(st, r)
    e = s.at(K0[11])
    if isinstance(e, Seq):
        E.require(st, compare(">", s.n, 0), "ValueError", "need at least one array to concatenate")
        f = flat_dom(E, s.n, lambda k: s.at(k).n)
        at = lambda p: s.at(f.row(p)).at(f.col(p))
        r = Seq(f.N, at, e.dt)
        r.dom, r.g = f.dom, at
        r.extra = ("flat", f)
        return E.new_nd(st, r)
    if is_scalar(e):
        raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    raise Unsupported("concatenate")


def _pick(vals, j):
    if isinstance(j, int):
        return vals[j]
    r = vals[-1]
    for q in range(len(vals) - 2, -1, -1):
        r = merge_value(zint(j) == q, vals[q], r)
    return r


def concat_cast(E, st, a, b):
    if isinstance(a, Table) and isinstance(b, Table):
        if len(a.cols) != len(b.cols):
            raise PyRaise("ValueError", "dimensions")
        return Table([concat_cast(E, st, p, q) for p, q in zip(a.cols, b.cols)], a.dt)
    if isinstance(a, (Grid, Table)) or isinstance(b, (Grid, Table)):
        raise Unsupported("concatenation of 2-d arrays")
    if {a.dt, b.dt} == {"i", "f"}:
        if not (isinstance(a.n, int) and a.n == 0):
            a = astype(E, a, "f")
        if not (isinstance(b.n, int) and b.n == 0):
            b = astype(E, b, "f")
    r = concat_seq(E, st, a, b)
    if r is a or r is b:
        r = Seq(r.n, r._at, r.dt, r.dom, r.g, r.items)
    return r


@model("numpy.vstack")
def m_vstack(E, st, args, kw):
    s = E.seq(st, args[0])
    if s.items is None:
        raise Unsupported("vstack")
    cs = [content_array(E, st, x) for x in s.items]
    cs2 = []
    for c in cs:
        if isinstance(c, Seq):
            if isinstance(c.n, int):
                cs2.append(Table([Seq(1, items=[c.at(j)], dt=c.dt) for j in range(c.n)], c.dt))
            else:
                raise Unsupported("vstack of a vector")
        elif c is None or is_scalar(c):
            raise Unsupported("vstack of a scalar")
        else:
            cs2.append(c)
    r = cs2[0]
    for c in cs2[1:]:
        r = concat_cast(E, st, r, c)
    return E.new_nd(st, r)


@model("numpy.append")
def m_npappend(E, st, args, kw):
    a = content_array(E, st, args[0])
    b = content_array(E, st, args[1])
    if is_scalar(b):
        b = Seq(1, items=[b], dt=_dt([b]))
    return E.new_nd(st, concat_cast(E, st, a, b))


@model("numpy.unique")
def m_unique(E, st, args, kw):
    v = E.val(st, args[0])
    s = content_array(E, st, v)
    if isinstance(s, Grid):
        s = ravel(E, s)
    if not isinstance(s, Seq):
        raise Unsupported("unique of a 2-d array")
    u = unique_of(E, st, s)
    out = [E.new_nd(st, u.seq)]
    opt = lambda n, p: kw.get(n, E.val(st, args[p]) if len(args) > p else False)
    if opt("return_index", 1):
        out.append(E.new_nd(st, u.index))
    if opt("return_inverse", 2):
        out.append(E.new_nd(st, Seq(s.n, lambda k: u.pos(k), "i")))
    if opt("return_counts", 3):
        out.append(Opq("counts"))
    return out[0] if len(out) == 1 else Tup(out)


@model("numpy.where", "numpy.nonzero", "numpy.flatnonzero")
def m_where(E, st, args, kw):
    if len(args) == 3:
        c, a, b = [E.arr(st, E.val(st, x)) for x in args]
        r = lift2(E, st, lambda p, q: (p, q), a, b, "o") if False else None
        if is_scalar(c):
            raise Unsupported("where with a scalar condition")
        at = lambda x, k: x if is_scalar(x) else x.at(k)
        its = None
        dt = _dt([merge_value(zz(c.at(K0[10])) if c.items is None else True, at(a, K0[10]), at(b, K0[10]))]) if c.items is None else "f"
        res = Seq(c.n, lambda k: merge_value(c.at(k), at(a, k), at(b, k)), dt)
        return E.new_nd(st, res)
    s = S(E, st, args[0])
    if not isinstance(s, Seq):
        raise Unsupported("where of a 2-d array")
    d = filter_dom(E, s.n, lambda k: tb(E, st, s.at(k)))
    return Tup([E.new_nd(st, index_seq(E, d))])


@model("numpy.flatnonzero")
def m_flatnonzero(E, st, args, kw):
    return m_where(E, st, args, kw).items[0]


@model("numpy.argwhere")
def m_argwhere(E, st, args, kw):
    r = m_where(E, st, args, kw)
    return E.new_nd(st, Table([S1(E, st, r.items[0])], "i"))


METHODS[("nd", "nonzero")] = lambda E, st, o, a, kw: m_where(E, st, [o], {})


def elementwise(f, dt=None):
    def g(E, st, args, kw):
        return map_arr(E, st, args[0], f, dt)
    return g


MODELS["numpy.sqrt"] = MODELS["math.sqrt"] = elementwise(lambda x: SQRT(zreal(x)))
MODELS["numpy.exp"] = MODELS["math.exp"] = elementwise(lambda x: EXP(zreal(x)))
MODELS["numpy.log10"] = MODELS["math.log10"] = elementwise(lambda x: LOG10(zreal(x)))
MODELS["numpy.square"] = elementwise(lambda x: arith("*", x, x))
MODELS["numpy.negative"] = elementwise(lambda x: arith("-", 0, x))
MODELS["numpy.logical_not"] = MODELS["numpy.invert"] = elementwise(lambda x: lnot(x if isinstance(x, bool) or z3.is_bool(x) else compare("!=", x, 0)), "b")
MODELS["numpy.floor"] = elementwise(lambda x: z3.ToReal(z3.ToInt(zreal(x))))


def isfin(x):
    if is_py_num(x) or isinstance(x, bool):
        return True
    if is_z(x) and x.sort() == I:
        return True
    if is_z(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
        return True
    if is_z(x) and z3.is_app(x):
        # floats are reals here: nothing overflows
        k = x.decl().kind()
        if z3.is_rational_value(x):
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return land(*[isfin(u) for u in x.children()])
        if k == z3.Z3_OP_ITE:
            return ite(x.arg(0), zbool(isfin(x.arg(1))), zbool(isfin(x.arg(2))))
        if k == z3.Z3_OP_DIV:
            return land(isfin(x.arg(0)), lnot(isnan(x.arg(1))))
        if x.decl().name() == "div0":
            return False
    return ISFIN(zreal(x))


def isnan(x):
    if is_py_num(x) or isinstance(x, bool) or (is_z(x) and (x.sort() == I or z3.is_bool(x))):
        return False
    if is_z(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
        return False
    if is_z(x) and z3.is_app(x):
        # arithmetic on numbers gives numbers (floats are reals here: nothing overflows)
        k = x.decl().kind()
        if z3.is_rational_value(x):
            return False
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return lor(*[isnan(u) for u in x.children()])
        if k == z3.Z3_OP_ITE:
            return ite(x.arg(0), zbool(isnan(x.arg(1))), zbool(isnan(x.arg(2))))
        if k == z3.Z3_OP_DIV:
            a, b = x.children()
            return lor(isnan(a), isnan(b), land(lnot(isfin(a)), lnot(isfin(b))))
    return ISNAN(zreal(x))


def need_num(f):
    def g(x):
        if is_strv(x) or x is None:
            raise PyRaise("TypeError", "ufunc of a string")
        return f(x)
    return g


MODELS["numpy.isfinite"] = MODELS["math.isfinite"] = elementwise(need_num(isfin), "b")
MODELS["numpy.isnan"] = MODELS["math.isnan"] = elementwise(need_num(isnan), "b")


@model("numpy.isscalar")
def m_isscalar(E, st, args, kw):
    v = E.val(st, args[0])
    return is_scalar(v) and v is not None


@model("numpy.isclose")
def m_isclose(E, st, args, kw):
    a, b = E.arr(st, E.val(st, args[0])), E.arr(st, E.val(st, args[1]))
    rt = A(E, st, args, kw, 2, "rtol", Fraction(1, 100000))
    at_ = A(E, st, args, kw, 3, "atol", Fraction(1, 10 ** 8))
    f = lambda x, y: compare("<=", absv(arith("-", x, y)), arith("+", at_, arith("*", rt, absv(y))))
    r = lift2(E, st, f, a, b, "b")
    return wrap(E, st, r)


def binary(op, dt=None):
    def f(E, st, args, kw):
        a, b = E.val(st, args[0]), E.val(st, args[1])
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("binary")
        r = lift2(E, st, op, nd_arg(E, st, a), nd_arg(E, st, b), dt)
        return wrap(E, st, r)
    return f


def nd_arg(E, st, v):
    return content_array(E, st, v)


for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**")):
    MODELS["numpy." + _n] = binary(lambda a, b, _o=_o: arith(_o, a, b))
for _n, _o in (("greater", ">"), ("greater_equal", ">="), ("less", "<"), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")):
    MODELS["numpy." + _n] = binary(lambda a, b, _o=_o: compare(_o, a, b), "b")
MODELS["numpy.minimum"] = binary(lambda a, b: merge_value(compare("<=", a, b), a, b))
MODELS["numpy.maximum"] = binary(lambda a, b: merge_value(compare(">=", a, b), a, b))
MODELS["numpy.fmin"], MODELS["numpy.fmax"] = MODELS["numpy.minimum"], MODELS["numpy.maximum"]
_tob = lambda x: x if isinstance(x, bool) or z3.is_bool(x) else compare("!=", x, 0)
MODELS["numpy.logical_and"] = MODELS["numpy.bitwise_and"] = binary(lambda a, b: land(_tob(a), _tob(b)), "b")
MODELS["numpy.logical_or"] = MODELS["numpy.bitwise_or"] = binary(lambda a, b: lor(_tob(a), _tob(b)), "b")


@model("numpy.clip")
def m_clip(E, st, args, kw):
    a, lo, hi = [E.val(st, x) for x in args[:3]]
    f = lambda x: merge_value(compare("<", x, lo), lo, merge_value(compare(">", x, hi), hi, x))
    return map_arr(E, st, a, f)


@model("numpy.diff")
def m_diff(E, st, args, kw):
    s = content_array(E, st, args[0])
    if not isinstance(s, Seq):
        raise Unsupported("diff")
    if s.items is not None:
        its = [arith("-", s.items[k + 1], s.items[k]) for k in range(len(s.items) - 1)]
        return E.new_nd(st, Seq(len(its), items=its, dt=s.dt))
    n = arith("-", s.n, 1)
    if not E.quick(st, compare(">=", n, 0)):
        n = merge_value(compare(">=", n, 0), n, 0)
    return E.new_nd(st, Seq(n, lambda k: arith("-", s.at(arith("+", k, 1)), s.at(k)), s.dt))


@model("numpy.insert")
def m_insert(E, st, args, kw):
    from .loops import coerce_dt
    s = content_array(E, st, args[0])
    p, v = E.val(st, args[1]), E.val(st, args[2])
    if not isinstance(s, Seq) or not is_scalar(v):
        raise Unsupported("insert")
    if E.is_seqlike(st, p):
        q = S1(E, st, p)
        if isinstance(q.n, int) and q.n == 1:
            p = q.at(0)
        else:
            raise Unsupported("insert at several places")
    if isinstance(p, int) and p < 0 or not isinstance(p, int):
        ok = land(compare(">=", p, arith("-", 0, s.n)), compare("<=", p, s.n))
        if not E.quick(st, ok):
            E.require(st, ok, "IndexError", "insert position")
        if not E.quick(st, compare(">=", p, 0)):
            p = merge_value(compare("<", p, 0), arith("+", p, s.n), p)
    else:
        E.require(st, compare("<=", p, s.n), "IndexError", "insert position")
    return E.new_nd(st, insert_at(E, st, s, p, coerce_dt(v, s.dt) if s.dt in "fi" else v))


@model("numpy.delete")
def m_delete(E, st, args, kw):
    s = content_array(E, st, args[0])
    p = E.val(st, args[1])
    if not isinstance(s, Seq):
        raise Unsupported("delete")
    if E.is_seqlike(st, p):
        q = S1(E, st, p)
        if isinstance(q.n, int) and q.n == 1:
            p = q.at(0)
        else:
            raise Unsupported("delete of several places")
    p = norm_index(E, st, s.n, p)
    return E.new_nd(st, delete_at(E, st, s, p))


@model("numpy.searchsorted")
def m_searchsorted(E, st, args, kw):
    s = content_array(E, st, args[0])
    v = E.val(st, args[1])
    if not is_scalar(v):
        raise Unsupported("searchsorted of an array")
    side = A(E, st, args, kw, 2, "side", "left")
    p = E.fresh("ins", I)
    nm = p.decl().name()
    E.fact(z3.And(p >= 0, p <= zint(s.n)), [nm], "searchsorted")
    k, l = var(), var("l")
    asc = z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k <= l, l < zint(s.n)), zreal(s.at(k)) <= zreal(s.at(l))))
    vv = zreal(v)
    low = (zreal(s.at(k)) < vv) if side == "left" else (zreal(s.at(k)) <= vv)
    E.fact(z3.Implies(asc, z3.ForAll([k], z3.And(z3.Implies(z3.And(k >= 0, k < p), low), z3.Implies(z3.And(k >= p, k < zint(s.n)), z3.Not(low))))),
           [nm], "searchsorted")
    return p


@model("numpy.isin", "numpy.in1d")
def m_isin(E, st, args, kw):
    a = content_array(E, st, args[0])
    b = content_array(E, st, args[1])
    if is_scalar(a):
        return contains(E, st, b, a)
    return E.new_nd(st, lift1(lambda x: contains(E, st, b, x), a, "b"))


def np_const(path):
    return {"numpy.pi": z3.Real("pi"), "numpy.nan": NANV, "numpy.inf": z3.Real("plus_inf"), "numpy.newaxis": None}.get(path)


# ---------------------------------------------------------------- histograms
@model("numpy.histogram")
def m_histogram(E, st, args, kw):
    s = content_array(E, st, args[0])
    b = A(E, st, args, kw, 1, "bins", 10)
    if not isinstance(b, int):
        raise Unsupported("histogram bins")
    c, _ = E.fresh_fun("hcount", [I], I)
    e, _ = E.fresh_fun("hedge", [I], R)
    return Tup([E.new_nd(st, Seq(b, lambda k: c(zint(k)), "i")), E.new_nd(st, Seq(b + 1, lambda k: e(zint(k)), "f"))])


@model("numpy.digitize")
def m_digitize(E, st, args, kw):
    s = content_array(E, st, args[0])
    b = content_array(E, st, args[1])
    f, nm = E.fresh_fun("digit", [I], I)
    k = var()
    E.fact(z3.And(f(k) >= 0, f(k) <= zint(b.n)), [nm], "digitize", vars=[k], pats=[f(k)])
    return E.new_nd(st, Seq(s.n, lambda q: f(zint(q)), "i"))


HIST = z3.Function("hist2d", Obj, Obj, I, I, I, I, R)
HEDGE = z3.Function("hist2d_edge", Obj, I, I, R)


@model("numpy.histogram2d")
def m_histogram2d(E, st, args, kw):
    x, y = content_array(E, st, args[0]), content_array(E, st, args[1])
    bins = A(E, st, args, kw, 2, "bins", 10)
    if isinstance(bins, (Tup, Ref)):
        b = S1(E, st, bins)
        if b.items is None or len(b.items) != 2:
            raise Unsupported("histogram2d bins")
        bx, by = [E.val(st, q) for q in b.items]
    else:
        bx = by = bins
    if any(k not in ("bins",) for k in kw) or len(args) > 3:
        raise Unsupported("histogram2d options")
    if not (is_intlike(bx) and is_intlike(by)):
        raise Unsupported("histogram2d with given edges")
    if not same_n(E, st, x.n, y.n):
        E.require(st, compare("==", x.n, y.n), "ValueError", "histogram2d")
    E.require(st, compare(">=", bx, 1), "ValueError", "bins")
    E.require(st, compare(">=", by, 1), "ValueError", "bins")
    return hist2d_of(E, st, x, y, bx, by)


def hist2d_of(E, st, x, y, bx, by):
    tx, ty = token(E, x), token(E, y)
    g = Grid(bx, by, lambda i, j: HIST(tx, ty, zint(bx), zint(by), zint(i), zint(j)), "f")
    ex = Seq(arith("+", bx, 1), lambda k: HEDGE(tx, zint(bx), zint(k)), "f")
    ey = Seq(arith("+", by, 1), lambda k: HEDGE(ty, zint(by), zint(k)), "f")
    # edges are evenly spaced
    for t, b in ((tx, bx), (ty, by)):
        w = z3.Function("hist2d_width", Obj, I, R)
        k = var()
        E.fact(z3.Implies(z3.And(k >= 0, k <= zint(b)), HEDGE(t, zint(b), k) == HEDGE(t, zint(b), 0) + z3.ToReal(k) * w(t, zint(b))),
               ["hist2d_edge"], "bin edges", vars=[k], pats=[HEDGE(t, zint(b), k)])
        E.fact(w(t, zint(b)) > 0, ["hist2d_width"], "bin edges")
    return Tup([E.new_nd(st, g), E.new_nd(st, ex), E.new_nd(st, ey)])


@model("numpy.unravel_index")
def m_unravel(E, st, args, kw):
    s = content_array(E, st, args[0])
    shape = E.val(st, args[1])
    sh = S1(E, st, shape)
    if sh.items is None or len(sh.items) != 2:
        raise Unsupported("unravel_index")
    a, b = sh.items
    f = flat_dom(E, a, lambda k: b)
    if is_scalar(s):
        E.require(st, land(compare(">=", s, 0), compare("<", s, f.N)), "ValueError", "unravel_index")
        return Tup([f.row(s), f.col(s)])
    k = var()
    inr = z3.Implies(z3.And(*rng(k, s.n)), zz(land(compare(">=", s.at(k), 0), compare("<", s.at(k), f.N))))
    if not E.quick(st, inr, vars=[k]):
        E.require(st, z3.ForAll([k], inr), "ValueError", "unravel_index")
    mk = lambda h: E.new_nd(st, Seq(s.n, None, "i", s.dom, lambda q: h(s.g(q))) if s.dom is not None and s.g is not None
                            else Seq(s.n, lambda q: h(s.at(q)), "i"))
    return Tup([mk(f.row), mk(f.col)])


@model("numpy.dstack")
def m_dstack(E, st, args, kw):
    s = E.seq(st, args[0])
    if s.items is None:
        raise Unsupported("dstack")
    cs = [content_array(E, st, x) for x in s.items]
    if not all(isinstance(c, Seq) for c in cs):
        raise Unsupported("dstack of 2-d arrays")
    return Stack3(Table(cs, cs[0].dt))


# ---------------------------------------------------------------- polynomials
PV = z3.Function("polyval", Str, Obj, R, R)


def polyval(E, st, family, x, c):
    cs = content_array(E, st, c)
    xx = content_array(E, st, x)
    if is_scalar(cs):
        cs = Seq(1, items=[cs], dt="f")
    if isinstance(cs, Opq) or isinstance(xx, Opq):
        return Opq("polyval")
    if isinstance(cs, Seq) and isinstance(cs.n, int) and cs.n == 0:
        raise PyRaise("IndexError", "polyval with no coefficients")
    cs = astype(E, cs, "f") if cs.dt == "i" else cs
    t = token(E, cs, "coef")
    f = lambda v: PV(zstr(family), t, zreal(v))
    if is_scalar(xx):
        return f(xx)
    return E.new_nd(st, lift1(f, xx, "f"))


for _p, _f in (("numpy.polynomial.polynomial.polyval", "poly"), ("numpy.polynomial.legendre.legval", "legendre"),
               ("numpy.polynomial.chebyshev.chebval", "chebyshev")):
    MODELS[_p] = (lambda fam: lambda E, st, args, kw: polyval(E, st, fam, args[0], args[1]))(_f)


def polyfit(E, st, family, args, kw):
    x, y, d = args[0], args[1], E.val(st, args[2])
    xs, ys = content_array(E, st, x), content_array(E, st, y)
    if not isinstance(xs, Seq) or not isinstance(ys, Seq):
        raise Unsupported("polyfit")
    if not same_n(E, st, xs.n, ys.n):
        E.require(st, compare("==", xs.n, ys.n), "TypeError", "expected x and y to have same length")
    E.require(st, compare(">", xs.n, 0), "TypeError", "polyfit of nothing")
    for h in E.hooks.get("polyfit", ()):
        h(E, st, family, xs, ys, d)
    f, nm = E.fresh_fun("pfit", [I], R)
    n = arith("+", d, 1)
    return E.new_nd(st, Seq(n, lambda k: f(zint(k)), "f"))


for _p, _f in (("numpy.polynomial.polynomial.polyfit", "poly"), ("numpy.polynomial.legendre.legfit", "legendre"),
               ("numpy.polynomial.chebyshev.chebfit", "chebyshev")):
    MODELS[_p] = (lambda fam: lambda E, st, args, kw: polyfit(E, st, fam, args, kw))(_f)


# ---------------------------------------------------------------- random
@model("numpy.random.choice")
def m_choice(E, st, args, kw):
    a = E.val(st, args[0])
    s = content_array(E, st, a)
    if isinstance(s, int) or (is_z(s)):
        s = m_range(E, st, [s], {})
    size = A(E, st, args, kw, 1, "size", None)
    rep = A(E, st, args, kw, 2, "replace", True)
    E.require(st, compare(">", s.n, 0), "ValueError", "choice from nothing")
    if size is None:
        p = E.fresh("draw", I)
        E.fact(z3.And(p >= 0, z3.Implies(zint(s.n) > 0, p < zint(s.n))), [p.decl().name()], "choice")
        return s.at(p)
    f, nm = E.fresh_fun("draw", [I], I)
    k, l = var(), var("l")
    E.require(st, compare(">=", size, 0), "ValueError", "negative size")
    E.fact(z3.Implies(z3.And(*rng(k, size)), z3.And(f(k) >= 0, f(k) < zint(s.n))), [nm], "choice", vars=[k], pats=[f(k)])
    if rep is False:
        E.require(st, compare("<=", size, s.n), "ValueError", "larger sample than population")
        E.fact(z3.Implies(z3.And(k >= 0, k < l, l < zint(size)), f(k) != f(l)), [nm], "choice without replacement", vars=[k, l], pats=[(f(k), f(l))])
    return E.new_nd(st, Seq(size, lambda q: s.at(f(zint(q))), s.dt))


@model("numpy.random.random", "numpy.random.rand", "numpy.random.random_sample", "numpy.random.normal", "numpy.random.uniform")
def m_random(E, st, args, kw):
    if not args:
        return E.fresh("rnd", R)
    n = E.val(st, args[-1] if args else kw.get("size"))
    f, nm = E.fresh_fun("rnd", [I], R)
    k = var()
    E.fact(z3.And(f(k) >= 0, f(k) < 1), [nm], "random", vars=[k], pats=[f(k)])
    return E.new_nd(st, Seq(n, lambda q: f(zint(q)), "f"))


@model("numpy.random.seed")
def m_seed(E, st, args, kw):
    return None


# ---------------------------------------------------------------- itertools, copy
@model("itertools.product")
def m_product(E, st, args, kw):
    from .loops import iter_seq
    if len(args) != 2 or kw:
        raise Unsupported("itertools.product")
    a, b = iter_seq(E, st, args[0]), iter_seq(E, st, args[1])
    if same(a.n, 0) or same(b.n, 0):
        r = Seq(0, items=[])
    elif a.items is not None and b.items is not None:
        its = [Tup([x, y]) for x in a.items for y in b.items]
        r = Seq(len(its), items=its)
    else:
        f = flat_dom(E, a.n, lambda k: b.n)
        at = lambda p: Tup([a.at(f.row(p)), b.at(f.col(p))])
        r = Seq(f.N, at, "o")
        r.dom, r.g = f.dom, at
    r.extra = "list"
    return r


@model("itertools.combinations")
def m_combinations(E, st, args, kw):
    s = S1(E, st, args[0])
    r = E.val(st, args[1])
    n = E.fresh("ncomb", I)
    E.fact(n >= 0, [n.decl().name()])
    f, nm = E.fresh_fun("comb", [I, I], I)
    k, l, m = var(), var("l"), var("m")
    E.require(st, compare(">=", r, 0), "ValueError", "negative length of combinations")
    of = z3.And(k >= 0, k < n)
    E.fact(z3.Implies(z3.And(of, l >= 0, l < zint(r)), z3.And(f(k, l) >= 0, f(k, l) < zint(s.n))), [nm], "combinations", vars=[k, l], pats=[f(k, l)])
    E.fact(z3.Implies(z3.And(of, l >= 0, l < m, m < zint(r)), f(k, l) < f(k, m)), [nm], "combinations", vars=[k, l, m], pats=[(f(k, l), f(k, m))])

    def at(q):
        t = Seq(r, lambda j: s.at(f(zint(q), zint(j))), s.dt)
        t.extra = "tuple"
        return t
    res = Seq(n, at, "o")
    res.extra = "list"
    return res


def deep(E, st, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        o = st.heap[v.id]
        if isinstance(o, HView):
            r = E.new_nd(st, E.view_content(st, o))
        elif isinstance(o, HSeq):
            c = o.val
            if isinstance(c, Seq) and c.log is not None:
                raise Unsupported("copy of a list being built")
            r = Ref()
            memo[v.id] = r
            if isinstance(c, Seq) and c.items is not None:
                c = Seq(c.n, items=[deep(E, st, x, memo) for x in c.items], dt=c.dt)
            st.heap[r.id] = HSeq(o.kind, c)
        elif isinstance(o, HObj):
            r = Ref()
            memo[v.id] = r
            st.heap[r.id] = HObj(o.cls, {k: deep(E, st, x, memo) for k, x in o.f.items()})
        elif isinstance(o, HDict):
            r = E.new(st, HDict(items=[(k, deep(E, st, x, memo)) for k, x in o.items]) if o.items is not None else o)
        else:
            raise Unsupported("deepcopy")
        memo[v.id] = r
        return r
    if isinstance(v, Tup):
        return Tup([deep(E, st, x, memo) for x in v.items])
    if isinstance(v, Alt):
        return Alt([(g, deep(E, st, x, memo)) for g, x in v.alts])
    if isinstance(v, Seq):
        r = Seq(v.n, v._at, v.dt, v.dom, v.g, v.items)
        r.extra = v.extra
        return E.new(st, HSeq("list" if v.extra == "list" else "nd", r)) if v.extra != "tuple" else v
    return v


@model("copy.deepcopy")
def m_deepcopy(E, st, args, kw):
    return deep(E, st, args[0])


@model("copy.copy", "numpy.copy")
def m_copy(E, st, args, kw):
    v = E.val(st, args[0])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, HView):
            return E.new_nd(st, E.view_content(st, o))
        if isinstance(o, HSeq):
            return E.new(st, HSeq(o.kind, E.seq(st, v)))
        if isinstance(o, HObj):
            return E.new(st, HObj(o.cls, dict(o.f)))
        if isinstance(o, HDict):
            return E.new(st, o)
    return v


@model("numpy.copy")
def m_npcopy(E, st, args, kw):
    return wrap(E, st, content_array(E, st, args[0]))


# ---------------------------------------------------------------- scipy
def call_on(E, st, f, args, kw=None):
    return E.call(f, args, kw or {}, st)


@model("scipy.optimize.least_squares")
def m_least_squares(E, st, args, kw):
    fun = A(E, st, args, kw, 0, "fun")
    x0 = content_array(E, st, A(E, st, args, kw, 1, "x0"))
    f, nm = E.fresh_fun("lsq", [I], R)
    res = Seq(x0.n, lambda k: f(zint(k)), "f")
    # the residual function has to accept the point it starts from
    a = [args_i for args_i in (E.seq(st, kw["args"]).items if "args" in kw else ())]
    for h in E.hooks.get("least_squares", ()):
        h(E, st, fun, x0, a, kw, res)
    r = E.new_nd(st, res)
    ob = E.new(st, HObj(RESULT, {"x": r, "success": E.fresh("ok", B), "cost": Opq("cost")}))
    return ob


class _Result:
    """class of the result objects of scipy"""
    methods = {}
    qual = "scipy.Result"

    class node:
        body = []
    mod = None


RESULT = _Result()


@model("scipy.optimize.minimize")
def m_minimize(E, st, args, kw):
    fun = A(E, st, args, kw, 0, "fun")
    x0 = content_array(E, st, A(E, st, args, kw, 1, "x0"))
    f, nm = E.fresh_fun("min", [I], R)
    res = Seq(x0.n, lambda k: f(zint(k)), "f")
    extra = kw.get("args", Tup([]))
    for h in E.hooks.get("minimize", ()):
        h(E, st, fun, x0, extra, kw, res)
    # the function is evaluated at points of the shape of x0: its effects are checked on an arbitrary one
    g, ng = E.fresh_fun("trial", [I], R)
    trial = E.new_nd(st, Seq(x0.n, lambda k: g(zint(k)), "f"))
    ex = E.val(st, extra)
    exs = list(ex.items) if isinstance(ex, Tup) else (list(S1(E, st, ex).items) if E.is_seqlike(st, ex) else [ex])
    probe = st.copy()
    E.probe_call(fun, [trial] + exs, probe, st)
    return E.new(st, HObj(RESULT, {"x": E.new_nd(st, res), "success": E.fresh("ok", B), "fun": Opq("fun")}))


@model("scipy.optimize.curve_fit")
def m_curve_fit(E, st, args, kw):
    fun = args[0]
    x, y = content_array(E, st, args[1]), content_array(E, st, args[2])
    p0 = A(E, st, args, kw, 3, "p0", None)
    if p0 is None:
        raise Unsupported("curve_fit without p0")
    ps = content_array(E, st, p0)
    tx, ty, tp = token(E, x), token(E, y), token(E, ps)
    fk = z3.Const("model:%s" % getattr(E.val(st, fun), "qual", "?"), Obj)
    extra = sorted(k for k in kw if k not in ("p0",))
    FAIL = z3.Function("cf_fail", Obj, Obj, Obj, Obj, B)
    PAR = z3.Function("cf_par", Obj, Obj, Obj, Obj, I, R)
    if extra:
        raise Unsupported("curve_fit options")
    E.require(st, compare(">=", x.n, ps.n), "TypeError", "curve_fit with fewer samples than parameters")
    E.require(st, z3.Not(FAIL(fk, tx, ty, tp)), "RuntimeError", "curve_fit")
    n = ps.n
    vals = [PAR(fk, tx, ty, tp, z3.IntVal(j)) for j in range(n)]
    for h in E.hooks.get("curve_fit", ()):
        h(E, st, fun, x, y, ps, vals, FAIL(fk, tx, ty, tp))
    return Tup([E.new_nd(st, Seq(n, items=vals, dt="f")), Opq("pcov")])


@model("pynverse.inversefunc")
def m_inverse(E, st, args, kw):
    fun = A(E, st, args, kw, 0, "func")
    y = content_array(E, st, A(E, st, args, kw, 1, "y_values"))
    if len(kw) > 0 or len(args) != 2:
        raise Unsupported("inversefunc options")
    INV, nm = E.fresh_fun("inv", [R], R)
    k = var()
    E.binders.append((k, [k >= 0, k < zint(y.n)]))
    try:
        sc = st.copy()
        val = E.call(fun, [INV(zreal(y.at(k)))], {}, sc)
        E.fact(zreal(val) == zreal(y.at(k)), [nm], "inversefunc", pats=[INV(zreal(y.at(k)))])
    finally:
        E.binders.pop()
    return E.new_nd(st, lift1(lambda v: INV(zreal(v)), y, "f"))


@model("scipy.interpolate.interp1d")
def m_interp1d(E, st, args, kw):
    x, y = content_array(E, st, args[0]), content_array(E, st, args[1])
    for h in E.hooks.get("interp1d", ()):
        h(E, st, x, y, kw)
    return Rec(None, {"x": E.freeze(st, E.new_nd(st, x)), "y": E.freeze(st, E.new_nd(st, y)), "kind": "interp1d"})


@model("scipy.interpolate.RectBivariateSpline")
def m_spline(E, st, args, kw):
    return Opq("spline")


SIMPLEX = z3.Function("find_simplex", R, R, R, R, R, R, R, R, R, R, I)


def polygon_vertices(pts):
    """a set of vertices: in an order that does not depend on that of the code"""
    pts = [(zreal(x), zreal(y)) for x, y in pts]
    pts.sort(key=lambda p: tuple(z3.simplify(x, som=True).sexpr() for x in p))
    return [x for p in pts for x in p]


@model("scipy.spatial.Delaunay")
def m_delaunay(E, st, args, kw):
    s = content_array(E, st, args[0])
    if not isinstance(s, Table) or len(s.cols) != 2 or s.n != 4:
        raise Unsupported("Delaunay")
    v = polygon_vertices([(s.cols[0].at(k), s.cols[1].at(k)) for k in range(4)])
    E.may_raise(st, "QhullError", "degenerate polygon")
    return E.new(st, HObj(DELAUNAY, {"v": Tup(v)}))


class _Delaunay(_Result):
    qual = "scipy.spatial.Delaunay"
    pymethods = {"find_simplex": lambda E, st, o, a, k: find_simplex(E, st, o, a, k)}


DELAUNAY = _Delaunay()


def find_simplex(E, st, o, args, kw):
    t = content_array(E, st, args[0])
    v = st.heap[o.id].f["v"].items
    if isinstance(t, Table):
        a, b = t.cols
        f = lambda x, y: SIMPLEX(*v, zreal(x), zreal(y))
        r = lift2(E, st, f, a, b, "i")
        return E.new_nd(st, r)
    raise Unsupported("find_simplex")


@model("os.path.exists", "os.path.isfile")
def m_exists(E, st, args, kw):
    return z3.Function("file_exists", Str, B)(zstr(E.val(st, args[0])))


@model("os.path.*", "pkg_resources.*", "importlib.*")
def m_path(E, st, args, kw):
    return E.fresh("path", Str)


def resource_path(E, a, b):
    return str_const("resource:%s/%s" % (a, b))


@model("pkg_resources.resource_filename")
def m_resource(E, st, args, kw):
    a, b = E.val(st, args[0]), E.val(st, args[1])
    if isinstance(a, str) and isinstance(b, str):
        return resource_path(E, a, b)
    return E.fresh("path", Str)


@model("numpy.loadtxt", "numpy.genfromtxt")
def m_loadtxt(E, st, args, kw):
    p = E.val(st, args[0])
    dt = dt_of(E, st, kw.get("dtype"))
    if dt != "s":
        raise Unsupported("loadtxt of numbers")
    return E.new_nd(st, file_table(E, p))


FILE_N = z3.Function("file_rows", Str, I)
FILE_C = z3.Function("file_cell", Str, I, I, Str)


def file_table(E, p):
    """content of a csv line list: element, wavelength, intensity"""
    pz = zstr(p)
    n = FILE_N(pz)
    E.fact(n >= 1, ["file_rows"], "line list")
    d = identity_dom(E, n)
    cols = [Seq(n, None, "s", d, (lambda j: lambda r: FILE_C(pz, zint(r), j))(j)) for j in range(3)]
    return Table(cols, "s")


# ---------------------------------------------------------------- files
@model("numpy.save")
def m_npsave(E, st, args, kw):
    p, v = E.val(st, args[0]), E.val(st, args[1])
    files = dict(st.ghost.get("files", {}))
    # np.save appends .npy where the name does not end in it
    e = ends_with(p, ".npy")
    if e is not True:
        raise Unsupported("numpy.save to a name without the extension")
    files[fkey(p)] = ("npy", p, E.freeze(st, v))
    st.ghost["files"] = files
    return None


def fkey(p):
    return ("s", p) if isinstance(p, str) else ("z", p.get_id())


@model("json.dump")
def m_jsondump(E, st, args, kw):
    v, f = E.val(st, args[0]), E.val(st, args[1])
    if not isinstance(f, Rec) or "path" not in f.f:
        raise Unsupported("json.dump")
    files = dict(st.ghost.get("files", {}))
    d = st.heap[v.id]
    if not isinstance(d, HDict) or d.items is None:
        raise Unsupported("json.dump of a map")
    files[fkey(f.f["path"])] = ("json", f.f["path"], Rec(None, {k: E.freeze(st, x) for k, x in d.items}))
    st.ghost["files"] = files
    return None


def file_content(E, st, p, kind):
    while is_z(p) and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
        c = p.arg(0)
        t = st.truth(c)
        if t is None:
            raise NeedSplit(c)
        p = p.arg(1) if t else p.arg(2)
    f = st.ghost.get("files", {}).get(fkey(p))
    if f is None:
        raise PyRaise("FileNotFoundError", "read of a file that was not written")
    if f[0] != kind:
        raise PyRaise("ValueError", "file of another format")
    return f[2]


@model("numpy.load")
def m_npload(E, st, args, kw):
    """the array of objects written from a list: one entry per element"""
    E.assumed.add("numpy.save/load and json.dump/load give back the values written (numbers exactly)")
    v = file_content(E, st, E.val(st, args[0]), "npy")
    pick = E.val(st, kw.get("allow_pickle", False))
    if pick is not True:
        raise PyRaise("ValueError", "object array loaded without allow_pickle")
    items = [E.new_nd(st, as_arr(x)) for x in v.items[:4]] + [E.new_list(st, Seq(len(x.items), items=list(x.items), dt="f")) for x in v.items[4:]]
    return Tup(items)


def as_arr(x):
    return x


@model("json.load")
def m_jsonload(E, st, args, kw):
    E.assumed.add("numpy.save/load and json.dump/load give back the values written (numbers exactly)")
    f = E.val(st, args[0])
    if not isinstance(f, Rec) or "path" not in f.f:
        raise Unsupported("json.load")
    v = file_content(E, st, f.f["path"], "json")
    return E.new(st, HDict([(k, E.new_list(st, x) if isinstance(x, Seq) else x) for k, x in v.f.items()]))
