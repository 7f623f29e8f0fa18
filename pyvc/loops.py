"""Loops.

for-loops over sequences of any length are summarised: the body is executed once
for an arbitrary iteration i, what it changes is expressed as a function of i, and
the effect of all the iterations is written down as a map, filter, flat map,
dictionary, sum, last update or recursion (induction over the iterations, the
meta-theorem the generator relies on).  Loops outside these shapes are havocked:
whatever they change becomes arbitrary, constrained by the last iteration and by
an inductive invariant where the contract asks for one (see contract.py).
"""
import ast
import z3
from .values import *
from .terms import *


class Carried:
    """what a location holds at the start of an arbitrary iteration; unreadable"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Carried(%s)" % (self.what,)


class Arr:
    """an array among the values of a location at the end of an iteration"""

    def __init__(self, n, dt):
        self.n, self.dt = n, dt


class Lift:
    """an array updated elementwise: at the start of an iteration element k is C(k)"""

    def __init__(self, C, n, ref):
        self.C, self.n, self.ref = C, n, ref
        self.x = z3.Const(fresh_name("x"), C.range())


def uses(e, C):
    """the expression applies the function C"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            if z3.is_app(x) and x.decl().eq(C):
                return True
            todo += x.children()
    return False


class Token:
    def __init__(self, base):
        self.base = base
        self.reads = []


def merge_exits(E, base, states):
    """merge several continuations of base into one state"""
    states = [s for s in states if s is not None]
    if not states:
        return None
    ms = states[-1]
    for s2 in reversed(states[:-1]):
        cond = land(*[c for c, b in s2.pc[len(base.pc):] if b])
        if cond is True:
            ms = s2
        else:
            ms = E.merge_states(base, cond, s2, ms)
    return ms


def iter_seq(E, st, v):
    """elements an iteration goes through, as a Seq"""
    v = E.val(st, v)
    if isinstance(v, Opq):
        n = E.fresh("niter", z3.IntSort())
        E.fact(n >= 0, [n.decl().name()])
        return Seq(n, lambda k: Opq("element of " + v.what))
    if isinstance(v, str):
        return Seq(len(v), items=list(v), dt="s")
    if is_z(v) and v.sort() == Str:
        raise Unsupported("iteration over a string")
    s = E.seq(st, v)
    if isinstance(s, Table):
        return table_rows(s)
    if isinstance(s, Grid):
        return Seq(s.n, lambda i: Seq(s.m, lambda j: s.at(i, j), s.dt))
    return s


def table_rows(s):
    def row(k):
        its = [c.at(k) for c in s.cols]
        r = Seq(len(its), items=its, dt=s.dt)
        return r
    r = Seq(s.n, row, "o")
    d = s.cols[0].dom
    if d is not None and all(c.dom is d for c in s.cols):
        r.dom = d
        def g(r_):
            its = [c.g(r_) for c in s.cols]
            return Seq(len(its), items=its, dt=s.dt)
        r.g = g
    return r


def exec_for(E, s, st):
    if s.orelse:
        raise Unsupported("for-else")
    itv = E.ev(s.iter, st)
    seq = iter_seq(E, st, itv)

    def body(state, elem):
        E.assign(s.target, elem, state)
        return E.exec_block(s.body, state)

    tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    iterref = itv.id if isinstance(itv, Ref) else None
    return run_for(E, st, seq, body, tnames, node=s, iterref=iterref)


def run_for(E, st, seq, body, tnames, node=None, iterref=None, havoc_ok=True):
    n = seq.n
    if isinstance(n, int) and n <= 40:
        return unroll(E, st, seq, body)
    mode = E.loopmode.get(id(node)) if node is not None else None
    if mode is None:
        try:
            nb = len(E.binders)
            return summarise(E, st, seq, body, tnames, iterref)
        except Unsupported as e:
            del E.binders[nb:]
            if not havoc_ok:
                raise
            E.notes.append("loop at line %s havocked: %s" % (getattr(node, "lineno", "?"), e))
            if node is not None:
                E.loopmode[id(node)] = "havoc"
                E.keep.append(node)
    return havoc_for(E, st, seq, body, tnames, node)


def unroll(E, st, seq, body):
    exits = []
    breaks = []
    base0 = st
    cur = st
    for k in range(seq.n):
        if cur is None:
            break
        base = cur
        s0 = cur.copy()
        nrm, ex = body(s0, seq.at(k))
        conts = []
        for x in ex:
            if x.kind == "continue":
                conts.append(x.st)
            elif x.kind == "break":
                breaks.append(x.st)
            else:
                exits.append(x)
        cur = merge_exits(E, base, conts + [nrm])
    res = merge_exits(E, base0, breaks + [cur])
    return res, exits


def diff(E, s0, s1, tnames):
    """locations that differ between two states (s1 continues s0)"""
    out = []
    for v in s0.env:
        if v in tnames:
            continue
        if v not in s1.env or not same(s0.env[v], s1.env[v]):
            out.append(("env", v))
    for r, o in s0.heap.items():
        o1 = s1.heap.get(r)
        if o1 is None or o1 is o:
            continue
        if isinstance(o, HObj) and isinstance(o1, HObj):
            for k in set(o.f) | set(o1.f):
                if not same(o.f.get(k, UNDEF), o1.f.get(k, UNDEF)):
                    out.append(("fld", r, k))
        elif isinstance(o, HSeq) and isinstance(o1, HSeq) and same(o.val, o1.val):
            pass
        else:
            out.append(("heap", r))
    for k in set(s0.ghost) | set(s1.ghost):
        if k == "exc":
            continue
        a, b = s0.ghost.get(k, UNDEF), s1.ghost.get(k, UNDEF)
        if isinstance(a, dict) or isinstance(b, dict):
            a = {} if a is UNDEF else a
            b = {} if b is UNDEF else b
            if a.keys() != b.keys() or any(not same(a[q], b[q]) for q in a):
                out.append(("ghost", k))
        elif not same(a, b):
            out.append(("ghost", k))
    return out


def get_loc(st, loc):
    if loc[0] == "env":
        return st.env.get(loc[1], UNDEF)
    if loc[0] == "heap":
        return st.heap[loc[1]]
    if loc[0] == "fld":
        return st.heap[loc[1]].f.get(loc[2], UNDEF)
    return st.ghost.get(loc[1], UNDEF)


def set_loc(st, loc, v):
    if loc[0] == "env":
        st.env[loc[1]] = v
    elif loc[0] == "heap":
        st.heap[loc[1]] = v
    elif loc[0] == "fld":
        o = st.heap[loc[1]]
        f = dict(o.f)
        f[loc[2]] = v
        st.heap[loc[1]] = HObj(o.cls, f)
    else:
        st.ghost[loc[1]] = v


def placeholder(E, loc, init, outs):
    """(value, const or None) standing for the location at the start of iteration i"""
    if loc[0] == "heap":
        if isinstance(init, HSeq):
            if not isinstance(init.val, Seq):
                raise Unsupported("2-d array changed in a loop")
            p = Seq(init.val.n, init.val.at, init.val.dt)
            p.extra, p.log = Token(init.val), ()
            return HSeq(init.kind, p), None
        if isinstance(init, HDict):
            p = HDict(init.items, init.has, init.get, init.keys)
            p.log = ()
            return p, None
        raise Unsupported("object changed in a loop")
    if is_number(init) and all(is_number(o) or not isinstance(o, (Alt,)) and is_number(o) for o in outs):
        isb = (isinstance(init, bool) or (is_z(init) and z3.is_bool(init)))
        ob = [isinstance(o, bool) or (is_z(o) and z3.is_bool(o)) for o in outs]
        if isb and all(ob):
            c = z3.Bool(fresh_name("x"))
            return c, c
        if not isb and not any(ob):
            if is_real(init) or any(is_real(o) for o in outs):
                c = z3.Real(fresh_name("x"))
            else:
                c = z3.Int(fresh_name("x"))
            return c, c
    return Carried(loc), None


def lift_of(E, st, s0, loc, init, outs, i):
    """an array (or a number that becomes one) updated elementwise in the loop"""
    arrs = [x for x in outs if isinstance(x, Arr)]
    if loc[0] == "heap" or not arrs or not all(is_number(x) or isinstance(x, Arr) for x in outs):
        return None
    n = arrs[0].n
    if any(not same(a.n, n) for a in arrs) or (is_z(n) and occurs(i, n)):
        return None
    dts = [a.dt for a in arrs]
    if isinstance(init, Ref):
        o = st.heap.get(init.id)
        if not (isinstance(o, HSeq) and o.kind == "nd" and isinstance(o.val, Seq) and same(o.val.n, n)):
            return None
        dts.append(o.val.dt)
    elif is_number(init) and not isinstance(init, bool):
        dts.append("f" if is_real(init) else "i")
    else:
        return None
    if any(d not in "fi" for d in dts):
        return None
    dt = "f" if "f" in dts else "i"
    C = z3.Function(fresh_name("lift"), z3.IntSort(), z3.RealSort() if dt == "f" else z3.IntSort())
    return Lift(C, n, E.new_nd(s0, Seq(n, lambda k: C(zint(k)), dt)))


def solve_lift(E, st, loc, init, v, end, lifts, xsub, i, n):
    L = lifts[loc]
    if not isinstance(v, Ref):
        raise Unsupported("array carried by a loop")
    out = end.heap[v.id].val
    ini = st.heap[init.id].val.at if isinstance(init, Ref) else (lambda k: init)

    def at(t, r):
        def elem(k):
            e = subst_value(to_z(out.at(k)), xsub)
            e = z3.substitute(e, (L.C(zint(k)), L.x))
            if any(uses(e, M.C) for M in lifts.values()):
                raise Unsupported("array carried by a loop, not elementwise")
            return solve_scalar(E, st, loc, L.x, ini(k), e, i, n)(t)
        some = compare(">", t, 0)
        elem(z3.Int(fresh_name("k")))
        new = E.new_nd(r, Seq(L.n, elem, "f" if L.C.range() == z3.RealSort() else "i"))
        if some is True:
            return new
        return Alt([(some, new), (lnot(some), init)])
    return at


def has_carried(v, depth=0):
    if isinstance(v, Carried):
        return True
    if isinstance(v, Alt):
        return any(has_carried(x) for _, x in v.alts)
    if isinstance(v, Tup):
        return any(has_carried(x) for x in v.items)
    return False


def exprs_of(v, out):
    if is_z(v):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            exprs_of(x, out)
    elif isinstance(v, Alt):
        for g, x in v.alts:
            if is_z(g):
                out.append(g)
            exprs_of(x, out)
    elif isinstance(v, Rec):
        for x in v.f.values():
            exprs_of(x, out)
    elif isinstance(v, Seq):
        if v.log is not None:
            for e in v.log:
                for q in e:
                    if not isinstance(q, str):
                        exprs_of(q, out)
            return
        if is_z(v.n):
            out.append(v.n)
        if v.items is not None:
            for x in v.items:
                exprs_of(x, out)
        else:
            try:
                exprs_of(v.at(K0[9]), out)
            except Unsupported:
                pass
    elif isinstance(v, HSeq):
        exprs_of(v.val, out)
    elif isinstance(v, HDict):
        for e in v.log or ():
            for q in e:
                exprs_of(q, out)
    elif isinstance(v, Table):
        for c in v.cols:
            exprs_of(c, out)
    return out


def mentions(v, const):
    return any(occurs(const, e) for e in exprs_of(v, []))


def summarise(E, st, seq, body, tnames, iterref=None):
    n = seq.n
    i = z3.Int(fresh_name("i"))
    rng = [i >= 0, i < zint(n)]
    E.binders.append((i, rng))
    nbind = len(E.binders)
    mark = len(E.obs)
    try:
        base = st.copy()
        base.add(i >= 0)
        base.add(i < zint(n))
        prelocs = {}
        outs = {}
        for rnd in range(8):
            s0 = base.copy()
            consts = {}
            lifts = {}
            for loc, init in prelocs.items():
                L = lift_of(E, st, s0, loc, init, outs.get(loc, []), i)
                if L is not None:
                    lifts[loc] = L
                    consts[loc] = None
                    set_loc(s0, loc, L.ref)
                    continue
                p, c = placeholder(E, loc, init, outs.get(loc, []))
                consts[loc] = c
                set_loc(s0, loc, p)
            start = s0.copy()
            elem = seq.at(i)
            nrm, ex = body(s0.copy(), elem)
            conts = [x.st for x in ex if x.kind == "continue"]
            breaks = [x.st for x in ex if x.kind == "break"]
            others = [x for x in ex if x.kind not in ("continue", "break")]
            nrm = merge_exits(E, base, conts + [nrm])
            new = False
            allst = ([nrm] if nrm is not None else []) + breaks + [x.st for x in others if x.kind == "return"]
            changed = set()
            for s1 in allst:
                for loc in diff(E, start, s1, tnames):
                    changed.add(loc)
                    if loc not in prelocs:
                        prelocs[loc] = get_loc(base, loc)
                        new = True
            for loc in list(prelocs):
                vs = []
                if loc[0] != "heap":
                    for s1 in allst:
                        v = get_loc(s1, loc)
                        for x in ([x for _, x in v.alts] if isinstance(v, Alt) else [v]):
                            if isinstance(x, Ref) and isinstance(s1.heap.get(x.id), HSeq) and s1.heap[x.id].kind == "nd" and isinstance(s1.heap[x.id].val, Seq):
                                q = s1.heap[x.id].val
                                x = Arr(q.n, q.dt)
                            vs.append(x)
                old = outs.get(loc)
                outs[loc] = vs
                c = consts.get(loc)
                if c is not None and c.sort() == z3.IntSort() and any(is_real(x) for x in vs):
                    new = True
                if c is not None and any(not is_number(x) for x in vs):
                    new = True
                if loc in lifts and not all(is_number(x) or isinstance(x, Arr) for x in vs):
                    raise Unsupported("array carried by a loop")
            if not new:
                break
        else:
            raise Unsupported("loop effects do not stabilise")
        if iterref is not None and ("heap", iterref) in prelocs:
            raise Unsupported("the loop changes the list it iterates over")
        E.cont = None
    finally:
        del E.binders[nbind - 1:]

    if nrm is None and not breaks and not any(x.kind == "return" for x in others):
        # every iteration raises
        pass

    solved = {}  # loc -> function t -> value at the start of iteration t
    order = [l for l in prelocs]
    # 1. scalars
    pending = [l for l in order if l[0] != "heap"]
    xsub = []  # (const, value at start of iteration i)
    body_end = nrm

    def out_value(loc):
        v = get_loc(body_end, loc) if body_end is not None else get_loc(start, loc)
        return subst_value(v, xsub) if not has_carried(v) else v

    if lifts:
        if body_end is None:
            raise Unsupported("array carried by a loop")
        for x in allst:
            for f, _ in x.pc[len(base.pc):]:
                if any(uses(f, L.C) for L in lifts.values()):
                    raise Unsupported("condition on an array carried by a loop")
        for loc in pending:
            if loc not in lifts:
                v = get_loc(body_end, loc)
                if not is_number(v) or is_z(v) and any(uses(v, L.C) for L in lifts.values()):
                    raise Unsupported("value computed from an array carried by a loop")
        if any(l[0] == "heap" for l in order):
            raise Unsupported("array carried by a loop that changes other objects")

    progress = True
    while pending and progress:
        progress = False
        for loc in list(pending):
            if loc in lifts:
                if any(l not in lifts for l in pending):
                    continue
                solved[loc] = solve_lift(E, st, loc, prelocs[loc], get_loc(body_end, loc), body_end, lifts, xsub, i, n)
                pending.remove(loc)
                progress = True
                continue
            c = consts[loc]
            v = out_value(loc)
            foreign = [consts[l] for l in pending if l is not loc and consts[l] is not None]
            if any(mentions(v, f) for f in foreign):
                continue
            at = solve_scalar(E, st, loc, c, prelocs[loc], v, i, n)
            solved[loc] = at
            if c is not None:
                xsub.append((c, to_z(at(i))))
            pending.remove(loc)
            progress = True
    if pending:
        # mutual recursion: vector recursion
        for loc in pending:
            if consts[loc] is None:
                raise Unsupported("loop-carried value %s" % (loc,))
        fs = {}
        for loc in pending:
            c = consts[loc]
            f, nm = E.fresh_fun("rec", [z3.IntSort()], c.sort())
            fs[loc] = (f, nm)
        sub = [(consts[l], fs[l][0](i)) for l in pending]
        E.binders.append((i, rng))
        try:
            for loc in pending:
                f, nm = fs[loc]
                v = to_sort(subst_value(out_value(loc), sub), consts[loc].sort())
                E.fact(f(i + 1) == v, [nm], "recursion", pats=[f(i + 1)])
        finally:
            del E.binders[nbind - 1:]
        for loc in pending:
            f, nm = fs[loc]
            E.fact(f(z3.IntVal(0)) == to_sort(prelocs[loc], consts[loc].sort()), [nm])
            solved[loc] = (lambda f: lambda t: f(zint(t)))(f)
        xsub += sub

    # 2. containers
    for loc in order:
        if loc[0] != "heap":
            continue
        solved[loc] = solve_heap(E, st, loc, prelocs[loc], get_loc(body_end, loc) if body_end is not None else get_loc(start, loc), i, n, xsub, seq, rng)

    def state_at(t, src=None, at_i=None):
        """state with the changed locations as at the start of iteration t, or,
        with src, as in the state src inside iteration t"""
        r = st.copy()
        for loc in order:
            if loc in lifts:
                set_loc(r, loc, solved[loc](t, r) if src is None else Carried(loc))
            elif src is None:
                set_loc(r, loc, solved[loc](t))
            else:
                v = get_loc(src, loc)
                if loc[0] == "heap":
                    set_loc(r, loc, extend_heap(E, st, loc, solved[loc](t), v, i, t, xsub))
                else:
                    if has_carried(v):
                        prev = solved[loc](t)
                        v2 = replace_carried(v, prev)
                        set_loc(r, loc, subst_value(subst_value(v2, xsub), [(i, zint(t))]))
                    else:
                        set_loc(r, loc, subst_value(subst_value(v, xsub), [(i, zint(t))]))
        return r

    def locals_at(r, src, t, cond):
        """variables first assigned in the body"""
        for v in src.env:
            if v in st.env and v not in tnames:
                continue
            if v in st.env and not same(st.env[v], src.env[v]) or v not in st.env:
                if isinstance(src.env[v], Ref) and src.env[v].id in st.heap:
                    val = src.env[v]
                else:
                    try:
                        val = subst_value(subst_value(E.freeze(src, src.env[v]), xsub), [(i, zint(t))])
                    except Unsupported:
                        val = Carried(v)
                    if lifts and not (is_number(val) and not (is_z(val) and any(uses(val, L.C) for L in lifts.values()))):
                        val = Carried(v)
                    if isinstance(val, Alt) and has_carried(val) or isinstance(val, Carried):
                        val = Opq("loop variable " + v)
                if cond is True:
                    r.env[v] = val
                else:
                    r.env[v] = merge_value(cond, val, st.env.get(v, UNDEF))

    def extra(src):
        fs = []
        for c, b in src.pc[len(base.pc):]:
            fs.append(c)
        return [subst_value(f, xsub) for f in fs]

    def pc_forall(extras, bound, branch_vars=()):
        fs = [f for f in extras if is_z(f)]
        if not fs:
            return True
        j = z3.Int(fresh_name("j"))
        bodyf = z3.And(*fs) if len(fs) > 1 else fs[0]
        if not occurs(i, bodyf):
            return implies(compare(">", bound, 0), bodyf)
        bodyf = z3.substitute(bodyf, (i, j))
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(bound)), bodyf))

    nextra = extra(nrm) if nrm is not None else [z3.BoolVal(False)]
    exits = []
    for x in others:
        t = E.fresh("istar", z3.IntSort())
        r = state_at(t, x.st)
        r.add(land(t >= 0, t < zint(n)))
        cs = [subst_value(f, [(i, t)]) for f in extra(x.st)]
        if cs:
            r.add(land(*cs), True)
        r.add(pc_forall(nextra, t))
        locals_at(r, x.st, t, True)
        val = x.val
        if x.kind == "return":
            val = subst_value(subst_value(E.freeze(x.st, val) if not (isinstance(val, Ref) and val.id in st.heap) else val, xsub), [(i, t)])
            if isinstance(val, (Seq, Table)):
                val = E.new(r, HSeq("list" if getattr(val, "extra", None) == "list" else "nd", val))
        exits.append(type(x)(x.kind, r, val, x.where))
    done = state_at(n)
    if nrm is not None:
        done.add(pc_forall(nextra, n))
        locals_at(done, nrm, arith("-", n, 1), compare(">", n, 0))
        for v in tnames:
            if v not in done.env or same(done.env.get(v), st.env.get(v, UNDEF)):
                pass
    else:
        done.add(compare("==", n, 0))
    # exits happen only if some iteration takes them: the complete state already
    # carries the negation (pc of the normal iterations); make it a branch
    if exits or breaks:
        bflag = E.fresh("complete", z3.BoolSort())
        done.add(bflag, True)
        for x in exits:
            x.st.add(z3.Not(bflag), True)
    if not breaks:
        return done, exits
    bstates = []
    for b in breaks:
        t = E.fresh("ibrk", z3.IntSort())
        r = state_at(t, b)
        r.add(z3.Not(bflag), True)
        r.add(land(t >= 0, t < zint(n)))
        cs = [subst_value(f, [(i, t)]) for f in extra(b)]
        if cs:
            r.add(land(*cs), len(breaks) > 1 or bool(exits))
        r.add(pc_forall(nextra, t))
        locals_at(r, b, t, True)
        bstates.append(r)
    res = merge_exits(E, st, bstates + [done])
    return res, exits


def replace_carried(v, prev):
    if isinstance(v, Carried):
        return prev
    if isinstance(v, Alt):
        out = None
        alts = []
        for g, x in v.alts:
            alts.append((g, replace_carried(x, prev)))
        r = alts[-1][1]
        for g, x in reversed(alts[:-1]):
            r = merge_value(g, x, r)
        return r
    if isinstance(v, Tup):
        return Tup([replace_carried(x, prev) for x in v.items])
    return v


def to_sort(v, sort):
    if sort == z3.RealSort():
        return zreal(v)
    if sort == z3.IntSort():
        return zint(v)
    if sort == z3.BoolSort():
        return zbool(v)
    return to_z(v)


def solve_scalar(E, st, loc, c, init, v, i, n):
    """value of a location at the start of iteration t, given its value v (a term
    in i and the constant c for the value before) at the end of iteration i"""
    from .npmodel import sum_term
    # last update with a guard
    if c is None:
        if not has_carried(v):
            if isinstance(v, Ref) and loc[0] == "env" and loc[1:]:
                return lambda t: STALE
            if isinstance(v, Ref):
                raise Unsupported("loop rebinds a name to an object created in it")
            return lambda t: merge_value(compare(">", t, 0), subst_value(v, [(i, arith("-", t, 1))] if is_z(t) else [(i, zint(t - 1))]), init)
        # Alt([(g, value) ..., (h, Carried)])
        g = carried_guard(v)
        upd = replace_carried(v, None)
        if g is None or (isinstance(upd, Alt) and any(isinstance(x, Ref) for _, x in upd.alts)) or isinstance(upd, Ref):
            raise Unsupported("loop-carried object")
        vals = [(gg, x) for gg, x in v.alts if not isinstance(x, Carried)]
        val = vals[-1][1]
        for gg, x in reversed(vals[:-1]):
            val = merge_value(gg, x, val)
        return last_update(E, lnot(g), val, init, i, n)
    ve = v
    if is_z(ve) and ve.eq(c):
        return lambda t: init
    if not mentions(ve, c):
        def at(t):
            return merge_value(compare(">", t, 0), subst_value(ve, [(i, zint(arith("-", t, 1)))]), init)
        return at
    if z3.is_bool(c):
        if z3.is_or(ve) and any(x.eq(c) for x in ve.children()):
            rest = lor(*[x for x in ve.children() if not x.eq(c)])
            if not mentions(rest, c):
                return lambda t: lor(init, exists_before(E, rest, i, t))
        if z3.is_and(ve) and any(x.eq(c) for x in ve.children()):
            rest = land(*[x for x in ve.children() if not x.eq(c)])
            if not mentions(rest, c):
                return lambda t: land(init, lnot(exists_before(E, lnot(rest), i, t)))
    else:
        d = z3.simplify(ve - c)
        if not mentions(d, c):
            dd = z3.simplify(d)
            if not occurs(i, dd):
                return lambda t: arith("+", init, arith("*", unz(dd), t)) if not (is_py_num(unz(dd)) and unz(dd) == 1) else arith("+", init, t)
            return lambda t: arith("+", init, sum_term(E, st, t, lambda r: subst_value(ve_minus(ve, c), [(i, zint(r))])))
    if z3.is_app_of(ve, z3.Z3_OP_ITE):
        g, a, b = ve.children()
        if b.eq(c) and not mentions(g, c) and not mentions(a, c):
            return last_update(E, g, a, init, i, n)
        if a.eq(c) and not mentions(g, c) and not mentions(b, c):
            return last_update(E, lnot(g), b, init, i, n)
        # conditional accumulation
        d = z3.If(g, a - c, b - c) if not z3.is_bool(c) else None
        if d is not None and not mentions(g, c):
            d = z3.simplify(z3.If(g, z3.simplify(a - c), z3.simplify(b - c)))
            if not mentions(d, c):
                return lambda t: arith("+", init, sum_term(E, st, t, lambda r: subst_value(d, [(i, zint(r))])))
    # recursion
    f, nm = E.fresh_fun("rec", [z3.IntSort()], c.sort())
    E.binders.append((i, [i >= 0, i < zint(n)]))
    try:
        E.fact(f(i + 1) == to_sort(subst_value(ve, [(c, f(i))]), c.sort()), [nm], "recursion", pats=[f(i + 1)])
    finally:
        E.binders.pop()
    E.fact(f(z3.IntVal(0)) == to_sort(init, c.sort()), [nm])
    return lambda t: f(zint(t))


def ve_minus(ve, c):
    """ve - c with the occurrence of c removed syntactically where possible"""
    if z3.is_add(ve):
        ch = list(ve.children())
        for k, x in enumerate(ch):
            if x.eq(c):
                rest = ch[:k] + ch[k + 1:]
                return rest[0] if len(rest) == 1 else z3.Sum(*rest)
    return z3.simplify(ve - c)


def carried_guard(v):
    if isinstance(v, Alt):
        gs = [g for g, x in v.alts if isinstance(x, Carried)]
        if gs and not any(has_carried(x) and not isinstance(x, Carried) for _, x in v.alts):
            return lor(*gs)
    return None


def exists_before(E, cond, i, t):
    if isinstance(cond, bool):
        return land(cond, compare(">", t, 0))
    b, nm = E.fresh_fun("ex", [], z3.BoolSort())
    w, nw = E.fresh_fun("wit", [], z3.IntSort())
    b, w = b(), w()
    E.fact(z3.Implies(b, z3.And(w >= 0, w < zint(t), z3.substitute(cond, (i, w)))), [nm, nw])
    j = z3.Int(fresh_name("j"))
    E.fact(z3.Implies(z3.And(j >= 0, j < zint(t), z3.substitute(cond, (i, j))), b), [nm], vars=[j])
    return b


def last_update(E, g, val, init, i, n):
    cache = {}

    def at(t):
        key = t if isinstance(t, int) else t.get_id()
        if key in cache:
            return cache[key][1]
        ex, nm = E.fresh_fun("upd", [], z3.BoolSort())
        L, nl = E.fresh_fun("last", [], z3.IntSort())
        ex, L = ex(), L()
        gz = g if is_z(g) else z3.BoolVal(g)
        E.fact(z3.Implies(ex, z3.And(L >= 0, L < zint(t), z3.substitute(gz, (i, L)))), [nm, nl])
        j = z3.Int(fresh_name("j"))
        E.fact(z3.Implies(z3.And(j >= 0, j < zint(t), z3.substitute(gz, (i, j))), z3.And(ex, j <= L)), [nm, nl], vars=[j])
        r = merge_value(ex, subst_value(val, [(i, L)]), init)
        cache[key] = (t, r)
        return r

    return at


def entries_to_pieces(log):
    return log


def solve_heap(E, st, loc, init, out, i, n, xsub, seq, rng):
    if isinstance(init, HSeq):
        if not (isinstance(out, HSeq) and isinstance(out.val, Seq) and out.val.log is not None
                and isinstance(out.val.extra, Token)):
            raise Unsupported("list or array replaced in a loop")
        log = out.val.log
        base = init.val
        kinds = {e[1] for e in log}
        if kinds <= {"one", "many"}:
            def at(t):
                return HSeq(init.kind, summ_list(E, st, base, log, i, t, xsub, seq if same(t, n) else None, rng))
            return cached(at)
        if kinds == {"set"}:
            check_reads(E, st, out.val.extra, log, i, n, xsub)
            def at(t):
                return HSeq(init.kind, summ_set(E, base, log, i, t, xsub))
            return cached(at)
        raise Unsupported("mixed list operations in a loop")
    if isinstance(init, HDict):
        log = out.log
        if log is None:
            raise Unsupported("dict replaced in a loop")
        def at(t):
            return summ_dict(E, init, log, i, t, xsub)
        return cached(at)
    raise Unsupported("object changed in a loop")


def cached(f):
    c = {}

    def g(t):
        k = t if isinstance(t, int) else t.get_id()
        if k not in c:
            c[k] = (t, f(t))
        return c[k][1]

    return g


def extend_heap(E, st, loc, prefix, cur, i, t, xsub):
    """content in the middle of iteration t: prefix plus what cur's log adds"""
    if isinstance(prefix, HSeq):
        if not isinstance(cur.val, Seq) or cur.val.log is None:
            raise Unsupported("list or array replaced in a loop")
        log = cur.val.log
        if not log:
            return prefix
        from .npmodel import concat_seq
        val = prefix.val
        for e in log:
            g, k = e[0], e[1]
            g = subst_value(subst_value(g, xsub), [(i, zint(t))]) if is_z(g) else g
            if k == "one":
                piece = Seq(1, items=[subst_value(subst_value(e[2], xsub), [(i, zint(t))])])
            elif k == "many":
                piece = subst_value(subst_value(e[2], xsub), [(i, zint(t))])
            else:
                idx = subst_value(subst_value(e[2], xsub), [(i, zint(t))])
                v = subst_value(subst_value(e[3], xsub), [(i, zint(t))])
                old = val
                val = Seq(old.n, (lambda old, idx, v, g: lambda k_: merge_value(land(g, compare("==", k_, idx)), v, old.at(k_)))(old, idx, v, g), old.dt)
                continue
            ext = concat_seq(E, st, val, piece)
            val = merge_seq(g, ext, val) if not (isinstance(g, bool) and g) else ext
        return HSeq(prefix.kind, val)
    if isinstance(prefix, HDict):
        if not cur.log:
            return prefix
        raise Unsupported("dict changed before leaving a loop")
    raise Unsupported("leaving a loop")


def check_reads(E, st, tok, log, i, n, xsub):
    idxs = [subst_value(e[2], xsub) for e in log]
    for e in idxs[1:]:
        if not same(e, idxs[0]):
            raise Unsupported("several places of an array are changed in one iteration")
    e = idxs[0]
    if not is_z(e):
        raise Unsupported("loop writes one fixed place repeatedly")
    j = z3.Int(fresh_name("j"))
    ej = z3.substitute(e, (i, j))
    s = z3.Solver()
    s.set("timeout", 3000)
    for f in st.forms():
        if not z3.is_quantifier(f):
            s.add(f)
    s.add(i >= 0, i < zint(n), j >= 0, j < i)
    bad = [ej == e]
    for r in tok.reads:
        bad.append(ej == zint(subst_value(r, xsub)))
    s.add(z3.Or(*bad))
    if s.check() != z3.unsat:
        raise Unsupported("array element depends on an element changed earlier in the loop")


def affine_inverse(e, i):
    """e(i) = i + c  or c - i : k -> i"""
    d = z3.simplify(e - i)
    if not occurs(i, d):
        return lambda k: arith("-", k, unz(d))
    d = z3.simplify(e + i)
    if not occurs(i, d):
        return lambda k: arith("-", unz(d), k)
    return None


def summ_set(E, base, log, i, t, xsub):
    log = [tuple(subst_value(q, xsub) if not isinstance(q, str) else q for q in e) for e in log]
    e = zint(log[0][2])
    inv = affine_inverse(e, i)
    if inv is None:
        raise Unsupported("index of an array assignment in a loop")
    # every position is written: no test of the range (positions outside have no value)
    q = z3.Int(fresh_name("q"))
    full = same(z3.simplify(zint(inv(q)) - q), z3.IntVal(0)) and same(z3.simplify(zint(t)), z3.simplify(zint(base.n)))

    def at(k):
        ii = zint(inv(k))
        v = base.at(k)
        for ent in log:
            g = subst_value(ent[0], [(i, ii)]) if is_z(ent[0]) else ent[0]
            v = merge_value(g if full else land(ii >= 0, ii < zint(t), g), coerce_dt(subst_value(ent[3], [(i, ii)]), base.dt), v)
        return v

    return Seq(base.n, at, base.dt)


def coerce_dt(v, dt):
    if dt == "i" and is_real(v):
        x = zreal(v)
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if dt == "f" and is_number(v):
        return zreal(v)
    return v


def summ_list(E, st, base, log, i, t, xsub, seq, rng):
    from .npmodel import concat_seq, filter_dom, compose_pos, flat_dom, seq_key
    log = [tuple(subst_value(q, xsub) if not isinstance(q, str) else q for q in e) for e in log]
    if not log:
        return base
    # exclusive one/one pairs become a single unconditional append
    while len(log) >= 2 and log[0][1] == log[1][1] == "one" and same_neg(log[0][0], log[1][0]) and len(log) == 2:
        log = [(True, "one", merge_value(log[0][0], log[0][2], log[1][2]))]
    if len(log) > 2 and all(e[1] == "one" for e in log) and exclusive(log):
        v = log[-1][2]
        for e in reversed(log[:-1]):
            v = merge_value(e[0], e[2], v)
        tot = z3.simplify(zbool(lor(*[e[0] for e in log])))
        log = [(True if z3.is_true(tot) or taut(tot) else tot, "one", v)]
    if len(log) == 1 and log[0][1] == "one":
        g, _, v = log[0]
        if isinstance(g, bool) or z3.is_true(g):
            if g is False:
                return base
            r = Seq(t, lambda k: subst_value(v, [(i, zint(k))]), E.guess_dt([v]))
            if seq is not None and seq.dom is not None:
                r.dom = seq.dom
                r.g = lambda q: root_val(v, i, seq, q)
            res = r
        else:
            root = seq is not None and seq.dom is not None and seq.dom.incr
            res = None
            if root:
                # express the condition over the root index space
                src_i = seq.dom.src(i)
                q0 = z3.Int(fresh_name("q"))
                gq = abstract_term(g, src_i, q0, i)
                if gq is not None:
                    from .npmodel import filter_root
                    d = filter_root(E, seq.dom, lambda q: subst_value(gq, [(q0, zint(q))]))
                    vq = abstract_value(v, src_i, q0, i)
                    if vq is not None:
                        res = Seq(d.n, None, E.guess_dt([v]), dom=d, g=lambda q: subst_value(vq, [(q0, zint(q))]))
                    else:
                        res = Seq(d.n, lambda k: subst_value(v, [(i, zint(seq.dom.inv(d.src(k))))]), E.guess_dt([v]), dom=d,
                                  g=lambda q: subst_value(v, [(i, zint(seq.dom.inv(q)))]))
            if res is None:
                d = filter_dom(E, t, lambda k: subst_value(g, [(i, zint(k))]))
                if seq is not None and seq.dom is not None:
                    dd = compose_pos(E, seq, d)
                    res = Seq(d.n, lambda k: subst_value(v, [(i, zint(d.src(k)))]), E.guess_dt([v]), dom=dd,
                              g=lambda q: subst_value(v, [(i, zint(seq.dom.inv(q)))]))
                else:
                    res = Seq(d.n, None, E.guess_dt([v]), dom=d, g=lambda q: subst_value(v, [(i, zint(q))]))
        return extend_base(E, st, base, res)
    # general: per-iteration sequence
    piece = None
    for g, k, v in log:
        p = Seq(1, items=[v], dt=E.guess_dt([v])) if k == "one" else v
        if not (isinstance(g, bool) and g):
            p = Seq(merge_value(g, p.n, 0), p.at, p.dt)
        piece = p if piece is None else concat_seq(E, st, piece, p)
    fd = flat_dom(E, t, lambda k: subst_value(piece.n, [(i, zint(k))]) if is_z(piece.n) else piece.n)

    def at(k):
        return subst_value_fun(piece, i, fd.row(k), fd.col(k))

    r = Seq(fd.N, at, piece.dt)
    r.extra = ("flat", fd)
    r.dom = fd.dom
    r.g = at
    return extend_base(E, st, base, r)


def extend_base(E, st, base, r):
    """base followed by r; inside an enclosing loop that builds the list, an entry of its log"""
    from .npmodel import concat_seq
    if base.log is not None:
        n = Seq(base.n, base._at, base.dt)
        n.extra, n.log = base.extra, base.log + ((True, "many", r),)
        return n
    if isinstance(base.n, int) and base.n == 0:
        return r
    return concat_seq(E, st, base, r)


def subst_value_fun(piece, i, row, col):
    c = z3.Int(fresh_name("c"))
    e = piece.at(c)
    e = subst_value(e, [(i, zint(row))])
    return subst_value(e, [(c, zint(col))])


def same_neg(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    return same(lnot(a), b) or same(a, lnot(b)) or z3.simplify(lnot(a)).eq(z3.simplify(b))


def exclusive(log):
    gs = [e[0] for e in log]
    if any(isinstance(g, bool) for g in gs):
        return False
    s = z3.Solver()
    s.set("timeout", 500)
    for a in range(len(gs)):
        for b in range(a + 1, len(gs)):
            s.push()
            s.add(gs[a], gs[b])
            r = s.check()
            s.pop()
            if r != z3.unsat:
                return False
    return True


def taut(g):
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def abstract_term(e, term, const, i):
    """e as a function of const where term occurs, if i does not remain"""
    if not is_z(e):
        return e
    r = z3.substitute(e, (term, const))
    return None if occurs(i, r) else r


def abstract_value(v, term, const, i):
    if is_z(v):
        return abstract_term(v, term, const, i)
    if isinstance(v, Tup):
        xs = [abstract_value(x, term, const, i) for x in v.items]
        return None if any(x is None and y is not None for x, y in zip(xs, v.items)) else Tup(xs)
    if isinstance(v, Rec):
        f = {}
        for k, x in v.f.items():
            y = abstract_value(x, term, const, i)
            if y is None and x is not None:
                return None
            f[k] = y
        return Rec(v.cls, f)
    if v is None or isinstance(v, (bool, int, str, Fraction_t)):
        return v
    return None


from fractions import Fraction as Fraction_t


def root_val(v, i, seq, q):
    src_i = seq.dom.src(i)
    if is_z(src_i):
        q0 = z3.Int(fresh_name("q"))
        w = abstract_value(v, src_i, q0, i)
        if w is not None or v is None:
            return subst_value(w, [(q0, zint(q))])
    return subst_value(v, [(i, zint(seq.dom.inv(q)))])


def pick_patterns(e, var):
    """uninterpreted applications with var as a direct argument"""
    out = []
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                if any(c.eq(var) for c in x.children()):
                    if not any(x.eq(o) for o in out):
                        out.append(x)
                    continue
            stack.extend(x.children())
    return out


def summ_dict(E, init, log, i, t, xsub):
    log = [tuple(subst_value(q, xsub) for q in e) for e in log]
    if not log:
        return init
    if len(log) > 1:
        # same key in exclusive branches
        if all(same(e[1], log[0][1]) for e in log) and exclusive(log):
            v = log[-1][2]
            for e in reversed(log[:-1]):
                v = merge_value(e[0], e[2], v)
            log = [(lor(*[e[0] for e in log]), log[0][1], v)]
        else:
            raise Unsupported("several dict entries set per iteration")
    g, key, val = log[0]
    return dict_from(E, init, t, lambda k: subst_value(g, [(i, zint(k))]) if is_z(g) else g,
                     lambda k: subst_value(key, [(i, zint(k))]), lambda k: subst_value(val, [(i, zint(k))]))


def dict_from(E, init, n, guard, key, val, keyseq=None):
    """dict after setting key(k) -> val(k) for k = 0..n-1 (where guard(k)), on top of init"""
    kk = z3.Int(fresh_name("k"))
    ke = key(kk)
    ks = to_z(ke).sort()
    deps = [to_z(ke), zint(n)] + ([guard(kk)] if is_z(guard(kk)) else [])
    HAS, nh = E.fresh_fun("has", [ks], z3.BoolSort(), deps)
    LAST, nl = E.fresh_fun("lastkey", [ks], z3.IntSort(), deps)
    x = z3.Const(fresh_name("key"), ks)
    gl = guard(LAST(x))
    E.fact(z3.Implies(HAS(x), land(LAST(x) >= 0, LAST(x) < zint(n), gl, to_z(key(LAST(x))) == x)), [nh, nl], "dict", vars=[x], pats=[HAS(x)])
    gk = guard(kk)
    pats = pick_patterns(to_z(ke), kk) or [HAS(to_z(ke))]
    E.fact(z3.Implies(land(kk >= 0, kk < zint(n), gk), z3.And(HAS(to_z(ke)), LAST(to_z(ke)) >= kk)), [nh, nl], "dict", vars=[kk], pats=pats)
    base = E.sym_dict(init) if init is not None else None
    empty = base is None or (init.items is not None and len(init.items) == 0)

    def conv(k):
        return zreal(k) if ks == z3.RealSort() else (zint(k) if ks == z3.IntSort() else to_z(k))

    def has(k):
        h = HAS(conv(k))
        return h if empty else lor(h, base.has(k))

    def get(k):
        v = val(LAST(conv(k)))
        return v if empty else merge_value(HAS(conv(k)), v, base.get(k))

    r = HDict(has=has, get=get, keys=keyseq)
    r.ksort = ks
    return r


# ---------------------------------------------------------------- comprehensions
def exec_comp(E, e, st):
    acc = "$acc%d" % st_id()
    elt = e.elt
    stmt = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[elt], keywords=[]))
    body = [stmt]
    names = set()
    for gen in reversed(e.generators):
        for c in reversed(gen.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        names |= {n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name)}
    node = body[0]
    for n in ast.walk(node):
        if not hasattr(n, "lineno"):
            n.lineno, n.col_offset = e.lineno, e.col_offset
    saved = {k: st.env.get(k, None) for k in names if k in st.env}
    st.env[acc] = E.new_list(st, Seq(0, items=[], dt="o"))
    s2, ex = exec_for_nohavoc(E, node, st)
    for x in ex:
        if x.kind != "raise":
            raise Unsupported("exit from a comprehension")
        E.pend.append(x)
    if s2 is None:
        if ex:
            raise PyRaise(ex[-1].val, ex[-1].where)
        raise Unsupported("comprehension never ends")
    r = s2.env.pop(acc)
    st.env = s2.env
    st.heap, st.pc, st.known, st.ghost = s2.heap, s2.pc, s2.known, s2.ghost
    for k in names:
        st.env.pop(k, None)
    st.env.update(saved)
    return r


_ids = [0]


def st_id():
    _ids[0] += 1
    return _ids[0]


def exec_for_nohavoc(E, s, st):
    itv = E.ev(s.iter, st)
    seq = iter_seq(E, st, itv)

    def body(state, elem):
        E.assign(s.target, elem, state)
        return E.exec_block(s.body, state)

    tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    return run_for(E, st, seq, body, tnames, node=None, havoc_ok=False)


def exec_dictcomp(E, e, st):
    acc = "$dict%d" % st_id()
    body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(id=acc, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)]
    names = set()
    for gen in reversed(e.generators):
        for c in reversed(gen.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        names |= {n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name)}
    node = body[0]
    for n in ast.walk(node):
        if not hasattr(n, "lineno"):
            n.lineno, n.col_offset = e.lineno, e.col_offset
    saved = {k: st.env.get(k, None) for k in names if k in st.env}
    st.env[acc] = E.new(st, HDict(items=[]))
    s2, ex = exec_for_nohavoc(E, node, st)
    for x in ex:
        E.pend.append(x)
    r = s2.env.pop(acc)
    st.env = s2.env
    st.heap, st.pc, st.known, st.ghost = s2.heap, s2.pc, s2.known, s2.ghost
    for k in names:
        st.env.pop(k, None)
    st.env.update(saved)
    return r


# ---------------------------------------------------------------- havoc
def havoc_value(E, vals, st, name="h"):
    """arbitrary value of the shapes seen"""
    flat = []
    for v in vals:
        flat += [x for _, x in v.alts] if isinstance(v, Alt) else [v]
    flat = [v for v in flat if v is not UNDEF and not isinstance(v, Carried)]
    if not flat:
        return UNDEF
    groups = {}
    for v in flat:
        if v is None:
            k = "none"
        elif isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
            k = "bool"
        elif is_number(v):
            k = "num"
        elif is_strv(v):
            k = "str"
        elif isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, (HSeq, HView)):
                c = E.seq_raw(st, v)
                k = ("ref", E.kind(st, v), "table%d" % len(c.cols) if isinstance(c, Table) else type(c).__name__)
            else:
                k = ("same", v.id)
        elif isinstance(v, Tup):
            k = ("tup", len(v.items))
        elif isinstance(v, Seq):
            k = "seq"
        elif isinstance(v, Mod):
            k = ("mod", v.path)
        else:
            k = "opq"
        groups.setdefault(k, []).append(v)
    outs = []
    for k, vs in groups.items():
        if k == "none":
            outs.append(None)
        elif k == "bool":
            outs.append(E.fresh(name, z3.BoolSort()))
        elif k == "num":
            outs.append(E.fresh(name, z3.RealSort() if any(is_real(v) for v in vs) else z3.IntSort()))
        elif k == "str":
            outs.append(E.fresh(name, Str))
        elif isinstance(k, tuple) and k[0] == "ref":
            cs = [E.seq_raw(st, v) for v in vs]
            outs.append(E.new(st, HSeq(k[1], havoc_content(E, cs, name))))
        elif isinstance(k, tuple) and k[0] == "tup":
            outs.append(Tup([havoc_value(E, [v.items[j] for v in vs], st, name) for j in range(k[1])]))
        elif isinstance(k, tuple) and k[0] in ("same", "mod"):
            outs.append(vs[0])
        elif k == "seq":
            outs.append(havoc_content(E, vs, name))
        else:
            outs.append(Opq("havoc"))
    if len(outs) == 1:
        return outs[0]
    v = outs[-1]
    for o in outs[:-1]:
        v = merge_value(E.fresh(name + "_is", z3.BoolSort()), o, v)
    return v


def havoc_content(E, cs, name):
    cs = [c for c in cs if c is not None]
    if any(isinstance(c, Table) for c in cs):
        t = [c for c in cs if isinstance(c, Table)][0]
        n = E.fresh(name + "_n", z3.IntSort())
        E.fact(n >= 0, [n.decl().name()])
        return Table([havoc_seq(E, [c], name, n) for c in t.cols], t.dt)
    if any(isinstance(c, Grid) for c in cs):
        raise Unsupported("havoc of a 2-d array")
    n = E.fresh(name + "_n", z3.IntSort())
    E.fact(n >= 0, [n.decl().name()])
    return havoc_seq(E, cs, name, n)


def havoc_seq(E, cs, name, n):
    samples = []
    for c in cs:
        if c.log is not None:
            for e in c.log:
                samples.append(e[2] if e[1] == "one" else (e[3] if e[1] == "set" else e[2].at(K0[8])))
            c = c.extra.base
        if isinstance(c.n, int) and c.n == 0:
            continue
        samples.append(c.at(0) if c.items is not None else c.at(K0[8]))
    samples = [s for s in samples]
    if samples and all(is_number(s) for s in samples):
        isb = all(isinstance(s, bool) or (is_z(s) and z3.is_bool(s)) for s in samples)
        sort = z3.BoolSort() if isb else (z3.RealSort() if any(is_real(s) for s in samples) else z3.IntSort())
        f, nm = E.fresh_fun(name + "_e", [z3.IntSort()], sort)
        return Seq(n, lambda k: f(zint(k)), {"Bool": "b", "Real": "f", "Int": "i"}[str(sort)])
    if samples and all(is_strv(s) for s in samples):
        f, nm = E.fresh_fun(name + "_e", [z3.IntSort()], Str)
        return Seq(n, lambda k: f(zint(k)), "s")
    if not samples:
        f, nm = E.fresh_fun(name + "_e", [z3.IntSort()], z3.RealSort())
        return Seq(n, lambda k: f(zint(k)), "f")
    return Seq(n, lambda k: Opq("havoc element"), "o")


def havoc_state(E, st, locs, samples):
    """st with the locations made arbitrary"""
    H = st.copy()
    for loc in locs:
        vals = samples[loc]
        if loc[0] == "heap":
            o = st.heap[loc[1]]
            if isinstance(o, HSeq):
                set_loc(H, loc, HSeq(o.kind, havoc_content(E, [v.val for v, _ in vals], "h")))
            elif isinstance(o, HDict):
                set_loc(H, loc, HDict(has=lambda k: E.fresh("hhas", z3.BoolSort()), get=lambda k: Opq("havoc dict")))
            else:
                raise Unsupported("havoc")
        elif loc[0] == "ghost":
            set_loc(H, loc, havoc_value(E, [v for v, _ in vals], H, "g"))
        else:
            for v, s in vals:
                # make the heap cells the samples refer to visible
                for x in ([y for _, y in v.alts] if isinstance(v, Alt) else [v]):
                    for q in (x.items if isinstance(x, Tup) else (x,)):
                        if isinstance(q, Ref) and q.id not in H.heap and q.id in s.heap:
                            H.heap[q.id] = s.heap[q.id]
            set_loc(H, loc, havoc_value(E, [v for v, _ in vals], H, str(loc[-1])))
    return H


def loop_effects(E, st, run, tnames):
    """locations changed by the body and sample values, by iterating to a fixpoint"""
    locs = {}
    for rnd in range(6):
        H = havoc_state(E, st, locs.keys(), locs) if locs else st.copy()
        saved_obs = len(E.obs)
        nrm, ex = run(H.copy())
        del E.obs[saved_obs:]
        sts = [s for s in [nrm] + [x.st for x in ex if x.kind in ("continue", "break")] if s is not None]
        grew = False
        for s1 in sts:
            for loc in diff(E, H, s1, tnames):
                if loc not in locs:
                    locs[loc] = [(get_loc(st, loc), st)]
                    grew = True
        sig0 = {l: shape_sig(E, v) for l, v in locs.items()}
        for loc in locs:
            for s1 in sts:
                locs[loc].append((get_loc(s1, loc), s1))
        if not grew and all(shape_sig(E, locs[l]) == sig0[l] for l in locs):
            return locs
    return locs


def shape_sig(E, vals):
    out = set()
    for v, s in vals:
        if isinstance(v, HSeq):
            out.add(("hseq", type(v.val).__name__))
            continue
        for x in ([y for _, y in v.alts] if isinstance(v, Alt) else [v]):
            if x is None:
                out.add("none")
            elif isinstance(x, bool) or (is_z(x) and z3.is_bool(x)):
                out.add("bool")
            elif is_number(x):
                out.add("real" if is_real(x) else "int")
            elif isinstance(x, Ref):
                o = s.heap.get(x.id)
                out.add(("ref", type(o).__name__, getattr(o, "kind", None)))
            else:
                out.add(type(x).__name__)
    return out


def havoc_for(E, st, seq, body, tnames, node):
    def run(S, j=None):
        if j is None:
            j = E.fresh("it", z3.IntSort())
        S.add(j >= 0)
        S.add(j < zint(seq.n))
        return body(S, seq.at(j))

    return havoc_loop(E, st, run, tnames, node, compare(">", seq.n, 0), None, seq)


def havoc_loop(E, st, run, tnames, node, entered, cond, seq=None):
    """zero iterations, or: arbitrary state satisfying the invariant, then one
    (last) iteration"""
    locs = loop_effects(E, st, run, tnames)
    inv = E.loop_invariant(E, node, st, locs, seq) if E.loop_invariant is not None else None
    if inv is not None:
        return invariant_loop(E, st, run, node, cond, seq, locs, inv)
    E.lost.append("loop at line %s: neither a summary nor an invariant" % getattr(node, "lineno", "?"))
    H = havoc_state(E, st, locs.keys(), locs)
    nrm, ex = run(H.copy())
    exits = []
    breaks = []
    conts = []
    for x in ex:
        if x.kind == "continue":
            conts.append(x.st)
        elif x.kind == "break":
            breaks.append(x.st)
        else:
            exits.append(x)
    nrm = merge_exits(E, H, conts + [nrm])
    last = merge_exits(E, H, breaks + [nrm])
    if cond is not None and nrm is not None:
        # leaving by the condition: it is false after the last iteration
        c = cond(nrm)
        nrm.add(lnot(c), False)
        last = merge_exits(E, H, breaks + [nrm])
    zero = st.copy()
    z = E.fresh("looped", z3.BoolSort())
    if cond is not None:
        c0 = cond(zero)
        zero.add(z3.Not(z), True)
        zero.add(lnot(c0))
    else:
        zero.add(z3.Not(z), True)
        zero.add(lnot(entered))
    if last is None:
        return zero, exits
    # rebase: last continues H, which extends st in heap only
    lst = last.copy()
    lst.pc = st.pc + tuple([(z, True)]) + tuple(last.pc[len(st.pc):])
    lst.known = dict(last.known)
    return E.merge_states(st, z, lst, zero), exits


class LoopInv:
    """an inductive invariant: inv(E, st, k) gives named formulas that hold after k iterations
    (k is None in a while loop), out(E, st, n) those that hold when the loop is left; with a
    break, out must follow from the state at the break"""

    def __init__(self, name, inv, out=None):
        self.name, self.inv = name, inv
        self.out = out or (lambda E, st, n: inv(E, st, n))


def invariant_loop(E, st, run, node, cond, seq, locs, inv):
    """the rule of Hoare: the invariant holds at the start and is preserved by an arbitrary
    iteration; afterwards nothing else is known of what the loop changes"""
    where = "line %s" % getattr(node, "lineno", "?")

    def check(s, forms, what):
        try:
            for name, f in forms(s):
                E.oblige("%s: loop: %s: %s" % (where, what, name), s, f, "invariant", where)
        except NeedSplit as e:
            for g in (e.cond, lnot(e.cond)):
                if s.truth(g) is False:
                    continue
                t = s.copy()
                t.add(g, True)
                if not t.dead():
                    check(t, forms, what)
    check(st, lambda s: inv.inv(E, s, 0 if seq is not None else None), "at the start")
    H = havoc_state(E, st, locs.keys(), locs)
    k = None
    if seq is not None:
        k = E.fresh("it", z3.IntSort())
        H.add(k >= 0)
        H.add(k < zint(seq.n))
    for name, f in inv.inv(E, H, k):
        H.add(f)
    nrm, ex = run(H.copy(), k) if seq is not None else run(H.copy())
    exits, ends, breaks = [], [], []
    for x in ex:
        if x.kind == "continue":
            ends.append(x.st)
        elif x.kind == "break":
            breaks.append(x.st)
        else:
            exits.append(x)
    if nrm is not None:
        ends.append(nrm)
    for s in ends:
        check(s, lambda s: inv.inv(E, s, arith("+", k, 1) if k is not None else None), "after an iteration")
    for s in breaks:
        check(s, lambda s: inv.out(E, s, seq.n if seq is not None else None), "at a break")
    X = havoc_state(E, st, locs.keys(), locs)
    for v in list(X.env):
        if v not in st.env:
            del X.env[v]
    for name, f in inv.out(E, X, seq.n if seq is not None else None):
        X.add(f)
    if cond is not None and not breaks:
        X.add(lnot(cond(X)))
    return X, exits


def exec_while(E, s, st):
    if s.orelse:
        raise Unsupported("while-else")
    c = E.truthy(st.copy(), E.eval(s.test, st.copy()))

    def run(S):
        t = E.truthy(S, E.eval(s.test, S))
        S.add(t if not isinstance(t, bool) else z3.BoolVal(t), True)
        return E.exec_block(s.body, S)

    def cond(S):
        return E.truthy(S, E.eval(s.test, S))

    return havoc_loop(E, st, run, set(), s, True, cond)
