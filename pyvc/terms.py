"""Term construction: arithmetic with Python semantics over reals/integers, merging, substitution."""
from fractions import Fraction
import z3
from .values import *

_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z(v):
        if v.sort() == z3.IntSort():
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() == z3.RealSort():
            return z3.ToInt(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return z3.IntVal(int(v))
    raise Unsupported("integer expected, got %r" % (v,))


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(Fraction(v)))
    if is_z(v):
        if v.sort() == z3.RealSort():
            return v
        if v.sort() == z3.IntSort():
            return z3.RealVal(v.as_long()) if z3.is_int_value(v) else z3.ToReal(v)
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported("real expected, got %r" % (v,))


STRLITS = {}


def str_const(s):
    c = STRLITS.get(s)
    if c is None:
        c = z3.Const("str:" + s, Str)
        STRLITS[s] = c
    return c


def zstr(v):
    if isinstance(v, str):
        return str_const(v)
    if is_z(v) and v.sort() == Str:
        return v
    raise Unsupported("string expected, got %r" % (v,))


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_bool(v):
        return v
    raise Unsupported("bool expected, got %r" % (v,))


def to_z(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return zreal(v)
    if isinstance(v, str):
        return str_const(v)
    if is_z(v):
        return v
    raise Unsupported("no term for %r" % (v,))


def unz(e):
    """z3 literal -> Python value"""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e


def is_real(v):
    return isinstance(v, Fraction) or (is_z(v) and v.sort() == z3.RealSort())


def is_intlike(v):
    return (isinstance(v, int)) or (is_z(v) and (v.sort() == z3.IntSort() or z3.is_bool(v)))


def is_number(v):
    return isinstance(v, (bool, int, Fraction)) or (
        is_z(v) and (z3.is_arith(v) or z3.is_bool(v))
    )


def is_strv(v):
    return isinstance(v, str) or (is_z(v) and v.sort() == Str)


DIV0 = z3.Function("div0", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
IPOW = z3.Function("ipow", z3.RealSort(), z3.IntSort(), z3.RealSort())
SQRT = z3.Function("sqrt_", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG10 = z3.Function("log10", z3.RealSort(), z3.RealSort())
ISNAN = z3.Function("isnan", z3.RealSort(), z3.BoolSort())
NANV = z3.Real("nan_value")
ISFIN = z3.Function("isfinite", z3.RealSort(), z3.BoolSort())
PARSE = z3.Function("parse_float", Str, z3.RealSort())
PINF = z3.Real("plus_inf")


def arith(op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_py_num(a) and is_py_num(b):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return Fraction(a) / Fraction(b)
        if op == "//":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            r = Fraction(a) // Fraction(b)
            return int(r) if isinstance(a, int) and isinstance(b, int) else Fraction(r)
        if op == "%":
            return a - arith("//", a, b) * b
        if op == "**":
            return power(a, b)
    if op == "**":
        return power(a, b)
    if not (is_number(a) and is_number(b)):
        raise Unsupported("arith %s on %r, %r" % (op, a, b))
    # unit laws keep terms small
    if op == "+" and is_py_num(b) and b == 0 and isinstance(b, int):
        return zint(a) if z3.is_bool(a) else a
    if op == "+" and is_py_num(a) and a == 0 and isinstance(a, int):
        return zint(b) if z3.is_bool(b) else b
    if op == "-" and is_py_num(b) and b == 0 and isinstance(b, int):
        return zint(a) if z3.is_bool(a) else a
    if op == "*" and is_py_num(a) and a == 1:
        return (zreal(b) if isinstance(a, Fraction) else (zint(b) if z3.is_bool(b) else b))
    if op == "*" and is_py_num(b) and b == 1:
        return (zreal(a) if isinstance(b, Fraction) else (zint(a) if z3.is_bool(a) else a))
    if op == "/":
        x, y = zreal(a), zreal(b)
        if z3.is_rational_value(y):
            return x / y
        return div(x, y)
    if op in ("//", "%"):
        if is_intlike(a) and is_intlike(b):
            x, y = zint(a), zint(b)
            return x / y if op == "//" else x % y
        x, y = zreal(a), zreal(b)
        q = z3.ToReal(z3.ToInt(x / y))
        return q if op == "//" else x - q * y
    if is_real(a) or is_real(b):
        x, y = zreal(a), zreal(b)
    else:
        x, y = zint(a), zint(b)
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    raise Unsupported("operator " + op)


def div(x, y):
    """numpy division: by zero it gives an infinity or nan, modelled as a value
    outside every finite interval (see DIV0 facts in the engine)."""
    return z3.If(y == 0, DIV0(x), x / y)


def power(a, b):
    e = None
    if is_py_num(b) and Fraction(b).denominator == 1:
        e = int(b)
    if is_py_num(a) and e is not None and abs(e) <= 400:
        if isinstance(a, int) and isinstance(b, int) and e >= 0:
            return a ** e
        if a == 0 and e < 0:
            raise PyRaise("ZeroDivisionError")
        return Fraction(a) ** e
    if e is not None and abs(e) <= 6:
        x = zreal(a) if (is_real(a) or isinstance(b, Fraction) or e < 0) else zint(a)
        if e == 0:
            return Fraction(1) if is_real(x) else 1
        r = x
        for _ in range(abs(e) - 1):
            r = r * x
        return z3.RealVal(1) / r if e < 0 else r
    if is_py_num(b) and Fraction(b) == Fraction(1, 2):
        return SQRT(zreal(a))
    if is_intlike(b):
        return IPOW(zreal(a), zint(b))
    if is_number(a) and is_number(b):
        return POW(zreal(a), zreal(b))
    raise Unsupported("power")


def compare(op, a, b):
    if is_py_num(a) or isinstance(a, bool):
        if is_py_num(b) or isinstance(b, bool):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, str) and isinstance(b, str):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if is_number(a) and is_number(b):
        if op in ("==", "!=") and (z3.is_bool(a) or isinstance(a, bool)) and (
            z3.is_bool(b) or isinstance(b, bool)
        ):
            r = zbool(a) == zbool(b)
            return r if op == "==" else z3.Not(r)
        if is_real(a) or is_real(b):
            x, y = zreal(a), zreal(b)
        else:
            x, y = zint(a), zint(b)
        if x.eq(y):
            return op in ("==", "<=", ">=")
        return {
            "==": lambda: x == y,
            "!=": lambda: x != y,
            "<": lambda: x < y,
            "<=": lambda: x <= y,
            ">": lambda: x > y,
            ">=": lambda: x >= y,
        }[op]()
    if is_strv(a) and is_strv(b) and op in ("==", "!="):
        x, y = zstr(a), zstr(b)
        if x.eq(y):
            return op == "=="
        return x == y if op == "==" else x != y
    if op in ("==", "!="):
        if a is None or b is None:
            r = a is None and b is None
            return r if op == "==" else not r
        if is_strv(a) != is_strv(b) and is_scalar(a) and is_scalar(b):
            return op == "!="
        if isinstance(a, (Mod, Fun, Cls, Ref)) or isinstance(b, (Mod, Fun, Cls, Ref)):
            if type(a) is not type(b) or isinstance(a, Mod):
                r = a == b
                return r if op == "==" else not r
    raise Unsupported("compare %s %r %r" % (op, a, b))


def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def implies(a, b):
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        return True if b else lnot(a)
    return z3.Implies(a, b)


def ite(c, a, b):
    """z3 If over scalar values"""
    return merge_value(c, a, b)


def same(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if is_py_num(a) and is_py_num(b):
        return a == b and isinstance(a, int) == isinstance(b, int)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Mod) and isinstance(b, Mod):
        return a == b
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Alt) and isinstance(b, Alt):
        return len(a.alts) == len(b.alts) and all(
            same(g1, g2) and same(v1, v2) for (g1, v1), (g2, v2) in zip(a.alts, b.alts)
        )
    if isinstance(a, Fun) and isinstance(b, Fun):
        return a.node is b.node and a.env is b.env
    if isinstance(a, Bound) and isinstance(b, Bound):
        return same(a.obj, b.obj) and a.name == b.name
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.log is not None or b.log is not None:
            return False
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        return False
    return False


def merge_value(c, a, b):
    """value equal to a when c holds, else to b"""
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if is_scalar(a) and is_scalar(b) and a is not None and b is not None:
        ba, bb = isinstance(a, bool) or z3.is_bool(a), isinstance(b, bool) or z3.is_bool(b)
        if ba and bb:
            return z3.If(c, zbool(a), zbool(b))
        if is_number(a) and is_number(b) and ba == bb:
            if is_real(a) or is_real(b):
                return z3.If(c, zreal(a), zreal(b))
            return z3.If(c, zint(a), zint(b))
        if is_strv(a) and is_strv(b):
            return z3.If(c, zstr(a), zstr(b))
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return z3.If(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([merge_value(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls and a.f.keys() == b.f.keys():
        return Rec(a.cls, {k: merge_value(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq):
        return merge_seq(c, a, b)
    if isinstance(a, Table) and isinstance(b, Table) and len(a.cols) == len(b.cols):
        return Table([merge_seq(c, x, y) for x, y in zip(a.cols, b.cols)], a.dt, a.fromlist or b.fromlist)
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a
    alts = []
    for g, v in _alts(a):
        gg = land(c, g)
        if gg is not False:
            alts.append((gg, v))
    for g, v in _alts(b):
        gg = land(lnot(c), g)
        if gg is not False:
            alts.append((gg, v))
    # merge equal values
    out = []
    for g, v in alts:
        for j, (g2, v2) in enumerate(out):
            if same(v, v2):
                out[j] = (lor(g2, g), v2)
                break
        else:
            out.append((g, v))
    if len(out) == 1:
        return out[0][1]
    return Alt(out)


def _alts(v):
    return v.alts if isinstance(v, Alt) else ((True, v),)


def merge_seq(c, a, b):
    if a is b:
        return a
    if a.log is not None or b.log is not None:
        return merge_logs(c, a, b)
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        its = [merge_value(c, x, y) for x, y in zip(a.items, b.items)]
        return Seq(a.n, items=its, dt=a.dt if a.dt == b.dt else "o")
    n = merge_value(c, a.n, b.n)
    dt = a.dt if a.dt == b.dt else ("f" if a.dt + b.dt in ("if", "fi") else "o")
    if isinstance(a.n, int) and a.n == 0:
        s = Seq(n, lambda k: b.at(k), b.dt)
    elif isinstance(b.n, int) and b.n == 0:
        s = Seq(n, lambda k: a.at(k), a.dt)
    else:
        s = Seq(n, lambda k: merge_value(c, a.at(k), b.at(k)), dt)
    if a.dom is not None and a.dom is b.dom:
        s.dom = a.dom
        s.g = lambda r: merge_value(c, a.g(r), b.g(r))
    return s


def merge_logs(c, a, b):
    """merge two states of a list/array that is being built in a summarised loop"""
    if a.log is None or b.log is None or a.extra is not b.extra:
        raise Unsupported("merge of a list built in a loop with another list")
    la, lb = a.log, b.log
    p = 0
    while p < len(la) and p < len(lb) and la[p] is lb[p]:
        p += 1
    log = list(la[:p])
    log += [(land(c, e[0]),) + tuple(e[1:]) for e in la[p:]]
    log += [(land(lnot(c), e[0]),) + tuple(e[1:]) for e in lb[p:]]
    s = Seq(a.n, a._at, a.dt)
    s.extra, s.log = a.extra, tuple(log)
    return s


K0 = [z3.Int("?k%d" % i) for i in range(12)]


def subst_value(v, pairs, depth=0):
    """v with z3 constants replaced: pairs [(const, term)]"""
    if not pairs:
        return v
    if is_z(v):
        return unz_keep(z3.substitute(v, *pairs))
    if isinstance(v, Tup):
        return Tup([subst_value(x, pairs) for x in v.items])
    if isinstance(v, Rec):
        return Rec(v.cls, {k: subst_value(x, pairs) for k, x in v.f.items()})
    if isinstance(v, Alt):
        return Alt([(subst_value(g, pairs), subst_value(x, pairs)) for g, x in v.alts])
    if isinstance(v, Seq):
        if v.log is not None:
            raise Unsupported("substitution in a list being built")
        if v.items is not None:
            return Seq(v.n, items=[subst_value(x, pairs) for x in v.items], dt=v.dt)
        n = subst_value(v.n, pairs) if is_z(v.n) else v.n

        def at(k, v=v):
            return subst_fun(lambda kk: v.at(kk), k, pairs)

        s = Seq(n, at, v.dt)
        if v.dom is not None and v.g is not None:
            d = v.dom
            nd = subst_dom(d, pairs)
            s.dom = nd
            s.g = lambda r: subst_fun(v.g, r, pairs)
        return s
    if isinstance(v, Table):
        return Table([subst_value(c, pairs) for c in v.cols], v.dt, v.fromlist)
    if isinstance(v, Grid):
        def at2(i, j, v=v):
            a, b = z3.Int(fresh_name("?p")), z3.Int(fresh_name("?q"))
            e = subst_value(v.at(a, b), pairs)
            return subst_value(e, [(a, zint(i)), (b, zint(j))])
        return Grid(subst_value(v.n, pairs), subst_value(v.m, pairs), at2, v.dt)
    return v


_domcache = {}


def subst_dom(d, pairs):
    key = (id(d), tuple((a.get_id(), b.get_id()) for a, b in pairs))
    r = _domcache.get(key)
    if r is None:
        nd = Dom(
            (d.tok, key[1]),
            subst_value(d.rn, pairs),
            subst_value(d.n, pairs),
            lambda k: subst_fun(d.src, k, pairs),
            (lambda r_: subst_fun(d.inv, r_, pairs)) if d.inv else None,
            lambda r_: subst_fun(d.member, r_, pairs),
            d.incr,
        )
        _domcache[key] = r = (d, nd, pairs)
    return r[1]


def subst_fun(f, k, pairs):
    if isinstance(k, int):
        return subst_value(f(k), pairs)
    if not any(occurs(a, k) for a, _ in pairs):
        return subst_value(f(k), pairs)
    kk = z3.Int(fresh_name("?s"))
    e = subst_value(f(kk), pairs)
    return subst_value(e, [(kk, k)])


def unz_keep(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    return e


_occ = {}


def consts_of(e):
    """set of ids of uninterpreted constants/functions in e: {decl name}"""
    key = e.get_id()
    r = _occ.get(key)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    _occ[key] = (e, out)
    return out


def occurs(const, e):
    if not is_z(e):
        return False
    return const.decl().name() in consts_of(e)
