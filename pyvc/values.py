"""Values of the symbolic executor.

Python numbers/bools/strings/None are kept concrete; floats are kept as exact
rationals (Fraction).  Everything else is a z3 term or one of the classes below.
"""
from fractions import Fraction
import z3

Str = z3.DeclareSort("Str")
Obj = z3.DeclareSort("Obj")


class Unsupported(Exception):
    """The code leaves the subset of Python/numpy that the generator models."""


class NoSequence(Unsupported):
    """None (or an attribute never set) where a list or array is needed"""


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class PyRaise(Exception):
    """The executed code raises an exception here, unconditionally."""

    def __init__(self, etype, where=None):
        self.etype = etype
        self.where = where


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class _Stale:
    """what a name holds after a loop that binds it to objects of its own"""

    def __repr__(self):
        return "STALE"


STALE = _Stale()
_rid = [0]


class Ref:
    __slots__ = ("id",)

    def __init__(self):
        _rid[0] += 1
        self.id = _rid[0]

    def __repr__(self):
        return "Ref%d" % self.id


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Rec:
    """Immutable snapshot of an instance (element of a symbolic list)."""

    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = dict(f)

    def __repr__(self):
        return "Rec(%s)" % self.cls


class Alt:
    """A value that depends on a condition: [(guard, value), ...] (guards exhaustive)."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "Alt(%r)" % (self.alts,)


class Mod:
    """A module, or a function/class/constant of a module that is not interpreted."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Mod) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "Mod(%s)" % self.path


class Fun:
    def __init__(self, node, mod, qual, env=None, cls=None):
        self.node, self.mod, self.qual, self.env, self.cls = node, mod, qual, env, cls

    def __repr__(self):
        return "Fun(%s)" % self.qual


class Cls:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.methods = {
            n.name: n for n in node.body if n.__class__.__name__ == "FunctionDef"
        }

    def __repr__(self):
        return "Cls(%s)" % self.qual


class Bound:
    """name looked up on a value: a method about to be called."""

    __slots__ = ("obj", "name", "fun")

    def __init__(self, obj, name, fun=None):
        self.obj, self.name, self.fun = obj, name, fun


class PyFn:
    """A function given by the contracts (abstract callable): fn(E, st, args, kw)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "PyFn(%s)" % self.name


class Opq:
    """A value nothing is known about.  Pure: operations on it change nothing."""

    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Opq(%s)" % self.what


class SetV:
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


ELLIPSIS = object()


def is_py_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_scalar(v):
    return v is None or isinstance(v, (bool, int, Fraction, str)) or is_z(v)


class Dom:
    """Where the elements of a sequence come from.

    Position k of the sequence is element src(k) of a root index space of length
    rn, named by tok; member(r) tells whether r occurs and inv(r) at which
    position.  Sequences that are filtered or permuted alike share a Dom, which
    is what keeps parallel columns parallel.
    """

    __slots__ = ("tok", "rn", "member", "src", "inv", "n", "incr", "parent")

    def __init__(self, tok, rn, n, src, inv, member, incr):
        self.tok, self.rn, self.n = tok, rn, n
        self.src, self.inv, self.member, self.incr = src, inv, member, incr
        self.parent = None


class Seq:
    """Immutable mathematical sequence: length n and element function at."""

    __slots__ = ("n", "_at", "dt", "dom", "g", "items", "inv", "memo", "log", "extra", "tok")

    def __init__(self, n, at=None, dt="o", dom=None, g=None, items=None, inv=None):
        self.n, self._at, self.dt, self.dom, self.g = n, at, dt, dom, g
        self.items = tuple(items) if items is not None else None
        self.inv = inv  # inv(v): position of value v (for index sequences)
        self.memo = {}
        self.log = None
        self.extra = None
        self.tok = None

    def at(self, k):
        if self.items is not None:
            if isinstance(k, int):
                return self.items[k]
            from .terms import merge_value, zint

            if not self.items:
                raise Unsupported("element of an empty list")
            v = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                v = merge_value(zint(k) == j, self.items[j], v)
            return v
        key = k if isinstance(k, int) else k.get_id()
        m = self.memo.get(key)
        if m is None:
            if self._at is None and self.g is not None:
                v = self.g(self.dom.src(k))
            else:
                v = self._at(k)
            self.memo[key] = m = (k, v)
        return m[1]

    def __repr__(self):
        return "Seq(n=%s,dt=%s)" % (self.n, self.dt)


class Table:
    """2-D array with a fixed number of columns; cols are Seq of equal length."""

    __slots__ = ("cols", "dt", "fromlist")

    def __init__(self, cols, dt="f", fromlist=False):
        self.cols, self.dt, self.fromlist = tuple(cols), dt, fromlist

    @property
    def n(self):
        return self.cols[0].n


class Grid:
    """2-D array n x m with element function at(i, j)."""

    __slots__ = ("n", "m", "at", "dt")

    def __init__(self, n, m, at, dt="f"):
        self.n, self.m, self.at, self.dt = n, m, at, dt


class HSeq:
    """heap cell of a list ('list') or array ('nd'); val: Seq | Table | Grid"""

    __slots__ = ("kind", "val")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val


class HView:
    """heap cell of a basic-slice view of another array"""

    __slots__ = ("base", "start", "n", "col")

    def __init__(self, base, start, n, col=None):
        self.base, self.start, self.n, self.col = base, start, n, col


class HObj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class HDict:
    """concrete dict (items: ordered list of (key, value), python keys) or
    symbolic map (has(key)->Bool, get(key)->Value, keys: Seq or None)"""

    __slots__ = ("items", "has", "get", "keys", "log", "ksort", "index")

    def __init__(self, items=None, has=None, get=None, keys=None):
        self.items, self.has, self.get, self.keys = items, has, get, keys
        self.log = None
        self.ksort = None
        self.index = None       # (n, key, val): made of n entries with keys known to be distinct
