"""Values of the symbolic interpreter."""
from .terms import (FALSE, ONE, T, TRUE, ZERO, add, and_, app, eq, fresh, fv, isnum, ite, iv, le, lift,
                    lt, mul, neg, not_, num, nval, or_, real, sub, subst, sum_, var)


class Unsupported(Exception):
    """A construct outside the verified subset."""


class AttributeMissing(Unsupported):
    """An attribute the object certainly does not have."""


class Heap:
    """Registry of mutable objects, for snapshots."""

    def __init__(self):
        self.objs = []

    def add(self, o):
        self.objs.append(o)

    def snap(self):
        return len(self.objs), [(o, o.save()) for o in self.objs]

    def restore(self, s):
        n, st = s
        del self.objs[n:]
        for o, x in st:
            o.load(x)


HEAP = Heap()


def reset_heap():
    HEAP.objs = []


def dim(x):
    return lift(x)


class Arr:
    """An array: shape of integer terms and the element at a generic index."""

    def __init__(self, shape, fn, kind="f", vars_=None):
        self.shape = tuple(dim(s) for s in shape)
        self.kind = kind
        self.view = None
        if vars_ is not None:
            self.vars, self.body = vars_, fn
        else:
            self.vars = tuple(fresh("ix") for _ in self.shape)
            self.body = lift(fn(*self.vars)) if not isinstance(fn, T) else fn
        HEAP.add(self)

    @property
    def nd(self):
        return len(self.shape)

    @property
    def inverse(self):
        """(domain, function) inverting the elements, while they are unchanged."""
        i = getattr(self, "_inv", None)
        return i[0] if i is not None and i[1] is self.body and self.view is None else None

    @inverse.setter
    def inverse(self, f):
        self._inv = (f, self.body)

    def at(self, *idx):
        if self.view is not None:
            base, mp = self.view
            return base.at(*mp(*idx))
        return subst(self.body, dict(zip(self.vars, [lift(i) for i in idx])))

    def set_fn(self, fn):
        if self.view is not None:
            raise Unsupported("write through a view")
        self.body = lift(fn(*self.vars))

    def save(self):
        return (self.shape, self.vars, self.body, self.kind)

    def load(self, s):
        self.shape, self.vars, self.body, self.kind = s

    def copy(self, kind=None):
        return Arr(self.shape, self.at, kind or self.kind)

    @property
    def T(self):
        if self.nd == 1:
            return view(self, self.shape, lambda *i: i)
        return view(self, self.shape[::-1], lambda *i: i[::-1])

    def __repr__(self):
        return f"Arr{self.shape}:{self.kind}"


def view(base, shape, mp):
    if base.view is not None:
        b0, m0 = base.view
        a = Arr(shape, ZERO, base.kind, tuple(fresh("ix") for _ in shape))
        a.view = (b0, lambda *i: m0(*mp(*i)))
        return a
    a = Arr(shape, ZERO, base.kind, tuple(fresh("ix") for _ in shape))
    a.view = (base, mp)
    return a


class Filt:
    """A one-dimensional selection: the elements elem(r), r < n, where mask(r)."""

    rest = ()
    aslist = False

    def __init__(self, n, mask, elem, kind):
        self.n, self.mask, self.elem, self.kind = n, mask, elem, kind

    def size(self):
        return sum_(ZERO, self.n, lambda r: iv(self.mask(r)))


class USet:
    """A sorted duplicate-free array of the values value(c), c < size with member(c),
    where value is injective (increasing when mono)."""

    def __init__(self, size, member, value, kind, mono=True):
        self.size, self.member, self.value, self.kind, self.mono = size, member, value, kind, mono

    def count(self):
        return sum_(ZERO, self.size, lambda c: iv(self.member(c)))


class SList:
    """A sequence of symbolic length (immutable)."""

    def __init__(self, n, get, tag="list"):
        self.n, self.get, self.tag = lift(n), get, tag


class MList(SList):
    """A list of symbolic length that can be changed: its items are an array."""

    def __init__(self, arr):
        self.d = {"a": arr}
        self.tag = "list"
        HEAP.add(self)

    @property
    def n(self):
        return self.d["a"].shape[0]

    @property
    def get(self):
        a = self.d["a"]
        body, v = a.body, a.vars[0]
        return lambda i: subst(body, {v: lift(i)})

    def save(self):
        return dict(self.d)

    def load(self, s):
        self.d = dict(s)


class PList:
    """A Python list of known length."""

    def __init__(self, items, tag="list"):
        self.items = list(items)
        self.tag = tag
        HEAP.add(self)

    def save(self):
        return list(self.items)

    def load(self, s):
        self.items = list(s)


class PDict:
    def __init__(self, d=None):
        self.d = dict(d or {})
        HEAP.add(self)

    def save(self):
        return dict(self.d)

    def load(self, s):
        self.d = dict(s)


class SMap:
    """A dictionary given by a function from key terms to values; dom(key) is
    the condition under which the key is present."""

    def __init__(self, dom, get):
        self.dom, self.get = dom, get


class WriteOnly:
    """A dictionary only ever written with symbolic keys."""

    def __init__(self):
        pass


class Obj:
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        # a caller's weights object: as given
        self.given = [(k, v, v.save() if hasattr(v, "save") else None) for k, v in self.attrs.items()] if cls == "W" else None
        HEAP.add(self)

    def save(self):
        return dict(self.attrs)

    def load(self, s):
        self.attrs = dict(s)


class Env:
    """Local variables of one activation."""

    def __init__(self, d, parent=None):
        self.d = dict(d)
        self.parent = parent
        HEAP.add(self)

    def save(self):
        return dict(self.d)

    def load(self, s):
        self.d = dict(s)


class Poison:
    """A value the engine cannot describe; reading it is unsupported."""

    def __init__(self, why):
        self.why = why


class Opq:
    """A value of an unmodelled pure library computation."""

    def __init__(self, tag):
        self.tag = tag


_OPQ = __import__("itertools").count()


def opq(name, *args):
    """The opaque value of a pure operation."""
    return Opq(name + "(" + ",".join(
        a.tag if isinstance(a, Opq) else repr(a) if isinstance(a, (int, str, float, bool, type(None)))
        else f"?{next(_OPQ)}" for a in args) + ")")


class Fn:
    def __init__(self, node, mod, qual, cls=None, env=None):
        self.node, self.mod, self.qual, self.cls, self.env = node, mod, qual, cls, env


class Cls:
    def __init__(self, node, mod, name, bases):
        self.node, self.mod, self.name, self.bases = node, mod, name, bases
        self.methods = {}
        self.props = set()
        self.cached = set()  # properties whose value is kept on the object

    def find(self, name):
        if name in self.methods:
            return self.methods[name]
        for b in self.bases:
            if isinstance(b, Cls):
                m = b.find(name)
                if m is not None:
                    return m
        return None


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Lib:
    """A library object known by its dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Method:
    """A built-in method of a value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def is_term(v):
    return isinstance(v, T)


def scalar(v):
    """Python number or term as a term."""
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, int, float)):
        import math
        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
            return app("inf") if v > 0 else app("nan") if v != v else neg(app("inf"))
        return lift(v)
    if isinstance(v, Arr) and v.nd == 0:
        return v.at()
    raise Unsupported(f"not a scalar: {type(v).__name__}")


def is_num(v):
    return isinstance(v, (T, bool, int, float)) or (isinstance(v, Arr) and v.nd == 0)


def concrete(t):
    """Python int of a numeral term, else None."""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if isinstance(t, T) and isnum(t) and nval(t).denominator == 1:
        return int(nval(t))
    return None


def kind_of(v):
    if isinstance(v, (Arr, Filt, USet)) or type(v).__name__ in ("ColFilt", "MaskN"):
        return v.kind
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    if isinstance(v, T):
        return {"B": "b", "I": "i", "R": "f"}[v.sort]
    return "o"


KORD = {"b": 0, "i": 1, "f": 2, "o": 3}


def join_kind(*ks):
    return max(ks, key=lambda k: KORD.get(k, 3))
