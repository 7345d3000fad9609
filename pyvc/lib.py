"""Models (assumed contracts) of the built-ins, numpy and the other libraries the
verified functions call.  Every model is exact over the reals; operations that
numpy defines only partially (division, indexing) yield definedness obligations."""
import math
import operator
from fractions import Fraction

from . import nf as N
from .interp import BUILTINS, SYM, Dead, Lazy, Module, Spread
from .terms import (FALSE, ONE, T, TRUE, ZERO, add, all_, and_, app, div, eq, ex_, fresh, fv, implies, inv,
                    isnum, ite, iv, le, lift, lt, mul, neg, not_, num, nval, or_, real, sub, subst, sum_,
                    var)
from .values import *  # noqa: F401,F403
from .values import KORD

NEWAXIS = Lib("np.newaxis")
DTYPES = {"int": "i", "np.int64": "i", "np.int32": "i", "np.int_": "i", "float": "f", "np.float64": "f",
          "np.float32": None, "bool": "b", "np.bool_": "b", "builtins.int": "i", "builtins.float": "f",
          "builtins.bool": "b", "object": "o", "builtins.object": "o", "np.int8": None, "np.uint8": None}


# ------------------------------------------------------------------ helpers
def norm(it, v):
    """Choices decided, 0-d arrays to scalars, symbolic lists to SList."""
    v = it.read(v)
    if isinstance(v, PList) and v.items and v.items[-1] is SYM:
        return v.sym
    return v


def dtype(v, default):
    if v is None:
        return default
    if isinstance(v, str):
        k = DTYPES.get(v)
    elif isinstance(v, Lib):
        k = DTYPES.get(v.name)
    elif isinstance(v, KindOf):
        k = v.kind
    else:
        k = None
    if k is None:
        raise Unsupported(f"dtype {v}")
    return k


class KindOf:
    def __init__(self, kind):
        self.kind = kind


def to_arr(it, v, kind=None):
    """np.asarray of a value (a new array unless it already is one)."""
    v = norm(it, v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Filt):
        return v
    if isinstance(v, USet):
        return uset_arr(it, v) or v
    if is_num(v):
        s = scalar(v)
        return Arr((), s, kind_of(v), ())
    if isinstance(v, (list, tuple)):
        v = PList(v)
    if isinstance(v, PList):
        items = [norm(it, x) for x in v.items]
        if not items:
            return Arr((ZERO,), lambda i: ZERO, "f")
        if all(is_num(x) for x in items):
            ts = [scalar(x) for x in items]
            if any(isinstance(x, str) for x in items):
                raise Unsupported("array of strings")
            return Arr((len(ts),), lambda i: chain(i, ts), join_kind(*[kind_of(x) for x in items]))
        sub_ = [to_arr(it, x) for x in items]
        if all(isinstance(x, Arr) for x in sub_):
            sh = sub_[0].shape
            for x in sub_[1:]:
                if x.nd != len(sh) or not all(it.same_dim(p, q) for p, q in zip(x.shape, sh)):
                    raise Unsupported("ragged array")
            return Arr((len(sub_),) + sh, lambda i, *r: chain(i, [x.at(*r) for x in sub_]),
                       join_kind(*[x.kind for x in sub_]))
    if isinstance(v, SList):
        x = norm(it, v.get(fresh("q")))
        if is_num(x):
            return Arr((v.n,), lambda i: scalar(norm(it, v.get(i))), kind_of(x))
        x = to_arr(it, x)
        if isinstance(x, Arr):
            for s in x.shape:
                if any("q~" in w.args[0] for w in fv(s)):
                    raise Unsupported("ragged array")
            return Arr((v.n,) + x.shape, lambda i, *r: to_arr(it, v.get(i)).at(*r), x.kind)
    raise Unsupported(f"array from {type(v).__name__}")


def chain(i, ts):
    """ts[i] as nested conditionals."""
    c = concrete(i)
    if c is not None:
        return real(ts[c]) if ts[c].sort != "B" else ts[c]
    r = ts[-1]
    for k in reversed(range(len(ts) - 1)):
        r = ite(eq(i, num(k)), ts[k], r)
    return r


def uset_arr(it, u):
    """The array of a duplicate-free sorted set when every value is present."""
    v = fresh("c")
    m = u.member(v)
    if m is TRUE or it.ctx.child(*it.pc, le(ZERO, v), lt(v, u.size)).entails(m):
        if not u.mono:
            raise Unsupported("np.unique of labels without an order")
        a = Arr((u.size,), u.value, u.kind)
        return a
    return None


def ilen(it, v):
    v = norm(it, v)
    if isinstance(v, (str, list, tuple)):
        return num(len(v))
    if isinstance(v, PList):
        return num(len(v.items))
    if isinstance(v, SList):
        return v.n
    if isinstance(v, Arr):
        return v.shape[0]
    if isinstance(v, Filt):
        return v.size()
    if isinstance(v, USet):
        return v.size if v.member(fresh("c")) is TRUE else v.count()
    if isinstance(v, PDict):
        return num(len(v.d))
    if isinstance(v, Obj) and "__len__" in v.attrs:
        return v.attrs["__len__"]
    raise Unsupported(f"len of {type(v).__name__}")


def pyint(t):
    """Terms that are numerals become Python ints."""
    c = concrete(t)
    return c if c is not None and isinstance(t, T) else t


def bshape(it, shapes):
    """Broadcast shape."""
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = ONE
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if x is ONE:
                continue
            if cur is ONE:
                cur = x
            elif not it.same_dim(cur, x):
                it.oblige(f"{it.where()}: shapes agree", or_(eq(cur, x), eq(x, ONE), eq(cur, ONE)))
                raise Unsupported(f"broadcast of {cur} with {x}")
        out.append(cur)
    return tuple(out)


def elementwise(it, fn, *vals, kind=None):
    """Apply a scalar function elementwise with broadcasting."""
    vals = [norm(it, v) for v in vals]
    vals = [to_arr(it, v) if isinstance(v, (PList, SList, USet, list, tuple)) else v for v in vals]
    if any(isinstance(v, USet) for v in vals):
        raise Unsupported("arithmetic on a set of labels")
    fl = [v for v in vals if isinstance(v, Filt)]
    if fl:
        f0 = fl[0]
        for f in fl[1:]:
            r = fresh("r")
            if not (same_filter(f, f0)):
                raise Unsupported("arithmetic on different selections")
        if any(isinstance(v, Arr) and v.nd > 0 for v in vals):
            raise Unsupported("arithmetic on a selection and an array")
        if any(len(f.rest) != len(f0.rest) for f in fl):
            raise Unsupported("arithmetic on a row selection")
        g = Filt(f0.n, f0.mask, lambda r, *x: fn(*[v.elem(r, *x) if isinstance(v, Filt) else scalar(v)
                                                   for v in vals]),
                 kind or join_kind(*[kind_of(v) for v in vals]))
        g.rest = f0.rest
        return g
    mn = [v for v in vals if isinstance(v, MaskN)]
    if mn:
        ix = [fresh("r") for _ in mn[0].shape]
        if any(isinstance(v, Arr) and v.nd > 0 for v in vals) or not all(
                len(v.shape) == len(ix) and all(it.same_dim(p, q) for p, q in zip(v.shape, mn[0].shape)) and
                N.canon_bool(v.mask(*ix)) is N.canon_bool(mn[0].mask(*ix)) for v in mn):
            raise Unsupported("arithmetic on different selections")
        return MaskN(mn[0].shape, mn[0].mask, lambda *x: fn(*[v.elem(*x) if isinstance(v, MaskN) else scalar(v)
                                                             for v in vals]),
                     kind or join_kind(*[kind_of(v) for v in vals]))
    if any(isinstance(v, ColFilt) for v in vals):
        if len([v for v in vals if not is_num(v)]) != 1:
            raise Unsupported("arithmetic on selected columns")
        c = next(v for v in vals if isinstance(v, ColFilt))
        return ColFilt(c.n, c.mask, c.rows, lambda i, r: fn(*[v.elem(i, r) if v is c else scalar(v) for v in vals]),
                       kind or join_kind(*[kind_of(v) for v in vals]))
    if not any(isinstance(v, Arr) and v.nd > 0 for v in vals):
        return fn(*[scalar(v) for v in vals])
    arrs = [v for v in vals if isinstance(v, Arr)]
    sh = bshape(it, [v.shape for v in arrs])

    def at(*i):
        xs = []
        for v in vals:
            if isinstance(v, Arr) and v.nd:
                xs.append(v.at(*it.bidx(i[len(i) - v.nd:], v)))
            else:
                xs.append(scalar(v))
        return fn(*xs)
    r = Arr(sh, at, kind or join_kind(*[kind_of(v) for v in vals]))
    d = [v for v in arrs if getattr(v, "diag_of", None) is not None]
    return r


def same_filter(f, g):
    r = fresh("r")
    return f.n is g.n and N.canon_bool(f.mask(r)) is N.canon_bool(g.mask(r))


def oblige_div(it, b):
    """Obligation: no division by zero."""
    b = norm(it, b)
    nm = f"{it.where()}: divisor is not zero"
    if isinstance(b, Arr) and b.nd:
        it.oblige_at(nm, b.shape, lambda *i: not_(eq(b.at(*i), ZERO)))
    elif isinstance(b, MaskN):
        it.oblige_at(nm, b.shape, lambda *r: implies(b.mask(*r), not_(eq(b.elem(*r), ZERO))))
    elif isinstance(b, Filt):
        it.oblige_at(nm, (b.n,), lambda r: implies(b.mask(r), not_(eq(b.elem(r), ZERO))))
    else:
        it.oblige(nm, not_(eq(scalar(b), ZERO)))


# ---------------------------------------------------------------- operators
def binop(it, op, a, b):
    if any(isinstance(x, Condensed) for x in (a, b)):
        k, o = (a, b) if isinstance(a, Condensed) else (b, a)
        if op not in ("Mult", "Div") or not is_num(o) or isinstance(o, Arr) or op == "Div" and k is b:
            raise Unsupported("operation on distances")
        one = Arr((ONE,), lambda i: scalar(o), kind_of(o))
        f = lambda i, j: binop(it, op, Arr((ONE,), lambda z: k.f(i, j), "f"), one).at(ZERO)  # noqa: E731
        return Condensed(k.n, f)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return opq(op, a, b)
    a, b = norm(it, a), norm(it, b)
    if isinstance(a, str) or isinstance(b, str):
        if op == "Mod":
            return "<formatted>"
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        return "<formatted>"
    if isinstance(a, Filt) and getattr(a, "isset", False):
        return set_op(it, {"Sub": "difference", "BitAnd": "intersection"}.get(op, op), a, b)
    seq_ = (PList, SList)
    if op == "Add" and isinstance(a, PList) and isinstance(b, PList):
        return PList(a.items + b.items, a.tag)
    if op == "Add" and isinstance(a, seq_) and isinstance(b, seq_):
        return concat(it, [a, b])
    if op == "Mult" and isinstance(a, PList) and is_num(b):
        c = concrete(b)
        if c is not None and c <= 50:
            return PList(a.items * c, a.tag)
        if len(a.items) == 1:
            x = a.items[0]
            return SList(scalar(b), lambda i: x)
        raise Unsupported("list repetition")
    if op == "Mult" and isinstance(b, PList) and is_num(a):
        return binop(it, op, b, a)
    conc = (int, float)
    if isinstance(a, conc) and isinstance(b, conc):
        try:
            f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod,
                 "FloorDiv": operator.floordiv, "BitAnd": operator.and_, "BitOr": operator.or_}.get(op)
            if f is not None and not any(isinstance(x, float) and (math.isinf(x) or math.isnan(x))
                                         for x in (a, b)):
                if isinstance(a, float) or isinstance(b, float):
                    if all(float(x).is_integer() for x in (a, b)):
                        return float(f(a, b))
                else:
                    return f(a, b)
            if op == "Pow" and isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
        except (TypeError, ZeroDivisionError):
            pass
    ka, kb = kind_of(a), kind_of(b)
    if op == "MatMult":
        return dot(it, a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if ka != "b" or kb != "b":
            raise Unsupported("bitwise operation on numbers")
        f = {"BitAnd": and_, "BitOr": or_,
             "BitXor": lambda x, y: or_(and_(x, not_(y)), and_(not_(x), y))}[op]
        return elementwise(it, f, a, b, kind="b")
    if ka == "b" and kb == "b" and (isinstance(a, (Arr, Filt)) or isinstance(b, (Arr, Filt))):
        if op == "Add":
            return elementwise(it, or_, a, b, kind="b")
        if op == "Mult":
            return elementwise(it, and_, a, b, kind="b")
        if op == "Sub":
            raise Unsupported("subtraction of Booleans")
    k = join_kind("i", ka, kb)
    if op == "Add":
        return elementwise(it, add, a, b, kind=k)
    if op == "Sub":
        return elementwise(it, sub, a, b, kind=k)
    if op == "Mult":
        return elementwise(it, mul, a, b, kind=k)
    if op == "Div":
        oblige_div(it, b)
        return elementwise(it, div, a, b, kind="f")
    if op == "Pow":
        c = concrete(b) if not isinstance(b, float) else (int(b) if b.is_integer() else None)
        if isinstance(b, float) and b == 0.5:
            return libcall(it, "np.sqrt", [a], {})
        if isinstance(b, float) and b == -1 or c == -1:
            return binop(it, "Div", 1, a)
        if c is None or not 0 <= c <= 6:
            raise Unsupported("power")
        return elementwise(it, lambda x: mul(*[x] * c) if c else ONE, a,
                           kind="f" if isinstance(b, float) else k)
    if op in ("Mod", "FloorDiv"):
        if k != "i":
            raise Unsupported("division with remainder of reals")
        if isinstance(b, Arr):
            raise Unsupported("array remainder")
        it.oblige(f"{it.where()}: divisor is positive", lt(ZERO, scalar(b)))
        return elementwise(it, lambda x, y: divmod_(op, x, y), a, b, kind="i")
    raise Unsupported(f"operator {op}")


def divmod_(op, x, y):
    cx, cy = concrete(x), concrete(y)
    if cx is not None and cy:
        return num(cx // cy if op == "FloorDiv" else cx % cy)
    return app("mod" if op == "Mod" else "idiv", x, y, sort="I")


def frozen(v):
    """The present items of a list, whatever happens to it later."""
    return SList(v.n, v.get) if isinstance(v, MList) else v


def concat(it, parts):
    parts = [frozen(norm(it, p)) for p in parts]

    def get(i):
        i = lift(i)
        off = ZERO
        res = None
        pieces = []
        for p in parts:
            n = ilen(it, p)
            pieces.append((off, n, p))
            off = add(off, n)
        r = seq_get(it, pieces[-1][2], sub(i, pieces[-1][0]))
        for o, n, p in reversed(pieces[:-1]):
            if concrete(n) == 0:
                continue
            r = it.merge_val(lt(i, add(o, n)), seq_get(it, p, sub(i, o)), r)
        return r
    tot = ZERO
    for p in parts:
        tot = add(tot, ilen(it, p))
    return SList(tot, get)


def seq_get(it, p, i):
    p = norm(it, p)
    if isinstance(p, SList):
        return p.get(i)
    if isinstance(p, PList):
        c = concrete(i)
        if c is not None:
            if not -len(p.items) <= c < len(p.items):
                raise Unsupported("list index out of range")
            return p.items[c]
        if not p.items:
            return num(0)
        r = p.items[-1]
        for k in reversed(range(len(p.items) - 1)):
            r = it.merge_val(eq(i, num(k)), p.items[k], r)
        return r
    if isinstance(p, Arr):
        return getitem(it, p, [i], check=False)
    raise Unsupported(f"element of {type(p).__name__}")


def compare(it, op, a, b):
    if isinstance(a, Opq) or isinstance(b, Opq):
        return opq(op, a, b)
    a, b = norm(it, a), norm(it, b)
    if op in ("Is", "IsNot"):
        if a is None or b is None:
            r = a is b
            if isinstance(a, Choice_) or isinstance(b, Choice_):
                raise Unsupported("identity of a merged value")
            return r if op == "Is" else not r
        if isinstance(a, bool) and isinstance(b, bool):
            return (a is b) if op == "Is" else (a is not b)
        if a is b:
            return op == "Is"
        raise Unsupported("identity test")
    if op in ("In", "NotIn"):
        r = member(it, a, b)
        return r if op == "In" else not_(r)
    if op in ("Eq", "NotEq"):
        r = equal(it, a, b)
        if op == "Eq":
            return r
        if isinstance(r, bool):
            return not r
        if isinstance(r, Arr):
            return Arr(r.shape, lambda *i: not_(r.at(*i)), "b")
        if isinstance(r, Filt):
            return elementwise(it, not_, r, kind="b")
        return not_(r)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    f = {"Lt": lt, "LtE": le, "Gt": lambda x, y: lt(y, x), "GtE": lambda x, y: le(y, x)}[op]
    if isinstance(a, PList) and isinstance(b, PList) and a.tag == b.tag == "tuple":
        return lex(it, op, a.items, b.items)
    return elementwise(it, f, a, b, kind="b")


class Choice_:
    pass


def lex(it, op, a, b):
    if len(a) != len(b):
        raise Unsupported("tuple comparison")
    strict = op in ("Lt", "Gt")
    if not a:
        return FALSE if strict else TRUE
    x, y = scalar(a[0]), scalar(b[0])
    first = lt(x, y) if op in ("Lt", "LtE") else lt(y, x)
    return or_(first, and_(eq(x, y), lex(it, op, a[1:], b[1:])))


def equal(it, a, b):
    if a is None or b is None:
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            raise Unsupported("array compared with None")
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (int, float)) or isinstance(b, (int, float)):
            return False
        raise Unsupported("string comparison")
    if isinstance(a, PList) and isinstance(b, PList):
        if len(a.items) != len(b.items):
            return False
        return and_(*[lift(equal(it, norm(it, x), norm(it, y))) for x, y in zip(a.items, b.items)])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, PList) or isinstance(b, PList):
        if not (isinstance(a, Arr) or isinstance(b, Arr)):
            return False
    return elementwise(it, eq, a, b, kind="b")


def member(it, x, c):
    c = norm(it, c)
    if isinstance(c, str) and isinstance(x, str):
        return lift(x in c)
    if isinstance(c, PDict):
        if None in c.d and isinstance(c.d[None], Poison):
            raise Unsupported(c.d[None].why)
        k = it.hashable(x)
        return lift(k in c.d)
    if isinstance(c, SMap):
        return c.dom(scalar(x))
    if isinstance(c, PList):
        return or_(*[it.tt(equal(it, norm(it, x), norm(it, y))) for y in c.items])
    if isinstance(c, SList):
        return ex_(ZERO, c.n, lambda i: it.tt(equal(it, norm(it, x), norm(it, c.get(i)))))
    if isinstance(c, USet):
        e = enum_of(it, scalar(x), c)
        if e is not None:
            return and_(le(ZERO, e), lt(e, c.size), c.member(e))
        return ex_(ZERO, c.size, lambda i: and_(c.member(i), eq(scalar(x), c.value(i))))
    if isinstance(c, Filt):
        return ex_(ZERO, c.n, lambda i: and_(c.mask(i), eq(scalar(x), c.elem(i))))
    if isinstance(c, Arr) and c.nd == 1:
        return ex_(ZERO, c.shape[0], lambda i: eq(scalar(x), c.at(i)))
    raise Unsupported(f"membership in {type(c).__name__}")


def enum_of(it, x, c):
    """The index e with value(e) = x, read off the terms."""
    v = fresh("e")
    val = c.value(v)
    if val is v:
        return x
    if val.op == "app" and x.op == "app" and val.args[0] == x.args[0] and val.args[-1] is v \
            and val.args[1:-1] == x.args[1:-1] and val.args[0] in INJECTIVE:
        return x.args[-1]
    return None


from .terms import INJECTIVE, MONOTONE, REWRITES  # noqa: E402


# ----------------------------------------------------------------- indexing
def getitem(it, o, idx, check=True):
    if len(idx) == 1 and isinstance(idx[0], Grid):
        r, c = idx[0].ids
        return getitem(it, getitem(it, o, [r], check), [Slice(None, None, None), c], check)
    if outside(it, o):
        return Lib(o.name + "[]")
    o = norm(it, o)
    idx = [norm(it, i) for i in idx]
    if isinstance(o, Opq):
        return opq(o.tag + "[]", *idx)
    if isinstance(o, ObjArr) and len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].nd == 1 and idx[0].kind == "i":
        a = idx[0].copy()
        it.oblige_at(f"{it.where()}: index in bounds", a.shape, lambda i: and_(le(ZERO, a.at(i)), lt(a.at(i), o.n)))
        return ObjArr(a.shape[0], lambda j: o.get(a.at(j)))
    if isinstance(o, (PList, SList, str, tuple, list)):
        return seq_item(it, o, idx, check)
    if isinstance(o, PDict):
        return dict_item(it, o, idx)
    if isinstance(o, KeyMap):
        return o.lookup(idx[0] if len(idx) == 1 else PList(idx, "tuple"))
    if isinstance(o, SMap):
        if len(idx) != 1:
            raise Unsupported("tuple key")
        k = scalar(idx[0])
        it.oblige(f"{it.where()}: key is present", o.dom(k))
        return o.get(k)
    if isinstance(o, Arr):
        if len(idx) == 1 and isinstance(idx[0], PList) and idx[0].tag == "tuple":
            idx = [norm(it, i) for i in idx[0].items]
        return arr_item(it, o, idx, check)
    if isinstance(o, Filt):
        if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].kind == "b":
            raise Unsupported("selection of a selection")
        if len(idx) == 1 and is_num(idx[0]) and concrete(idx[0]) == 0:
            return first_of(it, o)
        raise Unsupported("index into a selection")
    if isinstance(o, USet):
        a = uset_arr(it, o)
        if a is not None:
            return getitem(it, a, idx, check)
        raise Unsupported("index into a set of labels")
    if isinstance(o, Obj):
        h = it.hooks.get("getitem")
        if h is not None:
            return h(it, o, idx)
    raise Unsupported(f"index into {type(o).__name__}")


def first_of(it, f):
    """The first selected element: characterised by a fresh position."""
    p = fresh("first")
    it.oblige(f"{it.where()}: selection is not empty", ex_(ZERO, f.n, f.mask))
    it.pc += [le(ZERO, p), lt(p, f.n), f.mask(p),
              all_(ZERO, f.n, lambda q: implies(lt(q, p), not_(f.mask(q))))]
    return f.elem(p)


def seq_item(it, o, idx, check):
    if len(idx) != 1:
        raise Unsupported("tuple index into a list")
    i = idx[0]
    o = frozen(o)
    n = ilen(it, o)
    if isinstance(i, Slice):
        if isinstance(o, str):
            raise Unsupported("string slice")
        lo, size, step = slice_range(it, i, n)
        if isinstance(o, PList) and concrete(lo) is not None and concrete(size) is not None and step == 1:
            a = concrete(lo)
            return PList(o.items[a:a + concrete(size)], o.tag)
        if step == 1 or step == -1:
            return SList(size, lambda j: seq_get(it, o, add(lo, mul(num(step), lift(j)))), "list")
        raise Unsupported("list slice")
    if not is_num(i):
        raise Unsupported("list index")
    c = concrete(scalar(i))
    if isinstance(o, PList):
        if c is not None:
            if not -len(o.items) <= c < len(o.items):
                raise Unsupported("list index out of range")
            return it.read(o.items[c])
    if isinstance(o, str):
        return o[c]
    j = scalar(i)
    if c is not None and c < 0:
        j = add(n, j)
    if check:
        it.oblige(f"{it.where()}: list index in range", and_(le(ZERO, j), lt(j, n)))
    return it.read(seq_get(it, o, j))


def dict_item(it, o, idx):
    key = it.hashable(PList(idx, "tuple") if len(idx) > 1 else idx[0])
    if None in o.d and isinstance(o.d[None], Poison):
        raise Unsupported(o.d[None].why)
    if key in o.d:
        return it.read(o.d[key])
    ks = [k for k in o.d]
    parts = key if isinstance(key, tuple) else (key,)
    cands = []
    for k in ks:
        kp = k if isinstance(k, tuple) else (k,)
        if len(kp) != len(parts) or any(isinstance(x, str) for x in kp):
            continue
        c = and_(*[eqb(p, q) for p, q in zip(parts, kp)])
        if c is FALSE:
            continue
        cands.append((c, o.d[k]))
    if not cands:
        raise Unsupported("key not in dictionary")
    it.oblige(f"{it.where()}: key is present", or_(*[c for c, _ in cands]))
    r = cands[-1][1]
    for c, v in reversed(cands[:-1]):
        r = it.merge_val(c, v, r)
    return r


def eqb(a, b):
    """Equality of keys: Booleans and 0/1 numbers compare equal."""
    a, b = lift(a), lift(b)
    if a.sort == "B" and b.sort == "B":
        return eq(a, b)
    return eq(real(a), real(b))


def slice_range(it, s, n):
    """(start, size, step) of a slice of a sequence of length n."""
    step = 1 if s.step is None else concrete(s.step)
    if step == -1:
        if s.lo is None and s.hi is None:
            return sub(n, ONE), n, -1
        raise Unsupported("reversed slice with bounds")
    if step != 1:
        raise Unsupported("strided slice")

    def fix(v, default):
        if v is None:
            return default
        v = scalar(v)
        c = concrete(v)
        if c is not None and c < 0:
            v = add(n, v)
            if not it.entails(le(ZERO, v)):
                v = ite(lt(v, ZERO), ZERO, v)
            return v
        if it.entails(and_(le(ZERO, v), le(v, n))):
            return v
        if it.entails(lt(v, ZERO)):
            raise Unsupported("negative slice bound")
        if it.entails(le(ZERO, v)):
            return ite(lt(n, v), n, v)
        if c is None and it.entails(le(v, n)) and it.entails(le(neg(n), v)):
            return ite(lt(v, ZERO), add(n, v), v)
        raise Unsupported("slice bound of unknown sign")
    lo = fix(s.lo, ZERO)
    hi = fix(s.hi, n)
    size = sub(hi, lo)
    if not it.entails(le(ZERO, size)):
        size = ite(lt(size, ZERO), ZERO, size)
    return lo, size, 1


def index_term(it, i, n, check=True):
    t = scalar(i)
    if t.sort == "B":
        raise Unsupported("Boolean used as index")
    if t.sort != "I":
        raise Unsupported("non-integer index")
    c = concrete(t)
    if c is not None and c < 0:
        t = add(n, t)
    if check:
        it.oblige(f"{it.where()}: index in bounds", and_(le(ZERO, t), lt(t, n)))
    return t


def arr_item(it, o, idx, check=True):
    nd = o.nd
    idx = list(idx)
    if any(i is NEWAXIS or i is None or (isinstance(i, Lib) and i.name == "np.newaxis") for i in idx):
        core = [i for i in idx if not (i is None or isinstance(i, Lib))]
        if any(not isinstance(i, Slice) for i in core):
            a = arr_item(it, o, core, check)
            marks = [i for i in idx if (i is None or isinstance(i, Lib)) or isinstance(i, Slice)]
        else:
            a = arr_item(it, o, core, check) if core else o
            marks = idx
        if not isinstance(a, Arr):
            raise Unsupported("new axis")
        dims, mp = [], []
        k = 0
        for i in marks:
            if i is None or isinstance(i, Lib):
                dims.append(ONE)
                mp.append(None)
            else:
                dims.append(a.shape[k])
                mp.append(k)
                k += 1
        while k < a.nd:
            dims.append(a.shape[k])
            mp.append(k)
            k += 1
        pos = [mp.index(q) for q in range(a.nd)]
        return view(a, dims, lambda *i: tuple(i[p] for p in pos))
    if len(idx) > nd:
        # one mask spanning several axes is handled below
        raise Unsupported("too many indices")
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].kind == "b":
        m = idx[0]
        if m.nd == nd and nd > 1:
            return mask_nd(it, o, m)
        if m.nd == 1:
            f = Filt(o.shape[0], lambda r: m.at(r), lambda r, *x: o.at(r, *x), o.kind)
            f.rest = o.shape[1:]
            f.src = o.copy()
            src = f.src
            f.elem = lambda r, *x: src.at(r, *x)
            mm = m.copy()
            f.mask = lambda r: mm.at(r)
            if not it.same_dim(m.shape[0], o.shape[0]):
                it.oblige(f"{it.where()}: mask has the array's length", eq(m.shape[0], o.shape[0]))
            return f
    idx += [Slice(None, None, None)] * (nd - len(idx))
    adv = [k for k, i in enumerate(idx) if not (is_num(i) and not (isinstance(i, Arr) and i.nd)) and
           not isinstance(i, Slice)]
    if not adv:
        # basic indexing
        maps, dims, n_out = [], [], 0
        for k, i in enumerate(idx):
            if isinstance(i, Slice):
                lo, size, step = slice_range(it, i, o.shape[k])
                dims.append(size)
                maps.append(("s", n_out, lo, step))
                n_out += 1
            else:
                maps.append(("i", index_term(it, i, o.shape[k], check)))

        def mp(*ix):
            return tuple(m[1] if m[0] == "i" else add(m[2], mul(num(m[3]), lift(ix[m[1]])))
                         for m in maps)
        if not dims:
            return o.at(*mp())
        return view(o, dims, mp)
    src = o.copy()
    if len(adv) == 1:
        k = adv[0]
        a = to_index(it, idx[k], o.shape[k])
        rest = idx[:k] + idx[k + 1:]
        # evaluate the remaining basic indices afterwards
        if isinstance(a, Filt):
            if any(is_num(i) for i in rest) or k == 0 or True:
                dims, maps, n_out = [], [], 0
                for q, i in enumerate(idx):
                    if q == k:
                        maps.append(None)
                    elif isinstance(i, Slice):
                        lo, size, step = slice_range(it, i, o.shape[q])
                        dims.append(size)
                        maps.append(("s", n_out, lo, step))
                        n_out += 1
                    else:
                        maps.append(("i", index_term(it, i, o.shape[q], check)))
                if k != 0 and dims and any(isinstance(i, Slice) for i in idx[:k]):
                    if nd != 2:
                        raise Unsupported("column selection")
                    lo = maps[0][2]
                    if maps[0][3] != 1:
                        raise Unsupported("column selection")
                    return ColFilt(a.n, a.mask, dims[0], lambda i, r: src.at(add(lo, lift(i)), a.elem(r)), o.kind)
                f = Filt(a.n, a.mask, lambda r, *x: src.at(*[
                    a.elem(r) if m is None else m[1] if m[0] == "i" else
                    add(m[2], mul(num(m[3]), lift(x[m[1]]))) for m in maps]), o.kind)
                f.rest = tuple(dims)
                return f
        dims, maps, n_out = [], [], 0
        for q, i in enumerate(idx):
            if q == k:
                dims += list(a.shape)
                maps.append(("a", n_out))
                n_out += a.nd
            elif isinstance(i, Slice):
                lo, size, step = slice_range(it, i, o.shape[q])
                dims.append(size)
                maps.append(("s", n_out, lo, step))
                n_out += 1
            else:
                if q < k and any(isinstance(j, Slice) for j in idx[:k]):
                    raise Unsupported("mixed index")
                maps.append(("i", index_term(it, i, o.shape[q], check)))
        an = a.nd

        def at(*ix):
            out = []
            for m in maps:
                if m[0] == "a":
                    out.append(a.at(*ix[m[1]:m[1] + an]))
                elif m[0] == "i":
                    out.append(m[1])
                else:
                    out.append(add(m[2], mul(num(m[3]), lift(ix[m[1]]))))
            return src.at(*out)
        r = Arr(dims, at, o.kind)
        if nd == 1 and a.nd == 1 and getattr(a, "bij", None) and getattr(o, "bij", None):
            r.bij = compose(o.bij, a.bij, r)
        return r
    # several index arrays: pointwise
    if any(isinstance(i, Slice) for i in idx):
        raise Unsupported("mixed index")
    arrs = [to_index(it, i, o.shape[k]) if k in adv else None for k, i in enumerate(idx)]
    if any(isinstance(a, Filt) for a in arrs if a is not None):
        fs = [a for a in arrs if a is not None]
        if not all(isinstance(a, Filt) and same_filter(a, fs[0]) for a in fs):
            raise Unsupported("mixed selection index")
        sc = [None if k in adv else index_term(it, i, o.shape[k], check) for k, i in enumerate(idx)]
        return Filt(fs[0].n, fs[0].mask, lambda r: src.at(*[
            arrs[k].elem(r) if arrs[k] is not None else sc[k] for k in range(nd)]), o.kind)
    if all(isinstance(a, Pair2) for a in arrs if a is not None) and len(adv) == 2 and nd == 2:
        return Tri(arrs[0], lambda i, j: src.at(i, j), o.kind)
    sh = bshape(it, [a.shape for a in arrs if a is not None])
    sc = [None if k in adv else index_term(it, i, o.shape[k], check) for k, i in enumerate(idx)]
    return Arr(sh, lambda *ix: src.at(*[
        arrs[k].at(*it.bidx(ix[len(ix) - arrs[k].nd:], arrs[k])) if arrs[k] is not None else sc[k]
        for k in range(nd)]), o.kind)


class ColFilt:
    """Selected columns of a matrix: elem(i, r) for the columns r < n with mask(r)."""

    def __init__(self, n, mask, rows, elem, kind):
        self.n, self.mask, self.rows, self.elem, self.kind = n, mask, rows, elem, kind


class Pair2:
    """Row or column half of an index pair over a set of positions i, j with
    dom(i, j), enumerated row by row."""

    def __init__(self, n, m, dom, half):
        self.n, self.m, self.dom, self.half = n, m, dom, half


class Tri:
    """Values at the positions of an index pair, row by row."""

    def __init__(self, p, elem, kind, shape=None):
        self.p, self.elem, self.kind, self.shape = p, elem, kind, shape


def compose(ob, ab, r):
    """Bijection data of o[a]."""
    return None


def to_index(it, i, n):
    """An index array with its bounds obligation."""
    i = norm(it, i)
    if isinstance(i, Pair2):
        return i
    if isinstance(i, (PList, SList, list, tuple)):
        i = to_arr(it, i)
    if isinstance(i, Arr):
        if i.kind == "b":
            if i.nd != 1:
                raise Unsupported("mask index")
            mm = i.copy()
            f = Filt(i.shape[0], lambda r: mm.at(r), lambda r: r, "i")
            f.ident = True
            return f
        if i.kind != "i":
            raise Unsupported("index array of reals")
        j = i.copy()
        if getattr(i, "inverse", None):
            j.inverse = i.inverse
        it.oblige_at(f"{it.where()}: index in bounds", i.shape,
                     lambda *x: and_(le(ZERO, j.at(*x)), lt(j.at(*x), n)))
        return j
    if isinstance(i, Filt):
        if i.kind != "i":
            raise Unsupported("index selection of reals")
        it.oblige_at(f"{it.where()}: index in bounds", (i.n,), lambda r: implies(
            i.mask(r), and_(le(ZERO, i.elem(r)), lt(i.elem(r), n))))
        return i
    if isinstance(i, USet):
        f = Filt(i.size, i.member, i.value, i.kind)
        f.unordered = not i.mono
        it.oblige_at(f"{it.where()}: index in bounds", (i.size,), lambda r: implies(
            i.member(r), and_(le(ZERO, i.value(r)), lt(i.value(r), n))))
        if i.value(var("$t")) is var("$t"):
            f.ident = True
        return f
    raise Unsupported(f"index by {type(i).__name__}")


def mask_nd(it, o, m):
    src, mm = o.copy(), m.copy()
    return MaskN(o.shape, lambda *i: mm.at(*i), lambda *i: src.at(*i), o.kind)


class MaskN:
    """Elements of an n-dimensional array where a mask holds (row order)."""

    def __init__(self, shape, mask, elem, kind):
        self.shape, self.mask, self.elem, self.kind = shape, mask, elem, kind


def setitem(it, o, idx, v):
    if outside(it, o):
        return
    o = norm(it, o)
    if isinstance(o, PList):
        c = concrete(scalar(idx[0])) if len(idx) == 1 and is_num(idx[0]) else None
        if c is None:
            raise Unsupported("list element assignment")
        o.items[c] = v
        return
    if isinstance(o, PDict):
        key = it.hashable(PList(idx, "tuple") if len(idx) > 1 else idx[0])
        if isinstance(key, T) or (isinstance(key, tuple) and any(isinstance(k, T) for k in key)):
            o.d = {None: Poison("dictionary with symbolic keys")}
            return
        if None in o.d and isinstance(o.d.get(None), Poison):
            return
        o.d[key] = v
        return
    if isinstance(o, Obj):
        h = it.hooks.get("setitem")
        if h is not None:
            return h(it, o, idx, v)
    if not isinstance(o, Arr):
        raise Unsupported(f"assignment into {type(o).__name__}")
    if getattr(o, "ro", False):
        raise Unsupported("write to a merged array")
    idx = [norm(it, i) for i in idx]
    v = norm(it, v)
    if o.view is not None:
        base, mp = o.view
        return set_view(it, o, base, mp, idx, v)
    kv = kind_of(v) if not isinstance(v, (PList, SList)) else "f"
    if isinstance(v, (PList, SList)):
        v = to_arr(it, v)
        kv = v.kind
    if isinstance(v, float) and v.is_integer():
        kv = "i"
    if KORD.get(kv, 3) > KORD.get(o.kind, 3) and not (kv == "i" and o.kind == "b"):
        if o.kind == "i" and is_num(v):
            raise Unsupported("real stored into an integer array")
        raise Unsupported("store changes the element type")
    idx = idx + [Slice(None, None, None)] * (o.nd - len(idx))
    if len(idx) > o.nd:
        raise Unsupported("too many indices")
    old_vars, old_body = o.vars, o.body
    if len(idx) >= 1 and isinstance(idx[0], Arr) and idx[0].kind == "b" and idx[0].nd == o.nd:
        m = idx[0].copy()
        if isinstance(v, Arr) and v.nd or isinstance(v, Filt):
            raise Unsupported("masked assignment of an array")
        s = scalar(v)
        o.body = ite(m.at(*o.vars), s, old_body)
        return
    conds = []
    adv = {}
    free = []
    for k, i in enumerate(idx):
        x = o.vars[k]
        if isinstance(i, Slice):
            lo, size, step = slice_range(it, i, o.shape[k])
            if step != 1:
                free.append(mul(num(-1), sub(x, sub(o.shape[k], ONE))))
                continue
            if not (i.lo is None):
                conds.append(le(lo, x))
            if not (i.hi is None):
                conds.append(lt(x, add(lo, size)))
            free.append(sub(x, lo))
        elif is_num(i) and not (isinstance(i, Arr) and i.nd):
            t = index_term(it, i, o.shape[k])
            conds.append(eq(x, t))
        else:
            adv[k] = to_index(it, i, o.shape[k])
    if adv:
        keys = sorted(adv)
        a0 = adv[keys[0]]
        pos = None
        if all(isinstance(adv[k], Filt) for k in keys):
            for k in keys[1:]:
                if not same_filter(adv[k], a0):
                    raise Unsupported("assignment at different selections")
            k0 = next((k for k in keys if getattr(adv[k], "ident", False)), None)
            if k0 is None:
                # solve elem(r) = x for r
                r = fresh("r")
                sol = None
                for k in keys:
                    sol = N.solve_for(N.canon_bool(eq(o.vars[k], adv[k].elem(r))), r)
                    if sol is not None:
                        k0 = k
                        break
                if sol is None:
                    if is_num(v) and not isinstance(v, (Filt,)):
                        conds.append(ex_(ZERO, a0.n, lambda r: and_(a0.mask(r), *[
                            eq(o.vars[k], adv[k].elem(r)) for k in keys])))
                        o.body = ite(and_(*conds), scalar(v), old_body)
                        return
                    raise Unsupported("assignment at a computed selection")
                pos = sol
            else:
                pos = o.vars[k0]
            conds += [le(ZERO, pos), lt(pos, a0.n), a0.mask(pos)]
            for k in keys:
                if k != k0:
                    conds.append(eq(o.vars[k], adv[k].elem(pos)))
            if isinstance(v, Filt):
                if not same_filter(v, a0):
                    raise Unsupported("assignment from a different selection")
                val = v.elem(pos, *free) if v.rest else v.elem(pos)
            elif isinstance(v, Arr) and v.nd:
                raise Unsupported("assignment of an array at a selection")
            else:
                val = scalar(v)
            o.body = ite(and_(*conds), val, old_body)
            return
        # index arrays with a known inverse
        if len(keys) == 1 and isinstance(a0, Arr) and a0.nd == 1 and getattr(a0, "inverse", None):
            dom, invf = a0.inverse
            x = o.vars[keys[0]]
            conds.append(dom(x))
            q = invf(x)
            if isinstance(v, Arr) and v.nd:
                val = v.at(*it.bidx(([q] + free)[-v.nd:], v)) if keys[0] == 0 else None
                if val is None:
                    raise Unsupported("assignment at an index array")
            else:
                val = scalar(v)
            o.body = ite(and_(*conds), val, old_body)
            return
        if all(isinstance(adv[k], Arr) and adv[k].nd == 1 for k in keys) and is_num(v) and \
                not isinstance(v, Arr):
            n = a0.shape[0]
            conds.append(ex_(ZERO, n, lambda r: and_(*[eq(o.vars[k], adv[k].at(r)) for k in keys])))
            o.body = ite(and_(*conds), scalar(v), old_body)
            return
        raise Unsupported("assignment at an index array")
    c = and_(*conds)
    if isinstance(v, Arr) and v.nd:
        src = v.copy()
        if src.nd > len(free):
            if src.nd == len(free) + 1 and src.shape[0] is ONE:
                val = src.at(ZERO, *free)
            else:
                raise Unsupported("assignment of a larger array")
        else:
            fs = free[len(free) - src.nd:]
            full = [s for s, i in zip(o.shape, idx) if isinstance(i, Slice)]
            for d, (sz, i) in enumerate(zip(src.shape, range(len(free) - src.nd, len(free)))):
                if sz is ONE:
                    continue
            val = src.at(*[ZERO if s is ONE else f for s, f in zip(src.shape, fs)])
    elif isinstance(v, Filt):
        raise Unsupported("assignment of a selection")
    else:
        val = scalar(v)
    if val.sort == "B" and o.kind != "b":
        val = iv(val)
    o.body = ite(c, val, old_body)


def set_view(it, o, base, mp, idx, v):
    """Write through a view whose coordinate map fixes or copies coordinates."""
    vs = [fresh("w") for _ in o.shape]
    img = mp(*vs)
    new = [None] * base.nd
    idx = idx + [Slice(None, None, None)] * (o.nd - len(idx))
    used = set()
    for k, t in enumerate(img):
        t = lift(t)
        j = next((q for q, w in enumerate(vs) if w is t), None)
        if j is not None and j not in used:
            new[k] = idx[j]
            used.add(j)
        elif not (fv(t) & set(vs)):
            new[k] = t
        else:
            raise Unsupported("write through a view")
    if len(used) != len(vs):
        raise Unsupported("write through a view")
    order = [next(q for q, w in enumerate(vs) if w is lift(img[k])) for k in range(base.nd)
             if lift(img[k]) in vs]
    if isinstance(v, Arr) and v.nd > 1 and order != sorted(order):
        raise Unsupported("write through a transposed view")
    setitem(it, base, new, v)


# ------------------------------------------------------------------- linear algebra
def dot(it, a, b):
    a, b = to_arr(it, a), to_arr(it, b)
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        raise Unsupported("dot of a selection")
    if a.nd == 0 or b.nd == 0:
        return binop(it, "Mult", a, b)
    k = join_kind("i", a.kind, b.kind)
    da, db = getattr(a, "diag_of", None), getattr(b, "diag_of", None)
    na, nb = a.shape[-1], b.shape[0] if b.nd == 1 else b.shape[-2]
    if not it.same_dim(na, nb):
        it.oblige(f"{it.where()}: inner dimensions agree", eq(na, nb))
        raise Unsupported("dot of different dimensions")
    if da is not None:
        d = da
        bb = b.copy()
        if b.nd == 1:
            return Arr(b.shape, lambda i: mul(d(i), bb.at(i)), k)
        r = Arr(b.shape, lambda i, j: mul(d(i), bb.at(i, j)), k)
        if db is not None:
            r.diag_of = lambda i: mul(d(i), db(i))
        return r
    if db is not None:
        d = db
        aa = a.copy()
        if a.nd == 1:
            return Arr(a.shape, lambda i: mul(aa.at(i), d(i)), k)
        return Arr(a.shape, lambda i, j: mul(aa.at(i, j), d(j)), k)
    a, b = a.copy(), b.copy()
    if a.nd == 1 and b.nd == 1:
        return sum_(ZERO, na, lambda l: mul(a.at(l), b.at(l)))
    if a.nd == 2 and b.nd == 1:
        return Arr((a.shape[0],), lambda i: sum_(ZERO, na, lambda l: mul(a.at(i, l), b.at(l))), k)
    if a.nd == 1 and b.nd == 2:
        return Arr((b.shape[1],), lambda j: sum_(ZERO, na, lambda l: mul(a.at(l), b.at(l, j))), k)
    if a.nd == 2 and b.nd == 2:
        return Arr((a.shape[0], b.shape[1]),
                   lambda i, j: sum_(ZERO, na, lambda l: mul(a.at(i, l), b.at(l, j))), k)
    raise Unsupported("dot")


def diag(it, v):
    v = to_arr(it, v)
    if not isinstance(v, Arr):
        raise Unsupported("diag")
    v = v.copy()
    if v.nd == 2:
        if not it.same_dim(v.shape[0], v.shape[1]):
            raise Unsupported("diagonal of a rectangular matrix")
        d = getattr(v, "diag_of", None)
        return Arr((v.shape[0],), lambda i: v.at(i, i), v.kind)
    n = v.shape[0]
    r = Arr((n, n), lambda i, j: mul(iv(eq(i, j)), v.at(i)), "i" if v.kind == "b" else v.kind)
    r.diag_of = lambda i: real(v.at(i))
    r.diag_body = r.body
    return r


# --------------------------------------------------------------- reductions
def axis_of(it, a, args, kw):
    ax = args[0] if args else kw.get("axis")
    if ax is None:
        return None
    c = concrete(scalar(ax))
    if c is None:
        raise Unsupported("symbolic axis")
    return c % a.nd


def reduce_sum(it, a, axis, keep=False):
    a = a.copy()
    k = "i" if a.kind in "bi" else a.kind
    if axis is None:
        def rec(pre, dims):
            if not dims:
                return real(a.at(*pre))
            return sum_(ZERO, dims[0], lambda l: rec(pre + (l,), dims[1:]))
        return rec((), a.shape)
    sh = a.shape[:axis] + ((ONE,) if keep else ()) + a.shape[axis + 1:]
    n = a.shape[axis]

    def at(*i):
        i = list(i)
        if keep:
            i.pop(axis)
        return sum_(ZERO, n, lambda l: real(a.at(*i[:axis], l, *i[axis:])))
    return Arr(sh, at, k)


def quantify(it, a, axis, q):
    a = a.copy()
    tru = lambda t: t if t.sort == "B" else not_(eq(t, ZERO))  # noqa: E731
    f = all_ if q == "all" else ex_
    if axis is None:
        def rec(pre, dims):
            if not dims:
                return tru(a.at(*pre))
            return f(ZERO, dims[0], lambda l: rec(pre + (l,), dims[1:]))
        return rec((), a.shape)
    sh = a.shape[:axis] + a.shape[axis + 1:]
    n = a.shape[axis]
    return Arr(sh, lambda *i: f(ZERO, n, lambda l: tru(a.at(*i[:axis], l, *i[axis:]))), "b")


def builtin_sum(it, v, start=None):
    v = norm(it, v)
    if isinstance(v, Filt):
        if v.rest:
            return np_sum(it, v, 0) if start is None else binop(it, "Add", start, np_sum(it, v, 0))
        r = sum_(ZERO, v.n, lambda i: mul(iv(v.mask(i)), real(v.elem(i))))
    elif isinstance(v, Arr):
        r = reduce_sum(it, v, 0)
        if isinstance(r, Arr) and r.nd == 0:
            r = r.at()
    elif isinstance(v, SList):
        x = norm(it, v.get(fresh("q")))
        if is_num(x):
            r = sum_(ZERO, v.n, lambda i: real(scalar(norm(it, v.get(i)))))
        elif isinstance(x, Arr):
            r = Arr(x.shape, lambda *ix: sum_(ZERO, v.n, lambda i: real(norm(it, v.get(i)).at(*ix))),
                    "i" if x.kind == "b" else x.kind)
        else:
            raise Unsupported("sum")
    elif isinstance(v, PList):
        r = None
        for x in v.items:
            r = x if r is None else binop(it, "Add", r, x)
        if r is None:
            r = 0
        elif len(v.items) == 1:
            r = binop(it, "Add", 0, r)
    elif isinstance(v, USet):
        r = sum_(ZERO, v.size, lambda c: mul(iv(v.member(c)), v.value(c)))
    else:
        raise Unsupported(f"sum of {type(v).__name__}")
    if start is not None:
        r = binop(it, "Add", start, r)
    return r


def np_sum(it, a, axis, keep=False):
    a = norm(it, a)
    if isinstance(a, Filt):
        if a.rest:
            if axis == 0 and len(a.rest) >= 1:
                return Arr(a.rest, lambda *x: sum_(ZERO, a.n, lambda r: mul(
                    iv(a.mask(r)), real(a.elem(r, *x)))), "i" if a.kind == "b" else a.kind)
            if axis is None and len(a.rest) == 1:
                return sum_(ZERO, a.n, lambda r: sum_(ZERO, a.rest[0], lambda x: mul(
                    iv(a.mask(r)), real(a.elem(r, x)))))
            if axis == 1 and len(a.rest) == 1:
                f = Filt(a.n, a.mask, lambda r: sum_(ZERO, a.rest[0], lambda x: real(a.elem(r, x))),
                         "i" if a.kind == "b" else a.kind)
                return f
            raise Unsupported("sum of a row selection")
        return sum_(ZERO, a.n, lambda i: mul(iv(a.mask(i)), real(a.elem(i))))
    if isinstance(a, MaskN):
        def rec(pre, dims):
            if not dims:
                return mul(iv(a.mask(*pre)), real(a.elem(*pre)))
            return sum_(ZERO, dims[0], lambda l: rec(pre + (l,), dims[1:]))
        return rec((), a.shape)
    a = to_arr(it, a)
    return reduce_sum(it, a, axis, keep)


# ------------------------------------------------------------------ np.unique
def unique(it, v):
    v = norm(it, v)
    if isinstance(v, Flat):
        v = v.a
    if isinstance(v, (PList, SList)):
        v = to_arr(it, v)
    h = it.hooks.get("unique")
    if h is not None:
        r = h(it, v)
        if r is not None:
            return r
    if isinstance(v, USet):
        return v
    if isinstance(v, Filt):
        dims, mask, elem = (v.n,), v.mask, v.elem
        if v.rest:
            raise Unsupported("unique of rows")
    elif isinstance(v, Arr):
        a = v.copy()
        dims, mask, elem = v.shape, (lambda *i: TRUE), a.at
    else:
        raise Unsupported("np.unique")
    idx = [fresh("u") for _ in dims]
    t = elem(*idx)
    enum = enumeration(t)
    if enum is None:
        raise Unsupported(f"np.unique of values without an enumeration")
    f, pre, e, size, mono = enum
    if any(w in fv(x) for x in pre for w in idx):
        raise Unsupported("np.unique across enumerations")

    def member(c):
        def rec(mp, ds, ix):
            if not ds:
                return and_(subst(mask(*idx), mp), eq(subst(e, mp), c))
            return ex_(ZERO, ds[0], lambda w: rec(mp | {ix[0]: w}, ds[1:], ix[1:]))
        return rec({}, list(dims), list(idx))
    u = USet(size, member, (lambda c: app(f, *pre, c, sort=t.sort)) if f else (lambda c: c),
             v.kind, mono)
    a = uset_arr(it, u) if mono else None
    return a if a is not None else u


ENUMS = {}   # function symbol -> (size function of the leading args, monotone)


def enumeration(t):
    """t = f(pre..., e) for an enumerating symbol f."""
    if t.op == "app" and t.args[0] in ENUMS:
        size, mono = ENUMS[t.args[0]]
        return t.args[0], t.args[1:-1], t.args[-1], size(*t.args[1:-1]), mono
    if t.op == "app" and t.args[0] in INDEXED:
        # a term that itself ranges over 0..size-1
        size = INDEXED[t.args[0]]
        return None, (), t, size(*t.args[1:]), True
    return None


INDEXED = {}


# ---------------------------------------------------------------- methods
def method(it, o, name, args, kw):
    o = norm(it, o)
    args = [norm(it, a) for a in args]
    if isinstance(o, Arr):
        return arr_method(it, o, name, args, kw)
    if isinstance(o, (Filt, MaskN)):
        return filt_method(it, o, name, args, kw)
    if isinstance(o, ColFilt) and name in ("any", "all", "sum"):
        ax = args[0] if args else kw.get("axis")
        if ax is None or concrete(scalar(ax)) not in (1, -1) or set(kw) - {"axis"}:
            raise Unsupported(f"{name} of selected columns")
        tru = lambda t: t if t.sort == "B" else not_(eq(t, ZERO))  # noqa: E731
        if name == "sum":
            return Arr((o.rows,), lambda i: sum_(ZERO, o.n, lambda r: mul(iv(o.mask(r)), real(o.elem(i, r)))),
                       "i" if o.kind == "b" else o.kind)
        if name == "any":
            return Arr((o.rows,), lambda i: ex_(ZERO, o.n, lambda r: and_(o.mask(r), tru(o.elem(i, r)))), "b")
        return Arr((o.rows,), lambda i: all_(ZERO, o.n, lambda r: implies(o.mask(r), tru(o.elem(i, r)))), "b")
    if isinstance(o, Tri):
        if name == "reshape" and [concrete(scalar(x)) for x in
                                  (it.items(args[0]) if isinstance(args[0], PList) else args)] == [-1, 1]:
            return Tri(o.p, o.elem, o.kind, "column")
        raise Unsupported(f"{name} of an index-pair selection")
    if isinstance(o, USet):
        if name == "tolist":
            return o
        if name == "index":
            return list_index(it, o, args[0])
        a = uset_arr(it, o)
        if a is not None:
            return arr_method(it, a, name, args, kw)
        raise Unsupported(f"{name} of a set of labels")
    if isinstance(o, (SList, PList)):
        return list_method(it, o, name, args, kw)
    if isinstance(o, PDict):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, SMap):
        if name == "get" and len(args) == 1:
            it.oblige(f"{it.where()}: key is present", o.dom(scalar(args[0])))
            return o.get(scalar(args[0]))
        raise Unsupported(f"{name} of a map")
    if isinstance(o, str) and name == "join" and len(args) == 1:
        v = args[0]
        if isinstance(v, SList) and isinstance(v.get(var("$s")), StrOf):
            return Joined(o, SList(v.n, lambda j: v.get(j).val))
        if isinstance(v, PList) and v.items and all(isinstance(x, StrOf) for x in v.items):
            return Joined(o, SList(num(len(v.items)), lambda j: seq_get(it, PList([x.val for x in v.items]), j)))
    if isinstance(o, str):
        if name in ("lower", "upper", "replace", "strip", "startswith", "endswith", "title") and \
                all(isinstance(a, (str, int)) for a in args):
            return getattr(o, name)(*args)
        return "<formatted>"
    if is_num(o):
        if name == "sum":
            return o
        if name == "item":
            return o
        if name in ("any", "all"):
            return it.truth(o)
        if name == "astype":
            return libcall(it, "builtins." + {"i": "int", "f": "float", "b": "bool"}[dtype(args[0], "f")],
                           [o], {})
    raise Unsupported(f"method {name} of {type(o).__name__}")


def arr_method(it, o, name, args, kw):
    if name in ("sum", "any", "all", "mean", "max", "min", "argmax", "argmin", "prod", "std", "var"):
        kw = dict(kw)
        keep = kw.pop("keepdims", False)
        if set(kw) - {"axis"}:
            raise Unsupported(f"{name} arguments")
        ax = axis_of(it, o, args, kw)
        if name == "sum":
            return reduce_sum(it, o, ax, bool(keep))
        if name in ("any", "all"):
            return quantify(it, o, ax, name)
        if name == "mean":
            n = ONE
            for s in (o.shape if ax is None else (o.shape[ax],)):
                n = mul(n, s)
            it.oblige(f"{it.where()}: mean of a non-empty array", not_(eq(n, ZERO)))
            return elementwise(it, lambda x: div(x, n), reduce_sum(it, o, ax, bool(keep)), kind="f")
        if name in ("max", "min"):
            return extremum(it, o, ax, name)
        h = it.hooks.get("arr_" + name)
        if h is not None:
            return h(it, o, ax)
        raise Unsupported(name)
    if name == "copy":
        r = o.copy()
        return r
    if name == "transpose":
        if args or kw:
            raise Unsupported("transpose with axes")
        return o.T
    if name == "tolist":
        if o.nd == 1:
            c = o.copy()
            return SList(o.shape[0], lambda i: c.at(i)) if concrete(o.shape[0]) is None else \
                PList([pyint(c.at(num(i))) for i in range(concrete(o.shape[0]))])
        c = o.copy()
        return SList(o.shape[0], lambda i: arr_method(it, arr_item(it, c, [i], False), "tolist", [], {}))
    if name in ("flatten", "ravel"):
        if o.nd == 1:
            return o.copy()
        return Flat(o.copy())
    if name == "reshape":
        return reshape(it, o, it.items(args[0]) if len(args) == 1 and isinstance(args[0], PList) else args)
    if name == "astype":
        return cast(it, o, dtype(args[0] if args else kw.get("dtype"), o.kind))
    if name == "dot":
        return dot(it, o, args[0])
    if name == "diagonal" and not args and not kw:
        return diag(it, o)
    if name == "trace" and not args:
        return np_sum(it, diag(it, o), None)
    if name == "nonzero":
        return libcall(it, "np.nonzero", [o], {})
    if name == "argsort":
        return libcall(it, "np.argsort", [o] + args, kw)
    if name == "take":
        return libcall(it, "np.take", [o] + args, kw)
    if name == "item" and o.nd == 0:
        return o.at()
    if name == "fill":
        it.store_all(o, args[0])
        return None
    if name == "index" and False:
        pass
    if name == "round" and False:
        pass
    raise Unsupported(f"array method {name}")


def extremum(it, o, ax, name):
    """max/min characterised by a fresh value: attained, and bounding all."""
    if ax is not None:
        raise Unsupported(f"{name} along an axis")
    if o.nd != 1:
        raise Unsupported(name)
    a = o.copy()
    n = o.shape[0]
    it.oblige(f"{it.where()}: {name} of a non-empty array", lt(ZERO, n))
    p = fresh("arg")
    it.pc += [le(ZERO, p), lt(p, n),
              all_(ZERO, n, lambda q: le(a.at(q), a.at(p)) if name == "max" else le(a.at(p), a.at(q)))]
    return a.at(p)


class Flat:
    """A flattened array, to be reshaped back."""

    def __init__(self, a):
        self.a = a


def cast(it, o, k):
    if k == o.kind:
        return o.copy()
    if k == "b":
        return Arr(o.shape, (lambda c: lambda *i: not_(eq(c.at(*i), ZERO)))(o.copy()), "b")
    if KORD[k] > KORD[o.kind]:
        c = o.copy()
        return Arr(o.shape, lambda *i: real(c.at(*i)), k)
    if k in "if" and o.kind in "fo" and k != o.kind:
        c = o.copy()
        vs = [fresh("g") for _ in o.shape]
        t = c.at(*vs)
        if t.sort != "B" and (k == "f" or N.canon(t).sort == "I"):
            return Arr(o.shape, c.at, k)
    raise Unsupported(f"cast from {o.kind} to {k}")


def reshape(it, o, dims):
    if isinstance(o, Flat):
        dims = [scalar(d) for d in dims]
        if len(dims) == o.a.nd and all(it.same_dim(x, y) for x, y in zip(dims, o.a.shape)):
            return o.a.copy()
        raise Unsupported("reshape")
    dims = [scalar(d) for d in dims]
    cs = [concrete(d) for d in dims]
    if o.nd == 1 and len(dims) == 2:
        n = o.shape[0]
        if cs[1] == 1 and (cs[0] == -1 or it.same_dim(dims[0], n)):
            return view(o, (n, ONE), lambda i, j: (i,))
        if cs[0] == 1 and (cs[1] == -1 or it.same_dim(dims[1], n)):
            return view(o, (ONE, n), lambda i, j: (j,))
    tot = concrete(o.shape[0]) if o.nd == 1 else None
    if tot is not None and len(dims) >= 2 and all(c is not None for c in cs) and cs.count(-1) <= 1:
        known = 1
        for c in cs:
            known *= c if c != -1 else 1
        if known > 0 and tot % known == 0 and (-1 in cs or known == tot):
            cs = [tot // known if c == -1 else c for c in cs]

            def flat(*ix):
                r = ZERO
                for c, i in zip(cs, ix):
                    r = add(mul(r, num(c)), i)
                return (r,)
            return view(o, tuple(num(c) for c in cs), flat)
    if o.nd == 2 and len(dims) == 1 and o.shape[1] is ONE:
        return view(o, (o.shape[0],), lambda i: (i, ZERO))
    if len(dims) == o.nd and all(it.same_dim(x, y) for x, y in zip(dims, o.shape)):
        return view(o, o.shape, lambda *i: i)
    raise Unsupported("reshape")


def filt_method(it, o, name, args, kw):
    if getattr(o, "isset", False):
        return set_op(it, name, o, norm(it, args[0]))
    if name == "sum":
        ax = kw.get("axis", args[0] if args else None)
        return np_sum(it, o, None if ax is None else concrete(scalar(ax)))
    if name == "mean" and isinstance(o, Filt) and not o.rest:
        n = o.size()
        it.oblige(f"{it.where()}: mean of a non-empty selection", not_(eq(n, ZERO)))
        return div(np_sum(it, o, None), n)
    if isinstance(o, Filt) and name in ("tolist", "copy"):
        f = Filt(o.n, o.mask, o.elem, o.kind)
        f.rest = o.rest
        f.ident = getattr(o, "ident", False)
        f.aslist = name == "tolist"
        return f
    if isinstance(o, Filt) and name == "any" and not o.rest:
        return ex_(ZERO, o.n, lambda r: and_(o.mask(r), it.truth(o.elem(r))))
    if isinstance(o, Filt) and name == "all" and not o.rest:
        return all_(ZERO, o.n, lambda r: implies(o.mask(r), it.truth(o.elem(r))))
    if isinstance(o, Filt) and name == "astype":
        return elementwise(it, lambda x: x, o, kind=dtype(args[0], o.kind))
    raise Unsupported(f"selection method {name}")


def list_index(it, o, x):
    """Position of x: decided on enumerations (injective) only."""
    o = norm(it, o)
    x = norm(it, x)
    if isinstance(o, PList):
        ts = [scalar(v) for v in o.items]
        t = scalar(x)
        it.oblige(f"{it.where()}: value is in the list", or_(*[eq(t, u) for u in ts]))
        r = num(len(ts) - 1)
        for k in reversed(range(len(ts) - 1)):
            r = ite(eq(t, ts[k]), num(k), r)
        return r
    if isinstance(o, SList):
        t = scalar(x)
        v = fresh("e")
        val = scalar(norm(it, o.get(v)))
        e = None
        if val.op == "app" and t.op == "app" and val.args[0] == t.args[0] and val.args[0] in INJECTIVE \
                and val.args[-1] is v and val.args[1:-1] == t.args[1:-1]:
            e = t.args[-1]
        else:
            e = N.solve_for(N.canon_bool(eq(val, t)), v)
        if e is None:
            if it.loop_stack:
                raise Unsupported("list.index")
            # the first position of x: some position where it stands
            it.oblige(f"{it.where()}: value is in the list", ex_(ZERO, o.n, lambda q: eq(scalar(norm(it, o.get(q))), t)))
            e = fresh("pos")
            it.pc += [le(ZERO, e), lt(e, o.n), eq(scalar(norm(it, o.get(e))), t)]
            return e
        it.oblige(f"{it.where()}: value is in the list", and_(le(ZERO, e), lt(e, o.n)))
        return e
    if isinstance(o, USet):
        raise Unsupported("index in a set of labels")
    raise Unsupported("index")


def list_method(it, o, name, args, kw):
    if name == "index":
        return list_index(it, o, args[0])
    if name == "copy":
        return PList(o.items, o.tag) if isinstance(o, PList) else MList(o.d["a"].copy()) if isinstance(o, MList) else o
    if name == "tolist":
        return o
    if isinstance(o, PList):
        if name == "append":
            o.items.append(args[0])
            return None
        if name == "extend":
            a = args[0]
            if isinstance(a, PList):
                o.items.extend(a.items)
                return None
            if isinstance(a, SList):
                o.sym = concat(it, [PList(o.items), a])
                o.items = [SYM]
                return None
            if isinstance(a, USet):
                o.sym = SelList(list(o.items), a)
                o.items = [SYM]
                return None
            raise Unsupported("extend")
        if name == "pop":
            return o.items.pop(*[concrete(scalar(a)) for a in args])
        if name == "insert":
            o.items.insert(concrete(scalar(args[0])), args[1])
            return None
        if name == "count":
            return add(ZERO, *[iv(it.tt(equal(it, args[0], v))) for v in o.items])
        if name in ("add",) and o.tag == "set":
            o.items.append(args[0])
            return None
        if name == "remove":
            for k, v in enumerate(o.items):
                d = it.decide(it.tt(equal(it, args[0], v)))
                if d is TRUE:
                    del o.items[k]
                    return None
                if d is not FALSE:
                    raise Unsupported("remove of a symbolic value")
    if isinstance(o, MList) and name == "remove":
        a, x = o.d["a"], scalar(args[0])
        if a.inverse is None:
            raise Unsupported("remove from a list without a known order")
        dom, f = a.inverse
        it.oblige(f"{it.where()}: value is in the list", dom(x))
        o.d["a"] = FUNCS["np.delete"](it, a, f(x))
        return None
    h = it.hooks.get("list_" + name)
    if h is not None:
        return h(it, o, args, kw)
    raise Unsupported(f"list method {name}")


class SelList:
    """A list: concrete head followed by the members of a set in some order."""

    def __init__(self, head, tail):
        self.head, self.tail = head, tail
        self.n = add(num(len(head)), ilen(None, tail) if not isinstance(tail, USet) else
                     sum_(ZERO, tail.size, lambda c: iv(tail.member(c))))


def dict_method(it, o, name, args, kw):
    if name == "get":
        k = it.hashable(args[0])
        if isinstance(k, T):
            return dict_item(it, o, [args[0]])
        return o.d.get(k, args[1] if len(args) > 1 else None)
    if name == "keys":
        return PList(list(o.d))
    if name == "values":
        return PList(list(o.d.values()))
    if name == "items":
        return PList([PList([PList(k, "tuple") if isinstance(k, tuple) else k, v], "tuple")
                      for k, v in o.d.items()])
    if name == "setdefault":
        k = it.hashable(args[0])
        if isinstance(k, T):
            raise Unsupported("symbolic key")
        return o.d.setdefault(k, args[1])
    if name == "pop":
        k = it.hashable(args[0])
        if isinstance(k, T) or k not in o.d and len(args) < 2:
            raise Unsupported("pop of an unknown key")
        return o.d.pop(k, args[1] if len(args) > 1 else None)
    if name == "update":
        if isinstance(args[0], PDict):
            o.d.update(args[0].d)
            return None
    raise Unsupported(f"dict method {name}")


# ------------------------------------------------------------- attributes
def attr(it, o, name):
    o = norm(it, o)
    if isinstance(o, Arr):
        if name == "shape":
            return PList([pyint(s) for s in o.shape], "tuple")
        if name == "T":
            return o.T
        if name == "ndim":
            return o.nd
        if name == "size":
            return pyint(mul(ONE, *o.shape))
        if name == "dtype":
            return KindOf(o.kind)
        return Method(o, name)
    if isinstance(o, (Filt, USet)):
        if name == "size":
            return ilen(it, o)
        if name == "shape" and (isinstance(o, USet) or not o.rest):
            return PList([ilen(it, o)], "tuple")
        if name == "dtype":
            return KindOf(o.kind)
        return Method(o, name)
    if isinstance(o, Flat):
        return Method_flat(it, o, name)
    if isinstance(o, Tri):
        if name == "shape":
            raise Unsupported("shape of an index-pair selection")
        return Method(o, name)
    if isinstance(o, (PList, SList, PDict, str, T, int, float, SMap, MaskN, ColFilt)):
        if isinstance(o, (T, int, float)) and name == "T":
            return o
        return Method(o, name)
    if o is None:
        raise Unsupported(f"attribute {name} of None")
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def Method_flat(it, o, name):
    if name == "reshape":
        return lambda *a, **k: reshape(it, o, it.items(a[0]) if len(a) == 1 and isinstance(a[0], PList)
                                       else list(a))
    if name == "sum":
        return lambda *a, **k: np_sum(it, o.a, None)
    if name == "mean":
        return lambda *a, **k: arr_method(it, o.a, "mean", [], {})
    raise Unsupported(f"{name} of a flattened array")


CONST = {"np.inf": float("inf"), "np.nan": float("nan")}


def libattr(it, o, name):
    full = f"{o.name}.{name}"
    if full in CONST:
        return CONST[full]
    if full in ("np.pi", "math.pi"):
        return app("pi")
    if full == "np.newaxis":
        return NEWAXIS
    return Lib(full)


# ------------------------------------------------------------------ calls
FUNCS = {}
OPAQUE_OK = {"builtins." + x for x in ("len", "set", "tuple", "list", "map", "sorted", "zip", "enumerate",
                                       "max", "min", "sum", "str", "int", "float", "bool", "abs", "any",
                                       "all")} | {"np.asarray", "np.array", "np.any", "np.all", "np.sum"}


def model(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def call(it, name, args, kw):
    it.libs_used.add(name)
    return libcall(it, name, args, kw)


def outside(it, o):
    """A library (drawing) assumed not to touch the data the contract is about."""
    name = o.name if isinstance(o, Lib) else o
    return isinstance(name, str) and any(name == p or name.startswith(p + ".") or name.startswith(p + "(") for p in it.outside)


def libcall(it, name, args, kw):
    h = it.hooks.get("call:" + name)
    if h is not None:
        return h(it, *args, **kw)
    if outside(it, name):
        return Lib(name + "()")
    f = FUNCS.get(name)
    if name in OPAQUE_OK and any(isinstance(a, Opq) for a in args):
        if name == "builtins.len":
            n = app("len!" + args[0].tag, sort="I")
            it.pc.append(le(ZERO, n))
            return n
        return opq(name, *args, *kw.values())
    if f is None:
        raise Unsupported(f"call of {name}")
    args = [norm(it, a) if not isinstance(a, Spread) else a for a in args]
    kw = {k: norm(it, v) for k, v in kw.items()}
    if name not in ("np.random.shuffle", "builtins.list"):
        args = [frozen(a) for a in args]
    try:
        return f(it, *args, **kw)
    except TypeError as e:
        if "argument" in str(e):
            raise Unsupported(f"arguments of {name}: {e}")
        raise


@model("builtins.len")
def _(it, v):
    return pyint(ilen(it, v))


@model("builtins.range", "np.arange", "builtins.xrange")
def _(it, *a, dtype=None):
    a = [scalar(x) for x in a]
    lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    s = concrete(step)
    if s not in (1, -1) or any(x.sort != "I" for x in (lo, hi)):
        raise Unsupported("range")
    n = sub(hi, lo) if s == 1 else sub(lo, hi)
    if not it.entails(le(ZERO, n)):
        n = ite(lt(n, ZERO), ZERO, n)
    r = SList(n, lambda i: pyint(add(lo, mul(num(s), lift(i)))), "range")
    return r


def as_range_arr(it, r):
    a = Arr((r.n,), lambda i: lift(r.get(i)), "i")
    lo = lift(r.get(ZERO))
    a.inverse = (lambda x: and_(le(lo, x), lt(x, add(lo, r.n))), lambda x: sub(x, lo))
    return a


def _arange(it, *a, dtype=None):
    r = FUNCS["builtins.range"](it, *a)
    return as_range_arr(it, r)


FUNCS["np.arange"] = _arange


OPAQUE = set()   # functions whose values are objects the engine knows nothing about


def is_opaque(v):
    return isinstance(v, T) and v.op == "app" and v.args[0] in OPAQUE


@model("builtins.tuple")
def _(it, v=None):
    if is_opaque(v):
        return v
    r = FUNCS["builtins.list"](it, v)
    return SList(r.n, r.get) if isinstance(r, MList) else r


@model("builtins.list")
def _(it, v=None):
    if v is None:
        return PList([])
    if is_opaque(v):
        return v
    if isinstance(v, PList):
        return PList(v.items)
    if isinstance(v, MList) or isinstance(v, SList) and v.tag == "range":
        try:
            return MList(as_range_arr(it, v) if v.tag == "range" else v.d["a"].copy())
        except Unsupported:
            return v
    if isinstance(v, (SList, USet)):
        return v
    if isinstance(v, Filt):
        return filt_method(it, v, "tolist", [], {})
    if isinstance(v, Arr):
        k = concrete(v.shape[0])
        c = v.copy()
        if k is not None and k <= it.max_unroll:
            return PList([getitem(it, c, [i]) for i in range(k)])
        return SList(v.shape[0], lambda i: getitem(it, c, [i], False))
    if isinstance(v, PDict):
        return PList([PList(k, "tuple") if isinstance(k, tuple) else k for k in v.d])
    if isinstance(v, (Zip2, Flat)):
        return v
    raise Unsupported(f"list of {type(v).__name__}")


@model("builtins.set")
def _(it, v=None):
    if v is None:
        return PList([], "set")
    h = it.hooks.get("set")
    if h is not None:
        return h(it, v)
    if isinstance(v, SList) and is_opaque(v.get(fresh("c"))) and distinct_items(v):
        f = Filt(v.n, lambda i: TRUE, v.get, "i")
        f.rest, f.aslist, f.isset = (), True, True
        return f
    raise Unsupported("set")


def distinct_items(v):
    """The items are values of injective functions of their positions."""
    i = fresh("c")
    t = v.get(i)
    while isinstance(t, T) and t.op == "app" and t.args[0] in INJECTIVE and not any(i in fv(x) for x in t.args[1:-1]):
        t = t.args[-1]
        if t is i:
            return True
    return False


def set_op(it, op, a, b):
    if isinstance(b, (SList, Filt)) and not getattr(b, "isset", False):
        b = FUNCS["builtins.set"](it, b) if isinstance(b, SList) else b
    if not isinstance(b, Filt):
        raise Unsupported("set operation")
    inb = lambda i: ex_(ZERO, b.n, lambda j: and_(b.mask(j), eq(a.elem(i), b.elem(j))))  # noqa: E731
    if op == "difference":
        mask = lambda i: and_(a.mask(i), not_(inb(i)))  # noqa: E731
    elif op == "intersection":
        mask = lambda i: and_(a.mask(i), inb(i))  # noqa: E731
    else:
        raise Unsupported(f"{op} of sets")
    f = Filt(a.n, mask, a.elem, a.kind)
    f.rest, f.aslist, f.isset = (), True, True
    return f


@model("builtins.dict")
def _(it, v=None):
    if v is None:
        return PDict()
    if isinstance(v, PDict):
        return PDict(v.d)
    if isinstance(v, PList):
        d = PDict()
        for x in v.items:
            k, w = it.items(x)
            d.d[it.hashable(k)] = w
        return d
    if isinstance(v, SList) and "dict" in it.hooks:
        r = it.hooks["dict"](it, v)
        if r is not None:
            return r
    if isinstance(v, SList):
        # zip(labels, range(k)): a map from enumerated labels to their index
        p = v.get(var("$d"))
        k, w = it.items(p)
        k = scalar(k)
        if k.op == "app" and k.args[0] in INJECTIVE and k.args[-1] is var("$d"):
            f, pre = k.args[0], k.args[1:-1]

            def get(t):
                if t.op == "app" and t.args[0] == f and t.args[1:-1] == pre:
                    return it.inst(w, var("$d"), t.args[-1])
                raise Unsupported("look-up of an unknown label")

            def dom(t):
                if t.op == "app" and t.args[0] == f and t.args[1:-1] == pre:
                    return and_(le(ZERO, t.args[-1]), lt(t.args[-1], v.n))
                raise Unsupported("look-up of an unknown label")
            return SMap(dom, get)
    raise Unsupported("dict")


class StrOf:
    """str(value)"""

    def __init__(self, val):
        self.val = val


class Joined:
    """sep.join(map(str, items))"""

    def __init__(self, sep, items):
        self.sep, self.items = sep, items


class Condensed:
    """Distances f(i, j), i < j < n, as scipy's pdist returns them."""

    def __init__(self, n, f):
        self.n, self.f = n, f


@model("scipy.spatial.distance.pdist")
def _(it, x, metric=None):
    x = to_arr(it, x).copy()
    if metric != "hamming" or x.nd != 2:
        raise Unsupported("pdist")
    n, t = x.shape
    it.oblige(f"{it.where()}: sequences are not empty", lt(ZERO, t))
    return Condensed(n, lambda i, j: div(sum_(ZERO, t, lambda p: iv(not_(eq(x.at(i, p), x.at(j, p))))), t))


@model("scipy.spatial.distance.squareform")
def _(it, v):
    if not isinstance(v, Condensed):
        raise Unsupported("squareform")
    return Arr((v.n, v.n), lambda i, j: ite(lt(i, j), v.f(i, j), ite(lt(j, i), v.f(j, i), ZERO)), "f")


class ObjArr(SList):
    """A one-dimensional array of sequences."""


class KeyMap:
    """A dictionary whose keys are sequences: lookup(key)."""

    def __init__(self, lookup):
        self.lookup = lookup


@model("itertools.combinations")
def _(it, v, r):
    if concrete(scalar(r)) != 2:
        raise Unsupported("combinations")
    c = it.concrete_items(v)
    if c is not None:
        return PList([PList([c[i], c[j]], "tuple") for i in range(len(c)) for j in range(i + 1, len(c))])
    n, el, g = it.seq(v)
    if g(fresh("c")) is not TRUE:
        raise Unsupported("combinations of a selection")
    return Zip2(n, n, lambda i, j: lt(i, j), lambda i, j: PList([el(i), el(j)], "tuple"))


class Zip2:
    """Pairs selected over a two-dimensional index range, in row order."""

    def __init__(self, n, m, mask, elem):
        self.n, self.m, self.mask, self.elem = n, m, mask, elem


class Where2:
    """One of the index arrays of np.where on a matrix."""

    def __init__(self, n, m, mask, half):
        self.n, self.m, self.mask, self.half = n, m, mask, half


@model("builtins.zip")
def _(it, *vs, strict=False):
    if all(isinstance(v, Where2) for v in vs) and len(vs) == 2:
        a = vs[0]
        if all(v.mask is a.mask for v in vs):
            return Zip2(a.n, a.m, a.mask, lambda i, j: PList([(i, j)[v.half] for v in vs], "tuple"))
    vs = [uset_arr(it, v) or v if isinstance(v, USet) else v for v in vs]
    if all(isinstance(v, PList) for v in vs):
        return PList([PList(list(x), "tuple") for x in zip(*[v.items for v in vs])])
    ns = [ilen(it, v) for v in vs]
    cs = [concrete(n) for n in ns]
    if any(c is not None for c in cs):
        # the shortest is concrete only if provably not longer than the others
        c = min(c for c in cs if c is not None)
        if all((d is not None) or it.entails(le(num(c), n)) for d, n in zip(cs, ns)):
            return PList([PList([seq_get(it, v, num(i)) for v in vs], "tuple") for i in range(c)])
        raise Unsupported("zip of sequences of unknown order of length")
    if all(isinstance(v, Filt) for v in vs):
        f0 = vs[0]
        if not all(same_filter(v, f0) for v in vs[1:]):
            raise Unsupported("zip of different selections")
        raise Unsupported("zip of selections")
    n = ns[0]
    for m in ns[1:]:
        if not it.same_dim(n, m):
            raise Unsupported("zip of different lengths")
    return SList(n, lambda i: PList([seq_get(it, v, lift(i)) for v in vs], "tuple"))


@model("builtins.enumerate")
def _(it, v, start=0):
    if isinstance(v, USet):
        v = uset_arr(it, v) or v
    conc = it.concrete_items(v)
    s = lift(start)
    if conc is not None:
        return PList([PList([pyint(add(s, num(i))), x], "tuple") for i, x in enumerate(conc)])
    n, el, g = it.seq(v)
    if g(fresh("c")) is not TRUE:
        raise Unsupported("enumerate of a selection")
    return SList(n, lambda i: PList([pyint(add(s, lift(i))), el(lift(i))], "tuple"))


@model("builtins.reversed")
def _(it, v):
    if isinstance(v, PList):
        return PList(v.items[::-1])
    if isinstance(v, SList):
        return SList(v.n, lambda i: v.get(sub(sub(v.n, ONE), lift(i))))
    raise Unsupported("reversed")


@model("builtins.map")
def _(it, f, *vs):
    if len(vs) == 1 and isinstance(f, Lib) and f.name == "builtins.str":
        f = StrOf
    if len(vs) == 1:
        v = vs[0]
        if f is StrOf:
            n, el, g = it.seq(v)
            if g(fresh("c")) is TRUE and is_num(el(var("$s"))):
                return SList(n, lambda j: StrOf(scalar(el(lift(j)))))
            raise Unsupported("map(str, ..)")
        conc = it.concrete_items(v)
        if conc is not None:
            return PList([it.call(f, [x]) for x in conc])
        n, el, g = it.seq(v)
        if g(fresh("c")) is not TRUE:
            raise Unsupported("map over a selection")
        i = fresh("m")
        npc = len(it.pc)
        it.pc += [le(ZERO, i), lt(i, n)]
        try:
            r = it.call(f, [el(i)])
        finally:
            del it.pc[npc:]
        return SList(n, lambda j: it.inst(r, i, lift(j)))
    raise Unsupported("map")


@model("builtins.sum")
def _(it, v, start=None):
    return pyint(builtin_sum(it, v, start)) if not isinstance(v, str) else None


@model("builtins.abs", "np.abs", "np.absolute", "np.fabs")
def _(it, v):
    if isinstance(v, (int, float)):
        return abs(v)
    return elementwise(it, abs_, v)


def abs_(t):
    if isnum(t):
        return num(abs(nval(t)))
    return app("abs", t, sort=t.sort if t.sort in "IR" else "I")


def minmax(it, name, vs):
    if len(vs) == 1:
        v = vs[0]
        if isinstance(v, PList):
            vs = v.items
        elif isinstance(v, Arr) and v.nd == 1 and concrete(v.shape[0]) is not None:
            vs = [v.at(num(i)) for i in range(concrete(v.shape[0]))]
        elif isinstance(v, (Arr, SList)):
            return extremum(it, to_arr(it, v), None, name)
        else:
            raise Unsupported(name)
    if all(isinstance(v, (int, float)) for v in vs):
        return min(vs) if name == "min" else max(vs)
    r = scalar(vs[0])
    for v in vs[1:]:
        t = scalar(v)
        r = ite(lt(t, r), t, r) if name == "min" else ite(lt(r, t), t, r)
    return r


@model("builtins.min")
def _(it, *v):
    return minmax(it, "min", list(v))


@model("builtins.max")
def _(it, *v):
    return minmax(it, "max", list(v))


@model("np.min", "np.amin")
def _(it, v, axis=None):
    return minmax(it, "min", [v])


@model("np.max", "np.amax")
def _(it, v, axis=None):
    return minmax(it, "max", [v])


@model("np.minimum")
def _(it, a, b):
    return elementwise(it, lambda x, y: ite(lt(y, x), y, x), a, b)


@model("np.maximum")
def _(it, a, b):
    return elementwise(it, lambda x, y: ite(lt(x, y), y, x), a, b)


@model("builtins.int")
def _(it, v=0):
    if isinstance(v, (int, float, str)):
        return int(v)
    t = scalar(v)
    if t.sort == "B":
        return iv(t)
    t2 = N.canon(t)
    if t2.sort == "I":
        return t
    fl = app("floor", t, sort="I")
    if it.entails(le(ZERO, t)):
        if t.op == "mul" and any(isnum(x) and nval(x) == lift(0.5).args[0] for x in t.args):
            pass
        return fl
    raise Unsupported("int of a real of unknown sign")


@model("builtins.float")
def _(it, v=0):
    if isinstance(v, (int, float, str)):
        return float(v)
    return real(scalar(v))


@model("builtins.bool")
def _(it, v):
    return it.truth(v)


@model("builtins.str", "builtins.repr")
def _(it, v=""):
    return str(v) if isinstance(v, (int, str)) else "<formatted>"


@model("builtins.print", "warnings.warn", "np.seterr", "warnings.filterwarnings")
def _(it, *a, **k):
    return None


@model("builtins.any")
def _(it, v):
    if isinstance(v, PList):
        return or_(*[it.truth(x) for x in v.items])
    if isinstance(v, SList):
        return ex_(ZERO, v.n, lambda i: it.truth(v.get(i)))
    if isinstance(v, Filt):
        return ex_(ZERO, v.n, lambda i: and_(v.mask(i), it.truth(v.elem(i))))
    return quantify(it, to_arr(it, v), None, "any")


@model("builtins.all")
def _(it, v):
    if isinstance(v, PList):
        return and_(*[it.truth(x) for x in v.items])
    if isinstance(v, SList):
        return all_(ZERO, v.n, lambda i: it.truth(v.get(i)))
    if isinstance(v, Filt):
        return all_(ZERO, v.n, lambda i: implies(v.mask(i), it.truth(v.elem(i))))
    return quantify(it, to_arr(it, v), None, "all")


@model("builtins.hasattr")
def _(it, o, name):
    if isinstance(o, Obj):
        it.reads.add(name)
        here = name in o.attrs or (o.cls is not None and o.cls.find(name) is not None)
        if not here:
            it.absent.append((id(o), name))
        return here
    raise Unsupported("hasattr")


@model("builtins.getattr")
def _(it, o, name, *default):
    if isinstance(o, Obj):
        it.reads.add(name)
        if name in o.attrs or (o.cls is not None and o.cls.find(name) is not None):
            return it.attr(o, name)
        if default:
            it.absent.append((id(o), name))
            return default[0]
    raise Unsupported("getattr")


@model("builtins.isinstance")
def _(it, o, c):
    names = [x.name for x in (c.items if isinstance(c, PList) else [c]) if isinstance(x, Lib)]
    if isinstance(o, Arr):
        return "np.ndarray" in names
    if isinstance(o, (PList, SList)):
        return "builtins." + (o.tag if o.tag in ("tuple", "set") else "list") in names
    if isinstance(o, str):
        return "builtins.str" in names
    if isinstance(o, bool):
        return "builtins.bool" in names or "builtins.int" in names
    raise Unsupported("isinstance")


@model("builtins.super")
def _(it, *a):
    return Super()


class Super:
    pass


@model("builtins.round")
def _(it, v, n=None):
    raise Unsupported("round")


@model("builtins.sorted")
def _(it, v, **k):
    raise Unsupported("sorted")


@model("copy.copy", "copy.deepcopy")
def _(it, v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, PList):
        return PList(v.items, v.tag)
    if isinstance(v, SList) or is_num(v):
        return v
    raise Unsupported("copy")


# --------------------------------------------------------------------- numpy
@model("np.array", "np.copy")
def _(it, v, dtype=None, copy=True, **k):
    if k:
        raise Unsupported("np.array arguments")
    if is_opaque(v):
        return v
    a = to_arr(it, v)
    a = a.copy() if isinstance(a, Arr) else a
    if dtype is not None:
        a = cast(it, a, globals()["dtype"](dtype, a.kind))
    return a


@model("np.asarray", "np.asanyarray", "np.atleast_1d", "np.ascontiguousarray")
def _(it, v, dtype=None):
    if is_opaque(v):
        return v
    a = to_arr(it, v)
    if dtype is not None:
        k = globals()["dtype"](dtype, a.kind)
        if k != a.kind:
            a = cast(it, a, k)
    return a


def shape_of(it, s):
    if is_num(s):
        return (scalar(s),)
    return tuple(scalar(x) for x in it.items(norm(it, s)))


@model("np.empty")
def _(it, shape, dtype=None):
    k = globals()["dtype"](dtype, "f")
    g = fresh("garbage").args[0]
    return Arr(shape_of(it, shape), lambda *i: app(g, *i, sort={"b": "B", "i": "I"}.get(k, "R")), k)


@model("np.zeros")
def _(it, shape, dtype=None):
    k = globals()["dtype"](dtype, "f")
    return Arr(shape_of(it, shape), lambda *i: FALSE if k == "b" else ZERO, k)


@model("np.ones")
def _(it, shape, dtype=None):
    k = globals()["dtype"](dtype, "f")
    return Arr(shape_of(it, shape), lambda *i: TRUE if k == "b" else ONE, k)


@model("np.full")
def _(it, shape, v, dtype=None):
    s = scalar(v)
    return Arr(shape_of(it, shape), lambda *i: s, globals()["dtype"](dtype, kind_of(v)))


@model("np.full_like")
def _(it, a, v, dtype=None):
    a = to_arr(it, a)
    s = scalar(v)
    k = globals()["dtype"](dtype, a.kind)
    if KORD[kind_of(v)] > KORD[k]:
        raise Unsupported("np.full_like truncates")
    return Arr(a.shape, lambda *i: s, k)


@model("np.empty_like")
def _(it, a, dtype=None):
    a = to_arr(it, a)
    return libcall(it, "np.empty", [PList(list(a.shape), "tuple")], {"dtype": KindOf(globals()["dtype"](dtype, a.kind))})


@model("np.zeros_like")
def _(it, a, dtype=None):
    a = to_arr(it, a)
    k = globals()["dtype"](dtype, a.kind)
    return Arr(a.shape, lambda *i: FALSE if k == "b" else ZERO, k)


@model("np.ones_like")
def _(it, a, dtype=None):
    a = to_arr(it, a)
    k = globals()["dtype"](dtype, a.kind)
    return Arr(a.shape, lambda *i: TRUE if k == "b" else ONE, k)


@model("np.eye", "np.identity")
def _(it, n, m=None, dtype=None):
    n = scalar(n)
    r = Arr((n, n), lambda i, j: iv(eq(i, j)), "f")
    r.diag_of = lambda i: ONE
    r.diag_body = r.body
    return r


@model("np.diag", "np.diagonal", "np.diagflat")
def _(it, v):
    return diag(it, v)


@model("np.fill_diagonal")
def _(it, a, v):
    if not isinstance(a, Arr) or a.nd != 2 or a.view is not None:
        raise Unsupported("fill_diagonal")
    s = scalar(v)
    i, j = a.vars
    a.body = ite(eq(i, j), s, a.body)


@model("np.dot", "np.matmul")
def _(it, a, b):
    return dot(it, a, b)


@model("np.multiply")
def _(it, a, b):
    return binop(it, "Mult", a, b)


@model("np.add")
def _(it, a, b):
    return binop(it, "Add", a, b)


@model("np.subtract")
def _(it, a, b):
    return binop(it, "Sub", a, b)


@model("np.divide", "np.true_divide")
def _(it, a, b):
    return binop(it, "Div", a, b)


@model("np.square")
def _(it, a):
    return binop(it, "Mult", a, a)


@model("np.power")
def _(it, a, b):
    return binop(it, "Pow", a, b)


@model("np.negative")
def _(it, a):
    return binop(it, "Mult", -1, a)


for _n, _o in (("greater_equal", "GtE"), ("less_equal", "LtE"), ("less", "Lt"), ("greater", "Gt"),
               ("equal", "Eq"), ("not_equal", "NotEq")):
    FUNCS["np." + _n] = (lambda o: lambda it, a, b: compare(it, o, a, b))(_o)


@model("np.logical_and")
def _(it, a, b):
    return elementwise(it, lambda x, y: and_(it.truth(x), it.truth(y)), a, b, kind="b")


@model("np.logical_or")
def _(it, a, b):
    return elementwise(it, lambda x, y: or_(it.truth(x), it.truth(y)), a, b, kind="b")


@model("np.logical_not", "np.invert")
def _(it, a):
    return elementwise(it, lambda x: not_(it.truth(x)), a, kind="b")


@model("np.sum")
def _(it, a, axis=None, keepdims=False):
    a = to_arr(it, a) if not isinstance(a, MaskN) else a
    ax = None if axis is None else concrete(scalar(axis))
    if ax is not None and isinstance(a, Arr):
        ax %= a.nd
    return np_sum(it, a, ax, bool(keepdims))


@model("np.count_nonzero")
def _(it, a, axis=None):
    a = to_arr(it, a)
    b = elementwise(it, lambda x: it.truth(x), a, kind="b")
    return np_sum(it, b, None if axis is None else concrete(scalar(axis)))


@model("np.mean")
def _(it, a, axis=None):
    return arr_method(it, to_arr(it, a), "mean", [axis], {})


@model("np.any")
def _(it, a, axis=None):
    return quantify(it, to_arr(it, a), None if axis is None else concrete(scalar(axis)), "any")


@model("np.all")
def _(it, a, axis=None):
    return quantify(it, to_arr(it, a), None if axis is None else concrete(scalar(axis)), "all")


@model("np.trace")
def _(it, a):
    return np_sum(it, diag(it, a), None)


@model("np.transpose")
def _(it, a):
    return to_arr(it, a).T


@model("np.unique")
def _(it, v, **kw):
    h = it.hooks.get("unique_kw")
    if kw:
        if h is not None:
            return h(it, v, kw)
        raise Unsupported("np.unique arguments")
    return unique(it, v)


@model("np.where")
def _(it, c, *ab):
    if len(ab) == 2:
        if isinstance(c, Filt):
            raise Unsupported("where on a selection")
        return elementwise(it, lambda p, x, y: ite(it.truth(p), x, y), c, *ab,
                           kind=join_kind(*[kind_of(x) for x in ab]))
    if ab:
        raise Unsupported("np.where")
    return where1(it, c)


@model("np.nonzero")
def _(it, c):
    return where1(it, c)


def where1(it, c):
    c = to_arr(it, c)
    if not isinstance(c, Arr):
        raise Unsupported("np.where")
    m = c.copy()
    if m.nd == 1:
        f = Filt(m.shape[0], lambda r: it.truth(m.at(r)), lambda r: lift(r), "i")
        f.ident = True
        return PList([f], "tuple")
    if m.nd == 2:
        mask = lambda i, j: it.truth(m.at(i, j))  # noqa: E731
        return PList([Where2(m.shape[0], m.shape[1], mask, h) for h in (0, 1)], "tuple")
    raise Unsupported("np.where")


@model("np.flatnonzero")
def _(it, c):
    c = to_arr(it, c)
    if c.nd != 1:
        raise Unsupported("flatnonzero")
    return where1(it, c).items[0]


@model("np.argwhere")
def _(it, c):
    c = to_arr(it, c)
    if not isinstance(c, Arr) or c.nd != 1:
        raise Unsupported("argwhere")
    f = where1(it, c).items[0]
    f.rest = (ONE,)
    e = f.elem
    f.elem = lambda r, *x: e(r)
    f.argwhere = True
    return f


@model("np.tril_indices")
def _(it, n, k=0, m=None):
    n, k = scalar(n), scalar(k)
    m = n if m is None else scalar(m)
    dom = lambda i, j: le(j, add(i, k))  # noqa: E731
    return PList([Pair2(n, m, dom, 0), Pair2(n, m, dom, 1)], "tuple")


@model("np.triu_indices")
def _(it, n, k=0, m=None):
    n, k = scalar(n), scalar(k)
    m = n if m is None else scalar(m)
    dom = lambda i, j: le(add(i, k), j)  # noqa: E731
    return PList([Pair2(n, m, dom, 0), Pair2(n, m, dom, 1)], "tuple")


@model("np.log")
def _(it, v):
    arr = norm(it, v)
    nm = f"{it.where()}: argument of log is positive"
    if isinstance(arr, Arr) and arr.nd:
        c = arr.copy()
        it.oblige_at(nm, arr.shape, lambda *i: lt(ZERO, real(c.at(*i))))
    elif isinstance(arr, Filt):
        it.oblige_at(nm, (arr.n,), lambda r: implies(arr.mask(r), lt(ZERO, arr.elem(r))))
    else:
        it.oblige(nm, lt(ZERO, scalar(arr)))
    return elementwise(it, lambda x: app("log", real(x)), v, kind="f")


def root(it, t):
    """sqrt of a scalar; sums in it are folded to ghost values they equal, and a
    product of non-negative factors is a product of roots."""
    t = real(t)
    if it.fold is not None and N.sum_height(t):
        a = Arr((), lambda: t, "f")
        it.fold(it, a)
        t = a.at()
    if t.op == "mul" and all(it.entails(le(ZERO, x)) for x in t.args):
        return mul(*[root(it, x) for x in t.args])
    return app("sqrt", t)


@model("np.sqrt", "math.sqrt")
def _(it, v):
    arr = norm(it, v)
    if is_term(arr) or isinstance(arr, (int, float)):
        t = scalar(arr)
        if it.fold is not None and N.sum_height(t):
            a = Arr((), lambda: real(t), "f")
            it.fold(it, a)
            t = a.at()
        it.oblige(f"{it.where()}: argument of sqrt is not negative", le(ZERO, t))
        return root(it, t)
    nm = f"{it.where()}: argument of sqrt is not negative"
    if isinstance(arr, Arr) and arr.nd:
        c = arr.copy()
        it.oblige_at(nm, arr.shape, lambda *i: le(ZERO, real(c.at(*i))))
    elif not isinstance(arr, Filt):
        it.oblige(nm, le(ZERO, scalar(arr)))
    return elementwise(it, lambda x: app("sqrt", real(x)), v, kind="f")


@model("np.hypot")
def _(it, a, b):
    return elementwise(it, lambda x, y: app("sqrt", add(mul(x, x), mul(y, y))), a, b, kind="f")


@model("np.sign")
def _(it, v):
    return elementwise(it, lambda x: sub(iv(lt(ZERO, x)), iv(lt(x, ZERO))), v)


@model("np.arctan2")
def _(it, a, b):
    return elementwise(it, lambda x, y: app("arctan2", real(x), real(y)), a, b, kind="f")


@model("np.kron")
def _(it, a, b):
    a, b = to_arr(it, a).copy(), to_arr(it, b).copy()
    da, db = [concrete(x) for x in a.shape], [concrete(x) for x in b.shape]
    if a.nd != 2 or b.nd != 2 or any(x is None for x in da + db):
        raise Unsupported("kron")

    def at(i, j):
        rows = []
        r = None
        for p in range(da[0] * db[0]):
            for q in range(da[1] * db[1]):
                t = mul(a.at(num(p // db[0]), num(q // db[1])), b.at(num(p % db[0]), num(q % db[1])))
                r = t if r is None else ite(and_(eq(i, num(p)), eq(j, num(q))), t, r)
        return r
    return Arr((num(da[0] * db[0]), num(da[1] * db[1])), at, join_kind(a.kind, b.kind))


@model("np.outer")
def _(it, a, b):
    a, b = to_arr(it, a).copy(), to_arr(it, b).copy()
    return Arr((a.shape[0], b.shape[0]), lambda i, j: mul(a.at(i), b.at(j)), join_kind(a.kind, b.kind))


@model("np.tile")
def _(it, a, reps):
    a = to_arr(it, a).copy()
    if isinstance(reps, PList) and len(reps.items) == 2 and a.nd == 1 and concrete(
            scalar(reps.items[1])) == 1:
        return Arr((scalar(reps.items[0]), a.shape[0]), lambda i, j: a.at(j), a.kind)
    raise Unsupported("tile")


@model("np.diff")
def _(it, a, n=None, axis=-1):
    a = to_arr(it, a).copy()
    ax = concrete(scalar(axis))
    if n is not None and concrete(scalar(n)) != 1 or a.nd not in (1, 2) or ax is None:
        raise Unsupported("diff")
    ax %= a.nd
    it.oblige(f"{it.where()}: np.diff of a non-empty array", le(ONE, a.shape[ax]))
    sh = a.shape[:ax] + (sub(a.shape[ax], ONE),) + a.shape[ax + 1:]
    return Arr(sh, lambda *x: sub(a.at(*x[:ax], add(x[ax], ONE), *x[ax + 1:]), a.at(*x)), a.kind)


@model("np.take")
def _(it, a, idx, axis=None):
    a = to_arr(it, a)
    ax = concrete(scalar(axis)) if axis is not None else None
    if ax is None and not (axis is None and a.nd == 1):
        raise Unsupported("take")
    return getitem(it, a, [Slice(None, None, None)] * ((ax or 0) % a.nd) + [idx])


class Grid:
    """np.ix_: positions of rows and of columns."""

    def __init__(self, ids):
        self.ids = ids


@model("np.ix_")
def _(it, *ids):
    if len(ids) != 2:
        raise Unsupported("ix_")
    return Grid([norm(it, i) for i in ids])


@model("np.delete")
def _(it, a, i, axis=None):
    a = to_arr(it, a)
    inv0 = getattr(a, "inverse", None)
    a = a.copy()
    ax = concrete(scalar(axis)) if axis is not None else None
    if ax is None:
        if a.nd != 1:
            raise Unsupported("delete")
        ax = 0
    if not is_num(i):
        raise Unsupported("delete")
    p = index_term(it, i, a.shape[ax])
    sh = a.shape[:ax] + (sub(a.shape[ax], ONE),) + a.shape[ax + 1:]
    r = Arr(sh, lambda *x: a.at(*x[:ax], ite(lt(x[ax], p), x[ax], add(x[ax], ONE)), *x[ax + 1:]), a.kind)
    if inv0 is not None and a.nd == 1:
        dom, f = inv0
        r.inverse = (lambda x: and_(dom(x), not_(eq(f(x), p))),
                     lambda x: ite(lt(f(x), p), f(x), sub(f(x), ONE)))
    return r


@model("np.insert")
def _(it, a, i, v, axis=None):
    a = to_arr(it, a).copy()
    ax = 0 if axis is None else concrete(scalar(axis))
    if axis is None and a.nd != 1 or not is_num(v):
        raise Unsupported("insert")
    p = scalar(i)
    s = scalar(v)
    it.oblige(f"{it.where()}: insert position", and_(le(ZERO, p), le(p, a.shape[ax])))
    sh = a.shape[:ax] + (add(a.shape[ax], ONE),) + a.shape[ax + 1:]
    return Arr(sh, lambda *x: ite(eq(x[ax], p), s, a.at(
        *x[:ax], ite(lt(x[ax], p), x[ax], sub(x[ax], ONE)), *x[ax + 1:])), join_kind(a.kind, kind_of(v)))


@model("np.concatenate", "np.vstack")
def _(it, parts, axis=0):
    ps = [to_arr(it, p) for p in it.items(parts)]
    if concrete(scalar(axis)) != 0:
        raise Unsupported("concatenate")
    ps = [p.copy() for p in ps]
    nd = ps[0].nd
    if any(p.nd != nd for p in ps):
        raise Unsupported("concatenate")

    def at(i, *r):
        off = ZERO
        cuts = []
        for p in ps:
            cuts.append((off, p))
            off = add(off, p.shape[0])
        out = cuts[-1][1].at(sub(i, cuts[-1][0]), *r)
        for (o, p), (o2, _) in reversed(list(zip(cuts[:-1], cuts[1:]))):
            out = ite(lt(i, o2), p.at(sub(i, o), *r), out)
        return out
    return Arr((add(ZERO, *[p.shape[0] for p in ps]),) + ps[0].shape[1:], at,
               join_kind(*[p.kind for p in ps]))


@model("np.linspace")
def _(it, lo, hi, n):
    lo, hi, n = scalar(lo), scalar(hi), scalar(n)
    it.oblige(f"{it.where()}: linspace has two points", lt(ONE, n))
    return Arr((n,), lambda i: add(lo, mul(sub(hi, lo), i, inv(sub(n, ONE)))), "f")


@model("np.histogram")
def _(it, a, bins, **k):
    if k:
        raise Unsupported("histogram arguments")
    a = to_arr(it, a).copy()
    if not isinstance(bins, Arr):
        raise Unsupported("histogram bins")
    b = bins.copy()
    n, m = a.shape[0], sub(b.shape[0], ONE)
    it.oblige_at(f"{it.where()}: bin edges increase", (m,), lambda i: le(b.at(i), b.at(add(i, ONE))))
    cnt = Arr((m,), lambda j: sum_(ZERO, n, lambda u: iv(and_(
        le(b.at(j), a.at(u)), or_(lt(a.at(u), b.at(add(j, ONE))),
                                  and_(eq(j, sub(m, ONE)), eq(a.at(u), b.at(add(j, ONE)))))))), "i")
    return PList([cnt, bins], "tuple")


@model("np.random.permutation")
def _(it, v):
    """A reordering by an arbitrary permutation (fresh, per call and iteration)."""
    if is_num(v):
        v = _arange(it, v)
    if isinstance(v, (PList, SList)):
        v = to_arr(it, v)
    if not isinstance(v, Arr):
        raise Unsupported("permutation")
    pi, _ = fresh_perm(it, v.shape[0])
    a = v.copy()
    r = Arr(v.shape, lambda i, *x: a.at(pi(i), *x), v.kind)
    return r


def fresh_perm(it, n):
    """(pi, its inverse) as functions of a term; the symbol takes the enclosing
    iteration variables as further arguments through the path condition."""
    k = len(PERMS)
    f, g = f"perm{k}", f"permi{k}"
    its = tuple(sorted({v for p in it.pc for v in fv(p) if "~" in v.args[0] and v.args[0].split("~")[0] in ("it", "c", "m")},
                       key=lambda v: v.id))
    PERMS[f] = (g, n)
    perm_samplers(f, g, n)
    INJECTIVE.add(f)
    INJECTIVE.add(g)
    pi = lambda i: app(f, *its, i, sort="I")  # noqa: E731
    pinv = lambda i: app(g, *its, i, sort="I")  # noqa: E731

    def facts(*a):
        x = a[-1]
        rng = and_(le(ZERO, x), lt(x, n))
        y = app(f, *a, sort="I")
        return [implies(rng, and_(le(ZERO, y), lt(y, n)))]

    def facts2(*a):
        x = a[-1]
        rng = and_(le(ZERO, x), lt(x, n))
        y = app(g, *a, sort="I")
        return [implies(rng, and_(le(ZERO, y), lt(y, n)))]
    it.ctx.facts[f] = facts
    it.ctx.facts[g] = facts2
    it.perms.append((f, g, its, n))
    return pi, pinv


PERMS = {}
# symbols made here: how a finite model interprets them
SAMPLERS = {"pi": lambda m: Fraction(math.pi),
            "arctan2": lambda m, y, x: Fraction(math.atan2(y, x))}


def perm_samplers(f, g, n):
    def table(m, pre):
        key = (f, pre)
        if key not in m.aux:
            p = list(range(max(0, int(m.ev(n, {})))))
            m.rng.shuffle(p)
            m.aux[key] = (p, {v: i for i, v in enumerate(p)})
        return m.aux[key]
    SAMPLERS[f] = lambda m, *a: (lambda p: p[int(a[-1])] if 0 <= a[-1] < len(p) else int(a[-1]))(table(m, a[:-1])[0])
    SAMPLERS[g] = lambda m, *a: table(m, a[:-1])[1].get(int(a[-1]), int(a[-1]))


def cumulative_perm(it, n, pre, step, i):
    """cum(m, x): the composition of the permutations of iterations 0..m-1 of a loop,
    an arbitrary permutation for each m, the identity for m = 0."""
    k = len(PERMS)
    f, g = f"cum{k}", f"cumi{k}"
    PERMS[f] = (g, n)
    perm_samplers(f, g, n)
    base = SAMPLERS[f]
    sname, sargs = step.args[0], step.args[1:-1]

    def at(m, args, x):
        # the arguments of the permutation of iteration m
        full = dict(zip(pre, args))
        return tuple(m if u is i else full[u] for u in sargs) + (x,)

    def sample(m, *a):
        if a[0] < 1 or int(a[0]) != a[0]:
            return base(m, *a) if a[0] != 0 else int(a[-1])
        return m.fn(f, (a[0] - 1,) + tuple(a[1:-1]) + (m.fn(sname, at(a[0] - 1, a[1:-1], a[-1]), "I"),), "I")
    SAMPLERS[f] = sample
    INJECTIVE.add(f)

    def rewrite(m, *rest):
        # the permutations so far, after the permutation of the current iteration
        args, x = rest[:-1], rest[-1]
        if x.op == "app" and x.args[0] == sname and x.args[1:-1] == at(m, args, x)[:-1]:
            return app(f, add(m, ONE), *args, x.args[-1], sort="I")
        return None
    REWRITES[f] = rewrite

    def facts(*a):
        x = a[-1]
        rng = and_(le(ZERO, x), lt(x, n))
        y = app(f, *a, sort="I")
        return [implies(rng, and_(le(ZERO, y), lt(y, n))), implies(eq(a[0], ZERO), eq(y, x))]
    it.ctx.facts[f] = facts
    it.perms.append((f, g, tuple(pre), n))
    return lambda m, x: app(f, m, *pre, x, sort="I")


@model("np.random.shuffle")
def _(it, v):
    if isinstance(v, MList):
        v = v.d["a"]
    if isinstance(v, PList) or not isinstance(v, (Arr,)):
        h = it.hooks.get("shuffle")
        if h is not None:
            return h(it, v)
        raise Unsupported("shuffle of a list")
    pi, pinv = fresh_perm(it, v.shape[0])
    a = v.copy()
    if v.view is not None:
        raise Unsupported("shuffle of a view")
    vs = v.vars
    inv = v.inverse
    v.body = a.at(pi(vs[0]), *vs[1:])
    if inv is not None:
        dom, f = inv
        v.inverse = (dom, lambda x: pinv(f(x)))


@model("np.isclose", "np.allclose", "np.round", "np.around", "np.std", "np.median", "np.cumsum")
def _(it, *a, **k):
    raise Unsupported("approximate numpy function")


@model("np.isinf")
def _(it, a):
    return elementwise(it, lambda x: eq(x, app("inf")), a, kind="b")


@model("np.float64", "np.float_")
def _(it, v=0.0):
    return libcall(it, "builtins.float", [v], {})


@model("np.int64", "np.int_")
def _(it, v=0):
    return libcall(it, "builtins.int", [v], {})


# ------------------------------------------------------------------ scipy etc.
@model("scipy.stats.chi2.cdf")
def _(it, x, df):
    return app("chi2cdf", real(scalar(x)), real(scalar(df)))


@model("scipy.stats.chi2.sf")
def _(it, x, df):
    return sub(ONE, app("chi2cdf", real(scalar(x)), real(scalar(df))))


@model("scipy.special.erfc", "math.erfc")
def _(it, x):
    return app("erfc", real(scalar(x)))


def midrank(a, n, u, *r):
    """1 + #smaller + (#equal - 1)/2."""
    x = a(u, *r)
    return add(num(1), sum_(ZERO, n, lambda v: iv(lt(a(v, *r), x))),
               mul(lift(0.5), sub(sum_(ZERO, n, lambda v: iv(eq(a(v, *r), x))), ONE)))


def ordrank(a, n, u):
    x = a(u)
    return add(num(1), sum_(ZERO, n, lambda v: iv(lt(a(v), x))),
               sum_(ZERO, n, lambda v: iv(and_(lt(v, u), eq(a(v), x)))))


@model("scipy.stats.mstats.rankdata")
def _(it, v, axis=None):
    a = to_arr(it, v).copy()
    ax = None if axis is None else concrete(scalar(axis))
    n = a.shape[0]
    if a.nd == 1:
        return Arr(a.shape, lambda u: midrank(a.at, n, u), "f")
    if ax == 0 and a.nd == 2:
        return Arr(a.shape, lambda u, s: midrank(a.at, n, u, s), "f")
    if ax == 1 and a.nd == 2:
        m = a.shape[1]
        return Arr(a.shape, lambda u, s: midrank(lambda v, r: a.at(r, v), m, s, u), "f")
    raise Unsupported("rankdata")


@model("scipy.stats.rankdata")
def _(it, v, method="average", axis=None):
    a = to_arr(it, v).copy()
    n = a.shape[0]
    if axis is not None or a.nd != 1:
        raise Unsupported("rankdata")
    if method == "ordinal":
        return Arr(a.shape, lambda u: ordrank(a.at, n, u), "i")
    if method == "average":
        return Arr(a.shape, lambda u: midrank(a.at, n, u), "f")
    raise Unsupported("rankdata")


@model("libpysal.weights.lag_spatial")
def _(it, w, y):
    if not isinstance(w, Obj) or "sparse" not in w.attrs:
        raise Unsupported("lag_spatial")
    W = w.attrs["sparse"]
    y = to_arr(it, y).copy()
    n = W.shape[0]
    if y.nd == 1:
        return Arr((n,), lambda i: sum_(ZERO, n, lambda l: mul(W.at(i, l), y.at(l))), "f")
    return Arr((n,) + y.shape[1:], lambda i, *r: sum_(ZERO, n, lambda l: mul(
        W.at(i, l), y.at(l, *r))), "f")


@model("itertools.product")
def _(it, *vs):
    out = [[]]
    for v in vs:
        c = it.concrete_items(v)
        if c is None:
            raise Unsupported("product")
        out = [o + [x] for o in out for x in c]
    return PList([PList(o, "tuple") for o in out])


@model("itertools.chain.from_iterable")
def _(it, v):
    h = it.hooks.get("chain")
    if h is not None:
        return h(it, v)
    a = to_arr(it, v)
    if isinstance(a, Arr) and a.nd == 2:
        return Flat(a.copy())
    raise Unsupported("chain")


@model("builtins.ValueError", "builtins.NotImplementedError")
def _(it, *a):
    return "<exception>"
