"""Terms of the verification conditions: exact arithmetic (reals, integers),
comparisons, conditionals, finite sums and bounded quantifiers over integer
ranges, and uninterpreted functions.  Terms are hash-consed and immutable.
"""
from fractions import Fraction
import itertools

_TAB = {}
_CNT = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term")


def mk(op, args, sort):
    key = (op, args, sort)
    t = _TAB.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort, t.id, t._fv = op, args, sort, next(_CNT), None
        _TAB[key] = t
    return t


# ------------------------------------------------------------ constructors
def num(v):
    f = Fraction(v)
    return mk("num", (f,), "I" if f.denominator == 1 else "R")


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true", (), "B"), mk("false", (), "B")
_VC = itertools.count()


def var(name, sort="I"):
    return mk("var", (name,), sort)


def fresh(prefix="v", sort="I"):
    return var(f"{prefix}~{next(_VC)}", sort)


def app(f, *args, sort="R"):
    args = tuple(lift(a) for a in args)
    r = REWRITES.get(f)
    if r is not None:
        out = r(*args)
        if out is not None:
            return out
    return mk("app", (f,) + args, sort)


REWRITES = {"log": lambda x: ZERO if x.op == "num" and x.args[0] == 1 else None}
# function symbols injective (strictly increasing) in their last argument
INJECTIVE = set()
MONOTONE = set()


def _same_fn(a, b, names):
    return (a.op == "app" and b.op == "app" and a.args[0] in names and a.args[:-1] == b.args[:-1])


def lift(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        return num(Fraction(v))
    raise TypeError(f"cannot lift {v!r}")


def isnum(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


def real(t):
    """A numeric term: Booleans become 0/1."""
    return iv(t) if t.sort == "B" else t


def _sortof(ts):
    return "I" if all(x.sort == "I" for x in ts) else "R"


def add(*ts):
    flat, c = [], Fraction(0)
    for t in ts:
        t = real(lift(t))
        if t.op == "add":
            for a in t.args:
                if isnum(a):
                    c += nval(a)
                else:
                    flat.append(a)
        elif isnum(t):
            c += nval(t)
        else:
            flat.append(t)
    # cancel t + -t pairs cheaply
    coef = {}
    order = []
    for t in flat:
        k, b = (nval(t.args[0]), mul(*t.args[1:])) if t.op == "mul" and isnum(t.args[0]) else (
            Fraction(1), t)
        if b not in coef:
            coef[b] = Fraction(0)
            order.append(b)
        coef[b] += k
    out = []
    for b in order:
        k = coef[b]
        if k:
            out.append(b if k == 1 else mul(num(k), b))
    if c or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: (isnum(t), t.id))
    return mk("add", tuple(out), _sortof(out))


def mul(*ts):
    flat, c = [], Fraction(1)
    for t in ts:
        t = real(lift(t))
        if t.op == "mul":
            for a in t.args:
                if isnum(a):
                    c *= nval(a)
                else:
                    flat.append(a)
        elif isnum(t):
            c *= nval(t)
        else:
            flat.append(t)
    if c == 0:
        return ZERO
    flat.sort(key=lambda t: t.id)
    if c != 1:
        flat = [num(c)] + flat
    if not flat:
        return ONE
    if len(flat) == 1:
        return flat[0]
    if len(flat) == 2 and isnum(flat[0]) and flat[1].op == "add":
        return add(*[mul(flat[0], a) for a in flat[1].args])
    return mk("mul", tuple(flat), _sortof(flat))


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def inv(t):
    t = real(lift(t))
    if isnum(t) and nval(t):
        return num(1 / nval(t))
    if t.op == "inv":
        return t.args[0]
    return mk("inv", (t,), "R")


def div(a, b):
    return mul(a, inv(b))


def _isbool(t):
    return t.sort == "B"


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if _isbool(a) and _isbool(b):
        if a in (TRUE, FALSE):
            a, b = b, a
        if b is TRUE:
            return a
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if _same_fn(a, b, INJECTIVE):
        return eq(a.args[-1], b.args[-1])
    a, b = real(a), real(b)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and isnum(x.args[1]) and isnum(x.args[2]) and isnum(y):
            c, p, q = x.args
            return or_(and_(c, eq(p, y)), and_(not_(c), eq(q, y)))
    d = sub(a, b)
    if isnum(d):
        return TRUE if nval(d) == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def lt(a, b):
    a, b = real(lift(a)), real(lift(b))
    if _same_fn(a, b, MONOTONE):
        return lt(a.args[-1], b.args[-1])
    d = sub(a, b)
    if isnum(d):
        return TRUE if nval(d) < 0 else FALSE
    for x, y, f in ((a, b, lambda u: lt(u, b)), (b, a, lambda u: lt(a, u))):
        if x.op == "ite" and isnum(x.args[1]) and isnum(x.args[2]) and isnum(y):
            c, p, q = x.args
            return or_(and_(c, f(p)), and_(not_(c), f(q)))
    return mk("lt", (a, b), "B")


def le(a, b):
    return not_(lt(b, a))


def not_(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*ts):
    out = []
    for t in ts:
        t = lift(t)
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for u in (t.args if t.op == "and" else (t,)):
            if u not in out:
                out.append(u)
    for u in out:
        if not_(u) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if _isbool(a) and _isbool(b):
        return or_(and_(c, a), and_(not_(c), b))
    a, b = real(a), real(b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), _sortof((a, b)))


def iv(c):
    return ite(c, ONE, ZERO)


def binder(op, v, lo, hi, body):
    if op == "sum" and body.op == "num" and body.args[0] == 0:
        return body
    return mk(op, (v, lift(lo), lift(hi), lift(body)), "B" if op != "sum" else
              ("I" if body.sort in "IB" else "R"))


def sum_(lo, hi, fn, name="s"):
    """Sum of fn(v) for lo <= v < hi."""
    lo, hi = lift(lo), lift(hi)
    if isnum(lo) and isnum(hi) and nval(hi) - nval(lo) <= 9:
        return add(ZERO, *[real(lift(fn(num(i)))) for i in range(int(nval(lo)), int(nval(hi)))])
    v = fresh(name)
    b = real(lift(fn(v)))
    if b is ZERO:
        return ZERO
    return binder("sum", v, lo, hi, b)


def all_(lo, hi, fn, name="q"):
    return not_(ex_(lo, hi, lambda v: not_(fn(v)), name))


def ex_(lo, hi, fn, name="q"):
    lo, hi = lift(lo), lift(hi)
    if isnum(lo) and isnum(hi) and nval(hi) - nval(lo) <= 9:
        return or_(*[fn(num(i)) for i in range(int(nval(lo)), int(nval(hi)))])
    v = fresh(name)
    b = lift(fn(v))
    if b is FALSE:
        return FALSE
    return binder("ex", v, lo, hi, b)


# ------------------------------------------------------------ traversal
BIND = ("sum", "ex")


def fv(t):
    """Free variables (frozenset of var terms)."""
    if t._fv is None:
        if t.op == "var":
            r = frozenset((t,))
        elif t.op in BIND:
            v, lo, hi, b = t.args
            r = (fv(b) - {v}) | fv(lo) | fv(hi)
        else:
            r = frozenset().union(*[fv(a) for a in t.args if isinstance(a, T)]) \
                if t.args else frozenset()
        t._fv = r
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "inv":
        return inv(*args)
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "ite":
        return ite(*args)
    if op == "app":
        return app(*args, sort=t.sort)
    raise ValueError(op)


def subst(t, m, memo=None):
    """Capture-avoiding simultaneous substitution {var: term}."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if not (fv(t) & m.keys()):
        return t
    if t.op == "var":
        r = m.get(t, t)
    elif t.op in BIND:
        v, lo, hi, b = t.args
        lo2, hi2 = subst(lo, m, memo), subst(hi, m, memo)
        m2 = {k: x for k, x in m.items() if k is not v and k in fv(b)}
        if any(v in fv(x) for x in m2.values()):
            w = fresh(v.args[0].split("~")[0])
            b = subst(b, {v: w})
            v = w
        b2 = subst(b, m2) if m2 else b
        if t.op == "sum":
            if b2 is ZERO:
                r = ZERO
            elif isnum(lo2) and isnum(hi2) and nval(hi2) - nval(lo2) <= 9:
                r = sum_(lo2, hi2, lambda u, v=v, b2=b2: subst(b2, {v: u}))
            else:
                r = binder("sum", v, lo2, hi2, b2)
        else:
            if b2 is FALSE:
                r = FALSE
            elif isnum(lo2) and isnum(hi2) and nval(hi2) - nval(lo2) <= 9:
                r = ex_(lo2, hi2, lambda u, v=v, b2=b2: subst(b2, {v: u}))
            else:
                r = binder("ex", v, lo2, hi2, b2)
    else:
        r = rebuild(t, [subst(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


def apps(t, name=None, seen=None, out=None):
    """All application subterms (of a function name)."""
    if seen is None:
        seen, out = set(), []
    if t in seen:
        return out
    seen.add(t)
    if t.op == "app" and (name is None or t.args[0] == name):
        out.append(t)
    for a in t.args:
        if isinstance(a, T):
            apps(a, name, seen, out)
    return out


def mentions(t, names):
    return any(a.args[0] in names for a in apps(t))


def replace_app(t, name, fn, memo=None):
    """Replace every application name(args) by fn(*args)."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if not mentions(t, {name}):
        return t
    if t.op == "app" and t.args[0] == name:
        r = fn(*[replace_app(a, name, fn, memo) for a in t.args[1:]])
    elif t.op in BIND:
        v, lo, hi, b = t.args
        w = fresh(v.args[0].split("~")[0])
        b2 = replace_app(subst(b, {v: w}), name, fn)
        r = binder(t.op, w, replace_app(lo, name, fn, memo), replace_app(hi, name, fn, memo), b2)
        if t.op == "sum" and b2 is ZERO:
            r = ZERO
    else:
        r = rebuild(t, [replace_app(a, name, fn, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


def peel(t, m, memo=None):
    """Sums over 0 <= v < m + 1 as sums over 0 <= v < m plus their last term (for 0 <= m)."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op in ("num", "var", "bool") or not any(isinstance(a, T) for a in t.args):
        r = t
    elif t.op in BIND:
        v, lo, hi, b = t.args
        r = t
        if t.op == "sum" and lo is ZERO and hi is add(m, ONE):
            r = add(binder("sum", v, lo, m, b), subst(b, {v: m}))
    else:
        r = rebuild(t, [peel(a, m, memo) if isinstance(a, T) else a for a in t.args])
    memo[t] = r
    return r


def show(t, d=0):
    if d > 12:
        return "..."
    o = t.op
    if o == "num":
        return str(t.args[0])
    if o == "var":
        return t.args[0]
    if o in ("true", "false"):
        return o
    if o == "app":
        return f"{t.args[0]}({', '.join(show(a, d + 1) for a in t.args[1:])})"
    if o == "add":
        return "(" + " + ".join(show(a, d + 1) for a in t.args) + ")"
    if o == "mul":
        return "*".join(show(a, d + 1) for a in t.args)
    if o == "inv":
        return f"(1/{show(t.args[0], d + 1)})"
    if o in ("eq", "lt"):
        return f"({show(t.args[0], d + 1)} {'==' if o == 'eq' else '<'} {show(t.args[1], d + 1)})"
    if o == "not":
        return f"!{show(t.args[0], d + 1)}"
    if o == "and":
        return "(" + " & ".join(show(a, d + 1) for a in t.args) + ")"
    if o == "ite":
        if t.args[1] is ONE and t.args[2] is ZERO:
            return f"[{show(t.args[0], d + 1)}]"
        return "ite(" + ", ".join(show(a, d + 1) for a in t.args) + ")"
    if o in BIND:
        v, lo, hi, b = t.args
        return f"{o}({v.args[0]}:{show(lo, d + 1)}..{show(hi, d + 1)}| {show(b, d + 1)})"
    return o
