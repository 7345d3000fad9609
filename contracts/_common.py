"""Shared symbolic inputs of the contracts."""
from pyvc import lib
from pyvc import terms as _t
from pyvc.driver import *
from pyvc.terms import *
from pyvc.interp import Choice
from pyvc.values import *


def count(m, *a):
    return m.rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 7, 20000])


def nonneg(f, sort="R"):
    return lambda *a: [le(ZERO, app(f, *a, sort=sort))]


def sm(f, *ns):
    """Nested sum of f over 0 <= index < n for every n."""
    return f() if not ns else sum_(ZERO, ns[0], lambda v: sm(lambda *q: f(v, *q), *ns[1:]))


def size_of(name, lo=0):
    def g(m, *a):
        return m.rng.randrange(lo, int(m.vals[var(name)]))
    return g


def in_range(f, n):
    return lambda *a: [le(ZERO, app(f, *a, sort="I")), lt(app(f, *a, sort="I"), n)]


def labels(name, size, mono):
    """name(0), .., name(size-1): distinct labels, increasing if mono."""
    _t.INJECTIVE.add(name)
    if mono:
        _t.MONOTONE.add(name)
    lib.ENUMS[name] = ((lambda *pre: size), mono)
    BASE_SAMPLERS[name] = (lambda m, i: 3 * i - 2) if mono else (lambda m, i: (i * 7) % 11 - 3)
    return lambda i: app(name, i)


def injective(name):
    _t.INJECTIVE.add(name)


def opaque_lib(s, name):
    """The library function returns an unspecified value and changes nothing."""
    def f(it, *a, **k):
        return opq(name, *a, *k.values())
    s.it.hooks["call:" + name] = f


def all_used(s, name, K, cls, *dims):
    """np.unique of the whole panel lists every label (K is the number of
    distinct values in the panel)."""
    def h(it, v):
        if isinstance(v, Arr) and v.nd == len(dims) and all(it.same_dim(a, b) for a, b in zip(v.shape, dims)):
            i = [fresh("u") for _ in dims]
            b = v.at(*i)
            if b.op == "app" and b.args[0] == name:
                return Arr((K,), cls, v.kind)
        return None
    return h


def slice_index(arr, name, nd):
    """l such that arr is the slice name(l, ...)."""
    a = arr.copy()
    b = a.body
    if a.nd != nd or b.op != "app" or b.args[0] != name or tuple(b.args[-nd:]) != tuple(a.vars):
        return None
    return b.args[1:-nd]
