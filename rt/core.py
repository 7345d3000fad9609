"""Run-time contract harness: helpers shared by all property modules.

Executed by the interpreter giddy is installed in (/opt/venv/bin/python).
A property module registers one `Prop` per property; a prop generates
JSON-able cases and checks one case against the real code.
"""
import contextlib
import copy
import io
import json
import math
import os
import sys
import warnings
from fractions import Fraction

os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402

np.seterr(all="ignore")


class Violation(Exception):
    """The real code broke the property on this case."""


class Known(Exception):
    """The real code shows a listed known finding on this case."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case is outside the property's precondition."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def tolist(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [tolist(v) for v in x]
    return x


def short(x, n=300):
    s = repr(tolist(x))
    return s if len(s) <= n else s[:n] + "..."


def as_float_array(x, what):
    try:
        return np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f"{what} is not a numeric array: {e!r}: {short(x)}")


def close(got, want, what, rtol=1e-9, atol=1e-9):
    """Same shape, same infinities and NaNs, values within tolerance."""
    g = as_float_array(got, what)
    w = np.asarray(want, dtype=float)
    need(g.shape == w.shape, "%s has shape %s, expected %s (got %s, expected %s)",
         what, g.shape, w.shape, short(g), short(w))
    bad = ~((np.isnan(g) & np.isnan(w)) | (g == w))
    with np.errstate(all="ignore"):
        far = bad & ~(np.isfinite(g) & np.isfinite(w)
                      & (np.abs(g - w) <= atol + rtol * np.abs(w)))
    if far.any():
        i = tuple(int(v) for v in np.argwhere(far)[0]) if far.ndim else ()
        raise Violation(f"{what}{list(i)} is {g[i]!r}, expected {w[i]!r}; "
                        f"whole: got {short(g)}, expected {short(w)}")


def same(got, want, what):
    """Exactly equal numeric arrays (shape and values)."""
    close(got, want, what, rtol=0.0, atol=0.0)


def samelist(got, want, what):
    g, w = tolist(np.asarray(got)), tolist(np.asarray(want))
    need(g == w, "%s is %s, expected %s", what, short(g), short(w))


class Frame:
    """Snapshot arguments before a call, compare them bit by bit afterwards."""

    def __init__(self, **objs):
        self.objs = objs
        self.snap = {k: copy.deepcopy(self._view(v)) for k, v in objs.items()}

    @staticmethod
    def _view(v):
        if hasattr(v, "neighbors") and hasattr(v, "weights"):
            return ("W", dict(v.neighbors), dict(v.weights), list(v.id_order))
        return v

    @staticmethod
    def _eq(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
                return False
            if a.dtype != b.dtype or a.shape != b.shape:
                return False
            if a.dtype == object:
                return all(Frame._eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
            if a.dtype.kind == "f":
                return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
            return bool(np.all(a == b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(
                Frame._eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(Frame._eq(a[k], b[k]) for k in a)
        try:
            return bool(a == b) or (a != a and b != b)
        except Exception:
            return a is b

    def check(self, allow_weights=False):
        for k, v in self.objs.items():
            a, b = self.snap[k], self._view(v)
            if allow_weights and isinstance(a, tuple) and a and a[0] == "W":
                a, b = (a[0], a[1], a[3]), (b[0], b[1], b[3])
            need(Frame._eq(a, b), "argument %s was modified: before %s, after %s",
                 k, short(a), short(b))


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def make_w(spec):
    """Weights object from {"ids": [...], "nb": [[...]], "wt": [[..]] or None,
    "tr": transform or None}; nb lists ids, in the order of ids."""
    from libpysal.weights import W
    ids = spec["ids"]
    nb = {i: list(n) for i, n in zip(ids, spec["nb"])}
    wt = None
    if spec.get("wt"):
        wt = {i: list(n) for i, n in zip(ids, spec["wt"])}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = W(nb, wt, id_order=list(ids), silence_warnings=True)
        if spec.get("tr"):
            w.transform = spec["tr"]
    return w


def dense_w(spec):
    """The n x n weights matrix the spec describes, row i = unit i."""
    ids = spec["ids"]
    n = len(ids)
    pos = {v: i for i, v in enumerate(ids)}
    m = np.zeros((n, n))
    for i, nbs in enumerate(spec["nb"]):
        wts = spec["wt"][i] if spec.get("wt") else [1.0] * len(nbs)
        for j, v in zip(nbs, wts):
            m[i, pos[j]] = v
    tr = (spec.get("tr") or "o").lower()
    if tr == "r":
        s = m.sum(axis=1)
        for i in range(n):
            if s[i]:
                m[i] = m[i] / s[i]
    elif tr == "b":
        m = (m != 0) * 1.0
    return m


# ---------------------------------------------------------------- weights
def w_random(rng, n, p=None, tr="o", ids=None, symmetric=True, islands=False):
    p = p if p is not None else float(rng.choice([0.25, 0.5, 0.8]))
    adj = np.zeros((n, n), bool)
    for i in range(n):
        for j in range(i):
            adj[i, j] = rng.random() < p
            adj[j, i] = adj[i, j] if symmetric else rng.random() < p
    if not islands and n > 1:
        for i in range(n):
            if not adj[i].any():
                j = int(rng.integers(n - 1))
                j += j >= i
                adj[i, j] = True
                if symmetric:
                    adj[j, i] = True
    ids = ids if ids is not None else list(range(n))
    nb = []
    for i in range(n):
        js = [j for j in range(n) if adj[i, j]]
        if rng.random() < 0.3:
            js = [js[a] for a in rng.permutation(len(js))]
        nb.append([ids[j] for j in js])
    return {"ids": ids, "nb": nb, "wt": None, "tr": tr}


def w_full(n, tr="o"):
    return {"ids": list(range(n)), "nb": [[j for j in range(n) if j != i] for i in range(n)],
            "wt": None, "tr": tr}


def w_path(n, tr="o"):
    return {"ids": list(range(n)), "nb": [[j for j in (i - 1, i + 1) if 0 <= j < n]
                                         for i in range(n)], "wt": None, "tr": tr}


# ---------------------------------------------------------------- registry
PROPS = {}


class Prop:
    """gen(rng, tier, hints) yields cases; check(case) raises Violation/Known."""

    rule = ""

    def __init__(self, pid, gen, check, rule, trivial=None):
        self.id, self.gen, self.check, self.rule = pid, gen, check, rule
        self.trivial = trivial or (lambda case: False)
        PROPS[pid] = self


class Hints:
    """Numbers and strings that are new in the source, for directed cases."""

    def __init__(self, ints=(), floats=(), strs=()):
        self.ints = sorted({int(v) for v in ints if 0 < abs(int(v)) <= 400})
        self.floats = sorted({float(v) for v in floats})
        self.strs = sorted(set(strs))

    def sizes(self, lo, hi):
        out = []
        for v in self.ints:
            for d in (v - 1, v, v + 1, v + 2):
                if lo <= d <= hi and d not in out:
                    out.append(d)
        return out

    def values(self):
        out = []
        for v in list(self.floats) + [float(i) for i in self.ints]:
            out += [v, v - 1e-9, v + 1e-9, -v]
        return out


def jkey(case):
    return json.dumps(case, sort_keys=True, default=str)


def frac_matrix(counts):
    """Row-normalised Fractions of an integer matrix (empty rows stay 0)."""
    out = []
    for r in counts:
        s = sum(int(v) for v in r)
        out.append([Fraction(int(v), s) if s else Fraction(0) for v in r])
    return out


def chi2_sf(x, dof):
    from scipy import stats
    with np.errstate(all="ignore"):
        return 1 - stats.chi2.cdf(x, dof)


def call(fn, what, *a, **k):
    """Run real code on an input inside the precondition: raising breaks it."""
    try:
        with quiet():
            return fn(*a, **k)
    except (Violation, Known, Skip):
        raise
    except RecursionError as e:
        raise Violation(f"{what} raised RecursionError: {e}")
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"{what} raised {type(e).__name__}: {e} "
                        f"(at {os.path.basename(tb.filename)}:{tb.lineno} {tb.name})")
