"""Evaluation of terms in finite models: refutes obligations (a false obligation
in a model of its hypotheses) and guards against vacuous ones (a model exists)."""
import math
import random
from fractions import Fraction

from .terms import BIND, T, apps, fv, num, nval


class NoModel(Exception):
    pass


class Model:
    def __init__(self, rng, samplers):
        self.rng = rng
        self.samplers = samplers
        self.vals = {}
        self.tabs = {}
        self.work = 0
        self.aux = {}

    def fn(self, name, args, sort):
        tab = self.tabs.setdefault(name, {})
        k = tuple(round(a, 9) if isinstance(a, float) else a for a in args)
        if k not in tab:
            s = self.samplers.get(name)
            if s is not None:
                tab[k] = s(self, *args)
            elif sort == "I":
                tab[k] = self.rng.randint(-1, 3)
            elif sort == "B":
                tab[k] = self.rng.random() < 0.5
            else:
                tab[k] = Fraction(self.rng.choice([-2, -1, 0, 0, 1, 1, 2, 3, 5])) / self.rng.choice([1, 1, 2])
        return tab[k]

    def ev(self, t, env):
        memo = {}
        return self._ev(t, env, memo)

    def _ev(self, t, env, memo):
        fvs = fv(t)
        key = (t, tuple(env.get(v) for v in sorted(fvs, key=lambda v: v.id)))
        if key in memo:
            return memo[key]
        self.work += 1
        if self.work > 400000:
            raise NoModel("too large")
        r = memo[key] = self._ev1(t, env, memo)
        return r

    def _ev1(self, t, env, memo):
        o = t.op
        ev = lambda x: self._ev(x, env, memo)  # noqa: E731
        if o == "num":
            v = nval(t)
            return int(v) if v.denominator == 1 else v
        if o == "var":
            if t in env:
                return env[t]
            if t not in self.vals:
                raise NoModel(f"free {t.args[0]}")
            return self.vals[t]
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "add":
            r = 0
            for a in t.args:
                r = r + ev(a)
            return r
        if o == "mul":
            r = 1
            for a in t.args:
                r = r * ev(a)
                if r == 0:
                    return 0
            return r
        if o == "inv":
            a = ev(t.args[0])
            if isinstance(a, float):
                return 0.0 if abs(a) < 1e-300 else 1.0 / a
            return 0 if a == 0 else Fraction(1) / Fraction(a)
        if o == "eq":
            a, b = ev(t.args[0]), ev(t.args[1])
            return close(a, b)
        if o == "lt":
            a, b = ev(t.args[0]), ev(t.args[1])
            if isinstance(a, float) or isinstance(b, float):
                return a < b and not close(a, b)
            return a < b
        if o == "not":
            return not ev(t.args[0])
        if o == "and":
            return all(ev(a) for a in t.args)
        if o == "ite":
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if o in BIND:
            v, lo, hi, b = t.args
            lo, hi = ev(lo), ev(hi)
            if hi - lo > 60:
                raise NoModel("range too large")
            acc = 0
            for i in range(int(lo), int(hi)):
                x = self._ev(b, {**env, v: i}, memo)
                if o == "ex":
                    if x:
                        return True
                else:
                    acc = acc + x
            return False if o == "ex" else acc
        if o == "app":
            name = t.args[0]
            args = [ev(a) for a in t.args[1:]]
            if name == "mod":
                return args[0] % args[1] if args[1] else 0
            if name == "idiv":
                return args[0] // args[1] if args[1] else 0
            if name == "abs":
                return abs(args[0])
            if name == "sqrt":
                a = args[0]
                if a < 0:
                    return self.fn("sqrt-", args, "R")
                fa = Fraction(a) if not isinstance(a, float) else None
                if fa is not None:
                    p, q = math.isqrt(fa.numerator), math.isqrt(fa.denominator)
                    if p * p == fa.numerator and q * q == fa.denominator:
                        return Fraction(p, q) if q != 1 else p
                return math.sqrt(a)
            if name == "log":
                return math.log(args[0]) if args[0] > 0 else self.fn("log-", args, "R")
            if name == "floor":
                return math.floor(args[0])
            return self.fn(name, args, t.sort)
        raise NoModel(o)


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def find(goal, hyps, samplers, sizes, rng, tries=60, want_false=True, facts=None):
    """A model of the hypotheses in which the goal is false (or just a model)."""
    frees = set(fv(goal))
    for h in hyps:
        frees |= fv(h)
    ok = 0
    for k in range(tries):
        m = Model(rng, samplers)
        for v in sorted(frees, key=lambda v: v.args[0]):
            if v in sizes:
                m.vals[v] = sizes[v](m) if callable(sizes[v]) else rng.choice(sizes[v])
        for v in sorted(frees, key=lambda v: v.args[0]):
            if v not in m.vals:
                if v.sort == "I":
                    m.vals[v] = rng.randint(0, 3)
                elif v.sort == "B":
                    m.vals[v] = rng.random() < .5
                else:
                    m.vals[v] = Fraction(rng.randint(-2, 4), rng.choice([1, 2]))
        try:
            # indices: respect simple bounds by retrying a few times
            good = False
            for _ in range(12):
                bad = [h for h in hyps if not m.ev(h, {})]
                if not bad:
                    good = True
                    break
                mv = [v for h in bad for v in fv(h) if v not in sizes]
                if not mv:
                    break
                for v in mv:
                    m.vals[v] = rng.randint(0, 3) if v.sort == "I" else (
                        rng.random() < .5 if v.sort == "B" else Fraction(rng.randint(-2, 4), rng.choice([1, 2])))
            if not good:
                continue
            ok += 1
            if not want_false or not m.ev(goal, {}):
                if facts and not admissible(m, facts):
                    ok -= 1
                    continue
                return m, ok
        except (NoModel, OverflowError, ZeroDivisionError):
            continue
    return None, ok


def admissible(m, facts):
    """The functions of the model satisfy the facts declared for them, wherever
    they were evaluated."""
    m.work = 0
    for name, tab in list(m.tabs.items()):
        f = facts.get(name)
        if f is None:
            continue
        for a in list(tab)[:60]:
            for h in f(*[num(x) for x in a]):
                if not m.ev(h, {}):
                    return False
    return True


def describe(m):
    out = {v.args[0]: str(x) for v, x in m.vals.items()}
    for f, tab in list(m.tabs.items())[:12]:
        out[f] = {str(k): str(v) for k, v in list(tab.items())[:20]}
    return out
