"""Normal form of terms (polynomials of Iverson brackets, atoms and summation
binders), and the provers built on it: equality by normal form, then by z3 on
the summation bodies."""
import itertools
import time
from fractions import Fraction

import z3

from .terms import (BIND, FALSE, ONE, T, TRUE, ZERO, add, and_, app, apps, binder, eq, fresh, fv, inv, rebuild,
                    isnum, ite, iv, le, lt, mk, mul, neg, not_, num, nval, or_, real, show, sub, subst,
                    sum_, var)

STATS = {"z3_calls": 0, "z3_s": 0.0, "nf": 0, "by": {}}


# ---------------------------------------------------------------- context
class Ctx:
    """Hypotheses: ground formulas, plus facts attached to function symbols
    (instantiated for every application that occurs in a query)."""

    def __init__(self, hyps=(), facts=None, timeout=3000):
        self.hyps = list(hyps)
        self.facts = facts if facts is not None else {}
        self.timeout = timeout
        self.cache = {}
        self.deadline = None
        self.rules = []  # equations of sums, applied from left to right

    def assume(self, *fs):
        for f in fs:
            if f is not TRUE and f not in self.hyps:
                self.hyps.append(f)
                self.cache = {}

    def child(self, *fs):
        c = Ctx(self.hyps, self.facts, self.timeout)
        c.deadline = self.deadline
        c.rules = self.rules
        c.assume(*fs)
        return c

    def instances(self, terms):
        out, seen, todo = [], set(), list(terms)
        n = 0
        while todo and n < 400:
            t = todo.pop()
            for a in apps(t):
                if a in seen:
                    continue
                seen.add(a)
                f = self.facts.get(a.args[0])
                if f is None:
                    continue
                for h in f(*a.args[1:]):
                    if h is not TRUE:
                        out.append(h)
                        todo.append(h)
                        n += 1
        return out

    def entails(self, goal, extra=(), timeout=None):
        """True if the hypotheses (and extra) imply the goal."""
        if goal is TRUE:
            return True
        extra = tuple(sorted(set(extra), key=lambda t: t.id))
        if goal in extra or goal in self.hyps:
            return True
        key = (goal, extra)
        if key in self.cache:
            return self.cache[key]
        r = z3_valid(self, goal, extra, timeout or self.timeout)
        self.cache[key] = r
        return r


class Z3Tr:
    def __init__(self):
        self.consts, self.funs, self.side, self.opaque = {}, {}, [], {}
        self.memo = {}

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]

    def r(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def tr(self, t):
        m = self.memo.get(t)
        if m is None:
            m = self.memo[t] = self._tr(t)
        return m

    def _tr(self, t):
        o = t.op
        if o == "num":
            f = nval(t)
            return z3.IntVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
        if o == "var":
            return z3.Const(t.args[0], self.sort(t.sort))
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o in ("add", "mul"):
            es = [self.tr(a) for a in t.args]
            if any(e.sort() == z3.RealSort() for e in es):
                es = [self.r(e) for e in es]
            r = es[0]
            for e in es[1:]:
                r = r + e if o == "add" else r * e
            return r
        if o == "inv":
            a = self.r(self.tr(t.args[0]))
            f = self.funs.setdefault("inv", z3.Function("inv!", z3.RealSort(), z3.RealSort()))
            e = f(a)
            self.side.append(z3.Implies(a != 0, a * e == 1))
            self.side.append(z3.Implies(a > 0, e > 0))
            self.side.append(z3.Implies(a == 0, e == 0))
            return e
        if o == "app":
            name = t.args[0]
            es = [self.tr(a) for a in t.args[1:]]
            if name == "mod":
                return es[0] % es[1]
            if name == "idiv":
                return es[0] / es[1]
            key = (name, tuple(str(e.sort()) for e in es), t.sort)
            f = self.funs.get(key)
            if f is None:
                if not es:
                    f = z3.Const(f"{name}!c", self.sort(t.sort))
                else:
                    f = z3.Function(f"{name}!{len(self.funs)}", *[e.sort() for e in es],
                                    self.sort(t.sort))
                self.funs[key] = f
            e = f(*es) if es else f
            if name == "sqrt":
                a = self.r(es[0])
                self.side.append(z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)))
            if name == "abs":
                a = self.r(es[0])
                self.side.append(z3.And(z3.Implies(a >= 0, e == a), z3.Implies(a < 0, e == -a)))
            return e
        if o in ("eq", "lt"):
            a, b = self.tr(t.args[0]), self.tr(t.args[1])
            if a.sort() != b.sort():
                a, b = self.r(a), self.r(b)
            return a == b if o == "eq" else a < b
        if o == "not":
            return z3.Not(self.tr(t.args[0]))
        if o == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if o == "ite":
            c, a, b = [self.tr(x) for x in t.args]
            if a.sort() != b.sort():
                a, b = self.r(a), self.r(b)
            return z3.If(c, a, b)
        if o == "ex":
            v, lo, hi, b = t.args
            x = self.tr(v)
            return z3.Exists([x], z3.And(self.tr(lo) <= x, x < self.tr(hi), self.tr(b)))
        if o == "sum":
            k, vs = skeleton(canon(t))
            es = [self.tr(v) for v in vs]
            k = (k, tuple(str(e.sort()) for e in es), t.sort)
            c = self.opaque.get(k)
            if c is None:
                n = f"sum!{len(self.opaque)}"
                c = self.opaque[k] = (z3.Function(n, *[e.sort() for e in es], self.sort(t.sort))
                                      if vs else z3.Const(n, self.sort(t.sort)))
            return c(*es) if es else c
        raise ValueError(o)


_SK = {}


def skeleton(t):
    """(shape string, argument terms): t with its maximal closed index subterms
    abstracted, so that equal shapes denote the same function of the arguments."""
    r = _SK.get(t)
    if r is not None:
        return r
    args, pos = [], {}

    def anon(u, env):
        if u.sort == "I" and u.op != "sum" and not (fv(u) & set(env)):
            return "@"
        return walk(u, env, anon, None)

    def walk(u, env, rec, srt):
        o = u.op
        if o == "num":
            return str(u.args[0])
        if o == "var":
            for i, v in enumerate(reversed(env)):
                if v is u:
                    return f"#{i}"
            return u.args[0]
        if o in ("true", "false"):
            return o
        if o == "app":
            return f"{u.args[0]}({','.join(rec(a, env) for a in u.args[1:])})"
        if o in BIND:
            v, lo, hi, b = u.args
            return f"{o}({rec(lo, env)},{rec(hi, env)},{rec(b, env + (v,))})"
        ch = list(u.args)
        if o in ("add", "mul", "and", "eq"):
            ch.sort(key=lambda a: (anon(a, env), alpha(a, env)))
        return f"{o}({','.join(rec(a, env) for a in ch)})"

    def full(u, env):
        if u.sort == "I" and u.op != "sum" and not (fv(u) & set(env)) and env:
            u2 = u
            if u2 not in pos:
                pos[u2] = len(args)
                args.append(u2)
            return f"@{pos[u2]}"
        if u.op == "var" and u not in env:
            if u not in pos:
                pos[u] = len(args)
                args.append(u)
            return f"@{pos[u]}"
        return walk(u, env, full, None)

    r = _SK[t] = (full(t, ()), tuple(args))
    return r


def sum_height(t, memo=None):
    if memo is None:
        memo = {}
    if t not in memo:
        memo[t] = max([sum_height(a, memo) for a in t.args if isinstance(a, T)], default=0) + (t.op == "sum")
    return memo[t]


def in_ranges(t, known, memo=None):
    """t with the comparisons that only restate the range of an enclosing binder
    (or a known literal) replaced by their value."""
    if memo is None:
        memo = {}
    if t in known:
        return TRUE if known[t] else FALSE
    if not t.args or t.op in ("num", "var", "true", "false"):
        return t
    if t in memo:
        return memo[t]
    if t.op in BIND:
        v, lo, hi, b = t.args
        k2 = dict(known)
        for f in (le(lo, v), lt(v, hi)):
            k2[f] = True
            k2[not_(f)] = False
        k2.pop(TRUE, None)
        k2.pop(FALSE, None)
        r = binder(t.op, v, in_ranges(lo, known, memo), in_ranges(hi, known, memo), in_ranges(b, k2))
    else:
        new = [in_ranges(a, known, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t, new)
    memo[t] = r
    return r


def literals(hyps):
    k = {}
    for h in hyps:
        if h.op == "and":
            k.update(literals(h.args))
        elif h.op not in ("true", "false"):
            k[h] = True
            k[not_(h)] = False
    return k


_ABS = {}


def named(t):
    """A canonical term with its sums replaced by functions of their indices."""
    if t.op == "sum":
        sk, args = skeleton(t)
        return app(_ABS.setdefault(sk, f"abs{len(_ABS)}"), *args, sort=t.sort)
    if t.op in ("add", "mul"):
        return rebuild(t, [named(a) for a in t.args])
    return t


def abstract(t, h, memo=None):
    """t with its largest sums of at most h nested binders replaced by
    uninterpreted functions of their indices (a generalisation of t)."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if t.op == "sum" and sum_height(t) <= h:
        r = named(canon(t))
    elif not t.args or t.op in ("num", "var", "true", "false"):
        r = t
    elif t.op in BIND:
        v, lo, hi, b = t.args
        r = binder(t.op, v, abstract(lo, h, memo), abstract(hi, h, memo), abstract(b, h, memo))
    elif t.op in ("lt", "eq") and t.args[0].sort != "B" and canon_bool(t) is not t:
        r = abstract(canon_bool(t), h, memo)
    else:
        new = [abstract(a, h, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t, new)
    memo[t] = r
    return r


def sum_lemmas(ctx, terms):
    """Instances of: a sum of non-negative terms is non-negative, bounds each of
    its terms, and is positive only if some term is."""
    out = []
    sums, allapps, quant = [], {}, [False]
    seen = set()

    def scan(t, bound):
        if (t, bound) in seen:
            return
        seen.add((t, bound))
        if t.op == "app":
            allapps.setdefault(t.args[0], [])
            if not (fv(t) & bound) and t not in allapps[t.args[0]]:
                allapps[t.args[0]].append(t)
        if t.op == "sum" and not (fv(t) & bound) and t not in sums:
            sums.append(t)
        if t.op == "ex":
            quant[0] = True
        if t.op in BIND:
            v, lo, hi, b = t.args
            scan(lo, bound)
            scan(hi, bound)
            scan(b, bound | {v})
            return
        for a in t.args:
            if isinstance(a, T):
                scan(a, bound)
    for t in terms:
        scan(t, frozenset())
    for s_ in sums[:24]:
        v, lo, hi, b = s_.args
        key = ("nonneg", s_)
        ok = ctx.cache.get(key)
        if ok is None:
            ctx.cache[key] = False
            ok = ctx.cache[key] = ctx.entails(le(ZERO, b), (le(lo, v), lt(v, hi)), timeout=400)
        if not ok:
            continue
        out.append(le(ZERO, s_))
        cands = []
        for a in apps(b):
            if v not in fv(a):
                continue
            for k, x in enumerate(a.args[1:]):
                if x is v:
                    for q in allapps.get(a.args[0], ()):
                        if all(j == k or y is z or v in fv(y) for j, (y, z) in enumerate(
                                zip(a.args[1:], q.args[1:]))) and q.args[1 + k] not in cands:
                            cands.append(q.args[1 + k])
        for e in [x for x in conj_eqs(b, v)]:
            if e not in cands:
                cands.append(e)
        for t in cands[:10]:
            if v in fv(t):
                continue
            bt = subst(b, {v: t})
            out.append(or_(lt(t, lo), le(hi, t), le(bt, s_)))
            out.append(or_(lt(t, lo), le(hi, t), le(ZERO, bt)))
        out += nested_bounds(ctx, s_, allapps)
        w = fresh("z")
        out.append(or_(le(s_, ZERO), binder("ex", w, lo, hi, lt(ZERO, subst(b, {v: w})))))
    return out


def nested_bounds(ctx, s_, allapps):
    """Terms of a nested sum of non-negative terms, at the arguments of the
    applications that occur elsewhere, are bounded by the sum."""
    rg, b = [], s_
    while b.op == "sum":
        v, lo, hi, b2 = b.args
        rg.append((v, lo, hi))
        b = b2
    if len(rg) < 2:
        return []
    vs = [v for v, _, _ in rg]
    out = []
    hy = tuple(h for v, lo, hi in rg for h in (le(lo, v), lt(v, hi)))
    key = ("nonneg*", s_)
    ok = ctx.cache.get(key)
    if ok is None:
        ctx.cache[key] = False
        ok = ctx.cache[key] = ctx.entails(le(ZERO, b), hy, timeout=400)
    if not ok:
        return []
    for a in apps(b):
        pos = {}
        for k, x in enumerate(a.args[1:]):
            if x in vs:
                pos.setdefault(x, k)
        if len(pos) < len(vs):
            continue
        for q in allapps.get(a.args[0], ())[:8]:
            m = {v: q.args[1 + k] for v, k in pos.items()}
            if any(fv(t) & set(vs) for t in m.values()) or subst(a, m) is not q:
                continue
            pre = and_(*[subst(h, m) for h in hy])
            bt = subst(b, m)
            out += [or_(not_(pre), le(bt, s_)), or_(not_(pre), le(ZERO, bt))]
    return out[:20]


def conj_eqs(b, v):
    return []


def quant_ground(t):
    """inv/sqrt/abs applications below a quantifier must not create ground side
    conditions: report whether the term has them."""
    if t.op == "ex":
        return bool(_special(t.args[3]))
    return any(quant_ground(a) for a in t.args if isinstance(a, T))


def _special(t):
    if t.op == "inv" or (t.op == "app" and t.args[0] in ("sqrt", "abs")):
        return True
    return any(_special(a) for a in t.args if isinstance(a, T))


def z3_valid(ctx, goal, extra=(), timeout=3000):
    """Is the goal implied?  False also covers 'unknown'."""
    if ctx.deadline and time.time() > ctx.deadline:
        return False
    fs = list(ctx.hyps) + list(extra)
    fs = [f for f in fs if not quant_ground(f)]
    if quant_ground(goal):
        return False
    # goal-directed instances of declared facts
    insts = ctx.instances([goal] + fs)
    sl = sum_lemmas(ctx, [goal] + fs)
    sl = [f for f in sl if not quant_ground(f)]
    if sl:
        insts = insts + sl + ctx.instances(sl)
    tr = Z3Tr()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    t0 = time.time()
    try:
        es = [tr.tr(f) for f in fs + insts]
        g = tr.tr(goal)
        s.add(*es)
        s.add(z3.Not(g))
        s.add(*tr.side)
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_calls"] += 1
    STATS["z3_s"] += time.time() - t0
    return r == z3.unsat


# ------------------------------------------------------------ normal form
# poly: {mono: Fraction}; mono = (binders, conds, atoms)
#   binders: tuple of (var, lo, hi);  conds: frozenset of Bool terms;
#   atoms: tuple of (term, power) sorted by term id
EMPTY = ((), frozenset(), ())


def p_const(c):
    return {EMPTY: Fraction(c)} if c else {}


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


class TooBig(Exception):
    pass


def m_mul(a, b):
    (b1, c1, a1), (b2, c2, a2) = a, b
    v1 = {v for v, _, _ in b1}
    if b2:
        clash = {}
        for v, lo, hi in b2:
            if v in v1:
                clash[v] = fresh(v.args[0].split("~")[0])
        if clash:
            b2 = tuple((clash.get(v, v), subst(lo, clash), subst(hi, clash)) for v, lo, hi in b2)
            c2 = frozenset(subst(c, clash) for c in c2)
            a2 = tuple((subst(t, clash), p) for t, p in a2)
    d = {}
    for t, p in a1 + a2:
        d[t] = d.get(t, 0) + p
    atoms = tuple(sorted(((t, p) for t, p in d.items() if p), key=lambda x: x[0].id))
    conds = c1 | c2
    for c in conds:
        if not_(c) in conds:
            return None
    return (b1 + b2, conds, atoms)


def p_mul(p, q):
    if len(p) * len(q) > 6000:
        raise TooBig
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            if m is None:
                continue
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


_NF = {}
DEEP = True


class mode:
    """Deep: products of sums are multiplied out; shallow: they stay opaque."""

    def __init__(self, deep):
        self.deep = deep

    def __enter__(self):
        global DEEP
        self.old, DEEP = DEEP, self.deep

    def __exit__(self, *a):
        global DEEP
        DEEP = self.old


def nf(t):
    key = (t, DEEP)
    r = _NF.get(key)
    if r is None:
        if len(_NF) > 200000:
            _NF.clear()
        STATS["nf"] += 1
        r = _NF[key] = _nf(t)
    return r


def opaque(p):
    """Summations become atoms."""
    r = {}
    for m, c in p.items():
        if m[0]:
            b, cs, at = m
            bound = {v for v, _, _ in b}
            ins = [(t, k) for t, k in at if fv(t) & bound]
            cin = frozenset(x for x in cs if fv(x) & bound)
            t = hbind(from_mono(canon_mono((b, cin, tuple(ins)))))
            d = {t: 1}
            for x, k in at:
                if not fv(x) & bound:
                    d[x] = d.get(x, 0) + k
            m = ((), cs - cin, tuple(sorted(d.items(), key=lambda z: z[0].id)))
        r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


_HB = {}


def height(t):
    if t.op in BIND:
        return 1 + max(height(a) for a in t.args[1:])
    return max([height(a) for a in t.args if isinstance(a, T)], default=0)


def hbind(t):
    """Bound variables named by the height of their binder (so that terms equal
    up to renaming are identical)."""
    if not any(isinstance(a, T) for a in t.args) or t.op == "var":
        return t
    r = _HB.get(t)
    if r is None:
        if t.op in BIND:
            v, lo, hi, b = t.args
            lo, hi, b = hbind(lo), hbind(hi), hbind(b)
            h = height(b)
            w = var(f"%{h}", "I")
            while w in fv(b) and w is not v:
                h += 1
                w = var(f"%{h}", "I")
            r = binder(t.op, w, lo, hi, subst(b, {v: w}))
        else:
            r = rebuild(t, [hbind(a) if isinstance(a, T) else a for a in t.args])
        _HB[t] = r
    return r


def _nf(t):
    o = t.op
    if o == "num":
        return p_const(nval(t))
    if o == "var":
        return {((), frozenset(), ((t, 1),)): Fraction(1)}
    if o == "add":
        r = {}
        for a in t.args:
            r = p_add(r, nf(a))
        return r
    if o == "mul":
        r = p_const(1)
        ps = [nf(a) for a in t.args]
        if not DEEP and sum(1 for a in t.args if not isnum(a)) > 1:
            ps = [opaque(p) for p in ps]
        for p in ps:
            r = p_mul(r, p)
        return r
    if o == "inv":
        p = nf(t.args[0])
        sp = split_cond(p)
        if sp is not None:
            c, p1, p0 = sp
            pc = nf_iv(c)
            i1, i0 = nf(inv(from_poly(p1))), nf(inv(from_poly(p0)))
            return p_add(i0, p_mul(pc, p_add(i1, i0, -1)))
        if len(p) == 1:
            (b, c, at), k = next(iter(p.items()))
            if not b and not c:
                atoms = []
                for x, e in at:
                    # 1/0 is taken to be 0 (every division in the code carries
                    # the obligation that its divisor is not zero)
                    atoms.append((x.args[0] if x.op == "inv" else inv(x), e))
                return {((), frozenset(), tuple(sorted(atoms, key=lambda z: z[0].id))): 1 / k}
        a = hbind(from_poly(canon_poly(p)))
        return {((), frozenset(), ((inv(a), 1),)): Fraction(1)}
    if o == "app":
        if t.args[0] == "abs":
            pass
        args = [canon(a) if isinstance(a, T) else a for a in t.args[1:]]
        for k, x in enumerate(args):
            if x.sort == "B" or x.op in ("var", "num"):
                continue
            sp = split_cond(nf(x))
            if sp is not None:
                c, p1, p0 = sp
                u = args[:k] + [from_poly(p1)] + args[k + 1:]
                w = args[:k] + [from_poly(p0)] + args[k + 1:]
                u, w = app(t.args[0], *u, sort=t.sort), app(t.args[0], *w, sort=t.sort)
                pc, pu, pw = nf_iv(c), nf(u), nf(w)
                return p_add(pw, p_mul(pc, p_add(pu, pw, -1)))
        a = app(t.args[0], *args, sort=t.sort)
        if a.op != "app" or a.args[0] != t.args[0]:
            return nf(a)
        if a.sort == "B":
            return nf_iv(a)
        return {((), frozenset(), ((a, 1),)): Fraction(1)}
    if o == "ite":
        c, a, b = t.args
        pc = nf_iv(c)
        pa, pb = nf(a), nf(b)
        if not DEEP:
            pa, pb = opaque(pa), opaque(pb)
        return p_add(pb, p_mul(pc, p_add(pa, pb, -1)))
    if o == "sum":
        v, lo, hi, body = t.args
        if fv(body) and any(v is x for x in (fv(lo) | fv(hi))):
            raise ValueError("bad binder")
        lo, hi = canon(lo), canon(hi)
        if v.args[0][0] in "%$":
            w = fresh("s")
            body, v = subst(body, {v: w}), w
        w = v
        p = nf(body)
        # shift to a zero lower bound
        if lo is not ZERO:
            w = fresh(v.args[0].split("~")[0])
            p = nf(subst(body, {v: add(w, lo)}))
            hi = canon(sub(hi, lo))
        r = {}
        for (b, c, at), k in p.items():
            if any(x is w for x, _, _ in b):
                raise ValueError("binder reuse")
            m = ((((w, ZERO, hi),) + b), c, at)
            # every occurrence gets its own binder name
            q = rename_binders(m)
            r[q] = r.get(q, 0) + k
        return {m: c for m, c in r.items() if c}
    if t.sort == "B":
        return nf_iv(t)
    raise ValueError(o)


def split_cond(p):
    """A bracket to split on: (condition, poly if true, poly if false)."""
    cands = {}
    for (b, c, a), k in p.items():
        if not b:
            for x in c:
                cands[x] = cands.get(x, 0) + 1
    if not cands or len(cands) > 6:
        return None
    c = max(cands, key=lambda x: (cands[x], -x.id))
    nc = not_(c)
    p1, p0 = {}, {}
    for (b, cs, a), k in p.items():
        if b:
            p1 = p_add(p1, {(b, cs, a): k})
            p0 = p_add(p0, {(b, cs, a): k})
        elif c in cs:
            p1 = p_add(p1, {(b, cs - {c}, a): k})
        elif nc in cs:
            p0 = p_add(p0, {(b, cs - {nc}, a): k})
        else:
            p1 = p_add(p1, {(b, cs, a): k})
            p0 = p_add(p0, {(b, cs, a): k})
    return c, p1, p0


def rename_binders(m):
    b, c, a = m
    mp = {v: fresh(v.args[0].split("~")[0]) for v, _, _ in b}
    return (tuple((mp[v], subst(lo, mp), subst(hi, mp)) for v, lo, hi in b),
            frozenset(subst(x, mp) for x in c), tuple((subst(x, mp), p) for x, p in a))


def nf_iv(c):
    """Polynomial of the Iverson bracket [c]."""
    o = c.op
    if o == "true":
        return p_const(1)
    if o == "false":
        return {}
    if o == "not":
        return p_add(p_const(1), nf_iv(c.args[0]), -1)
    if o == "and":
        r = p_const(1)
        for a in c.args:
            r = p_mul(r, nf_iv(a))
        return r
    c2 = canon_bool(c)
    if c2 is not c and c2.op in ("true", "false", "not", "and"):
        return nf_iv(c2)
    return {((), frozenset((c2,)), ()): Fraction(1)}


_CB = {}


def canon_bool(c):
    key = (c, DEEP)
    r = _CB.get(key)
    if r is None:
        if len(_CB) > 100000:
            _CB.clear()
        r = _CB[key] = _canon_bool(c)
    return r


def _canon_bool(c):
    o = c.op
    if o in ("true", "false", "var"):
        return c
    if o == "not":
        return not_(canon_bool(c.args[0]))
    if o == "and":
        return and_(*[canon_bool(a) for a in c.args])
    if o == "ite":
        return c
    if o == "app":
        return app(c.args[0], *[canon(a) for a in c.args[1:]], sort="B")
    if o == "ex":
        v, lo, hi, b = c.args
        b = canon_bool(b)
        return hbind(binder("ex", v, canon(lo), canon(hi), b)) if b is not FALSE else FALSE
    if o in ("eq", "lt"):
        a, b = c.args
        try:
            p = nf(sub(a, b))
        except TooBig:
            return c
        if not p:
            return TRUE if o == "eq" else FALSE
        if any(m[0] or m[1] for m in p):
            # contains brackets or sums: keep the two sides
            x, y = canon(a), canon(b)
            return eq(x, y) if o == "eq" else lt(x, y)
        # move the negative part to the other side
        pos = {m: k for m, k in p.items() if k > 0}
        ng = {m: -k for m, k in p.items() if k < 0}
        x, y = from_poly(pos), from_poly(ng)
        return eq(x, y) if o == "eq" else lt(x, y)
    return c


_CN = {}


def canon(t):
    if t.sort == "B":
        return canon_bool(t)
    if t.op in ("num", "var"):
        return t
    key = (t, DEEP)
    r = _CN.get(key)
    if r is None:
        if len(_CN) > 100000:
            _CN.clear()
        try:
            r = hbind(from_poly(canon_poly(nf(t))))
        except TooBig:
            r = t
        _CN[key] = r
    return r


def from_mono(m, k=Fraction(1)):
    b, c, a = m
    fs = [num(k)]
    for t, p in a:
        fs += [t] * p
    body = mul(*fs)
    if c:
        body = ite(and_(*c), body, ZERO)
    for v, lo, hi in reversed(b):
        body = binder("sum", v, lo, hi, body)
    return body


def from_poly(p):
    return add(ZERO, *[from_mono(m, k) for m, k in sorted(
        p.items(), key=lambda x: (len(x[0][0]), len(x[0][2]), [z[0].id for z in x[0][2]]))])


# --------------------------------------------------- context simplification
def lin(t):
    """Linear form {atom or None: coef} of a term without binders/brackets, or None."""
    try:
        p = nf(t)
    except TooBig:
        return None
    out = {}
    for (b, c, a), k in p.items():
        if b or c:
            return None
        if not a:
            out[None] = k
        elif len(a) == 1 and a[0][1] == 1:
            out[a[0][0]] = k
        else:
            out[from_mono(((), frozenset(), a))] = k
    return out


def solve_for(c, v):
    """If cond c is an equation solvable for integer var v, the solution term."""
    if c.op != "eq" or v not in fv(c):
        return None
    l = lin(sub(c.args[0], c.args[1]))
    if l is None or v not in l or abs(l[v]) != 1:
        return None
    rest = []
    for a, k in l.items():
        if a is v:
            continue
        if a is not None and (v in fv(a) or a.sort != "I"):
            return None
        if k.denominator != 1:
            return None
        rest.append(num(k) if a is None else mul(num(k), a))
    return mul(num(-l[v]), add(ZERO, *rest))


def ranges(b):
    out = []
    for v, lo, hi in b:
        out += [le(lo, v), lt(v, hi)]
    return out


def simp_mono(m, ctx):
    """Simplify one monomial under the hypotheses; returns a polynomial."""
    b, c, a = m
    b, c, a = list(b), set(c), list(a)
    # binders whose range depends on another binder become conditions
    changed = True
    guard = 0
    while changed and guard < 60:
        guard += 1
        changed = False
        for i, (v, lo, hi) in enumerate(b):
            outer = [w for w, _, _ in b if w is not v and w in fv(hi)]
            if outer:
                l = lin(hi)
                if l is not None and all(l.get(w) == 1 for w in outer):
                    mp = {}
                    for w, _, h in b:
                        if w in outer:
                            mp[w] = sub(h, ONE)
                    hi2 = canon(subst(hi, mp))
                    if not any(w in fv(hi2) for w, _, _ in b):
                        b[i] = (v, lo, hi2)
                        c.add(canon_bool(lt(v, hi)))
                        changed = True
                        break
            for q in list(c):
                s = solve_for(q, v)
                if s is None:
                    continue
                mp = {v: s}
                c2 = set()
                c.discard(q)
                b2 = [(w, subst(x, mp), subst(y, mp)) for w, x, y in b if w is not v]
                ok = True
                for r in list(c) + [le(lo, s), lt(s, hi)]:
                    r2 = canon_bool(subst(r, mp))
                    for z in (r2.args if r2.op == "and" else (r2,)):
                        if z is FALSE:
                            ok = False
                        if z is not TRUE:
                            c2.add(z)
                if not ok:
                    return {}
                at = [(subst(x, mp), p) for x, p in a]
                # atoms may have become reducible
                poly = p_const(1)
                for x, p in at:
                    for _ in range(p):
                        poly = p_mul(poly, nf(x))
                cp = p_const(1)
                for z in c2:
                    cp = p_mul(cp, nf_iv(z))
                poly = p_mul(poly, cp)
                res = {}
                for (bb, cc, aa), k in poly.items():
                    res = p_add(res, simp_mono((tuple(b2) + bb, cc, aa), ctx), k)
                return res
    # drop implied conditions, detect contradictions
    rg = ranges(b)
    for q in sorted(c, key=lambda x: (x.op != "lt", x.op == "ex", x.id)):
        others = [x for x in c if x is not q]
        if not relevant(q, ctx, b):
            continue
        if ctx.entails(q, tuple(rg + others), timeout=600):
            c.discard(q)
        elif ctx.entails(not_(q), tuple(rg + others), timeout=600):
            return {}
    # a factor that vanishes under the conditions
    for x, _ in a:
        if x.op != "inv" and c and x.op != "num":
            for q in c:
                if q.op == "eq" and ((q.args[0] is x and q.args[1] is ZERO) or
                                     (q.args[1] is x and q.args[0] is ZERO)):
                    return {}
            if x.op == "app" and ctx.facts.get(x.args[0]) is not None and \
                    ctx.entails(eq(x, ZERO), tuple(rg + list(c)), timeout=300):
                return {}
    # inv(x)*x -> 1 where x is nonzero
    d = dict(a)
    for x in list(d):
        if x.op == "inv" and x.args[0] in d:
            y = x.args[0]
            if ctx.entails(not_(eq(y, ZERO)), tuple(rg + list(c)), timeout=600):
                k = min(d[x], d[y])
                for z in (x, y):
                    d[z] -= k
                    if not d[z]:
                        del d[z]
    a = sorted(d.items(), key=lambda z: z[0].id)
    if ctx.rules and b:
        poly = apply_rules(b, c, a, ctx)
        if poly is not None:
            res = {}
            for mm, k in poly.items():
                res = p_add(res, simp_mono(mm, ctx), k)
            return res
    # unused binders multiply by the size of their range
    used = set()
    for x in c:
        used |= fv(x)
    for x, _ in a:
        used |= fv(x)
    for v, lo, hi in b:
        used |= fv(lo) | fv(hi)
    for i, (v, lo, hi) in enumerate(b):
        if v not in used and ctx.entails(le(lo, hi), tuple(ranges(b[:i] + b[i + 1:])), timeout=600):
            rest = tuple(b[:i] + b[i + 1:])
            poly = p_mul({(rest, frozenset(c), tuple(a)): Fraction(1)}, nf(sub(hi, lo)))
            res = {}
            for mm, k in poly.items():
                res = p_add(res, simp_mono(mm, ctx), k)
            return res
    return {(tuple(b), frozenset(c), tuple(a)): Fraction(1)}


class Rule:
    """Sum over 0 <= v < n of a product of function values, one argument of each
    being v: equal to rhs(x...) for the other arguments within their ranges.
    lhs: list of (name, position of v or None where absent -> index into x), e.g.
    [("P", (0, "v")), ("Z", ("v", 1))] with rhs(x0, x1)."""

    def __init__(self, name, n, lhs, rhs, dims):
        self.name, self.n, self.lhs, self.rhs, self.dims = name, n, lhs, rhs, dims

    def match(self, v, factors):
        if len(factors) != len(self.lhs):
            return None
        for order in itertools.permutations(factors):
            env = {}
            if all(self.match1(v, f, p, env) for f, p in zip(order, self.lhs)):
                return env
        return None

    @staticmethod
    def match1(v, f, p, env):
        name, pos = p
        if f.op != "app" or f.args[0] != name or len(f.args) != len(pos) + 1:
            return False
        for t, q in zip(f.args[1:], pos):
            if q == "v":
                if t is not v:
                    return False
            elif v in fv(t) or env.setdefault(q, t) is not t:
                return False
        return True


def apply_rules(b, c, a, ctx):
    """One step: a monomial with a sum that is the left side of a rule."""
    for i, (v, lo, hi) in enumerate(b):
        if lo is not ZERO or any(v in fv(x) for x in c) or any(
                v in fv(l) | fv(h) for w, l, h in b if w is not v):
            continue
        mine = [(x, p) for x, p in a if v in fv(x)]
        if any(p != 1 for _, p in mine):
            continue
        rest = [(x, p) for x, p in a if v not in fv(x)]
        for r in ctx.rules:
            if hi is not r.n:
                continue
            env = r.match(v, [x for x, _ in mine])
            if env is None:
                continue
            b2 = tuple(b[:i] + b[i + 1:])
            rg = ranges(b2) + [x for x in c]
            if not all(ctx.entails(and_(le(ZERO, env[k]), lt(env[k], d)), tuple(rg), timeout=600)
                       for k, d in enumerate(r.dims)):
                continue
            poly = p_mul({(b2, frozenset(c), tuple(rest)): Fraction(1)},
                         nf(r.rhs(*[env[k] for k in range(len(r.dims))])))
            return poly
    return None


def relevant(q, ctx, b):
    return True


def simp(p, ctx):
    r = {}
    for m, k in p.items():
        r = p_add(r, simp_mono(m, ctx), k)
    return canon_poly(r)


def perms(n):
    if n <= 4:
        return itertools.permutations(range(n))
    return [tuple(range(n))]


def canon_mono(m):
    b, c, a = m
    if not b:
        return m
    best = None
    sig = []
    bound = {v for v, _, _ in b}
    depth = 0
    for x in [t for t, _ in a] + list(c) + [hi for _, _, hi in b]:
        for u in fv(x):
            if u not in bound and u.args[0][0] == "$":
                depth = max(depth, 1 + int(u.args[0][1:].split(".")[0]))
    lvl = {}
    for _ in range(len(b)):
        for v, lo, hi in b:
            # a range that depends on another index comes after it
            lvl[v] = 1 + max([lvl.get(w, 0) for w in (fv(lo) | fv(hi)) & bound], default=0)
    for v, lo, hi in b:
        occ = sorted(show_abs(x, v, {w for w, _, _ in b}) for x in list(c) + [t for t, _ in a]
                     if v in fv(x))
        sig.append((lvl[v], show_abs(lo, v, bound), show_abs(hi, v, bound), occ))
    idx = sorted(range(len(b)), key=lambda i: sig[i])
    # permute only within ties
    groups = [list(g) for _, g in itertools.groupby(idx, key=lambda i: sig[i])]
    cands = itertools.product(*[perms(len(g)) for g in groups])
    for cand in cands:
        order = [g[i] for g, pm in zip(groups, cand) for i in pm]
        mp = {b[i][0]: var(f"${depth}.{j}", "I") for j, i in enumerate(order)}
        nb = tuple((mp[b[i][0]], subst(b[i][1], mp), subst(b[i][2], mp)) for i in order)
        nc = frozenset(canon_bool(subst(x, mp)) for x in c)
        na = tuple(sorted(((canon(subst(x, mp)), p) for x, p in a), key=lambda z: z[0].id))
        key = (sorted(alpha(x) for x in nc), sorted((alpha(x), p) for x, p in na))
        if best is None or key < best[0]:
            best = (key, (nb, nc, na))
    return best[1]


def show_abs(t, v, bound):
    """Printed form with v marked and the other bound variables anonymous."""
    mp = {w: var("_o", "I") for w in bound if w is not v}
    mp[v] = var("_v", "I")
    return alpha(subst(t, mp))


_AL = {}


def alpha(t, env=()):
    """Printed form up to renaming of the binders inside t."""
    if not env:
        r = _AL.get(t)
        if r is not None:
            return r
    o = t.op
    if o == "num":
        r = str(t.args[0])
    elif o == "var":
        r = t.args[0]
        for i, v in enumerate(reversed(env)):
            if v is t:
                r = f"#{i}"
                break
    elif o in ("true", "false"):
        r = o
    elif o == "app":
        r = f"{t.args[0]}({','.join(alpha(a, env) for a in t.args[1:])})"
    elif o in BIND:
        v, lo, hi, b = t.args
        r = f"{o}({alpha(lo, env)},{alpha(hi, env)},{alpha(b, env + (v,))})"
    elif o in ("add", "mul", "and", "eq"):
        r = f"{o}({','.join(sorted(alpha(a, env) for a in t.args))})"
    else:
        r = f"{o}({','.join(alpha(a, env) for a in t.args)})"
    if not env:
        _AL[t] = r
    return r


def canon_poly(p):
    r = {}
    keys = {}
    for m, k in p.items():
        m = canon_mono(m)
        ky = mono_key(m)
        if ky in keys:
            m = keys[ky]
        else:
            keys[ky] = m
        v = r.get(m, 0) + k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono_key(m):
    b, c, a = m
    return (tuple((v.args[0], alpha(lo), alpha(hi)) for v, lo, hi in b),
            tuple(sorted(alpha(x) for x in c)), tuple(sorted((alpha(x), p) for x, p in a)))


_CK = {}


def canon_key(t):
    key = (t, DEEP)
    r = _CK.get(key)
    if r is None:
        try:
            r = poly_key(canon_poly(nf(t)))
        except TooBig:
            r = alpha(t)
        _CK[key] = r
    return r


def poly_key(p):
    return tuple(sorted((mono_key(m), str(k)) for m, k in p.items()))


# ------------------------------------------------------------------ provers
class Result:
    def __init__(self, ok, by, reason=""):
        self.ok, self.by, self.reason = ok, by, reason


def prove_zero(t, ctx, depth=0):
    with mode(False):
        r = _prove_zero(t, ctx, depth)
    if r.ok:
        return r
    with mode(True):
        r2 = _prove_zero(t, ctx, depth)
    return r2 if r2.ok else r


def _prove_zero(t, ctx, depth=0):
    try:
        p = simp(nf(t), ctx)
    except TooBig:
        return Result(False, "", "normal form too large")
    if not p:
        return Result(True, "normal form")
    # group by summation signature and decide the bodies
    groups = group(p)
    if len(groups) > 1:
        groups = group(lift_binders(p, max(groups, key=len), ctx))
    left = []
    for sig, ms in groups.items():
        b = ms[0][0]
        body = add(ZERO, *[from_mono(((), c, a), k) for _, c, a, k in ms])
        rg = ranges(b)
        if body_zero(body, ctx, rg):
            continue
        if len(b) > 1 and len(b) <= 3:
            same = [i for i in range(len(b))]
            sym = []
            n = 0
            for pm in itertools.permutations(same):
                if all(sig[i] == sig[pm[i]] for i in same):
                    mp = {b[i][0]: b[pm[i]][0] for i in same}
                    sym.append(subst(body, mp))
                    n += 1
            if n > 1 and body_zero(add(ZERO, *sym), ctx, rg):
                continue
        left.append((b, body))
    if not left:
        return Result(True, "summation bodies (z3)")
    if absorbed(left, ctx, body_zero):
        return Result(True, "summation bodies, one term apart (z3)")
    # clear denominators: multiply by every inverse's argument known nonzero
    if depth < 3:
        whole = from_poly(p)
        dens = {}
        for (b, c, a), k in p.items():
            bound = {v for v, _, _ in b}
            for x, pw in a:
                if x.op == "inv" and not (fv(x) & bound):
                    dens[x.args[0]] = max(dens.get(x.args[0], 0), pw)
        for d, pw in dens.items():
            if ctx.entails(not_(eq(d, ZERO))):
                q = {}
                pd = nf(d)
                try:
                    for (b, c, a), k in p.items():
                        da = dict(a)
                        have = da.get(inv(d), 0)
                        if have:
                            del da[inv(d)]
                        mm = {(b, c, tuple(sorted(da.items(), key=lambda z: z[0].id))): k}
                        for _ in range(pw - have):
                            mm = p_mul(mm, pd)
                        q = p_add(q, mm)
                except TooBig:
                    continue
                r = _prove_zero(from_poly(q), ctx, depth + 1)
                if r.ok:
                    return Result(True, "clearing denominators, " + r.by)
    return Result(False, "", "undecided: " + " ; ".join(
        f"Sum over {[v.args[0] for v, _, _ in b]} of {show(body)}"[:400] for b, body in left)[:900])


def absorbed(left, ctx, ok):
    """left is a sum over v < n and a term c outside sums: c is the sum of
    [v = u] c for an index u < n; is the combined body zero (ok)?"""
    if len(left) != 2 or sorted(len(b) for b, _ in left) != [0, 1]:
        return False
    (b, body), (_, c) = sorted(left, key=lambda x: -len(x[0]))
    v, lo, hi = b[0]
    known = fv(body)
    for h in ctx.hyps[-8:]:
        known = known | fv(h)
    for u in sorted(known - {v}, key=lambda x: -x.id)[:8]:
        if u.sort == "I" and u is not hi and ctx.entails(and_(le(lo, u), lt(u, hi)), timeout=300):
            if ok(add(body, mul(iv(eq(v, u)), c)), ctx, ranges(b)):
                return True
    return False


def group(p):
    groups = {}
    for (b, c, a), k in p.items():
        sig = tuple(alpha(hi) for _, _, hi in b)
        if sig in groups:
            b0 = groups[sig][0][0]
            mp = {v: w for (v, _, _), (w, _, _) in zip(b, b0) if v is not w}
        else:
            mp = {v: fresh("g") for v, _, _ in b}
        if mp:
            b = tuple((mp.get(v, v), lo, subst(hi, mp)) for v, lo, hi in b)
            c = frozenset(subst(x, mp) for x in c)
            a = tuple((subst(x, mp), e) for x, e in a)
        groups.setdefault(sig, []).append((b, c, a, k))
    return groups


def lift_binders(p, target, ctx):
    """n * m -> Sum over v < n of m, where the largest group sums over v < n."""
    out = {}
    for (b, c, a), k in p.items():
        have = [alpha(hi) for _, _, hi in b]
        want = list(target)
        for h in have:
            if h in want:
                want.remove(h)
        d = dict(a)
        nb = list(b)
        for h in want:
            x = next((x for x in d if alpha(x) == h), None)
            if x is None or not ctx.entails(le(ZERO, x)):
                continue
            d[x] -= 1
            if not d[x]:
                del d[x]
            nb.append((fresh("l"), ZERO, x))
        m = (tuple(nb), c, tuple(sorted(d.items(), key=lambda z: z[0].id)))
        out[m] = out.get(m, 0) + k
    return canon_poly(out)


def body_zero(body, ctx, rg):
    if body is ZERO:
        return True
    if ctx.entails(eq(body, ZERO), tuple(rg), timeout=500):
        return True
    c = ctx.child(*rg)
    try:
        return cases(norm_conds(body), c, [120])
    except TooBig:
        return False


_NC = {}


def norm_conds(t):
    """Every comparison inside the term in canonical form."""
    if t.op in ("num", "var", "true", "false"):
        return t
    key = (t, DEEP)
    r = _NC.get(key)
    if r is None:
        if t.op in ("eq", "lt"):
            r = canon_bool(rebuild(t, [norm_conds(a) for a in t.args]))
        elif t.op in BIND:
            r = t if t.op == "sum" else canon_bool(t)
        else:
            r = rebuild(t, [norm_conds(a) if isinstance(a, T) else a for a in t.args])
        _NC[key] = r
    return r


def bool_atoms(t, out):
    """Comparisons and quantifiers of a term outside its binders, innermost first."""
    if t.op in BIND:
        if t.op == "ex" and t not in out:
            out.append(t)
        return out
    for a in t.args:
        if isinstance(a, T):
            bool_atoms(a, out)
    if t.sort == "B" and t.op in ("eq", "lt", "app", "var") and t not in out:
        out.append(t)
    return out


def put(t, c, val, memo=None):
    """t with the Boolean atom c replaced by its value (outside binders)."""
    if memo is None:
        memo = {}
    if t is c:
        return TRUE if val else FALSE
    if t in memo:
        return memo[t]
    if t.op in BIND or t.op in ("num", "var", "true", "false"):
        return t
    r = memo[t] = rebuild(t, [put(a, c, val, memo) if isinstance(a, T) else a for a in t.args])
    return r


def cases(t, ctx, fuel):
    """Is t zero, by splitting on its conditions?"""
    while True:
        fuel[0] -= 1
        if fuel[0] < 0:
            return False
        if t is ZERO:
            return True
        conds = bool_atoms(t, [])
        if not conds:
            return leaf_zero(t, ctx)
        c = conds[0]
        if ctx.entails(c, timeout=400):
            t = norm_conds(put(t, c, True))
            continue
        if ctx.entails(not_(c), timeout=400):
            t = norm_conds(put(t, c, False))
            continue
        if not cases(norm_conds(put(t, c, True)), ctx.child(c), fuel):
            return False
        ctx = ctx.child(not_(c))
        t = norm_conds(put(t, c, False))


def leaf_zero(t, ctx):
    p = nf(t)
    for _ in range(4):
        if not p:
            return True
        # atoms known to vanish, inverses of known non-zeros
        q, zero = {}, {}
        for (b, c, a), k in p.items():
            if b or c:
                q = None
                break
            d = dict(a)
            dead = False
            for x in list(d):
                if x.op == "inv":
                    continue
                if x not in zero:
                    zero[x] = ctx.entails(eq(x, ZERO), timeout=400)
                if zero[x]:
                    dead = True
                    break
            if dead:
                continue
            m = ((), frozenset(), a)
            q[m] = q.get(m, 0) + k
        if q is None:
            break
        p = q
        if not p:
            return True
        dens = {}
        for (b, c, a), k in p.items():
            for x, pw in a:
                if x.op == "inv":
                    dens[x.args[0]] = max(dens.get(x.args[0], 0), pw)
        done = True
        for d, pw in dens.items():
            if not ctx.entails(not_(eq(d, ZERO)), timeout=600):
                continue
            q = {}
            pd = nf(d) if DEEP else opaque(nf(d))
            for (b, c, a), k in p.items():
                da = dict(a)
                have = da.pop(inv(d), 0)
                mm = {(b, c, tuple(sorted(da.items(), key=lambda z: z[0].id))): k}
                for _ in range(pw - have):
                    mm = p_mul(mm, pd)
                q = p_add(q, mm)
            p = q
            done = False
        if done:
            break
    if not p:
        return True
    return ctx.entails(eq(from_poly(p), ZERO), timeout=ctx.timeout)


def termwise_le(a, b, ctx):
    """a <= b, comparing the terms of sums over the same ranges."""
    if not mentions_sum(a) and not mentions_sum(b):
        return False
    try:
        p = simp(nf(sub(real(b), real(a))), ctx)
    except TooBig:
        return False
    groups = group(p)
    if len(groups) > 1:
        groups = group(lift_binders(p, max(groups, key=len), ctx))
    left = []
    nonneg = lambda body, ctx, rg: ctx.child(*rg).entails(le(ZERO, body), timeout=1500)  # noqa: E731
    for sig, ms in groups.items():
        body = add(ZERO, *[from_mono(((), c, x), k) for _, c, x, k in ms])
        if not nonneg(body, ctx, ranges(ms[0][0])):
            left.append((ms[0][0], body))
    if len(left) == 1 and left[0][0] == () and len(groups) == 2:
        left += [(ms[0][0], add(ZERO, *[from_mono(((), c, x), k) for _, c, x, k in ms]))
                 for ms in groups.values() if ms[0][0]]
    if len(left) == 1 and len(left[0][0]) == 1 and () in groups:
        left.append(((), add(ZERO, *[from_mono(((), c, x), k) for _, c, x, k in groups[()]])))
    return not left or absorbed(left, ctx, nonneg)


def congruent(a, b, ctx, fuel):
    """Equality by matching structure; what differs is decided by z3."""
    if a is b:
        return True
    fuel[0] -= 1
    if fuel[0] < 0 or (ctx.deadline and time.time() > ctx.deadline):
        return False
    if a.op == b.op and len(a.args) == len(b.args):
        if a.op in ("sum", "ex"):
            (v, lo, hi, x), (w, lo2, hi2, y) = a.args, b.args
            if congruent(lo, lo2, ctx, fuel) and congruent(hi, hi2, ctx, fuel):
                u = fresh("m")
                return congruent(subst(x, {v: u}), subst(y, {w: u}), ctx.child(le(lo, u), lt(u, hi)), fuel)
            return False
        if a.op == "app" and a.args[0] == b.args[0]:
            if all(congruent(x, y, ctx, fuel) for x, y in zip(a.args[1:], b.args[1:])):
                return True
        elif a.op == "inv" or a.op == "not":
            if congruent(a.args[0], b.args[0], ctx, fuel):
                return True
        elif a.op == "lt":
            if all(congruent(x, y, ctx, fuel) for x, y in zip(a.args, b.args)):
                return True
        elif a.op == "ite":
            c, d = a.args[0], b.args[0]
            if congruent(c, d, ctx, fuel):
                return (congruent(a.args[1], b.args[1], ctx.child(c), fuel) and
                        congruent(a.args[2], b.args[2], ctx.child(not_(c)), fuel))
    if a.op in ("add", "mul") and a.op == b.op:
        xs, ys = list(a.args), list(b.args)
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        if len(xs) == len(ys) and len(xs) <= 4:
            for x in xs:
                for y in ys:
                    if x.op == y.op and congruent(x, y, ctx, fuel):
                        ys.remove(y)
                        break
                else:
                    break
            else:
                return True
    if a.sort != b.sort and "B" in (a.sort, b.sort):
        return False
    if not mentions_sum(a) and not mentions_sum(b):
        return ctx.entails(eq(a, b), timeout=500)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            c, p, q = x.args
            if not mentions_sum(c):
                return congruent(p, y, ctx.child(c), fuel) and congruent(q, y, ctx.child(not_(c)), fuel)
    return False


def mentions_sum(t):
    return sum_height(t) > 0


def prove_eq(a, b, ctx):
    a, b = real(a), real(b)
    if a is b:
        return Result(True, "identity")
    if mentions_sum(a) and mentions_sum(b):
        if congruent(a, b, ctx, [80]):
            return Result(True, "matching structure (z3)")
    with mode(False):
        if match(a, b, ctx):
            return Result(True, "matching sums, case split (z3)")
    return prove_zero(sub(a, b), ctx)


def match(a, b, ctx, depth=0):
    """Equality of two terms by matching the sums at their top, for arbitrary
    values of the indices."""
    if a is b:
        return True
    if a.op == "sum" and b.op == "sum" and depth < 5:
        (v, lo, hi, x), (w, lo2, hi2, y) = a.args, b.args
        if lo is not lo2 or hi is not hi2:
            if not (ctx.entails(eq(lo, lo2), timeout=600) and ctx.entails(eq(hi, hi2), timeout=600)):
                return False
        u = fresh("m")
        return match(subst(x, {v: u}), subst(y, {w: u}), ctx.child(le(lo, u), lt(u, hi)), depth + 1)
    try:
        if a.op == "sum" or b.op == "sum":
            # factors that do not depend on the index out of the sums
            return cases(norm_conds(from_poly(canon_poly(opaque(simp(nf(sub(a, b)), ctx))))), ctx, [60])
        return cases(norm_conds(sub(a, b)), ctx, [150])
    except TooBig:
        return False


def prove(f, ctx):
    """Prove a Boolean formula."""
    if f is TRUE:
        return Result(True, "identity")
    if f.op == "and":
        by = set()
        for a in f.args:
            r = prove(a, ctx)
            if not r.ok:
                return r
            by.add(r.by)
        return Result(True, "; ".join(sorted(by)))
    if f.op == "eq":
        r = prove_eq(f.args[0], f.args[1], ctx)
        if r.ok:
            return r
    if f.op == "not" and f.args[0].op == "ex":
        v, lo, hi, b = f.args[0].args
        w = fresh(v.args[0].split("~")[0])
        return prove(not_(subst(b, {v: w})), ctx.child(le(lo, w), lt(w, hi)))
    if f.op == "not" and f.args[0].op == "and":
        # disjunction: assume all but the last
        parts = [not_(x) for x in f.args[0].args]
        alls = [p for p in parts if p.op == "not" and p.args[0].op == "ex"]
        goals = alls[:1]
        if not goals:
            goals = [p for p in parts if p.op == "eq"][:2]
            goals += [p for p in parts if p not in goals and mentions_sum(p)][:2] or [
                p for p in parts[-1:] if p not in goals]
        for k, goal in enumerate(goals):
            rest = [not_(p) for p in parts if p is not goal]
            if k == 0 and ctx.entails(FALSE, tuple(rest)):
                return Result(True, "z3")
            if goal.op != "not" or goal.args[0].op in ("ex", "lt"):
                r = prove(goal, ctx.child(*rest))
                if r.ok:
                    return r
    c = canon_bool(f)
    if c is TRUE:
        return Result(True, "normal form")
    if ctx.entails(c):
        return Result(True, "z3")
    if f.op == "not" and f.args[0].op == "lt" and termwise_le(f.args[0].args[1], f.args[0].args[0], ctx):
        return Result(True, "terms of the sums compared (z3)")
    if c is not f and ctx.entails(f):
        return Result(True, "z3")
    return Result(False, "", "undecided: " + show(c)[:500])


def sums_in(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen or not isinstance(t, T):
        return []
    seen.add(t)
    if t.op == "sum":
        return [t]
    return [x for a in t.args if isinstance(a, T) for x in sums_in(a, seen)]


def put_for(t, x, w):
    """t with the summation x, outside all binders, replaced by w."""
    if t is x:
        return w
    return rebuild(t, [put_for(a, x, w) if isinstance(a, T) else a for a in t.args]) if sums_in(t) and t.op not in ("sum", "ex") else t
