"""Contracts of giddy.ergodic.

Matrix algebra is decided by rewriting sums of products with the equations of the
chain and of the inverse (nf.Rule), each an assumed library contract, a
precondition, or proved here first."""
import time
from fractions import Fraction

from contracts._common import *
from pyvc import nf as N


def solve(A, B):
    """Exact solution of A X = B (lists of rows of Fractions), None if singular."""
    n = len(A)
    M = [list(map(Fraction, r)) + list(map(Fraction, b)) for r, b in zip(A, B)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c]), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def model_chain(m):
    """An irreducible chain, its steady state a and Z = (I - P + 1 a)^-1 for a
    finite model (kept in m.aux)."""
    if "chain" not in m.aux:
        k = int(m.vals[var("k")])
        while True:
            P = [[m.rng.choice([0, 1, 1, 2, 3]) for _ in range(k)] for _ in range(k)]
            if any(sum(r) == 0 for r in P):
                continue
            P = [[Fraction(v, sum(r)) for v in r] for r in P]
            # a (I - P + J) = 1 with J all ones has the one stationary solution
            A = [[(i == j) - P[i][j] + 1 for i in range(k)] for j in range(k)]
            a = solve(A, [[1]] * k)
            if a is None or min(r[0] for r in a) <= 0:
                continue
            a = [r[0] for r in a]
            B = [[(i == j) - P[i][j] + a[j] for j in range(k)] for i in range(k)]
            Z = solve(B, [[int(i == j) for j in range(k)] for i in range(k)])
            if Z is not None:
                break
        m.aux["chain"] = P, a, Z
    return m.aux["chain"]


class Chain:
    """An irreducible stochastic matrix P with its steady state a."""

    def __init__(self, s):
        self.s = s
        k = self.k = s.size("k", 1, 3)
        at = lambda q: (lambda m, *i: 0 if min(i) < 0 or max(i) >= len(model_chain(m)[1]) else q(model_chain(m), *i))
        self.P = P = s.fn("P", facts=lambda i, j: [le(ZERO, app("P", i, j))], sample=at(lambda c, i, j: c[0][i][j]))
        self.a = a = s.fn("a", facts=lambda i: [lt(ZERO, app("a", i))], sample=at(lambda c, i: c[1][i]))
        self.Z = s.fn("Z", sample=at(lambda c, i, j: c[2][i][j]))
        self.rules = s.ctx.rules
        self.rule("the rows of P sum to one", [("P", (0, "v"))], lambda i: ONE, 1)
        self.rule("the steady state sums to one", [("a", ("v",))], lambda: ONE, 0)
        self.rule("the steady state is left unchanged", [("a", ("v",)), ("P", ("v", 0))], lambda j: a(j), 1)
        self.d = lambda i, j: iv(eq(i, j))
        s.it.contracts["ergodic._steady_state_ergodic"] = self.steady

    def rule(self, name, lhs, rhs, nargs):
        self.rules.append(N.Rule(name, self.k, lhs, rhs, [self.k] * nargs))

    def steady(self, it, P):
        self.s.requires("steady state of the matrix", lib.to_arr(it, P), (self.k, self.k), self.P)
        return Arr((self.k,), self.a, "f")

    def use_inverse(self):
        """numpy.linalg.inv of I - P + 1 a is assumed to return its inverse Z:
        (I - P + 1 a) Z = I.  Derived: a Z = a, and P Z = Z + 1 a - I."""
        s, k, P, a, Z, d = self.s, self.k, self.P, self.a, self.Z, self.d
        B = lambda i, j: add(sub(d(i, j), P(i, j)), a(j))
        az = s.define("aZ", (k,), lambda j: sum_(ZERO, k, lambda l: mul(a(l), Z(l, j))), fold=False)
        self.rule("definition of aZ", [("a", ("v",)), ("Z", ("v", 0))], az, 1)
        BZ = lambda i, j: sum_(ZERO, k, lambda l: mul(B(i, l), Z(l, j)))  # assumed to be d(i, j)
        norm = lambda t, *h: N.from_poly(N.simp(N.nf(t), s.ctx.child(*h)))
        pz = lambda i, j: sub(add(Z(i, j), az(j)), d(i, j))
        i, j = fresh("i"), fresh("j")
        rg = [le(ZERO, i), lt(i, k), le(ZERO, j), lt(j, k)]
        opaque_pz = s.define("PZ", (k, k), lambda i, j: sum_(ZERO, k, lambda l: mul(P(i, l), Z(l, j))), fold=False)
        self.rule("PZ", [("P", (0, "v")), ("Z", ("v", 1))], opaque_pz, 2)
        s.goal("P Z = Z + 1 aZ - I", eq(opaque_pz(i, j), pz(i, j)), eq(norm(BZ(i, j), *rg), d(i, j)), *rg)
        self.rules.pop()
        # a (P Z) in two orders
        t = sm(lambda u, l: mul(a(u), P(u, l), Z(l, j)), k, k)
        first = norm(t, *rg)
        self.rules.insert(0, N.Rule("P Z", k, [("P", (0, "v")), ("Z", ("v", 1))], pz, [k, k]))
        keep = [r for r in self.rules if r.name == "the steady state is left unchanged"]
        for r in keep:
            self.rules.remove(r)
        second = norm(t, *rg)
        self.rules.extend(keep)
        s.goal("a Z = a", eq(az(j), a(j)), eq(first, second), *rg)
        self.rule("a Z = a", [("a", ("v",)), ("Z", ("v", 0))], a, 1)
        self.rules.insert(0, self.rules.pop())
        self.rules[:] = [r for r in self.rules if r.name not in ("definition of aZ", "P Z")]
        self.rules.insert(0, N.Rule("P Z = Z + 1 a - I", k, [("P", (0, "v")), ("Z", ("v", 1))],
                                    lambda i, j: sub(add(Z(i, j), a(j)), d(i, j)), [k, k]))

        def inverse(it, M):
            s.requires("the inverse of I - P + 1 a is used", lib.to_arr(it, M), (k, k), B)
            return Arr((k, k), Z, "f")
        for nm in ("np.linalg.inv", "scipy.linalg.inv"):
            s.it.hooks["call:" + nm] = inverse


def mean(c):
    """The mean first passage time in terms of Z."""
    return lambda i, j: div(add(sub(c.d(i, j), c.Z(i, j)), c.Z(j, j)), c.a(j))


def steady(s):
    """_steady_state_ergodic returns a positive probability vector P leaves unchanged.
    Assumed: eig returns eigenvalues and eigenvectors, and Perron's theorem (the
    eigenvalue 1 of an irreducible chain is simple, exceeds the others - by their real
    part - and its eigenvector has entries of one sign)."""
    k = s.size("k", 1, 3)
    P = s.fn("P", facts=lambda i, j: [le(ZERO, app("P", i, j))])
    e0, sg = s.size("e0", 0), s.real("sg", [1, -1])
    s.assume(lt(e0, k), or_(eq(sg, ONE), eq(sg, num(-1))))
    V = s.fn("V", facts=lambda i: [implies(not_(eq(i, e0)), lt(app("V", i), ONE)), implies(eq(i, e0), eq(app("V", i), ONE)),
                                        lt(ZERO, sum_(ZERO, k, lambda l: app("abs", app("D", l, i))))])
    D = s.fn("D", facts=lambda l, i: [implies(eq(i, e0), lt(ZERO, mul(sg, app("D", l, i)))),
                                           eq(V(e0), ONE)])
    s.soft = True  # (no finite models of the assumptions are searched)
    s.ctx.rules.append(N.Rule("rows of P sum to one", k, [("P", (0, "v"))], lambda i: ONE, [k]))
    s.ctx.rules.append(N.Rule("eigenvectors", k, [("P", ("v", 1)), ("D", ("v", 0))], lambda e, l: mul(V(e), D(l, e)), [k, k]))

    def eig(it, M):
        s.requires("eig is given the transpose of the matrix", lib.to_arr(it, M), (k, k), lambda i, j: P(j, i))
        return PList([Arr((k,), V, "f"), Arr((k, k), D, "f")], "tuple")
    s.it.hooks["call:np.linalg.eig"] = s.it.hooks["call:scipy.linalg.eig"] = eig
    U = lambda l: mul(sg, D(l, e0))
    S = sum_(ZERO, k, U)
    pos = s.induction("the total is positive", k, lambda m: or_(eq(m, ZERO), lt(ZERO, sum_(ZERO, m, U))))
    s.assume(pos(k))
    p = Arr((k, k), P, "f")
    snap = s.snapshot(p)
    r = lib.to_arr(s.it, s.call("ergodic._steady_state_ergodic", p)).copy()
    q = fresh("l")
    got = r.at(q)
    rg = [le(ZERO, q), lt(q, k)]
    for e in sorted(fv(got) - {q, k, e0, sg}, key=lambda v: v.id)[:2]:
        A = lambda l: app("abs", D(l, e))
        s.goal("the eigenvector of eigenvalue 1", eq(A(q), U(q)), *rg)
        s.goal("the total of the eigenvector", eq(sum_(ZERO, k, A), S))
        rg += [eq(A(q), U(q)), eq(sum_(ZERO, k, A), S)]
    s.goal("one value per state", len(r.shape) == 1 and eq(r.shape[0], k))
    s.goal("normalised eigenvector of eigenvalue 1", eq(got, div(U(q), S)), *rg)
    tot = lt(ZERO, S)
    w = lambda l: div(U(l), S)
    s.goal("sums to one", eq(sum_(ZERO, k, w), ONE), tot)
    s.forall("left unchanged by the chain", (k,), lambda l: eq(sum_(ZERO, k, lambda j: mul(w(j), P(j, l))), w(l)))
    s.forall("positive", (k,), lambda l: implies(tot, lt(ZERO, w(l))))
    s.unchanged("argument unchanged", snap)


def E03(R):
    def go(s):
        c = Chain(s)
        c.use_inverse()
        k, P = c.k, c.P
        p = Arr((k, k), P, "f")
        snap = s.snapshot(p)
        V = lib.to_arr(s.it, s.call("ergodic.var_mfpt_ergodic", p)).copy()
        M = mean(c)
        s.goal("shape", len(V.shape) == 2 and and_(*[eq(x, k) for x in V.shape]))
        other = lambda f: (lambda i, j: sum_(ZERO, k, lambda l: mul(iv(not_(eq(l, j))), P(i, l), f(l, j))))
        s.forall("the means solve the first passage equations", (k, k), lambda i, j: eq(
            M(i, j), add(ONE, other(M)(i, j))))
        W = lambda i, j: add(V.at(i, j), mul(M(i, j), M(i, j)))
        s.forall("variance plus squared mean solves the second moment equations", (k, k), lambda i, j: eq(
            W(i, j), add(ONE, other(lambda l, q: add(W(l, q), mul(2, M(l, q))))(i, j))))
        s.unchanged("argument unchanged", snap)
    R.case("var_mfpt_ergodic", go)
    R.case("_steady_state_ergodic", steady)


def matrix(s, empty):
    """A non-negative matrix; empty: which rows hold only zeros - "none", "some"
    or "any"; its filled form."""
    k = s.size("k", 1, 3)
    P = s.fn("P", facts=lambda i, j: [le(ZERO, app("P", i, j))], sample=lambda m, *i: max(0, m.rng.choice([-1, 0, 1, 2, 3])))
    row = s.define("row", (k,), lambda i: sum_(ZERO, k, lambda j: P(i, j)), facts=lambda i: [
        lt(ZERO, app("row", i)) if empty == "none" else le(ZERO, app("row", i))])
    if empty == "none":
        s.samplers["P"] = lambda m, i, *j: m.rng.choice([0, 0, 1, 1, 2]) if m.rng.random() < .5 and j and j[0] else m.rng.choice([1, 1, 2])
    F = lambda i, j: P(i, j) if empty == "none" else ite(eq(row(i), ZERO), iv(eq(i, j)), P(i, j))
    if empty == "some":
        z = s.size("z", 0, sample=lambda m: m.rng.randrange(int(m.vals[k])))
        s.assume(lt(z, k), eq(row(z), ZERO))
        s.samplers["P"] = lambda m, i, *j: 0 if i == m.vals[z] else m.rng.choice([0, 0, 1, 1, 2])
    return k, P, F


def chain_object(s, k, F, **attrs):
    """quantecon.MarkovChain of the (filled) matrix; its attributes are assumed."""
    def markov_chain(it, M):
        s.requires("the chain of the filled matrix", lib.to_arr(it, M), (k, k), F)
        return Obj("MarkovChain", dict(attrs))
    s.it.hooks["call:quantecon.MarkovChain"] = markov_chain


class Passage:
    """First passage to a state d in the chain Q: from which states it is reached,
    and from which it may, with positive probability, never be reached - the least
    sets closed under the links among the states other than d."""

    def __init__(self, s, k, Q):
        self.s, self.k, self.Q = s, k, Q
        n = self.n = sub(k, ONE)
        lib_ = lambda nm, v: s.samplers.__setitem__(nm, lambda m, *a: v(self.solved(m, int(a[0])), *[int(x) for x in a[1:]]))
        at = lambda t, *i: t[i[-1]] if 0 <= i[-1] < len(t) else 0
        # the chain among the states other than d, numbered without d
        self.psub = s.define("psub", (n, n), lambda d, r, l: Q(self.u(d, r), self.u(d, l)), params=(k,), lemmas=lambda d, r, l: [
            le(ZERO, app("psub", d, r, l))])
        self.to = lambda d, r: lt(ZERO, Q(self.u(d, r), d))
        link = self.link = lambda d, r, l: lt(ZERO, self.psub(d, r, l))
        inr = self.inr = lambda r: and_(le(ZERO, r), lt(r, n))

        def least(nm, base):
            C = lambda d, r: app(nm, d, r, sort="B")  # noqa: E731
            bound = set()

            def facts(d, r):
                if r in bound:  # (the fact itself mentions the set)
                    return []

                def some(l):
                    bound.add(l)
                    return and_(C(d, l), link(d, r, l))
                return [implies(and_(inr(r), base(d, r)), C(d, r)), or_(C(d, r), not_(inr(r)), not_(ex_(ZERO, n, some)))]
            s.ctx.facts[nm] = facts
            return C
        self.reach = least("reach", self.to)
        self.lost = least("lost", lambda d, r: not_(self.reach(d, r)))
        y = self.y = lambda d, r: app("y", d, r)
        s.ctx.facts["y"] = lambda d, r: [implies(and_(inr(r), not_(self.lost(d, r))), eq(y(d, r), add(ONE, sum_(
            ZERO, n, lambda l: mul(iv(not_(self.lost(d, l))), self.psub(d, r, l), y(d, l))))))]
        lib_("reach", lambda c, i: bool(at(c[0], i)))
        lib_("lost", lambda c, i: bool(at(c[1], i)))
        lib_("y", lambda c, i: at(c[2], i))
        # numpy.where lists the positions where its argument holds
        cnt = self.cnt = lambda d: app("cnt", d, sort="I")
        s.ctx.facts["cnt"] = lambda d: [le(ZERO, cnt(d)), le(cnt(d), n)]
        e, pos = (lambda d, t: app("e", d, t, sort="I")), (lambda d, r: app("pos", d, r, sort="I"))
        self.e, self.pos = e, pos
        s.ctx.facts["e"] = lambda d, t: [implies(and_(le(ZERO, t), lt(t, cnt(d))), and_(
            le(ZERO, e(d, t)), lt(e(d, t), n), not_(self.lost(d, e(d, t))), eq(pos(d, e(d, t)), t)))]
        s.ctx.facts["pos"] = lambda d, r: [implies(and_(inr(r), not_(self.lost(d, r))), and_(
            le(ZERO, pos(d, r)), lt(pos(d, r), cnt(d)), eq(e(d, pos(d, r)), r)))]
        lib_("e", lambda c, t: at(c[3], t))
        lib_("pos", lambda c, r: c[3].index(r) if r in c[3] else 0)
        lib_("cnt", lambda c: len(c[3]))
        # a set with as many elements as one containing it is that set
        A, B, q = s.fn("A!", sort="B"), s.fn("B!", sort="B"), fresh("q")
        s.ctx.facts["A!"] = lambda r: [implies(A(r), B(r))]
        s.samplers["A!"] = lambda m, r: m.fn("B!", [r], "B") and m.rng.random() < .5
        more = s.induction("a set missing an element of a larger one has fewer", n, lambda m: le(
            iv(lt(q, m)), sum_(ZERO, m, lambda r: sub(iv(B(r)), iv(A(r))))), [B(q), not_(A(q)), le(ZERO, q)])
        self.counted = more is not TRUE and more(n) is not TRUE
        s.it.invariants = _Any(self.loop)
        for nm in ("np.where", "np.nonzero", "np.flatnonzero"):
            s.it.hooks["call:" + nm] = (lambda it, c, *ab, nm=nm: self.where(it, nm, c, *ab))
        for nm in ("np.linalg.solve", "scipy.linalg.solve"):
            s.it.hooks["call:" + nm] = self.solve

    def u(self, d, r):
        """The state at position r once d is left out."""
        return ite(lt(r, d), r, add(r, ONE))

    def solved(self, m, d):
        """The sets, the solution and the listing in a finite model."""
        key = ("passage", d)
        if key not in m.aux:
            k = int(m.vals[var("k")])
            P = [[Fraction(m.ev(self.Q(num(i), num(l)), {})) for l in range(k)] for i in range(k)]
            P = [[v / sum(r) if sum(r) else v for v in r] for r in P]
            o = [i for i in range(k) if i != d]
            w = [P[i][d] if 0 <= d < k else 0 for i in o]
            P = [[P[i][l] for l in o] for i in o]
            n = len(o)
            grow = lambda C: C | {i for i in range(n) if any(P[i][l] > 0 for l in C)}  # noqa: E731
            C = {i for i in range(n) if w[i] > 0}
            while grow(C) != C:
                C = grow(C)
            L = set(range(n)) - C
            while grow(L) != L:
                L = grow(L)
            S = [i for i in range(n) if i not in L]
            x = solve([[(i == l) - P[i][l] for l in S] for i in S], [[1]] * len(S)) if S else []
            y = {i: v[0] for i, v in zip(S, x or [[0]] * len(S))}
            m.aux[key] = ([i in C for i in range(n)], [i in L for i in range(n)], [y.get(i, 0) for i in range(n)], S)
        return m.aux[key]

    def d(self, it):
        if not it.loop_vars:
            raise Unsupported("outside the loop over the states")
        return it.loop_vars[-1][0]

    def loop(self, it, st, env):
        """A loop that only adds to a set of states, from the sets' base to their
        closure: partial correctness by the invariant base <= set <= closure; at the
        end the set is closed, hence (leastness) the closure."""
        s, n = self.s, self.n
        import ast
        names = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        is_set = lambda v: isinstance(v, Arr) and v.nd == 1 and v.kind == "b" and it.same_dim(v.shape[0], n)  # noqa: E731
        d = self.d(it)
        q = fresh("q")
        rg = [le(ZERO, q), lt(q, n)]
        pick = None
        for nm in sorted(names):
            v = env.d.get(nm)
            if is_set(v):
                for C, base in ((self.reach, lambda r: self.to(d, r)), (self.lost, lambda r: not_(self.reach(d, r)))):
                    g = eq(v.at(q), base(q))
                    c = s.ctx.child(*it.pc, *rg)
                    c.deadline = time.time() + 10
                    if not s.find(g, list(s.ctx.hyps) + list(it.pc) + rg, tries=40)[0] and s.prove(g, c).ok:
                        pick = nm, (lambda r, C=C: C(d, r)), base
        if pick is None or not self.counted:
            raise Unsupported("a while loop that closes no set of states")
        nm, C, base = pick
        h = f"H~{fresh('set').args[0]}"
        H = lambda r: app(h, d, r, sort="B")  # noqa: E731
        inr = self.inr
        old, s.soft = s.soft, True
        try:
            s.forall("the set is within its closure (before the loop)", (n,), lambda r: and_(
                implies(base(r), env.d[nm].at(r)), implies(env.d[nm].at(r), C(r))))
            s.ctx.facts[h] = lambda dd, r: [implies(and_(inr(r), base(r)), H(r)), implies(and_(inr(r), H(r)), C(r))]
            for x in names:
                env.d.pop(x, None)
            env.d[nm] = Arr((n,), H, "b")
            npc = len(it.pc)
            go = it.truth(it.eval(st.test, env))
            stay = list(it.pc[npc:])
            sets = [env.d[x] for x in sorted(names) if x != nm and is_set(env.d.get(x))]
            sets = [x.copy() for x in sets]
            it.pc.append(go)
            if it.exec_stmts(list(st.body), env) is not None:
                raise Unsupported("leaving a while loop")
            V = env.d.get(nm)
            if not is_set(V):
                raise Unsupported("the set is replaced")
            s.goal("the set keeps its base", V.at(q), base(q), *rg)
            s.goal("the set stays within its closure", C(q), V.at(q), *rg, all_(ZERO, n, lambda l: implies(H(l), C(l))))
            del it.pc[npc:]
            l = fresh("l")
            lem = [implies(and_(all_(ZERO, n, lambda r: implies(H(r), B.at(r))), le(sum_(ZERO, n, lambda r: iv(B.at(r))),
                   sum_(ZERO, n, lambda r: iv(H(r))))), implies(B.at(q), H(q))) for B in sets]
            s.goal("the set is closed when the loop ends", H(q), *stay, not_(go), *lem, *rg, le(ZERO, l), lt(l, n),
                   H(l), self.link(d, q, l))
        finally:
            s.soft = old
        for x in names:
            env.d.pop(x, None)
        env.d[nm] = Arr((n,), C, "b")
        return None

    def where(self, it, nm, c, *ab):
        c = lib.to_arr(it, c)
        if ab or not (isinstance(c, Arr) and c.nd == 1 and it.same_dim(c.shape[0], self.n)):
            h = it.hooks.pop("call:" + nm)
            try:
                return lib.libcall(it, nm, [c, *ab], {})
            finally:
                it.hooks["call:" + nm] = h
        d = self.d(it)
        ok = lambda r: not_(self.lost(d, r))  # noqa: E731
        self.s.requires("the states from which d is reached for sure are listed", c, (self.n,), ok)
        a = Arr((self.cnt(d),), lambda t: self.e(d, t), "i")
        a.inverse = (lambda r: and_(self.inr(r), ok(r))), (lambda r: self.pos(d, r))
        return a if nm == "np.flatnonzero" else PList([a], "tuple")

    def solve(self, it, A, b):
        """Assumed: I - Q restricted to the states from which d is reached for sure is
        invertible, and solve returns the solution x of (I - Q) x = 1."""
        s, d = self.s, self.d(it)
        c = self.cnt(d)
        s.requires("the system of the first passage times", lib.to_arr(it, A), (c, c),
                   lambda i, l: sub(iv(eq(i, l)), self.psub(d, self.e(d, i), self.e(d, l))))
        s.requires("the right hand side is one", lib.to_arr(it, b), (c,), lambda i: ONE)
        x = lambda t: self.y(d, self.e(d, t))  # noqa: E731

        def at(t):
            if t.op == "app" and t.args[0] == "pos" and t.args[1] is d:
                r = t.args[2]  # e(d, pos(d, r)) = r
                return ite(and_(self.inr(r), not_(self.lost(d, r))), self.y(d, r), x(t))
            return x(t)
        a = Arr((c,), x, "f")
        a.at = at
        return a


class _Any(dict):
    """The same invariant for every while loop."""

    def __init__(self, f):
        self.f = f

    def get(self, key, default=None):
        return lambda it, st, env, *a: self.f(it, st, env) if not a else it.run_for(
            a[0], lambda v: it.assign(st.target, v, env), lambda: it.exec_stmts(list(st.body), env))


def reducible(empty, fill):
    def go(s):
        k, P, F = matrix(s, empty)
        s.assume(le(num(2), k))
        if empty != "none":
            F = s.define("F", (k, k), F, lemmas=lambda i, j: [le(ZERO, app("F", i, j))])
        ps = Passage(s, k, F)
        chain_object(s, k, F, num_communication_classes=s.size("nc", 2), num_recurrent_classes=s.size("nr", 1),
                     is_irreducible=False)
        p = Arr((k, k), P, "f")
        snap = s.snapshot(p)
        M = lib.to_arr(s.it, s.call("ergodic.mfpt", p, **({"fill_empty_classes": True} if fill else {}))).copy()
        inf = app("inf")
        s.goal("shape", len(M.shape) == 2 and and_(*[eq(x, k) for x in M.shape]))
        n, lost, y, psub = ps.n, ps.lost, ps.y, ps.psub
        r, j, l = fresh("r"), fresh("j"), fresh("l")
        rg = [le(ZERO, r), lt(r, n), le(ZERO, j), lt(j, k)]
        for cs, side, at in (("lower", lt(r, j), r), ("higher", le(j, r), add(r, ONE))):
            for what, is_lost, val in (("infinite where the chain may never arrive", lost(j, r), inf),
                                       ("finite elsewhere", not_(lost(j, r)), y(j, r))):
                hy = [*rg, side, is_lost]
                s.goal(f"{what} ({cs} states)", eq(s.under(M.at(at, j), *hy), val), *hy)
        m = lambda l, j: ite(lost(j, l), inf, y(j, l))
        via = lambda p, j: (lambda l: mul(iv(lt(ZERO, p(l))), p(l), m(l, j)))
        row = lambda j, r: (lambda l: psub(j, r, l))
        rg.append(not_(lost(j, r)))
        s.goal("from a state that surely arrives only such states are reached", not_(lt(ZERO, psub(j, r, l))),
               lost(j, l), le(ZERO, l), lt(l, n), *rg)
        # y(j, r) = 1 + the second of these sums (the system solved)
        s.sums_equal("first passage equations", n, via(row(j, r), j), lambda l: mul(iv(not_(lost(j, l))), psub(j, r, l), y(j, l)),
                     *rg, split=lambda l: [lt(ZERO, psub(j, r, l))], using=lambda l: [
                         not_(and_(lost(j, l), lt(ZERO, psub(j, r, l)))), le(ZERO, psub(j, r, l))])
        s.equals_sum("recurrence times", M.at(j, j), lambda v: add(ONE, v), n, via(lambda l: F(j, ps.u(j, l)), j),
                     le(ZERO, j), lt(j, k), split=lambda l: [lt(l, j), lost(j, l), lt(ZERO, F(j, ps.u(j, l)))])
        s.unchanged("argument unchanged", snap)
    return go


def reports(q, nd):
    """The chain objects report what the function q of this module gives for their
    matrices: Markov for p with empty rows filled, Spatial_Markov for p and for
    the matrix of each lag class.  nd: 1, a vector per matrix; 2, a matrix."""
    short = {"mfpt": ("mfpt", "f", "F"), "steady_state": ("steady_state", "s", "S")}[q]

    def prepare(s):
        k, m = s.size("k", 1), s.size("m", 1)
        pg, pc = s.fn("pg"), s.fn("pc")

        def contract(it, P, fill_empty_classes=False):
            P = lib.to_arr(it, P)
            for nm in ("pg", "pc"):
                l = slice_index(P, nm, 2)
                if l is not None:
                    return Arr((k,) * nd, lambda *i: app(f"res_{nm}_{'fill' if it.truth(fill_empty_classes) is TRUE else 'asis'}", *l, *i), "f")
            raise Unsupported(f"{q} of an unknown matrix")
        s.it.contracts["ergodic." + q] = contract
        return k, m, Arr((k, k), pg, "f"), Arr((m, k, k), pc, "f")

    def classic(s):
        k, m, p, P = prepare(s)
        o = Obj(s.it.get("markov.Markov"), {"p": p, "k": k})
        snap = s.snapshot(p)
        for when in ("", ", asked again"):
            s.equal(f"Markov.{short[0]}: of the filled matrix{when}", s.attr(o, short[0]), (k,) * nd, lambda *i: app("res_pg_fill", *i))
        s.unchanged("p is unchanged", snap)

    def spatial(s):
        k, m, p, P = prepare(s)
        o = Obj(s.it.get("markov.Spatial_Markov"), {"p": p, "P": P, "k": k, "m": m})
        snap = s.snapshot(p, P)
        for when in ("", ", asked again"):
            s.equal(f"Spatial_Markov.{short[1]}: of p{when}", s.attr(o, short[1]), (k,) * nd, lambda *i: app("res_pg_asis", *i))
            s.equal(f"Spatial_Markov.{short[2]}: of each lag class{when}", s.attr(o, short[2]), (m,) + (k,) * nd, lambda *i: app("res_pc_asis", *i))
        s.unchanged("p and P are unchanged", snap)
    return classic, spatial


def E02(R):
    def ergodic(s):
        c = Chain(s)
        c.use_inverse()
        k, P = c.k, c.P
        p = Arr((k, k), P, "f")
        snap = s.snapshot(p)
        M = lib.to_arr(s.it, s.call("ergodic._mfpt_ergodic", p)).copy()
        s.goal("shape", len(M.shape) == 2 and and_(*[eq(x, k) for x in M.shape]))
        s.forall("first passage equations", (k, k), lambda i, j: eq(M.at(i, j), add(ONE, sum_(
            ZERO, k, lambda l: mul(iv(not_(eq(l, j))), P(i, l), M.at(l, j))))))
        s.unchanged("argument unchanged", snap)
    R.case("_mfpt_ergodic", ergodic)
    R.case("_steady_state_ergodic", steady)
    R.case("mfpt, several classes", reducible("none", False))
    R.case("mfpt, several classes, filling requested", reducible("none", True))
    R.case("mfpt, several classes, filling", reducible("some", True))

    def irreducible(empty, fill):
        def go(s):
            k, P, F = matrix(s, empty)
            chain_object(s, k, F, num_communication_classes=ONE, num_recurrent_classes=ONE, is_irreducible=True)
            p = Arr((k, k), P, "f")
            snap = s.snapshot(p)

            def callee(it, A):
                s.requires("the first passage times of the filled matrix", lib.to_arr(it, A), (k, k), F)
                return Arr((k, k), lambda i, j: app("mf", i, j), "f")
            s.it.contracts["ergodic._mfpt_ergodic"] = callee
            M = s.call("ergodic.mfpt", p, **({"fill_empty_classes": True} if fill else {}))
            s.equal("one class: those of _mfpt_ergodic", M, (k, k), lambda i, j: app("mf", i, j))
            s.unchanged("argument unchanged", snap)
        return go
    R.case("mfpt, one class", irreducible("none", False))
    R.case("mfpt, one class, filling requested", irreducible("none", True))
    R.case("mfpt, one class, filling", irreducible("some", True))

    def rejected(s):
        k, P, F = matrix(s, "some")
        s.rejects("a matrix with an empty row is rejected", "ValueError", "ergodic.mfpt", Arr((k, k), P, "f"))
    R.case("mfpt, an empty row without filling", rejected)
    for w, f in zip(("Markov", "Spatial_Markov"), reports("mfpt", 2)):
        R.case(f"{w}: first passage times", f)


def E01(R):
    R.case("_steady_state_ergodic", steady)

    def stationary(fill, unique, method=False):
        def go(s):
            k, P, F = matrix(s, "any" if fill else "none")
            nr = ONE if unique else s.size("nr", 2)
            SD = s.fn("SD")
            chain_object(s, k, F, num_recurrent_classes=nr, num_communication_classes=s.size("nc"),
                         is_irreducible=app("irreducible", sort="B"), stationary_distributions=Arr((nr, k), SD, "f"))
            p = Arr((k, k), P, "f")
            snap = s.snapshot(p)
            r = s.call("ergodic.steady_state", p, **({"fill_empty_classes": True} if fill else {}))
            if unique:
                s.equal("the stationary distribution", r, (k,), lambda j: SD(ZERO, j))
            else:
                s.equal("a stationary distribution per recurrent class", r, (nr, k), SD)
            s.unchanged("argument unchanged", snap)
        return go
    for fill in (False, True):
        for unique in (True, False):
            R.case(f"steady_state, {'one recurrent class' if unique else 'several recurrent classes'}"
                   f"{', filling' if fill else ''}", stationary(fill, unique))

    def rejected(s):
        k, P, F = matrix(s, "some")
        s.rejects("a matrix with an empty row is rejected", "ValueError", "ergodic.steady_state", Arr((k, k), P, "f"))
    R.case("steady_state, an empty row without filling", rejected)
    for w, f in zip(("Markov", "Spatial_Markov"), reports("steady_state", 1)):
        R.case(f"{w}: steady states", f)
