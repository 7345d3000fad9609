"""Contracts of giddy.sequence."""
from fractions import Fraction

from contracts._common import *


def minimum(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ite(lt(t, r), t, r)
    return r


class Alignment:
    """OPT(i, j): the recursion solved by optimal matching; x has length t1, y t2
    (i elements of y, j elements of x); c the substitution costs, g the indel cost."""

    def __init__(self, s, name="OPT", x="x", y="y", t1="t1", t2="t2"):
        self.s = s
        self.k = s.size("k", 1, 3)
        self.t1, self.t2 = s.size(t1, 0, 3), s.size(t2, 0, 3)
        self.g = s.real("indel", sample=[0, 1, 2, Fraction(1, 2)])
        s.assume(le(ZERO, self.g))
        pick = lambda m, *a: m.rng.randrange(0, int(m.vals[var("k")]))
        self.x, self.y = s.fn(x, "I", facts=in_range(x, self.k), sample=pick), s.fn(y, "I", facts=in_range(y, self.k), sample=pick)
        self.C = s.fn("C", facts=nonneg("C"), sample=lambda m, a, b: m.rng.choice([0, 1, 2, Fraction(1, 2)]))
        self.c = lambda i, j: self.C(self.x(j), self.y(i))
        self.name = name
        self.opt = s.fn(name, sample=self.value)

    def value(self, m, i, j):
        g = m.vals[self.g]
        if i <= 0 or j <= 0:
            return g * (i + j)
        f = lambda a, b: m.fn(self.name, (a, b), "R")
        c = m.ev(self.c(num(i - 1), num(j - 1)), {})
        return min(f(i - 1, j - 1) + c, f(i, j - 1) + g, f(i - 1, j) + g)

    def rec(self, i, j):
        """The defining equations at (i, j)."""
        o, g = self.opt, self.g
        i, j = lift(i), lift(j)
        return [implies(eq(i, ZERO), eq(o(i, j), mul(g, j))), implies(eq(j, ZERO), eq(o(i, j), mul(g, i))),
                implies(and_(lt(ZERO, i), lt(ZERO, j)), eq(o(i, j), minimum(
                    add(o(sub(i, 1), sub(j, 1)), self.c(sub(i, 1), sub(j, 1))),
                    add(o(i, sub(j, 1)), g), add(o(sub(i, 1), j), g))))]

    def axioms(self, i, j):
        """The defining equations at (i, j), and those of the border next to it."""
        return self.rec(i, j) + [f for a, b in ((1, 1), (0, 1), (1, 0)) for f in self.rec(sub(i, a), sub(j, b))[:2]]


def Q01(R):
    def pair(s, lists):
        A = Alignment(s)
        C = Arr((A.k, A.k), A.C, "f")
        X, Y = (SList(A.t1, A.x), SList(A.t2, A.y)) if lists else (Arr((A.t1,), A.x, "i"), Arr((A.t2,), A.y, "i"))
        snap = s.snapshot(*([C] if lists else [X, Y, C]))
        s.it.claims.append(((add(A.t2, 1), add(A.t1, 1)), A.opt, A.axioms))
        o = Obj(s.get("sequence.Sequence"), {"subs_mat": C, "indel": A.g})
        D = s.call(s.attr(o, "_om_pair_dist"), X, Y)
        s.goal("table (shape)", and_(*[eq(a, b) for a, b in zip(D.shape, (add(A.t2, 1), add(A.t1, 1)))]) if D.nd == 2 else False)
        i, j = fresh("i"), fresh("j")
        s.goal("the table solves the recursion", eq(D.at(i, j), A.opt(i, j)), *A.rec(i, j), le(ZERO, i), le(i, A.t2),
               le(ZERO, j), le(j, A.t1))
        s.goal("the distance is the last entry", eq(s.it.getitem(s.it.getitem(D, [num(-1)]), [num(-1)]), A.opt(A.t2, A.t1)),
               *A.rec(A.t2, A.t1))
        s.unchanged("sequences and costs unchanged", snap)
    R.case("_om_pair_dist", lambda s: pair(s, False))
    R.case("_om_pair_dist of lists", lambda s: pair(s, True))

    def lemmas(s):
        """What the recursion computes: the least cost of an alignment.  An alignment
        is a lattice path from (0, 0): each step matches the next two elements, or
        inserts or deletes one."""
        A = Alignment(s)
        o, g, c = A.opt, A.g, A.c
        i, j = fresh("i"), fresh("j")
        s.sizes[i], s.sizes[j] = [0, 1, 2], [0, 1, 2]
        nat = lambda *ts: [le(ZERO, t) for t in ts]
        before = [(sub(i, 1), sub(j, 1)), (i, sub(j, 1)), (sub(i, 1), j)]

        def over_pairs(name, claim, extra=lambda i, j: []):
            """claim(i, j) for all i, j >= 0 by induction on i + j."""
            s.goal(f"{name}: nothing aligned yet", claim(ZERO, ZERO), *A.rec(ZERO, ZERO), *extra(ZERO, ZERO))
            s.goal(f"{name}: only insertions", claim(ZERO, j), claim(ZERO, sub(j, 1)), lt(ZERO, j), *A.rec(ZERO, j),
                   *A.rec(ZERO, sub(j, 1)), *extra(ZERO, j))
            s.goal(f"{name}: only deletions", claim(i, ZERO), claim(sub(i, 1), ZERO), lt(ZERO, i), *A.rec(i, ZERO),
                   *A.rec(sub(i, 1), ZERO), *extra(i, ZERO))
            s.goal(f"{name}: otherwise", claim(i, j), *[claim(a, b) for a, b in before], lt(ZERO, i), lt(ZERO, j),
                   *A.rec(i, j), *extra(i, j))

        over_pairs("distances are not negative", lambda a, b: le(ZERO, o(a, b)))
        # no alignment is cheaper
        pa, pb, cost = s.fn("pa", "I"), s.fn("pb", "I"), s.fn("cost")
        up = lambda m: add(m, 1)
        moves = lambda m: or_(
            and_(eq(pa(up(m)), add(pa(m), 1)), eq(pb(up(m)), add(pb(m), 1)), eq(cost(up(m)), add(cost(m), c(pa(m), pb(m))))),
            and_(eq(pa(up(m)), pa(m)), eq(pb(up(m)), add(pb(m), 1)), eq(cost(up(m)), add(cost(m), g))),
            and_(eq(pa(up(m)), add(pa(m), 1)), eq(pb(up(m)), pb(m)), eq(cost(up(m)), add(cost(m), g))))
        L = s.size("L", 0, 3)
        s.induction("no alignment is cheaper", L, lambda m: and_(
            le(o(pa(m), pb(m)), cost(m)), le(ZERO, pa(m)), le(ZERO, pb(m))),
            [eq(pa(ZERO), ZERO), eq(pb(ZERO), ZERO), eq(cost(ZERO), ZERO), *A.rec(ZERO, ZERO)],
            step=lambda m: [moves(m), *A.rec(pa(up(m)), pb(up(m))), *A.rec(pa(m), pb(m))[:2]])
        # some alignment has this cost
        cost_of = lambda a, b, v: app("reached", a, b, real(v), sort="B")
        over_pairs("an alignment of this cost exists", lambda a, b: cost_of(a, b, o(a, b)), lambda a, b: [
            implies(eq(o(ZERO, ZERO), ZERO), cost_of(ZERO, ZERO, o(ZERO, ZERO)))] + [
            implies(cost_of(u, v, o(u, v)), cost_of(a, b, add(o(u, v), w)))
            for u, v, w in ((sub(a, 1), sub(b, 1), c(sub(a, 1), sub(b, 1))), (a, sub(b, 1), g), (sub(a, 1), b, g))
            if u is not sub(ZERO, 1) and v is not sub(ZERO, 1)])
        # with symmetric costs the order of the two sequences does not matter
        back = lambda a, b: app("BACK", a, b)
        s.samplers["BACK"] = lambda m, a, b: m.fn("OPT", (b, a), "R")
        sym = lambda a, b: [
            implies(eq(a, ZERO), eq(back(b, a), mul(g, b))), implies(eq(b, ZERO), eq(back(b, a), mul(g, a))),
            implies(and_(lt(ZERO, a), lt(ZERO, b)), eq(back(b, a), minimum(
                add(back(sub(b, 1), sub(a, 1)), A.C(A.y(sub(a, 1)), A.x(sub(b, 1)))),
                add(back(b, sub(a, 1)), g), add(back(sub(b, 1), a), g))))] + [
            eq(A.C(A.y(sub(a, 1)), A.x(sub(b, 1))), A.C(A.x(sub(b, 1)), A.y(sub(a, 1))))]
        over_pairs("the distance is symmetric", lambda a, b: eq(back(b, a), o(a, b)), sym)
        # equal sequences
        n = s.size("len", 0, 3)
        s.induction("equal sequences have distance 0", n, lambda m: and_(eq(o(m, m), ZERO)),
                    [*A.rec(ZERO, ZERO)], step=lambda m: [
                        *A.rec(up(m), up(m)), eq(A.x(m), A.y(m)), eq(A.C(A.x(m), A.x(m)), ZERO),
                        le(ZERO, o(m, up(m))), le(ZERO, o(up(m), m))])
    R.case("recursion", lemmas)

    def matrix(s, ragged):
        k, n = s.size("k", 1, 3), s.size("n", 1, 4)
        if ragged:
            T = s.fn("len", "I", facts=lambda a: [le(ZERO, app("len", a, sort="I"))])
        else:
            t = s.size("t", 1, 3)
            T = lambda a: t
        y = s.fn("y", "I", facts=in_range("y", k), sample=lambda m, *a: m.rng.randrange(0, int(m.vals[k])))
        Y = lib.ObjArr(n, lambda a: SList(T(a), lambda p: y(a, p))) if ragged else Arr((n, t), y, "i")
        C = Arr((k, k), s.fn("C", facts=nonneg("C")), "f")
        g = s.real("indel")
        # classes of equal sequences: cls(a) is the class of sequence a, rep(c) a member of class c
        U = s.size("U", 1, 3)
        cls = s.fn("cls", "I", facts=in_range("cls", U))
        rep = s.fn("rep", "I", facts=lambda c: [
            implies(and_(le(ZERO, c), lt(c, U)), and_(le(ZERO, app("rep", c, sort="I")), lt(app("rep", c, sort="I"), n),
                                                    eq(app("cls", app("rep", c, sort="I"), sort="I"), c)))])
        # the distance of two sequences, a function of their contents (hence of their
        # classes), symmetric, and 0 for equal ones: "recursion" above
        dist = s.fn("dist", facts=lambda a, b: [
            eq(app("dist", a, b), app("DC", cls(a), cls(b))), implies(eq(cls(a), cls(b)), eq(app("dist", a, b), ZERO))])
        s.ctx.facts["DC"] = lambda c, e: [eq(app("DC", c, e), app("DC", e, c)), implies(eq(c, e), eq(app("DC", c, e), ZERO))]

        def row(seq):
            """a, if the sequence is y(a, 0), .., y(a, T(a) - 1)"""
            p = fresh("p")
            b = lift(lib.seq_get(s.it, seq, p) if isinstance(seq, (SList, PList)) else seq.at(p))
            if b.op == "app" and b.args[0] == "y" and b.args[2] is p and p not in fv(b.args[1]) and \
                    s.it.same_dim(lib.ilen(s.it, seq), T(b.args[1])):
                return b.args[1]
            return None

        def unique(it, v, kw):
            # distinct strings, hence distinct sequences: joining numerals with a
            # separator that is not part of one is injective
            j = fresh("j")
            st = v.get(j) if isinstance(v, SList) else None
            if not isinstance(st, lib.Joined) or not st.sep or any(ch in "-0123456789" for ch in st.sep) or \
                    kw.get("return_index") is not True or set(kw) - {"axis", "return_index"}:
                raise Unsupported("np.unique")
            if row(st.items) is not j or not it.same_dim(v.n, n):
                raise Unsupported("np.unique of other strings")
            return PList([SList(U, lambda c: opq("string", c)), Arr((U,), rep, "i")], "tuple")

        def dictionary(it, v):
            c = fresh("c")
            key, w = it.items(v.get(c))
            if not isinstance(key, (SList, PList)) or not it.same_dim(v.n, U):
                return None
            if row(key) is not rep(c) or lift(w) is not c:
                raise Unsupported("dictionary of sequences")

            def lookup(key):
                a = row(key)
                if a is None:
                    raise Unsupported("look-up of an unknown sequence")
                s.requires_all("the key is one of the sequences", (), lambda: and_(le(ZERO, a), lt(a, n)))
                return cls(a)
            return lib.KeyMap(lookup)

        def pair_dist(it, o, a, b):
            """Contract of _om_pair_dist."""
            p = fresh("p")
            ia, ib = row(a), row(b)
            if ia is None or ib is None:
                raise Unsupported("sequences of a pair")
            corner = lambda i, j: and_(eq(i, T(ib)), eq(j, T(ia)))
            return Arr((add(T(ib), 1), add(T(ia), 1)), lambda i, j: ite(corner(i, j), dist(ia, ib), app("cell", i, j, ia, ib)), "f")
        s.it.hooks.update({"unique_kw": unique, "dict": dictionary})
        s.it.contracts["sequence.Sequence._om_pair_dist"] = pair_dist
        snap = s.snapshot(*([C] if ragged else [Y, C]))
        o = Obj(s.get("sequence.Sequence"), {"subs_mat": C, "indel": g, "n": n, "k": k})
        s.call(s.attr(o, "_om_dist"), Y)
        s.equal("distance matrix", s.attr(o, "seq_dis_mat"), (n, n), dist)
        s.unchanged("sequences and costs unchanged", snap)
    R.case("_om_dist, sequences of equal length", lambda s: matrix(s, False))
    R.case("_om_dist, sequences of any lengths", lambda s: matrix(s, True))


def Q02(R):
    def setup(s):
        n, t, k = s.size("n", 1, 4), s.size("t", 1, 3), s.size("k", 1, 3)
        cls = labels("cls", k, True)
        pos = s.fn("pos", "I", facts=in_range("pos", k), sample=lambda m, *a: m.rng.randrange(0, int(m.vals[k])))
        Y = Arr((n, t), lambda a, p: cls(pos(a, p)), "i")
        s.it.hooks["chain"] = lambda it, v: v if v is Y else None
        s.it.hooks["unique"] = all_used(s, "cls", k, cls, n, t)
        s.given = []

        def om(it, o, y_int):
            """Contract of _om_dist (Q01), for the costs in force at the call."""
            s.given.append((lib.to_arr(it, y_int).copy(), s.attr(o, "subs_mat").copy(), s.attr(o, "indel")))
            o.attrs["seq_dis_mat"] = Arr((n, n), lambda a, b: app("DIST", a, b), "f")
        s.it.contracts["sequence.Sequence._om_dist"] = om

        def chain(it, self, y, *a, **kw):
            """Contract of Markov (M01, M02): p holds the transition probabilities of
            the sequences, whose states are 0, .., k-1."""
            if a or kw:
                raise Unsupported("Markov with arguments")
            s.requires("Markov is given the sequences", y, (n, t), pos)
            self.attrs["p"] = Arr((k, k), lambda a, b: app("P", a, b), "f")
        s.it.contracts["markov.Markov.__init__"] = chain
        return n, t, k, cls, pos, Y

    def common(s, o, cls, k, Y, snap):
        s.equal("classes are the sorted states", s.attr(o, "classes"), (k,), cls)
        s.unchanged("sequences unchanged", snap)

    def matching(kind, indel, cost):
        def go(s):
            n, t, k, cls, pos, Y = setup(s)
            snap = s.snapshot(Y)
            o = s.call("sequence.Sequence", Y, dist_type=kind)
            s.goal("one matching", len(s.given) == 1)
            y, C, g = s.given[0]
            s.equal("states matched", y, (n, t), pos)
            s.equal("substitution costs in force", C, (k, k), lambda i, j: cost(i, j, k))
            s.goal("indel cost in force", eq(real(lift(g)), real(lift(indel(k)))))
            s.equal("substitution costs reported", s.attr(o, "subs_mat"), (k, k), lambda i, j: cost(i, j, k))
            s.goal("indel cost reported", eq(real(lift(s.attr(o, "indel"))), real(lift(indel(k)))))
            s.equal("distances", s.attr(o, "seq_dis_mat"), (n, n), lambda a, b: app("DIST", a, b))
            common(s, o, cls, k, Y, snap)
        return go
    P = lambda i, j: app("P", i, j)
    off = lambda i, j, v: ite(eq(i, j), ZERO, v)
    one = lambda k: 1
    kinds = {"interval": (lambda k: sub(k, 1), lambda i, j, k: lib.abs_(sub(i, j))),
             "arbitrary": (one, lambda i, j, k: off(i, j, div(1, 2))),
             "markov": (one, lambda i, j, k: off(i, j, sub(1, div(add(P(i, j), P(j, i)), 2))))}
    for kind, (indel, cost) in kinds.items():
        R.case(kind, matching(kind, indel, cost))
        R.case(kind.upper(), matching(kind.upper(), indel, cost))

    def given(s):
        n, t, k, cls, pos, Y = setup(s)
        C, g = Arr((k, k), s.fn("C"), "f"), s.real("g")
        snap = s.snapshot(Y, C)
        o = s.call("sequence.Sequence", Y, subs_mat=C, indel=g)
        s.goal("one matching", len(s.given) == 1)
        y, C2, g2 = s.given[0]
        s.equal("states matched", y, (n, t), pos)
        s.equal("substitution costs in force", C2, (k, k), C.at)
        s.goal("indel cost in force", eq(real(lift(g2)), g))
        common(s, o, cls, k, Y, snap)
    R.case("costs given", given)

    def hamming(s):
        n, t, k, cls, pos, Y = setup(s)
        snap = s.snapshot(Y)
        o = s.call("sequence.Sequence", Y, dist_type="hamming")
        s.equal("number of differing positions", s.attr(o, "seq_dis_mat"), (n, n), lambda a, b: sm(
            lambda p: iv(not_(eq(pos(a, p), pos(b, p)))), t))
        common(s, o, cls, k, Y, snap)
    R.case("hamming", hamming)

    def missing(s):
        n, t, k, cls, pos, Y = setup(s)
        s.rejects("neither costs nor a distance type", "ValueError", "sequence.Sequence", Y)
        s.rejects("substitution costs without an indel cost", "ValueError", "sequence.Sequence", Y, subs_mat=Arr((k, k), s.fn("C"), "f"))
        s.rejects("an indel cost without substitution costs", "ValueError", "sequence.Sequence", Y, indel=s.real("g"))
    R.case("missing specification", missing)
