"""Contracts of giddy.directional."""
import math
from fractions import Fraction

from contracts._common import *

PI = app("pi")


class RoseData:
    """A panel Y (n units, t periods), weights with dense form W, and what the rose
    of a panel is."""

    def __init__(self, s, k=None):
        self.s = s
        self.n, self.t = s.size("n", 1), s.size("t", 2, 3)
        self.k = s.size("k", 1, 5) if k is None else num(k)
        self.y, self.W = s.fn("y"), s.fn("W")
        self.w = Obj("W", {"n": self.n, "sparse": Arr((self.n, self.n), self.W, "f")})
        self.Y = Arr((self.n, self.t), self.y, "f")

    def spec(self, y):
        """own change, lag, lag change, length, angle, sector counts of the panel y"""
        n, t, k, W = self.n, self.t, self.k, self.W
        lag = lambda i, p: sm(lambda l: mul(W(i, l), y(l, p)), n)
        dx = lambda i: sub(y(i, sub(t, 1)), y(i, ZERO))
        dy = lambda i: sub(lag(i, sub(t, 1)), lag(i, ZERO))
        r = lambda i: app("sqrt", add(mul(dx(i), dx(i)), mul(dy(i), dy(i))))
        theta = lambda i: app("arctan2", dy(i), dx(i))
        # the angle in [0, 2 pi]
        ang = lambda i: ite(lt(theta(i), ZERO), add(mul(2, PI), theta(i)), theta(i))
        cut = lambda a: mul(2, PI, a, inv(k))
        inside = lambda i, a: and_(le(cut(a), ang(i)), or_(lt(ang(i), cut(add(a, 1))),
                                                           and_(eq(a, sub(k, 1)), eq(ang(i), cut(add(a, 1))))))
        counts = lambda a: sm(lambda i: iv(inside(i, a)), n)
        return lag, dx, dy, r, theta, ang, cut, inside, counts

    def results(self, y):
        lag, dx, dy, r, theta, ang, cut, inside, counts = self.spec(y)
        n, t, k = self.n, self.t, self.k
        return {"counts": ((k,), counts), "theta": ((n,), theta), "bins": ((add(k, 1),), cut), "r": ((n,), r),
                "lag": ((n, t), lag), "dx": ((n,), dx), "dy": ((n,), dy)}


def D01(R):
    def calc(s):
        # the contract of _calc, for any panel
        d = RoseData(s)
        n, t, k = d.n, d.t, d.k
        lag, dx, dy, r, theta, ang, cut, inside, counts = d.spec(d.y)
        snap = s.snapshot(d.Y, d.w.attrs["sparse"])
        o = Obj(s.get("directional.Rose"), {"Y": d.Y, "w": d.w, "k": k, "cuts": Arr((add(k, 1),), cut, "f")})
        res = s.call(s.attr(o, "_calc"), d.Y, d.w, k)
        for name, (shape, fn) in d.results(d.y).items():
            s.equal(name, s.it.getitem(res, [name]), shape, fn)
        s.goal("no attribute is set", set(o.attrs) == {"Y", "w", "k", "cuts"})
        s.unchanged("panel and weights unchanged", snap)
    R.case("_calc", calc)

    def rose(s):
        d = RoseData(s)
        n, t, k = d.n, d.t, d.k
        lag, dx, dy, r, theta, ang, cut, inside, counts = d.spec(d.y)
        snap = s.snapshot(d.Y, d.w.attrs["sparse"])
        o = s.call("directional.Rose", d.Y, d.w, k)
        s.equal("lag", s.attr(o, "lag"), (n, t), lag)
        s.equal("length of the movement vector", s.attr(o, "r"), (n,), r)
        s.equal("direction of the movement vector", s.attr(o, "theta"), (n,), theta)
        s.equal("k equal sectors from 0", s.attr(o, "cuts"), (add(k, 1),), cut)
        s.equal("sectors counted", s.attr(o, "bins"), (add(k, 1),), cut)
        s.equal("units per sector", s.attr(o, "counts"), (k,), counts)
        s.unchanged("panel and weights unchanged", snap)
    R.case("Rose", rose)

    def sectors(s):
        # lemmas about the sectors: every angle lies in exactly one of them
        n, k = s.size("n", 1), s.size("k", 1, 5)
        ang = s.fn("ang", facts=lambda i: [le(ZERO, app("ang", i)), le(app("ang", i), mul(2, PI))],
                   sample=lambda m, i: m.rng.choice([0, 1, 2, 3, 6, Fraction(2 * math.pi)]))
        cut = s.define("cut", (add(k, 1),), lambda j: mul(2, PI, j, inv(k)), lemmas=lambda j: [
            le(app("cut", j), mul(2, PI)), le(ZERO, app("cut", j)), implies(eq(j, ZERO), eq(app("cut", j), ZERO)),
            implies(eq(j, k), eq(app("cut", j), mul(2, PI))), lt(app("cut", j), mul(2, PI, add(j, 1), inv(k)))])
        # reached(i, j): the angle is at or above the start of sector j
        reached = s.define("reached", (n, add(k, 1)), lambda i, j: iv(le(cut(j), ang(i))), lemmas=lambda i, j: [
            implies(eq(j, ZERO), eq(app("reached", i, j), 1))])
        below = lambda i, j: and_(le(cut(j), ang(i)), lt(ang(i), cut(add(j, 1))))
        inside = lambda i, j: or_(below(i, j), and_(eq(j, sub(k, 1)), eq(ang(i), cut(k))))
        # the last sector is closed
        c = s.define("c", (n, k), lambda i, j: iv(inside(i, j)), lemmas=lambda i, j: [
            eq(app("c", i, j), add(reached(i, j), neg(reached(i, add(j, 1))), mul(iv(eq(j, sub(k, 1))), reached(i, k))))])
        u = fresh("u")
        H = s.induction("an angle lies in one of the first m sectors, or above them", k, lambda m: eq(
            sum_(ZERO, m, lambda j: c(u, j)), add(ONE, neg(reached(u, m)), mul(iv(eq(m, k)), reached(u, k)))),
            [le(ZERO, u), lt(u, n)])
        s.goal("each angle lies in exactly one sector", eq(sum_(ZERO, k, lambda j: c(u, j)), 1),
               H(k), le(ZERO, u), lt(u, n))
        one = s.fn("one", facts=lambda i: [eq(app("one", i), 1)])
        s.goal("every unit is counted once: the total is the number of units", eq(sm(one, n), n))
        s.goal("the counts add up unit by unit", eq(
            sum_(ZERO, k, lambda j: sum_(ZERO, n, lambda i: c(i, j))),
            sum_(ZERO, n, lambda i: sum_(ZERO, k, lambda j: c(i, j)))))
    R.case("sectors", sectors)


def D02(R):
    def permuted(k, alternative, again):
        def go(s):
            d = RoseData(s, k)
            n, t, k_ = d.n, d.t, d.k
            m = s.size("m", 1, 3)
            lag, dx, dy, r, theta, ang, cut, inside, counts = d.spec(d.y)
            snap = s.snapshot(d.Y, d.w.attrs["sparse"])
            o = s.call("directional.Rose", d.Y, d.w, k_)
            first = lambda i: i
            OC = s.define("OC", (k_,), counts)

            def q(z):
                # the reordering of permutation z
                f, args = s.it.perms[-1][0], (add(z, 1) if s.it.perms[-1][0].startswith("cum") else z,)
                return lambda i: first(app(f, *args, i, sort="I"))
            # panel and sector counts of permutation z
            RY = s.define("RY", (n, t), lambda z, i, p: d.y(q(z)(i), p), params=(m,), fold=False)
            PC = s.define("PC", (k_,), lambda z, a: d.spec(lambda i, p: RY(z, i, p))[-1](a), params=(m,), fold=False)

            def calc(it, o, Y, w, k2):
                """Contract of _calc (proved in D01)."""
                s.requires("_calc: sectors", s.attr(o, "cuts"), (add(k_, 1),), cut)
                s.goal("_calc: weights and number of sectors", and_(TRUE if w is d.w else FALSE, eq(lift(k2), k_)))
                if not it.loop_vars:
                    s.equal("the observed panel", Y, (n, t), d.y)
                    res, c = d.results(d.y), OC
                else:
                    z = it.loop_vars[-1][0]
                    s.equal("the panel of a permutation is a reordering of the observed one", Y, (n, t), lambda i, p: RY(z, i, p))
                    res, c = d.results(lambda i, p: RY(z, i, p)), lambda a: PC(z, a)
                out = {name: Arr(shape, fn, "f") for name, (shape, fn) in res.items()}
                out["counts"] = Arr((k_,), c, "i")
                return PDict(out)
            s.it.contracts["directional.Rose._calc"] = calc
            if again:
                # any number of earlier calls: the panel they stopped at is a
                # reordering of the observed one (the invariant proved below)
                injective("prev")
                first = s.fn("prev", "I", facts=in_range("prev", n), sample=lambda m, i: (int(i) + 1) % int(m.vals[var("n")]))
                o.attrs["_rY"] = Arr((n, t), lambda i, p: d.y(first(i), p), "f")
            s.call(s.attr(o, "permute"), m, alternative)
            s.equal("sector counts of each permutation", s.attr(o, "counts_perm"), (m, k_), PC)
            sim = PC
            big = lambda a: sm(lambda z: iv(le(OC(a), sim(z, a))), m)
            small = lambda a: sm(lambda z: iv(le(sim(z, a), OC(a))), m)
            s.equal("larger counts", s.attr(o, "larger_perm"), (k_,), big)
            s.equal("smaller counts", s.attr(o, "smaller_perm"), (k_,), small)
            s.equal("expected counts", s.attr(o, "expected_perm"), (k_,), lambda a: div(sm(lambda z: sim(z, a), m), m))
            P = lambda a: div(add(big(a), 1), add(m, 1))
            S = lambda a: div(add(small(a), 1), add(m, 1))
            if alternative.upper().startswith("TWO"):
                p = lambda a: ite(lt(P(a), div(1, 2)), mul(2, P(a)), mul(2, sub(1, P(a))))
            else:
                # sectors in which own value and lag move in the same direction
                same = {8: (0, 1, 4, 5), 4: (0, 2)}[k]
                good = [a in same for a in range(k)]
                if alternative.upper() == "NEGATIVE":
                    good = [not g for g in good]

                p = lambda a: P(num(a)) if good[a] else S(num(a))
            if k is None:
                s.equal("p-values", s.attr(o, "p"), (k_,), p)
            else:
                ps = s.attr(o, "p")
                s.goal("p-values (shape)", and_(*[eq(x, y) for x, y in zip(ps.shape, (k_,))]) if ps.nd == 1 else False)
                for a in range(k):
                    s.goal(f"p-value of sector {a + 1}", eq(ps.at(num(a)), p(a)))
            s.goal("the alternative is kept", s.attr(o, "alternative") == alternative)
            # the observed rose
            s.equal("observed panel", s.attr(o, "Y"), (n, t), d.y)
            s.equal("observed lag", s.attr(o, "lag"), (n, t), lag)
            s.equal("observed lengths", s.attr(o, "r"), (n,), r)
            s.equal("observed angles", s.attr(o, "theta"), (n,), theta)
            s.equal("observed counts", s.attr(o, "counts"), (k_,), counts)
            s.equal("sectors", s.attr(o, "cuts"), (add(k_, 1),), cut)
            # the invariant for later calls: a reordering of the observed panel
            if "_rY" in o.attrs:
                s.equal("where the next call goes on from", s.attr(o, "_rY"), (n, t), lambda i, p: d.y(q(sub(m, 1))(i), p))
            s.unchanged("panel and weights unchanged", snap)
        return go
    for again in (False, True):
        for k, alt in ((None, "two.sided"), (8, "positive"), (8, "negative"), (4, "positive"), (4, "negative")):
            R.case(f"permute({alt!r}), k = {k or 'any'}, {'later calls' if again else 'first call'}", permuted(k, alt, again))
