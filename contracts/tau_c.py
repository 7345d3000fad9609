"""Contract of Tau: the counts of the search tree are the numbers of pairs.

X(i), Y(i): the observations in the order of the sort.  C(v, m), D(v, m): how
many of the first m have Y < v, Y <= v.  A node r of the tree is the first
observation with its value; lo(r) and hi(r) bound the values its subtree takes.
"""
import z3

from pyvc import hoare as H
from pyvc.hoare import And, Implies, Not, Or, forall

Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def flag(v):
    """Is the place still searched?"""
    return v.inserting if "inserting" in v._st.env else z3.BoolVal(True)


def iv(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


class Pairs:
    """Counts over the sorted observations, by recursion on how many are counted."""

    def __init__(self, x, y):
        self.x, self.y = x, y
        self.p = None
        self.count = {}
        f = self.define
        f("C", [R], lambda j, v: self.Y(j) < v)
        f("D", [R], lambda j, v: self.Y(j) <= v)
        f("CX", [R, R], lambda j, a, b: And(self.X(j) == a, self.Y(j) < b))
        f("EX", [R, R], lambda j, a, b: And(self.X(j) == a, self.Y(j) == b))
        f("con", [Z], lambda j, i: related("con", self, i, j))
        f("dis", [Z], lambda j, i: related("dis", self, i, j))
        f("tx", [Z], lambda j, i: related("tx", self, i, j))
        f("ty", [Z], lambda j, i: related("ty", self, i, j))
        self.total = {k: H.ffun("all_" + k, Z, Z) for k in ("con", "dis", "tx", "ty")}

    def X(self, i):
        return self.x(self.p(i))

    def Y(self, i):
        return self.y(self.p(i))

    def define(self, name, sorts, cond):
        g = H.ffun(name, *sorts, Z, Z)
        self.count[name] = (g, sorts, cond)
        setattr(self, name, lambda *a: g(*a))

    def start(self):
        return [forall(s, lambda *a: g(*a, z3.IntVal(0)) == 0, lambda *a: [g(*a, z3.IntVal(0))])
                for g, s, c in self.count.values()] + [t(z3.IntVal(0)) == 0 for t in self.total.values()]

    def step(self, m, *names):
        """The definitions at m + 1, for a natural number m."""
        out = []
        for nm in names or self.count:
            g, s, c = self.count[nm]
            out.append(forall(s, lambda *a: g(*a, m + 1) == g(*a, m) + iv(c(m, *a)), lambda *a: [g(*a, m + 1), g(*a, m)]))
        if not names:
            out += [t(m + 1) == t(m) + getattr(self, k)(m, m) for k, t in self.total.items()]
        return out

    def order(self, m):
        """Facts of C and D at m (lemmas)."""
        C, D = self.C, self.D
        return [forall([R], lambda v: And(0 <= C(v, m), C(v, m) <= D(v, m), D(v, m) <= m), lambda v: [C(v, m), D(v, m)]),
                forall([R, R], lambda v, w: Implies(v < w, D(v, m) <= C(w, m)), lambda v, w: [(D(v, m), C(w, m))])]

    def bounds(self, m, LO, HI):
        return [self.D(LO, m) == 0, self.C(HI, m) == m]


def related(k, P, i, j):
    xi, yi, xj, yj = P.X(i), P.Y(i), P.X(j), P.Y(j)
    return {"con": Or(And(xj < xi, yj < yi), And(xj > xi, yj > yi)), "dis": Or(And(xj < xi, yj > yi), And(xj > xi, yj < yi)),
            "tx": And(xj == xi, yj != yi), "ty": And(xj != xi, yj == yi)}[k]


def T01(Run):
    def body(e):
        e.deadline += 60
        e.patterns = True
        n = z3.Int("n")
        fx, fy = H.ffun("x", Z, R), H.ffun("y", Z, R)
        LO, HI = z3.Real("LO"), z3.Real("HI")
        P = Pairs(fx, fy)
        C, D, CX, EX = P.C, P.D, P.CX, P.EX
        e.axioms += [n >= 2, forall([Z], lambda j: And(LO < fy(j), fy(j) < HI), lambda j: [fy(j)])]

        def learn(v):
            """The sort is known once the loops are reached: lemmas about its order."""
            if P.p is not None:
                return
            P.p = v._st.g["sorted"].f
            X, Y, p = P.X, P.Y, P.p
            srt = [f for f in v._st.pc]
            e.axioms += P.start()
            quiet, e.quiet = e.quiet, 0
            # induction over m: what holds at 0, and at m + 1 if it holds at m
            m, i = H.fresh("m", Z), H.fresh("i", Z)
            ax = [0 <= m]
            induct(e, "counts and the order of values", m, ax + P.step(m, "C", "D"), lambda k: P.order(k) + P.bounds(k, LO, HI))
            at = ax + [m < i, i < n, X(m) <= X(i), Implies(X(m) == X(i), Y(m) <= Y(i))]
            induct(e, "pairs in terms of the counts", m, at + P.step(m), lambda k: pairs_are(P, i, k))
            prev = at + [X(m) <= X(i - 1), Implies(X(m) == X(i - 1), Y(m) <= Y(i - 1)), X(i - 1) <= X(i), Implies(
                X(i - 1) == X(i), Y(i - 1) <= Y(i))]
            induct(e, "ties with the one before", m, prev + P.step(m, "CX", "EX"), lambda k: ties(P, i, k))
            e.lemma("the observations are in order", srt + at[:3], And(*at[3:]))
            e.lemma("the one before is between", srt + at[:3], And(*prev[len(at):]))
            e.quiet = quiet

        def pairs_are(P, i, k):
            y, x = P.Y(i), P.X(i)
            return [P.tx(i, k) == CX(x, y, k), P.con(i, k) == C(y, k) - CX(x, y, k),
                    P.ty(i, k) == D(y, k) - C(y, k) - EX(x, y, k), P.dis(i, k) == k - D(y, k)]

        def ties(P, i, k):
            x, y, x0, y0 = P.X(i), P.Y(i), P.X(i - 1), P.Y(i - 1)
            return [Implies(x0 < x, And(CX(x, y, k) == 0, EX(x, y, k) == 0)),
                    Implies(And(x0 == x, y0 < y), And(CX(x, y, k) == CX(x0, y0, k) + EX(x0, y0, k), EX(x, y, k) == 0))]

        def induct(e, name, m, hyps, f):
            z = z3.IntVal(0)
            for j, g in enumerate(f(z)):
                e.lemma(f"{name}, none counted ({j + 1})", P.start(), g)
            for j, g in enumerate(f(m + 1)):
                e.lemma(f"{name}, one more counted ({j + 1})", hyps + f(m), g)

        def facts(v, i):
            """What the lemmas give at i (0 <= i)."""
            learn(v)
            return P.order(i) + P.bounds(i, LO, HI) + P.step(i) + P.order(i + 1)

        def tree(v, i, mid=None, struct=True):
            """The search tree of the first i observations.  mid: the node at which the
            insertion of i has arrived."""
            Y = P.Y
            T, lo, hi = v.tree.at, v.lo.at, v.hi.at
            li, ri, ld, nq = v.li.at, v.ri.at, v.ld.at, v.nequal.at
            node = lambda r: And(0 <= r, r < i, T(r))
            pat = lambda r: [T(r)]
            out = []
            more = lambda r: iv(And(r < mid, lo(r) < Y(i), Y(i) < Y(r))) if mid is not None else 0
            if struct:
                out += [
                    ("the first is the root", And(T(z3.IntVal(0)), lo(z3.IntVal(0)) == LO, hi(z3.IntVal(0)) == HI)),
                    ("a node lies between its bounds", forall([Z], lambda r: Implies(node(r), And(lo(r) < Y(r), Y(r) < hi(r), LO <= lo(r), hi(r) <= HI)), pat)),
                    ("no value below a node without lower ones", forall([Z], lambda r: Implies(And(node(r), li(r).none), C(Y(r), i) == D(lo(r), i)), pat)),
                    ("no value above a node without higher ones", forall([Z], lambda r: Implies(And(node(r), ri(r).none), C(hi(r), i) == D(Y(r), i)), pat)),
                    ("lower values are below", forall([Z], lambda r: Implies(And(node(r), Not(li(r).none)), And(
                        r < li(r).val, li(r).val < i, T(li(r).val), lo(li(r).val) == lo(r), hi(li(r).val) == Y(r))), pat)),
                    ("higher values are above", forall([Z], lambda r: Implies(And(node(r), Not(ri(r).none)), And(
                        r < ri(r).val, ri(r).val < i, T(ri(r).val), lo(ri(r).val) == Y(r), hi(ri(r).val) == hi(r))), pat)),
                    ("subtrees nest", forall([Z, Z], lambda a, b: Implies(And(node(a), node(b), a < b), Or(
                        And(lo(a) <= lo(b), hi(b) <= Y(a), Not(li(a).none), li(a).val <= b),
                        And(Y(a) <= lo(b), hi(b) <= hi(a), Not(ri(a).none), ri(a).val <= b),
                        hi(b) <= lo(a), lo(b) >= hi(a))), lambda a, b: [(T(a), T(b))])),
                    ("later ones are not in the tree", forall([Z], lambda r: Implies(r >= i, And(
                        Not(T(r)), li(r).none, ri(r).none, ld(r) == 0, nq(r) == 0)))),
                    ("equal values are counted", forall([Z], lambda r: Implies(node(r), nq(r) == z3.ToReal(D(Y(r), i) - C(Y(r), i) - 1)), pat)),
                ]
            out += [("lower values are counted", forall([Z], lambda r: Implies(node(r), ld(r) == z3.ToReal(C(Y(r), i) - D(lo(r), i) + more(r))), pat))]
            return out

        def outer(v):
            i = v.it + 1
            v._st.assume(*facts(v, i), Implies(i < n, And(*ties(P, i, i), *pairs_are(P, i, i))), *P.step(i - 1))
            X, Y = P.X, P.Y
            return tree(v, i) + [
                ("smaller with the same x", v.DCount == CX(X(i - 1), Y(i - 1), i - 1)),
                ("equal to the last one", v.ECount == EX(X(i - 1), Y(i - 1), i)),
            ] + [(f"{nm} pairs", getattr(v, nm) == H.conv(P.total[k](i), getattr(v, nm).sort())) for nm, k in (
                ("Concordant", "con"), ("Discordant", "dis"), ("ExtraY", "tx"), ("ExtraX", "ty"))]

        def inner(v):
            i = v.i
            Y = P.Y
            c = v.root
            en = v.entry
            NB, NE = H.real(v.NumBefore), H.real(v.NumEqual)
            ins = flag(v)
            same = forall([Z], lambda r: And(v.tree.at(r) == en.tree.at(r), v.lo.at(r) == en.lo.at(r), v.hi.at(r) == en.hi.at(r),
                                            v.li.at(r).none == en.li.at(r).none, v.li.at(r).val == en.li.at(r).val,
                                            v.ri.at(r).none == en.ri.at(r).none, v.ri.at(r).val == en.ri.at(r).val,
                                            v.nequal.at(r) == en.nequal.at(r)))
            out = [("the position is in the tree", And(0 <= c, c < i, v.tree.at(c))),
                   ("the value belongs below it", Implies(ins, And(v.lo.at(c) < Y(i), Y(i) < v.hi.at(c)))),
                   ("smaller values so far", Implies(ins, And(NB == z3.ToReal(D(v.lo.at(c), i)), NE == 1)))]
            out += [("while searching, " + nm, Implies(ins, f)) for nm, f in tree(v, i, c)]
            out += [("when done, " + nm, Implies(Not(ins), f)) for nm, f in tree(v, i + 1)]
            out += [("smaller values", Implies(Not(ins), NB == z3.ToReal(C(Y(i), i)))),
                    ("equal values", Implies(Not(ins), NE == z3.ToReal(1 + D(Y(i), i) - C(Y(i), i))))]
            return out
        inner.variant = lambda v: z3.If(flag(v), v.i - v.root, 0)
        outer.kind, inner.kind = "for", "while"
        e.loops["Tau._calc"] = [outer, inner]

        def grown(left):
            def hook(e, st, k, v):
                v = v.val if isinstance(v, H.Opt) else H.zz(v)
                T, lo, hi = st.g["tree"], st.g["lo"], st.g["hi"]
                t0, l0, h0, Y = T.at, lo.at, hi.at, P.Y
                for o in (T, lo, hi):
                    o.touch()
                T.at = lambda j: Or(j == v, t0(j))
                lo.at = lambda j: z3.If(j == v, l0(k) if left else Y(k), l0(j))
                hi.at = lambda j: z3.If(j == v, Y(k) if left else h0(k), h0(j))
            return hook
        e.stores.update(li=grown(True), ri=grown(False))
        x, y = H.SeqV(n, lambda i: fx(i), R), H.SeqV(n, lambda i: fy(i), R)
        g = {"tree": H.SeqV(n, lambda i: i == 0, B), "lo": H.SeqV(n, lambda i: LO, R), "hi": H.SeqV(n, lambda i: HI, R)}
        me = H.ObjV("Tau")
        v0 = x.ver, y.ver
        for kind, s, res in e.run_function("Tau.__init__", H.State({}, [], g), [me, x, y]):
            if kind == "raise":
                e.goal(s, False, "raises nothing")
                continue
            a = s.env["@args"]
            e.goal(s, z3.BoolVal((a[1].ver, a[2].ver) == v0), "the data are not changed", "frame")
            f = a[0].f
            tot = {k: z3.ToReal(P.total[k](n)) for k in P.total}
            for nm, k in (("concordant", "con"), ("discordant", "dis"), ("extraX", "ty"), ("extraY", "tx")):
                e.goal(s, H.real(f[nm]) == tot[k], f"{nm} is the number of such pairs")
            ux, uy = tot["con"] + tot["dis"] + tot["ty"], tot["con"] + tot["dis"] + tot["tx"]
            e.goal(s, H.real(f["tau"]) == (tot["con"] - tot["dis"]) / H.SQRT(ux * uy), "tau")
            N_ = z3.ToReal(n)
            z = f["tau"] / H.SQRT((4 * N_ + 10) / (9 * N_ * (N_ - 1)))
            pv = f["tau_p"]
            ok = H.is_z(pv) and z3.is_app(pv) and pv.decl().eq(H.ERFC)
            q = z3.RealVal("1.4142136")
            az = z3.If(z < 0, -z, z)
            e.goal(s, pv == H.ERFC(az / q) if not ok else Or(pv == H.ERFC(az / q), And(
                pv.arg(0) * z3.RealVal("1.414213") <= az, az <= pv.arg(0) * z3.RealVal("1.414214"))), "p-value: erfc(|z| / sqrt 2)")
    H.verify(Run, "Tau", "rank", body)
