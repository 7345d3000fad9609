"""Contracts of giddy.markov: Markov, Spatial_Markov and helpers."""
from contracts._common import *


def panel(s, mono=False, prefix=""):
    """A panel: unit u is at period p in class label cls(idx(u, p))."""
    n, t, K = s.size(prefix + "n"), s.size(prefix + "t", 2), s.size(prefix + "K")
    idx = s.fn(prefix + "idx", "I", facts=in_range(prefix + "idx", K), sample=size_of(prefix + "K"))
    cls = labels(prefix + "cls", K, mono)
    return n, t, K, idx, cls


def counted(n, t, idx):
    return lambda a, b: sm(lambda p, u: mul(iv(eq(idx(u, p), a)), iv(eq(idx(u, add(p, ONE)), b))), sub(t, 1), n)


def M01(R):
    def given(s):
        opaque_lib(s, "quantecon.MarkovChain")
        n, t, K, idx, cls = panel(s)
        ids = Arr((n, t), lambda u, p: cls(idx(u, p)), "f")
        classes = Arr((K,), cls, "f")
        snap = s.snapshot(ids, classes)
        mk_ = s.call("markov.Markov", ids, classes=classes)
        C = counted(n, t, idx)
        T = s.attr(mk_, "transitions")
        s.equal("counts", T, (K, K), C)
        s.goal("number of classes", eq(s.attr(mk_, "k"), K))
        s.goal("counts sum to n(t-1)", eq(sm(lambda a, b: C(a, b), K, K), mul(n, sub(t, 1))))
        s.equal("classes", s.attr(mk_, "classes"), (K,), cls)
        s.unchanged("panel and classes unchanged", snap)
    R.case("Markov, classes given", given)

    def inferred(s):
        opaque_lib(s, "quantecon.MarkovChain")
        n, t, K, idx, cls = panel(s, True, "w")
        # without loss of generality every label occurs (labels are the distinct values)
        ids = Arr((n, t), lambda u, p: cls(idx(u, p)), "f")
        c = fresh("c")
        s.full_unique = True
        snap = s.snapshot(ids)
        s.it.hooks["unique"] = all_used(s, "wcls", K, cls, n, t)
        mk_ = s.call("markov.Markov", ids)
        C = counted(n, t, idx)
        s.equal("counts", s.attr(mk_, "transitions"), (K, K), C)
        s.goal("number of classes", eq(s.attr(mk_, "k"), K))
        s.equal("classes are the sorted labels", s.attr(mk_, "classes"), (K,), cls)
        s.unchanged("panel unchanged", snap)
    R.case("Markov, classes inferred", inferred)


def chain_defs(s, n, t, K, idx):
    """Counts, row totals and probabilities of the panel's chain."""
    C0 = counted(n, t, idx)
    C = s.define("C", (K, K), C0, lemmas=lambda a, b: [le(ZERO, app("C", a, b))])
    pos = s.fn("C0", facts=nonneg("C0"), sample=count)
    a, b = fresh("a"), fresh("b")
    s.goal("a cell of an empty row is empty", eq(pos(a, b), ZERO), le(ZERO, b), lt(b, K),
           eq(sm(lambda v: pos(a, v), K), ZERO))
    Rw = s.define("Rw", (K,), lambda a: sm(lambda b: C(a, b), K), lemmas=lambda a: [le(ZERO, app("Rw", a))])
    old = s.ctx.facts["C"]
    s.ctx.facts["C"] = lambda a, b: old(a, b) + [
        implies(and_(le(ZERO, b), lt(b, K), eq(Rw(a), ZERO)), eq(C(a, b), ZERO))]
    return C, Rw


def probability_defs(s, K, C, Rw, suffix=""):
    """Row-normalised counts and their filled version."""
    P = s.define("P", (K, K), lambda a, b: ite(eq(Rw(a), ZERO), ZERO, div(C(a, b), Rw(a))))
    PS = s.define("PS", (K,), lambda a: iv(not_(eq(Rw(a), ZERO))))
    FP = s.define("FP", (K, K), lambda a, b: ite(eq(Rw(a), ZERO), iv(eq(a, b)), P(a, b)))
    FPS = s.define("FPS", (K,), lambda a: ONE)
    s.forall("the probabilities of a row with data sum to one, of an empty one to zero", (K,),
             lambda a: eq(sm(lambda b: P(a, b), K), PS(a)))
    s.forall("the filled probabilities of every row sum to one", (K,),
             lambda a: eq(sm(lambda b: FP(a, b), K), ONE))
    s.forall("a row whose transitions all go to one class has probability one there", (K, K), lambda a, b: implies(
        and_(eq(C(a, b), Rw(a)), not_(eq(Rw(a), ZERO))), eq(P(a, b), ONE)))
    return P, FP


def M02(R):
    def body(fill):
        def go(s):
            opaque_lib(s, "quantecon.MarkovChain")
            n, t, K, idx, cls = panel(s)
            C, Rw = chain_defs(s, n, t, K, idx)
            P, FP = probability_defs(s, K, C, Rw)
            ids = Arr((n, t), lambda u, p: cls(idx(u, p)), "f")
            classes = Arr((K,), cls, "f")
            mk_ = s.call("markov.Markov", ids, classes=classes, fill_empty_classes=fill)
            s.equal("counts", s.attr(mk_, "transitions"), (K, K), C)
            s.equal("probabilities", s.attr(mk_, "p"), (K, K), FP if fill else P)
        return go
    R.case("Markov without filling", body(False))
    R.case("Markov with filling", body(True))
    for fill in (False, True):
        spatial_probabilities(R, fill)


def M05(R):
    def sojourn(s):
        k = s.size("k")
        # absorbing states, and ones that are left but hardly ever
        M = s.fn("M", facts=nonneg("M"), sample=lambda m, i, j: m.rng.choice(
            [0, 0, 0, Fraction(1, 2), 1, 1, 1 - Fraction(1, 10 ** 7), 1 - Fraction(1, 10 ** 9)]))
        p = Arr((k, k), M, "f")
        Z = s.define("Z", (k,), lambda i: sm(lambda v: M(i, v), k))
        snap = s.snapshot(p)
        r = s.call("markov.sojourn_time", p)
        # staying probability, that of an empty row being one
        stay = lambda i: ite(eq(Z(i), ZERO), ONE, M(i, i))
        s.equal("sojourn time", r, (k,), lambda i: ite(
            eq(stay(i), ONE), app("inf"), div(ONE, sub(ONE, stay(i)))))
        s.unchanged("the matrix is unchanged", snap)
    R.case("sojourn_time", sojourn)

    def mobility(s):
        k = s.size("k")
        M = s.fn("M")
        p = Arr((k, k), M, "f")
        snap = s.snapshot(p)
        r = s.call("markov.prais", p)
        s.equal("Prais measure", r, (k,), lambda i: sub(ONE, M(i, i)))
        s.unchanged("the matrix is unchanged", snap)
    R.case("prais", mobility)


def markov_contract(s, K0=None, cls0=None, member0=None):
    """The contract of Markov.__init__ established by M01 and M02, used at calls:
    for a panel of labels among cls(0), .., cls(K-1), each satisfying member,
    transitions counts the pairs of consecutive labels and p normalises the rows.
    Without K the call must give a short list of distinct classes."""
    def contract(it, self, class_ids, classes=None, fill_empty_classes=False, summary=True):
        K, cls, member = K0, cls0, member0
        ids = lib.to_arr(it, class_ids).copy()
        n, t = ids.shape
        kind = "i"
        if K is None:
            cl = lib.to_arr(it, classes).copy()
            k = concrete(cl.shape[0])
            if k is None or k > 8:
                raise Unsupported("Markov without a list of classes")
            K, cls, kind = num(k), cl.at, cl.kind
            vals = [cl.at(num(a)) for a in range(k)]
            s.requires_all("Markov is given distinct classes", (), lambda: and_(*[
                not_(eqv(vals[a], vals[b])) for a in range(k) for b in range(a)]))
            member = lambda x: or_(*[eqv(x, v) for v in vals])
        elif classes is not None:
            s.requires("Markov is given its classes", lib.to_arr(it, classes), (K,), cls)
        s.requires_all("Markov is given labels of its classes", (n, t), lambda u, p: member(ids.at(u, p)))
        C = Arr((K, K), lambda a, b: sm(lambda p, u: mul(
            iv(eqv(ids.at(u, p), cls(a))), iv(eqv(ids.at(u, add(p, ONE)), cls(b)))), sub(t, 1), n), "f")
        done = it.hooks.get("markov result", lambda a: None)
        done(C)
        row = lambda a: sm(lambda b: C.at(a, b), K)
        empty = lambda a, b: iv(eq(a, b)) if fill_empty_classes else ZERO
        P = Arr((K, K), lambda a, b: ite(eq(row(a), ZERO), empty(a, b), div(C.at(a, b), row(a))), "f")
        done(P)
        self.attrs.update(transitions=C, p=P, k=lift(K), classes=Arr((K,), cls, kind))
    s.it.contracts["markov.Markov.__init__"] = contract


def ranking(s, name, n, t, before):
    """Ghost rank name(u, p) = 1 + #{v: before(v, u, p)} for a strict total order
    before, proved to be a permutation of 1..n in every period."""
    body = lambda u, p: add(ONE, sum_(ZERO, n, lambda v: iv(before(v, u, p))))
    RK = s.define(name, (n, t), body, sort="I", lemmas=lambda u, p: [
        le(ONE, app(name, u, p, sort="I")), le(app(name, u, p, sort="I"), n)])
    # distinct units have distinct ranks
    s.forall(f"{name}: the order is total", (n, n, t), lambda u, v, p: or_(eq(u, v), before(u, v, p), before(v, u, p)))
    s.forall(f"{name}: a unit before another one has a smaller rank", (n, n, t), lambda u, v, p: or_(
        not_(before(v, u, p)), le(add(body(v, p), ONE), body(u, p))))
    # hence a left inverse exists
    pos = s.fn(name + "pos", "I")
    f0 = s.ctx.facts[name]
    s.ctx.facts[name] = lambda u, p: f0(u, p) + [or_(not_(and_(le(ZERO, u), lt(u, n))), eq(pos(RK(u, p), p), u))]

    def table(m, k, p):
        for u in range(int(m.vals[var("n")])):
            if m.ev(RK(num(u), num(p)), {}) == k:
                return u
        return 0
    s.samplers[name + "pos"] = table
    count = lambda a, p: sum_(ZERO, n, lambda u: iv(eq(RK(u, p), add(a, ONE))))
    # every rank occurs exactly once: at most once, and all n units have one
    s.forall(f"{name}: a rank held is held once", (n, n, t), lambda a, u, p: implies(
        eq(RK(u, p), add(a, ONE)), eq(count(a, p), ONE)))
    s.forall(f"{name}: a rank not held is held by nobody", (n, t), lambda a, p: implies(
        not_(ex_(ZERO, n, lambda u: eq(RK(u, p), add(a, ONE)))), eq(count(a, p), ZERO)))
    s.forall(f"{name}: the shortfalls add up to zero", (t,), lambda p: eq(
        sum_(ZERO, n, lambda a: sub(ONE, count(a, p))), ZERO))
    short = s.fn(name + "short", facts=nonneg(name + "short"))
    s.forall(f"{name}: non-negative numbers adding up to zero are zero", (n,), lambda a: implies(
        eq(sum_(ZERO, n, short), ZERO), eq(short(a), ZERO)))
    # the relation "before" is that of the ranks (both directions shown above), so
    # the rank less one is the number of smaller ranks
    B = s.fn(name + "before", "B", facts=lambda v, u, p: [eq(app(name + "before", v, u, p, sort="B"), lt(RK(v, p), RK(u, p)))])
    s.samplers[name + "before"] = lambda m, v, u, p: m.ev(lt(RK(num(v), num(p)), RK(num(u), num(p))), {})
    s.forall(f"{name}: the rank less one is the number of smaller ranks", (n, t), lambda u, p: eq(
        sum_(ZERO, n, lambda v: iv(B(v, u, p))), sum_(ZERO, n, lambda v: iv(lt(RK(v, p), RK(u, p))))))
    return RK, count


def permutation_counts(s, n, t, T, R):
    """Transitions between the values R(u, p) + 1 of consecutive periods, R(., p)
    being a permutation of 0..n-1 in every period."""
    C = lambda a, b: sm(lambda p, u: mul(iv(eq(R(u, p), a)), iv(eq(R(u, add(p, ONE)), b))), sub(t, 1), n)
    s.equal("transitions count the pairs of consecutive values", T, (n, n), C)
    s.forall("row totals count the periods in which the row's value occurs", (n,), lambda a: eq(
        sm(lambda b: C(a, b), n), sm(lambda p, u: iv(eq(R(u, p), a)), sub(t, 1), n)))
    s.forall("column totals count the periods in which the column's value occurs", (n,), lambda b: eq(
        sm(lambda a: C(a, b), n), sm(lambda p, u: iv(eq(R(u, add(p, ONE)), b)), sub(t, 1), n)))


def R01(R):
    def ranked(s, name, before):
        n, t = s.size("n"), s.size("t", 2)
        y = s.fn("y", sample=lambda m, u, p: m.rng.randrange(0, 3))
        Y = Arr((n, t), y, "f")
        RK, count = ranking(s, name, n, t, before(y))
        return n, t, Y, RK, count

    def full(s):
        # v before u: larger, or equal and later
        n, t, Y, RK, count = ranked(s, "RK", lambda y: lambda v, u, p: or_(
            lt(y(u, p), y(v, p)), and_(eq(y(u, p), y(v, p)), lt(u, v))))
        snap = s.snapshot(Y)
        markov_contract(s, n, lambda c: add(c, ONE), lambda x: and_(le(ONE, x), le(x, n)))
        mk = s.call("markov.FullRank_Markov", Y)
        s.equal("ranks", s.attr(mk, "ranks"), (n, t), RK)
        permutation_counts(s, n, t, s.attr(mk, "transitions"), lambda u, p: sub(RK(u, p), ONE))
        s.unchanged("the data are unchanged", snap)
    R.case("FullRank_Markov", full)

    def geo(s):
        # v before u: smaller, or equal and earlier
        n, t, Y, RK, count = ranked(s, "RA", lambda y: lambda v, u, p: or_(
            lt(y(v, p), y(u, p)), and_(eq(y(u, p), y(v, p)), lt(v, u))))
        snap = s.snapshot(Y)
        # assumed contract of argsort: for distinct values, the position of the
        # value with q smaller ones is at index q
        S = s.fn("S", "I", facts=lambda q, p: [
            le(ZERO, app("S", q, p, sort="I")), lt(app("S", q, p, sort="I"), n),
            eq(RK(app("S", q, p, sort="I"), p), add(q, ONE))])

        def argsort(it, a, axis=-1, kind=None, stable=None):
            a = lib.to_arr(it, a).copy()
            s.fold(it, a)
            ax = concrete(scalar(axis))
            if a.nd != 2 or ax not in (0,):
                raise Unsupported("argsort")
            s.requires_all("argsort is given distinct values", (n, n, t), lambda u, v, p: implies(
                eq(a.at(u, p), a.at(v, p)), eq(u, v)))
            s.requires("argsort is given the ranks", a, (n, t), RK)
            return Arr((n, t), S, "i")
        s.it.hooks["call:np.argsort"] = argsort
        markov_contract(s, n, lambda c: add(c, ONE), lambda x: and_(le(ONE, x), le(x, n)))
        mk = s.call("markov.GeoRank_Markov", Y)
        permutation_counts(s, n, t, s.attr(mk, "transitions"), S)
        s.unchanged("the data are unchanged", snap)
    R.case("GeoRank_Markov", geo)


def classify(s, name, n, t, value, bins, K):
    """Ghost name(u, p): the index of the first of K increasing cut-offs that is
    not smaller than value(u, p), the last cut-off exceeding every value."""
    body = lambda u, p: sum_(ZERO, K, lambda c: iv(lt(bins(c), value(u, p))))
    last = bins(sub(K, 1))
    return s.define(name, (n, t), body, sort="I", lemmas=lambda u, p: [le(ZERO, app(name, u, p, sort="I"))],
                    facts=lambda u, p: [lt(app(name, u, p, sort="I"), K)])


class SpatialModel:
    """Symbolic inputs of Spatial_Markov and the assumed contracts of mapclassify."""

    def __init__(self, s, pooled=True):
        self.s, self.pooled, self.permuted = s, pooled, None
        n, t = self.n, self.t = s.size("n"), s.size("t", 2)
        self.y = s.fn("y")
        self.W = s.fn("W")
        self.Y = Arr((n, t), self.y, "f")
        self.w = Obj("W", {"sparse": Arr((n, n), self.W, "f"), "n": n})
        self.k, self.m = s.size("k", 2), s.size("m", 2)
        self.ly = s.define("ly", (n, t), lambda u, p: sum_(ZERO, n, lambda v: mul(self.W(u, v), self.y(v, p))))
        self.cut, self.lcut = s.fn("cut"), s.fn("lcut")
        h = s.it.hooks
        h["call:mapclassify.UserDefined"] = self.user
        h["call:mapclassify.Quantiles"] = self.quantiles
        self.C = s.fn("C", "I", facts=in_range("C", self.k), sample=size_of("k"))
        self.L = s.fn("L", "I", facts=in_range("L", self.m), sample=size_of("m"))
        markov_contract(s, self.k, lambda c: c, lambda x: and_(le(ZERO, x), lt(x, self.k)))
        self.asked = {"own": self.k, "lag": self.m}

    def permute(self):
        """Permutations are requested: the lag classes of the r-th one are Lp(r, ., .)."""
        s, k, n, t = self.s, self.k, self.n, self.t
        R = self.permuted = s.size("R", 1, 3)
        Lp = self.Lp = s.fn("Lp", "I", facts=in_range("Lp", self.m), sample=size_of("m"))
        C = self.C
        self.Tp = s.define("Tp", (k, k), lambda r, l, a, b: sm(lambda p, u: mul(
            iv(eq(Lp(r, u, p), l)), iv(eq(C(u, p), a)), iv(eq(C(u, add(p, ONE)), b))), sub(t, 1), n), params=(R, self.m))

    def call(self, *args, **kw):
        """The model of the panel, and the snapshots of the arguments."""
        s = self.s
        snap = s.snapshot(self.Y, *[v for v in kw.values() if isinstance(v, Arr)])
        return s.call("markov.Spatial_Markov", self.Y, self.w, *args, **kw), snap

    def given(self):
        return {"cutoffs": Arr((sub(self.k, 1),), self.cut, "f"), "lag_cutoffs": Arr((sub(self.m, 1),), self.lcut, "f")}

    def pooled_quantiles(self):
        # the number of bins found may differ from the number asked for
        self.asked = {"own": self.s.size("kask", 2), "lag": self.s.size("mask", 2)}
        return {"k": self.asked["own"], "m": self.asked["lag"]}

    def discretised(self, sp, cuts):
        """S02: the reported classes are those of the values."""
        s, n, t = self.s, self.n, self.t
        s.equal("own classes", s.attr(sp, "class_ids"), (n, t), self.C)
        s.equal("lag classes", s.attr(sp, "lclass_ids"), (n, t), self.L)
        s.goal("number of own classes", eq(scalar(s.attr(sp, "k")), self.k))
        s.goal("number of lag classes", eq(scalar(s.attr(sp, "m")), self.m))
        s.equal("class labels", s.attr(sp, "classes"), (self.k,), lambda c: c)
        if cuts:
            s.equal("cut-offs", s.attr(sp, "cutoffs"), (sub(self.k, 1),), self.cut)
            s.equal("lag cut-offs", s.attr(sp, "lag_cutoffs"), (sub(self.m, 1),), self.lcut)
        else:
            s.goal("no cut-offs", s.attr(sp, "cutoffs") is None and s.attr(sp, "lag_cutoffs") is None)

    def which(self, it, a):
        """own or lagged: the values a classification was asked for."""
        s = self.s
        if not isinstance(a, lib.Flat):
            raise Unsupported("classification of something else than all values")
        if a.a.body is self.Y.at(*a.a.vars):
            return "own"
        s.fold(it, a.a)
        if a.a.body is self.ly(*a.a.vars):
            return "lag"
        if self.permuted is not None and s.it.perms:
            s.requires("the lags of the permuted values are classified", a.a, (self.n, self.t), self.lag_of_permuted)
            return self.current()
        raise Unsupported("classification of unknown values")

    def current(self):
        return self.s.it.perms[-1][2]

    def moved(self, v):
        """The unit whose values are at location v in the current permutation."""
        f, _, its, _ = self.s.it.perms[-1]
        return app(f, *its, v, sort="I")

    def lag_of_permuted(self, u, p):
        return sum_(ZERO, self.n, lambda v: mul(self.W(u, v), self.y(self.moved(v), p)))

    def classes_of(self, what):
        """Number of classes, cut-offs and classes of the values."""
        if what == "own":
            return self.k, self.cut, self.C
        if what == "lag":
            return self.m, self.lcut, self.L
        return self.m, self.lcut, lambda u, p: self.Lp(*what, u, p)

    def user(self, it, v, bins):
        """Assumed: UserDefined assigns the index of the first bin not smaller."""
        s = self.s
        what = self.which(it, v)
        bins = lib.to_arr(it, bins)
        K, cut, cl = self.classes_of(what)
        what = what if isinstance(what, str) else "permuted lag"
        s.requires(f"the {what} values are classified by the cut-offs", bins, (K,), lambda c: ite(
            eq(c, sub(K, 1)), app("inf"), cut(c)))
        return Obj("UserDefined", {"yb": lib.Flat(Arr((self.n, self.t), cl, "i")), "bins": bins, "k": K})

    def quantiles(self, it, v, k=5):
        """Assumed: Quantiles of values and a number of classes gives bins (their
        number may be smaller) and each value's class among them, for the pooled
        values or those of one period."""
        s = self.s
        if isinstance(v, lib.Flat):
            what = self.which(it, v)
            K, cut, cl = self.classes_of(what)
            if not isinstance(what, str):
                raise Unsupported("new quantiles of permuted values")
            if self.pooled:
                s.goal(f"the requested number of classes for the {what} values", eq(scalar(k), self.asked[what]))
            else:
                return s.structural("pooled quantiles", "quantiles are to be taken by period") or \
                    Obj("Quantiles", {"yb": v, "bins": Arr((K,), cut, "f")})
            return Obj("Quantiles", {"yb": lib.Flat(Arr((self.n, self.t), cl, "i")), "bins": Arr((K,), cut, "f")})
        v = lib.to_arr(it, v)
        u = fresh("u")
        b = v.at(u)
        if self.permuted is not None and s.it.perms and v.nd == 1 and not self.pooled:
            p = s.it.loop_vars[-1][0]
            s.requires("the lags of the permuted values are classified", v, (self.n,), lambda u: self.lag_of_permuted(u, p))
            s.goal("the requested number of classes for the permuted lag values", eq(scalar(k), self.m))
            its = self.current()
            return Obj("Quantiles", {"yb": Arr((self.n,), lambda u: self.Lp(*its, u, p), "i")})
        if v.nd != 1 or b.op != "app" or b.args[0] not in ("y", "ly") or b.args[1] is not u or u in fv(b.args[2]):
            raise Unsupported("quantiles of unknown values")
        what = "own" if b.args[0] == "y" else "lag"
        s.goal(f"the requested number of classes for the {what} values", eq(scalar(k), self.asked[what]))
        if self.pooled:
            s.structural("quantiles by period", "pooled quantiles are to be taken")
        K, cl = (self.k, self.C) if what == "own" else (self.m, self.L)
        return Obj("Quantiles", {"yb": Arr((self.n,), lambda u: cl(u, b.args[2]), "i")})

    def counts(self):
        C, L, n, t = self.C, self.L, self.n, self.t
        return lambda l, a, b: sm(lambda p, u: mul(iv(eq(L(u, p), l)), iv(eq(C(u, p), a)), iv(
            eq(C(u, add(p, ONE)), b))), sub(t, 1), n)


def spatial_cases(R, check, prepare=lambda z: None, **kw):
    """Every way of discretising; check(z, sp) states the property."""
    def given(s):
        z = SpatialModel(s)
        prepare(z)
        sp, snap = z.call(**z.given(), **kw)
        check(z, sp, True)
        s.unchanged("data and cut-offs unchanged", snap)
    R.case("cut-offs given", given)

    def pooled(s):
        z = SpatialModel(s)
        prepare(z)
        sp, snap = z.call(**z.pooled_quantiles(), **kw)
        check(z, sp, True)
        s.unchanged("data unchanged", snap)
    R.case("pooled quantiles", pooled)

    def by_period(s):
        z = SpatialModel(s, pooled=False)
        prepare(z)
        sp, snap = z.call(k=z.k, m=z.m, fixed=False, **kw)
        check(z, sp, False)
        s.unchanged("data unchanged", snap)
    R.case("quantiles by period", by_period)


def discrete_case(R, check, prepare=lambda z: None, **kw):
    def discrete(s):
        z = SpatialModel(s)
        n, t, k = z.n, z.t, z.k
        z.m, z.L = k, s.fn("L", "I", facts=in_range("L", k), sample=size_of("k"))
        cls = labels("dcls", k, True)
        z.Y = Arr((n, t), lambda u, p: cls(z.C(u, p)), "f")
        s.it.hooks["unique"] = all_used(s, "dcls", k, cls, n, t)

        def lag(it, w, y, ties="tryself"):
            # assumed contract of lag_categorical: the most common neighbouring class
            s.goal("ties are broken by the own class", ties == "tryself")
            s.goal("the given weights", w is z.w)
            if z.permuted is not None and s.it.perms:
                its = z.current()
                s.requires("the most common of the permuted classes", lib.to_arr(it, y), (n, t), lambda u, p: z.C(z.moved(u), p))
                return Arr((n, t), lambda u, p: z.Lp(*its, u, p), "i")
            s.requires("the most common of the own classes", lib.to_arr(it, y), (n, t), z.C)
            return Arr((n, t), z.L, "i")
        s.it.hooks["call:libpysal.weights.lag_categorical"] = lag
        prepare(z)
        sp, snap = z.call(discrete=True, **kw)
        check(z, sp, cls)
        s.unchanged("data unchanged", snap)
    R.case("discrete data", discrete)


def conditional_defs(s, z, counts=None):
    """Ghosts of the conditional counts and their row totals."""
    m, k = z.m, z.k
    T = s.define("T", (m, k, k), counts or z.counts(), lemmas=lambda l, a, b: [le(ZERO, app("T", l, a, b))])
    Tr = s.define("Tr", (m, k), lambda l, a: sm(lambda b: T(l, a, b), k), lemmas=lambda l, a: [le(ZERO, app("Tr", l, a))])
    old = s.ctx.facts["T"]
    # a cell of an empty row is empty (proved for non-negative cells in chain_defs)
    s.ctx.facts["T"] = lambda l, a, b: old(l, a, b) + [implies(and_(le(ZERO, b), lt(b, k), eq(Tr(l, a), ZERO)), eq(T(l, a, b), ZERO))]
    return T, Tr


def spatial_probabilities(R, fill):
    def check(z, sp, cuts):
        s, m, k = z.s, z.m, z.k
        empty = (lambda a, b: iv(eq(a, b))) if fill else (lambda a, b: ZERO)
        s.equal("conditional counts", s.attr(sp, "T"), (m, k, k), z.T)
        s.equal("conditional probabilities", s.attr(sp, "P"), (m, k, k), lambda l, a, b: ite(
            eq(z.Tr(l, a), ZERO), empty(a, b), div(z.T(l, a, b), z.Tr(l, a))))
        T, Tr = z.T, z.Tr
        s.forall("conditional rows with data sum to one", (m, k), lambda l, a: implies(not_(eq(Tr(l, a), ZERO)), eq(
            sm(lambda b: div(T(l, a, b), Tr(l, a)), k), ONE)))
        C, row = s.attr(sp, "transitions"), lambda a: sm(lambda b: s.attr(sp, "transitions").at(a, b), k)
        s.equal("classic probabilities", s.attr(sp, "p"), (k, k), lambda a, b: ite(
            eq(row(a), ZERO), empty(a, b), div(C.at(a, b), row(a))))

    def prepare(z):
        z.T, z.Tr = conditional_defs(z.s, z)
        z.s.define("Pc", (z.m, z.k, z.k), lambda l, a, b: ite(eq(z.Tr(l, a), ZERO), ZERO, div(z.T(l, a, b), z.Tr(l, a))))
        z.s.define("PS", (z.m, z.k), lambda l, a: iv(not_(eq(z.Tr(l, a), ZERO))))
    spatial_cases(R, check, prepare, fill_empty_classes=fill)
    discrete_case(R, lambda z, sp, cls: check(z, sp, None), prepare, fill_empty_classes=fill)


def S01(R):
    def check(z, sp, cuts):
        s, k, m = z.s, z.k, z.m
        T = z.counts()
        s.equal("conditional counts", s.attr(sp, "T"), (m, k, k), T)
        s.equal("global counts", s.attr(sp, "transitions"), (k, k), lambda a, b: sm(lambda p, u: mul(
            iv(eq(z.C(u, p), a)), iv(eq(z.C(u, add(p, ONE)), b))), sub(z.t, 1), z.n))
        s.forall("the conditional counts add up to the global ones", (k, k), lambda a, b: eq(
            sm(lambda l: T(l, a, b), m), s.attr(sp, "transitions").at(a, b)))
    spatial_cases(R, check)
    discrete_case(R, lambda z, sp, cls: check(z, sp, None))


def S02(R):
    spatial_cases(R, lambda z, sp, cuts: z.discretised(sp, cuts))

    def discrete(z, sp, cls):
        s, n, t = z.s, z.n, z.t
        s.equal("own classes", s.attr(sp, "class_ids"), (n, t), z.C)
        s.equal("lag classes", s.attr(sp, "lclass_ids"), (n, t), z.L)
        s.goal("number of own classes", eq(scalar(s.attr(sp, "k")), z.k))
        s.goal("number of lag classes", eq(scalar(s.attr(sp, "m")), z.k))
        s.equal("class labels", s.attr(sp, "classes"), (z.k,), cls)
    discrete_case(R, discrete)


def S03(R):
    def prepare(z):
        s, k, m = z.s, z.k, z.m
        z.T, z.Tr = conditional_defs(s, z)
        C = z.Cg = s.define("Cg", (k, k), lambda a, b: sm(lambda p, u: mul(
            iv(eq(z.C(u, p), a)), iv(eq(z.C(u, add(p, ONE)), b))), sub(z.t, 1), z.n))
        z.Pc = s.define("Pc", (m, k, k), lambda l, a, b: ite(eq(z.Tr(l, a), ZERO), ZERO, div(z.T(l, a, b), z.Tr(l, a))))
        z.Pg = s.define("Pg", (k, k), lambda a, b: ite(eq(sm(lambda v: C(a, v), k), ZERO), ZERO, div(C(a, b), sm(lambda v: C(a, v), k))))
        z.perms = {}

        s.it.hooks["markov result"] = lambda a: s.fold(s.it, a)

        # contracts of the callees: functions of what they are given (H01, H02, E01)
        def chi2(it, T1, T2):
            s.requires("chi2 compares with the global counts", lib.to_arr(it, T2), (k, k), C)
            T1 = lib.to_arr(it, T1).copy()
            if slice_index(T1, "T", 2) is None:
                s.fold(it, T1)
            for nm in ("T", "Tp"):
                l = slice_index(T1, nm, 2)
                if l is not None:
                    return PList([app("x2" + nm + w, *l) for w in ("stat", "p", "dof")], "tuple")
            raise Unsupported("chi2 of other than conditional counts")
        s.it.contracts["markov.chi2"] = chi2
        z.hom = Obj("Homogeneity_Results", {w: app("hom_" + w) for w in ("Q", "Q_p_value", "LR", "LR_p_value", "dof")})

        def homogeneity(it, T, *a, **kw):
            s.requires("homogeneity of the conditional counts", lib.to_arr(it, T), (m, k, k), z.T)
            return z.hom
        s.it.contracts["markov.homogeneity"] = homogeneity
        ssg, ssc = s.fn("ssg", facts=lambda a: [lt(ZERO, app("ssg", a))]), s.fn("ssc")

        def steady_state(it, P, fill_empty_classes=False):
            # chains with a single recurrent class: a vector (E01)
            P = lib.to_arr(it, P).copy()
            if P.nd == 2 and P.body is z.Pg(*P.vars):
                return Arr((k,), ssg, "f")
            l = slice_index(P, "Pc", 2)
            if l is None:
                raise Unsupported("steady state of an unknown matrix")
            return Arr((k,), lambda a: ssc(*l, a), "f")
        s.it.contracts["ergodic.steady_state"] = steady_state

    def check(z, sp, cuts):
        s, k, m = z.s, z.k, z.m
        g = lambda nm: s.attr(sp, nm)
        x2 = lib.FUNCS["builtins.list"](s.it, g("chi2"))
        s.goal("one chi-square per lag class", eq(lib.ilen(s.it, x2), m))
        l = fresh("l")
        item = lib.getitem(s.it, x2, [l], False)
        for i, w in enumerate(("stat", "p", "dof")):
            s.goal(f"chi-square of each lag class ({w})", eq(scalar(lib.getitem(s.it, item, [i])), app("x2T" + w, l)), le(ZERO, l), lt(l, m))
        total = sum_(ZERO, m, lambda l: app("x2Tstat", l))
        s.goal("overall statistic", eq(scalar(g("x2")), total))
        dof = mul(k, sub(k, 1), sub(k, 1))
        s.goal("overall degrees of freedom", eq(scalar(g("x2_dof")), dof))
        s.goal("overall p-value", eq(scalar(g("x2_pvalue")), sub(ONE, app("chi2cdf", scalar(g("x2")), real(dof)))))
        for a, b in (("Q", "Q"), ("Q_p_value", "Q_p_value"), ("LR", "LR"), ("LR_p_value", "LR_p_value"), ("dof_hom", "dof")):
            s.goal(a, eq(scalar(g(a)), z.hom.attrs[b]))
        # steady-state test, where every lag class saw a transition and the global
        # steady state is positive
        ssg, ssc = (lambda a: app("ssg", a)), (lambda l, a: app("ssc", l, a))
        tot = s.define("tot", (), lambda l: sm(lambda a, b: z.T(l, a, b), k, k), params=(m,), facts=lambda l: [lt(ZERO, app("tot", l))])
        s.it.fold_scalars = True
        s.fold(s.it, g("P"))
        sh = lib.FUNCS["builtins.list"](s.it, g("shtest"))
        s.goal("one steady-state test per lag class", eq(lib.ilen(s.it, sh), m))
        item = lib.getitem(s.it, sh, [l], False)
        d = lambda a: sub(mul(tot(l), ssc(l, a)), mul(tot(l), ssg(a)))
        stat = sm(lambda a: div(mul(d(a), d(a)), mul(tot(l), ssg(a))), k)
        hy = (le(ZERO, l), lt(l, m))
        got = [scalar(lib.getitem(s.it, item, [i])) for i in range(3)]
        s.goal("steady-state test statistic", eq(got[0], stat), *hy)
        s.goal("steady-state test p-value", eq(got[1], sub(ONE, app("chi2cdf", got[0], real(got[2])))), *hy)
        s.goal("steady-state test degrees of freedom", eq(got[2], sub(k, 1)), *hy)
    spatial_cases(R, check, prepare)
    discrete_case(R, lambda z, sp, cls: check(z, sp, None), prepare)

    def prepare_permuted(z):
        prepare(z)
        z.permute()

    def check_permuted(z, sp, cuts):
        s, k, m, n, t, P = z.s, z.k, z.m, z.n, z.t, z.permuted
        g = lambda nm: s.attr(sp, nm)
        x2 = sum_(ZERO, m, lambda l: app("x2Tstat", l))
        sim = lambda r: sum_(ZERO, m, lambda l: app("x2Tpstat", r, l))
        s.equal("permuted statistics", g("x2_realizations"), (P, 1), lambda r, _: sim(r))
        s.goal("pseudo p-value", eq(scalar(g("x2_rpvalue")), div(add(ONE, sum_(ZERO, P, lambda r: iv(
            not_(lt(sim(r), x2))))), add(P, ONE))))
        # the observed results are those without permutations
        s.goal("overall statistic", eq(scalar(g("x2")), x2))
        s.equal("conditional counts", g("T"), (m, k, k), z.T)
        s.equal("conditional probabilities", g("P"), (m, k, k), z.Pc)
        s.equal("global counts", g("transitions"), (k, k), z.Cg)
        s.equal("global probabilities", g("p"), (k, k), z.Pg)
        if cuts is None:
            s.equal("own classes", g("class_ids"), (n, t), z.C)
            s.equal("lag classes", g("lclass_ids"), (n, t), z.L)
        else:
            z.discretised(sp, cuts)
    spatial_cases(R, check_permuted, prepare_permuted, permutations=var("R"))
    discrete_case(R, lambda z, sp, cls: check_permuted(z, sp, None), prepare_permuted, permutations=var("R"))


def moran(s, n, t, y, w, perms):
    """Assumed: Moran_Local of one period's values gives each unit's quadrant and,
    with permutations, pseudo p-values."""
    Q = s.fn("Q", "I", facts=lambda *a: [le(ONE, app("Q", *a, sort="I")), le(app("Q", *a, sort="I"), num(4))],
             sample=lambda m, *a: m.rng.randrange(1, 5))
    PZ = s.fn("PZ")

    def h(it, v, w_, transformation="r", permutations=999, geoda_quads=False, **kw):
        v = lib.to_arr(it, v)
        u = fresh("u")
        b = v.at(u) if v.nd == 1 else None
        if b is None or b.op != "app" or b.args[0] != "y" or b.args[1] is not u or u in fv(b.args[2]):
            raise Unsupported("local Moran statistics of unknown values")
        s.goal("local Moran statistics use the weights given", w_ is w)
        s.goal("local Moran statistics use the permutations asked for", eq(scalar(permutations), lift(perms)))
        s.goal("local Moran statistics use the quadrant scheme asked for", geoda_quads is s.gq)
        p = b.args[2]
        d = {"q": Arr((n,), lambda u: Q(u, p), "i")}
        if not isinstance(perms, int):
            d["p_z_sim"] = Arr((n,), lambda u: PZ(u, p), "f")
            # a pseudo p-value from ranks: not what decides significance
            d["p_sim"] = Arr((n,), lambda u: app("PSIM", u, p), "f")
        return Obj("Moran_Local", d)
    s.it.hooks["call:esda.moran.Moran_Local"] = h
    return Q, PZ


def lisa(s, perms=0, **kw):
    n, t = s.size("n"), s.size("t", 2)
    y = s.fn("y")
    Y = Arr((n, t), y, "f")
    w = Obj("W", {"n": n, "sparse": Arr((n, n), s.fn("W"), "f")})
    s.gq = kw.get("geoda_quads", False)
    # no unit's values average to zero (the relative values are undefined there)
    s.assume(not_(ex_(ZERO, n, lambda u: eq(sm(lambda p: y(u, p), t), ZERO))))
    given = s.chi2_given = []

    def chi2(it, T1, T2):
        given.append((lib.to_arr(it, T1).copy(), lib.to_arr(it, T2).copy()))
        return PList([app("x2" + w + str(len(given))) for w in ("stat", "p", "dof")], "tuple")
    s.it.contracts["markov.chi2"] = chi2
    Q, PZ = moran(s, n, t, y, w, perms)
    markov_contract(s)
    return n, t, Y, w, Q, PZ


def L01(R):
    def quadrants(s, lm, n, t, Q):
        s.equal("quadrants", s.attr(lm, "q"), (n, t), Q)
        C = lambda a, b: sm(lambda p, u: mul(iv(eq(Q(u, p), add(a, ONE))), iv(eq(Q(u, add(p, ONE)), add(b, ONE)))), sub(t, 1), n)
        s.equal("transitions of the quadrants", s.attr(lm, "transitions"), (4, 4), C)
        row = lambda a: sm(lambda b: C(a, b), num(4))
        s.equal("probabilities", s.attr(lm, "p"), (4, 4), lambda a, b: ite(eq(row(a), ZERO), ZERO, div(C(a, b), row(a))))
        s.equal("move types", s.attr(lm, "move_types"), (n, sub(t, 1)), lambda u, p: add(
            mul(4, sub(Q(u, p), ONE)), Q(u, add(p, ONE))))

    def without(s):
        n, t, Y, w, Q, PZ = lisa(s, 0)
        snap = s.snapshot(Y)
        lm = s.call("markov.LISA_Markov", Y, w)
        quadrants(s, lm, n, t, Q)
        s.unchanged("values", snap)
    R.case("no permutations", without)

    def with_(s, **kw):
        n, t, Y, w, Q, PZ = lisa(s, var("R"), **kw)
        s.size("R", 1, 3)
        lev = s.fn("lev")
        snap = s.snapshot(Y)
        lm = s.call("markov.LISA_Markov", Y, w, permutations=var("R"), **kw)
        lev = kw.get("significance_level", 0.05)
        lev = lift(lev)
        quadrants(s, lm, n, t, Q)
        s.equal("p-values", s.attr(lm, "p_values"), (n, t), PZ)
        sig = lambda u, p: le(PZ(u, p), lev)
        s.equal("significance-coded moves", s.attr(lm, "significant_moves"), (n, sub(t, 1)), lambda u, p: add(
            mul(4, sub(Q(u, p), ONE)), Q(u, add(p, ONE)), ite(sig(u, p), ite(sig(u, add(p, ONE)), ZERO, num(16)),
                                                             ite(sig(u, add(p, ONE)), num(32), num(48)))))
        s.unchanged("values", snap)
    R.case("permutations, given level", lambda s: with_(s, significance_level=app("lev"), geoda_quads=True))
    R.case("permutations, default level", with_)


def L03(R):
    def body(s, perms=0, **kw):
        n, t, Y, w, Q, PZ = lisa(s, perms, **kw)
        if not isinstance(perms, int):
            s.size("R", 1, 3)
        y, W = (lambda u, p: app("y", u, p)), (lambda u, v: app("W", u, v))
        lyT = s.define("lyT", (t, n), lambda p, u: sum_(ZERO, n, lambda v: mul(W(u, v), y(v, p))))
        ly = lambda u, p: lyT(p, u)
        C = lambda a, b: sm(lambda p, u: mul(iv(eq(Q(u, p), add(a, ONE))), iv(eq(Q(u, add(p, ONE)), add(b, ONE)))), sub(t, 1), n)
        CQ = s.define("CQ", (4, 4), C)

        def chain(nm, below, pairs, N):
            """The chain of below(., .) over its pairs, class 0 being not below."""
            cls = lambda a: eq(a, ONE)
            c = s.define("C" + nm, (2, 2), lambda a, b: sm(lambda p, u: mul(iv(eq(below(u, p), cls(a))), iv(
                eq(below(*pairs(u, p)), cls(b)))), *N))
            row = lambda a: add(c(a, ZERO), c(a, ONE))
            return s.define("P" + nm, (2, 2), lambda a, b: ite(eq(row(a), ZERO), ZERO, div(c(a, b), row(a))))

        def expected(nm, bar, pairs, N):
            below = [s.define(w + nm, (t, n), lambda p, u, v=v: lt(div(v(u, p), bar(u, p)), ONE), sort="B")
                     for w, v in (("Bown", y), ("Blag", ly))]
            own, lag = [chain(w + nm, lambda u, p, b=b: b(p, u), pairs, N) for w, b in zip(("own", "lag"), below)]
            order = [(0, 0), (1, 0), (1, 1), (0, 1)]    # (own, lag) below: HH, LH, LL, HL
            total = lambda a: add(*[CQ(num(a), num(b)) for b in range(4)])
            return [[mul(total(a), own(num(o), num(o2)), lag(num(l), num(l2))) for b, (o2, l2) in enumerate(order)]
                    for a, (o, l) in enumerate(order)]
        spec = expected("s", lambda u, p: div(sm(lambda v: y(v, p), n), real(n)), lambda u, p: (u, add(p, ONE)), (sub(t, 1), n))
        known = expected("k", lambda u, p: div(sm(lambda q: y(u, q), t), real(t)), lambda u, p: (add(u, ONE), p), (t, sub(n, 1)))

        s.it.hooks["markov result"] = lambda a: s.fold(s.it, a)
        lm = s.call("markov.LISA_Markov", Y, w, permutations=perms, **kw)
        got = lib.to_arr(s.it, s.attr(lm, "expected_t"))
        s.goal("expected transitions (shape)", len(got.shape) == 2 and and_(*[eq(x, num(4)) for x in got.shape]))
        # the known finding L03-axes: means over time and chains over units
        differs = s.differs(eqv(got.at(num(1), num(2)), spec[1][2]))
        for a in range(4):
            for b in range(4):
                s.goal(f"expected transitions {a},{b}" + (" (known finding L03-axes)" if differs else ""),
                       eqv(got.at(num(a), num(b)), (known if differs else spec)[a][b]))
        s.goal("one chi-square test", len(s.chi2_given) == 1)
        obs, ex = s.chi2_given[0]
        s.equal("chi-square of the observed transitions", obs, (4, 4), C)
        s.equal("chi-square against the expected transitions", ex, (4, 4), got.at)
        res = s.attr(lm, "chi_2")
        for i, nm in enumerate(("stat", "p", "dof")):
            s.goal(f"chi-square result ({nm})", eq(scalar(lib.getitem(s.it, res, [i])), app(f"x2{nm}1")))
    R.case("no permutations", body)
    R.case("permutations", lambda s: body(s, var("R")))


def M04(R):
    def chain(fill, summary, given):
        def go(s):
            n, t, K, idx, cls = panel(s, mono=not given)
            C, Rw = chain_defs(s, n, t, K, idx)
            P, FP = probability_defs(s, K, C, Rw)
            ids = Arr((n, t), lambda u, p: cls(idx(u, p)), "f")
            only = lambda a: not_(ex_(ZERO, K, lambda b: and_(not_(eq(a, b)), lt(ZERO, C(a, b)))))
            if not given:    # (a fact about any chain)
                s.forall("two cells of a row are at most the row", (K, K), lambda a, b: implies(
                    not_(eq(a, b)), le(add(C(a, a), C(a, b)), sm(lambda v: C(a, v), K))))
                s.forall("a state whose whole row stays is left by nothing", (K, K), lambda a, b: implies(
                    and_(eq(C(a, a), Rw(a)), not_(eq(a, b)), le(add(C(a, a), C(a, b)), Rw(a))), le(C(a, b), ZERO)))
                s.forall("a state left by nothing has its whole row staying", (K,), lambda a: implies(
                    only(a), eq(C(a, a), Rw(a))))
            # assumed: MarkovChain classifies the states of the digraph of its matrix;
            # the recurrent classes are some of the communicating ones
            ncc, nrc = s.size("ncc"), s.size("nrc")
            lib.OPAQUE.add("blk")
            INJECTIVE.update(("blk", "rcc"))
            BASE_SAMPLERS["blk"] = lambda m, i: i
            BASE_SAMPLERS["rcc"] = lambda m, i: i
            s.assume(le(nrc, ncc))
            rcc = s.fn("rcc", "I", facts=in_range("rcc", ncc))
            blk = lambda i: app("blk", i, sort="I")
            given_ = []

            def markov_chain(it, M):
                M = lib.to_arr(it, M).copy()
                given_.append(M)
                return Obj("MarkovChain", {
                    "num_communication_classes": ncc, "num_recurrent_classes": nrc,
                    "is_irreducible": app("irreducible", sort="B"),
                    "communication_classes_indices": SList(ncc, blk),
                    "recurrent_classes_indices": SList(nrc, lambda j: blk(rcc(j)))})
            s.it.hooks["call:quantecon.MarkovChain"] = markov_chain
            if not given:
                s.it.hooks["unique"] = all_used(s, "cls", K, cls, n, t)
            m = s.call("markov.Markov", ids, **({"classes": Arr((K,), cls, "f")} if given else {}),
                       fill_empty_classes=fill, summary=summary)
            M = given_[-1]
            s.goal("the classified matrix (shape)", len(M.shape) == 2 and and_(*[eq(x, K) for x in M.shape]))
            s.forall("an edge wherever the probability is positive, a never-left class keeping to itself", (K, K),
                     lambda a, b: eq(lt(ZERO, M.at(a, b)), lt(ZERO, FP(a, b))))
            s.requires_all("the classified matrix is non-negative", (K, K), lambda a, b: le(ZERO, M.at(a, b)))
            s.requires_all("the rows of the classified matrix sum to one", (K,), lambda a: eq(
                sm(lambda b: M.at(a, b), K), ONE))
            g = lambda nm: s.attr(m, nm)
            s.goal("number of communicating classes", eq(scalar(g("num_cclasses")), ncc))
            s.goal("number of recurrent classes", eq(scalar(g("num_rclasses")), nrc))
            i = fresh("i")
            for nm, k, want in (("cclasses_indices", ncc, blk(i)), ("rclasses_indices", nrc, blk(rcc(i)))):
                v = g(nm)
                if not isinstance(v, SList):
                    raise Unsupported(f"{nm} of another form")
                s.goal(nm, and_(eq(v.n, k), eq(scalar(v.get(i)), want)), le(ZERO, i), lt(i, k))
            transient = lambda i: not_(ex_(ZERO, nrc, lambda j: eq(i, rcc(j))))
            count = sum_(ZERO, ncc, lambda i: iv(transient(i)))
            s.goal("number of transient classes", eq(scalar(g("num_tclasses")), count))
            tc = g("tclasses_indices")
            none, lst = eq(count, ZERO), tc
            if isinstance(tc, Choice):
                none, lst = (tc.c, tc.b) if tc.a is None else (not_(tc.c), tc.a)
                s.goal("transient classes reported when there are some", eq(none, eq(count, ZERO)))
            if not isinstance(lst, Filt):
                raise Unsupported("tclasses_indices of another form")
            s.goal("transient classes", and_(eq(lst.mask(i), transient(i)), eq(lst.elem(i), blk(i)), eq(lst.n, ncc)),
                   le(ZERO, i), lt(i, ncc), not_(eq(count, ZERO)))
            a = fresh("a")
            ab = g("astates_indices")
            if not isinstance(ab, Filt):
                raise Unsupported("astates_indices of another form")
            s.goal("absorbing states", and_(eq(ab.n, K), eq(ab.mask(a), eq(C(a, a), Rw(a))), eq(ab.elem(a), a)),
                   le(ZERO, a), lt(a, K))
            s.goal("number of absorbing states", eq(scalar(g("num_astates")), sum_(ZERO, K, lambda a: iv(
                eq(C(a, a), Rw(a))))))
        return go
    R.case("summary, inferred classes", chain(False, True, False))
    R.case("filled, classes given", chain(True, False, True))
    R.case("classes given", chain(False, False, True))
