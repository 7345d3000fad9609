"""Contracts of giddy.rank."""
from contracts._common import *


def weights(s, n, islands=False, proper=False):
    """Spatial weights over the ids 0..n-1: unit i has card(i) neighbours nb(i, 0), .."""
    card = s.fn("card", "I", facts=lambda i: [le(ZERO if islands else ONE, app("card", i, sort="I"))] + (
        [lt(app("card", i, sort="I"), n)] if proper else []),
        sample=lambda m, i: m.rng.randrange(0 if islands else 1, max(2, int(m.vals[var("n")])) if proper else 4))
    nb = s.fn("nb", "I", facts=in_range("nb", n), sample=size_of("n"))
    inr = lambda i: and_(le(ZERO, i), lt(i, n))
    s0 = s.define("s0", (), lambda: sum_(ZERO, n, card), facts=lambda: [lt(ZERO, app("s0"))])
    w = Obj("W", {
        "n": n,
        "id_order": SList(n, lambda c: c),
        "neighbors": SMap(inr, lambda i: SList(card(i), lambda r: nb(i, r))),
        "cardinalities": SMap(inr, card),
        "s0": s0(),
        "transform": "r",
    })
    return w, card, nb


def sgn(t):
    return sub(iv(lt(ZERO, t)), iv(lt(t, ZERO)))


def data(s, n):
    x, y = s.fn("x"), s.fn("y")
    s.samplers["x"] = lambda m, i: m.rng.randrange(0, 3)
    s.samplers["y"] = lambda m, i: m.rng.randrange(0, 3)
    S = s.define("S", (n, n), lambda i, j: sgn(mul(sub(x(i), x(j)), sub(y(i), y(j)))),
                 lemmas=lambda i, j: [implies(eq(i, j), eq(app("S", i, j), ZERO))])
    return x, y, S


def T02(R):
    def local(s):
        n = s.size("n", 2)
        x, y, S = data(s, n)
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        t = s.call("rank.Tau_Local", X, Y)
        loc = lambda i: div(sm(lambda j: S(i, j), n), sub(n, 1))
        s.equal("pair signs", s.attr(t, "S"), (n, n), S)
        s.equal("local concordance", s.attr(t, "tau_local"), (n,), loc)
        s.goal("overall concordance is the mean of the local ones", eq(
            mul(s.attr(t, "tau"), n), sm(loc, n)))
        s.unchanged("data unchanged", snap)
    R.case("Tau_Local", local)

    def hood(s):
        n = s.size("n", 2)
        x, y, S = data(s, n)
        w, card, nb = weights(s, n)
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        t = s.call("rank.Tau_Local_Neighborhood", X, Y, w)
        # members of the neighbourhood of i: i itself, then its neighbours
        e = lambda i, r: ite(eq(r, ZERO), i, nb(i, sub(r, 1)))
        m = lambda i: add(card(i), 1)
        H = lambda i: div(sm(lambda a, b: mul(iv(not_(eq(a, b))), S(e(i, a), e(i, b))), m(i), m(i)),
                          mul(m(i), card(i)))
        s.equal("neighbourhood concordance", s.attr(t, "tau_lnhood"), (n,), H)
        s.equal("sign", s.attr(t, "sign"), (n,), lambda i: ite(
            lt(s.attr(t, "tau_lnhood").at(i), ZERO), -1, 1))
        s.equal("local concordance", s.attr(t, "tau_local"), (n,), lambda i: div(
            sm(lambda j: S(i, j), n), sub(n, 1)))
        s.unchanged("data unchanged", snap)
    R.case("Tau_Local_Neighborhood", hood)


def regions(s, n):
    """Observation i lies in region lab(rix(i)); every label occurs."""
    k = s.size("k")
    rix = s.fn("rix", "I", facts=in_range("rix", k), sample=size_of("k"))
    lab = labels("rlab", k, True)
    s.it.hooks["unique"] = all_used(s, "rlab", k, lab, n)
    return k, rix, lab


def regional(R, perms):
    def body(s):
        n = s.size("n", 2)
        x, y, S = data(s, n)
        k, rix, lab = regions(s, n)
        m = s.size("m", 1, 3)
        W = lambda i, j: iv(and_(eq(rix(i), rix(j)), not_(eq(i, j))))
        s.it.hooks["call:libpysal.weights.block_weights"] = lambda it, reg, **kw: Obj("W", {
            "full": lambda *a: PList([Arr((n, n), lambda i, j: iv(and_(
                eq(reg.at(i), reg.at(j)), not_(eq(i, j)))), "f"), None], "tuple")})
        ina = lambda i, a: iv(eq(rix(i), a))
        pairs = lambda a, b: sm(lambda i, j: mul(iv(not_(eq(i, j))), ina(i, a), ina(j, b)), n, n)
        # every region has two observations (the mean over no pairs is undefined)
        D = s.define("D", (k, k), pairs, facts=lambda a, b: [lt(ZERO, app("D", a, b))])
        s.samplers["D"] = s.samplers["D"]
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        reg = Arr((n,), lambda i: lab(rix(i)), "f")
        snap = s.snapshot(X, Y, reg)
        t = s.call("rank.Tau_Regional", X, Y, reg, m if perms else 0)
        M = lambda S: lambda a, b: div(sm(lambda i, j: mul(iv(not_(eq(i, j))), ina(i, a), ina(j, b), S(i, j)), n, n), D(a, b))
        s.equal("regional concordance", s.attr(t, "tau_reg"), (k, k), M(S))
        s.unchanged("data and regions unchanged", snap)
        if not perms:
            s.forall("as many pairs (a, b) as (b, a)", (k, k), lambda a, b: eq(pairs(a, b), pairs(b, a)))
            s.forall("pair signs are symmetric", (n, n), lambda i, j: eq(S(i, j), S(j, i)))
            S2 = s.fn("S2")
            return s.forall("symmetric", (k, k), lambda a, b: eq(
                sm(lambda i, j: mul(iv(not_(eq(i, j))), ina(i, a), ina(j, b), S2(i, j)), n, n),
                sm(lambda i, j: mul(iv(not_(eq(i, j))), ina(i, b), ina(j, a), S2(j, i)), n, n)))
        pi = s.perm()
        sim = s.attr(t, "tau_reg_sim")
        s.equal("simulations", sim, (m, k, k), lambda r, a, b: M(lambda i, j: S(pi(add(r, 1), i), pi(add(r, 1), j)))(a, b))
        ge = lambda a, b: sm(lambda r: iv(le(s.attr(t, "tau_reg").at(a, b), sim.at(r, a, b))), m)
        le_ = lambda a, b: sm(lambda r: iv(le(sim.at(r, a, b), s.attr(t, "tau_reg").at(a, b))), m)
        s.equal("pseudo p-values", s.attr(t, "tau_reg_pvalues"), (k, k), lambda a, b: div(
            add(1, ite(lt(le_(a, b), ge(a, b)), le_(a, b), ge(a, b))), add(m, 1)))
    return body


def T02_regional(R):
    R.case("Tau_Regional", regional(R, False))


_t02 = T02


def T02(R):
    _t02(R)
    T02_regional(R)




def signs(x, y):
    """Sign of agreement of the pair (a, b), and whether it is untied."""
    dx, dy = (lambda a, b: sub(x(a), x(b))), (lambda a, b: sub(y(a), y(b)))
    return (lambda a, b: sgn(mul(dx(a, b), dy(a, b)))), (lambda a, b: iv(not_(eq(dx(a, b), ZERO)))), \
        (lambda a, b: iv(not_(eq(dy(a, b), ZERO))))


def links(n, card, nb, f):
    """Sum of f over the neighbour pairs, each unordered pair once."""
    return sum_(ZERO, n, lambda i: sum_(ZERO, card(i), lambda r: mul(iv(lt(i, nb(i, r))), f(i, nb(i, r)))))


def tau_result(it, x, y):
    """Contract of Tau used by SpatialTau: its attributes are functions of the
    data (what they are is property T01)."""
    return Obj("Tau", {k: app("tau_" + k) for k in ("tau", "tau_p", "concordant", "discordant", "extraX", "extraY")})


def spatial(s, islands=True):
    n = s.size("n", 2)
    x, y = s.fn("x", sample=lambda m, i: m.rng.randrange(0, 3)), s.fn("y", sample=lambda m, i: m.rng.randrange(0, 3))
    w, card, nb = weights(s, n, islands)
    return n, x, y, w, card, nb


def spatial_values(n, x, y, card, nb):
    S, ux, uy = signs(x, y)
    return (links(n, card, nb, lambda i, j: iv(lt(ZERO, S(i, j)))), links(n, card, nb, lambda i, j: iv(lt(S(i, j), ZERO))),
            links(n, card, nb, ux), links(n, card, nb, uy))


def T03(R):
    def tau(s):
        n, x, y, w, card, nb = spatial(s)
        s.it.contracts["rank.Tau"] = tau_result
        conc, disc, ux, uy = spatial_values(n, x, y, card, nb)
        # some neighbour pair differs in x and some in y (otherwise tau is undefined)
        UX = s.define("UX", (), lambda: ux, facts=lambda: [lt(ZERO, app("UX"))])()
        UY = s.define("UY", (), lambda: uy, facts=lambda: [lt(ZERO, app("UY"))])()
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        t = s.call("rank.SpatialTau", X, Y, w)
        s.goal("concordant neighbour pairs", eq(s.attr(t, "concordant_spatial"), conc))
        s.goal("discordant neighbour pairs", eq(s.attr(t, "discordant_spatial"), disc))
        s.goal("spatial tau", eq(s.attr(t, "tau_spatial"), div(sub(conc, disc), mul(app("sqrt", UX), app("sqrt", UY)))))
        half = s.size("half", 0)
        s.goal("number of neighbour pairs", eq(s.attr(t, "pairs_spatial"), half), eq(app("s0"), mul(2, half)))
        # in terms of the adjacency matrix (how often j is listed for i)
        adj = lambda i, j: sum_(ZERO, card(i), lambda r: iv(eq(nb(i, r), j)))
        S, _, _ = signs(x, y)
        s.goal("concordant pairs of the adjacency", eq(conc, sm(lambda i, j: mul(
            iv(lt(i, j)), adj(i, j), iv(lt(ZERO, S(i, j)))), n, n)))
        s.unchanged("data unchanged", snap)
    R.case("SpatialTau", tau)

    def ln(s):
        n, x, y, w, card, nb = spatial(s, False)
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        S, _, _ = signs(x, y)
        t = s.call("rank.Tau_Local_Neighbor", X, Y, w)
        s.equal("neighbour-set concordance", s.attr(t, "tau_ln"), (n,), lambda i: div(
            sum_(ZERO, card(i), lambda r: S(i, nb(i, r))), card(i)))
        tot = app("s0")
        s.equal("share of the neighbour links", s.attr(t, "tau_ln_weights"), (n,), lambda i: div(card(i), tot))
        s.goal("the shares sum to one", eq(sum_(ZERO, n, s.attr(t, "tau_ln_weights").at), 1))
        s.equal("sign", s.attr(t, "sign"), (n,), lambda i: ite(lt(s.attr(t, "tau_ln").at(i), ZERO), -1, 1))
        s.unchanged("data unchanged", snap)
    R.case("Tau_Local_Neighbor", ln)


def ghost(s, name, params, body):
    """A quantity the statistic divides by: positive, or the statistic is undefined."""
    return s.define(name, (), body, params=params, facts=lambda *a: [lt(ZERO, app(name, *a))])


def T05(R):
    R.case("Tau_Regional with permutations", regional(R, True))

    def tau(s):
        n, x, y, w, card, nb = spatial(s)
        m = s.size("m", 1, 3)
        s.it.contracts["rank.Tau"] = tau_result
        pi = lambda *a: s.perm()(*a)
        vals = lambda p: spatial_values(n, lambda i: x(p(i)), lambda i: y(p(i)), card, nb)
        at = lambda r: (lambda i: pi(r, i))
        conc, disc, ux, uy = vals(lambda i: i)
        UX, UY = ghost(s, "UX", (), lambda: ux)(), ghost(s, "UY", (), lambda: uy)()
        PX, PY = ghost(s, "PX", (m,), lambda r: vals(at(r))[2]), ghost(s, "PY", (m,), lambda r: vals(at(r))[3])
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        t = s.call("rank.SpatialTau", X, Y, w, m)
        s.goal("observed tau as without permutations", eq(s.attr(t, "tau_spatial"), div(
            sub(conc, disc), mul(app("sqrt", UX), app("sqrt", UY)))))
        s.equal("simulations", s.attr(t, "taus"), (m,), lambda r: div(
            sub(vals(at(r))[0], vals(at(r))[1]), mul(app("sqrt", PX(r)), app("sqrt", PY(r)))))
        obs, sim = s.attr(t, "tau_spatial"), s.attr(t, "taus")
        ge = sum_(ZERO, m, lambda r: iv(le(obs, sim.at(r))))
        up, dn = div(add(ge, 1), add(m, 1)), div(add(sub(m, ge), 1), add(m, 1))
        s.goal("pseudo p-value", eq(s.attr(t, "tau_spatial_psim"), ite(le(up, div(1, 2)), up, dn)))
        s.unchanged("data unchanged", snap)
    R.case("SpatialTau with permutations", tau)

    def others(n, i, p):
        """Values with those of unit i kept and the others' permuted by p."""
        d = lambda k: ite(lt(k, i), k, add(k, 1))
        return lambda u: ite(eq(u, i), i, d(p(ite(lt(u, i), u, sub(u, 1)))))

    def pvals(s, t, attr, obs, n, m, sim):
        ge = lambda i: sum_(ZERO, m, lambda r: iv(le(obs(i), sim.at(i, r))))
        le_ = lambda i: sum_(ZERO, m, lambda r: iv(le(sim.at(i, r), obs(i))))
        s.equal("pseudo p-values", s.attr(t, attr), (n,), lambda i: div(
            add(1, ite(lt(le_(i), ge(i)), le_(i), ge(i))), add(m, 1)))

    def ln(s):
        n = s.size("n", 2)
        x, y = s.fn("x"), s.fn("y")
        w, card, nb = weights(s, n)
        m = s.size("m", 1, 3)
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        t = s.call("rank.Tau_Local_Neighbor", X, Y, w, m)
        S, _, _ = signs(x, y)
        s.equal("observed concordance as without permutations", s.attr(t, "tau_ln"), (n,), lambda i: div(
            sum_(ZERO, card(i), lambda r: S(i, nb(i, r))), card(i)))
        pi = s.perm()
        sim = s.attr(t, "tau_ln_sim")

        def one(i, j):
            q = others(n, i, lambda k: pi(i, j, k))
            return div(sum_(ZERO, card(i), lambda r: S(i, q(nb(i, r)))), card(i))
        s.equal("simulations", sim, (n, m), one)
        pvals(s, t, "tau_ln_pvalues", s.attr(t, "tau_ln").at, n, m, sim)
        s.unchanged("data unchanged", snap)
    R.case("Tau_Local_Neighbor with permutations", ln)

    def hood(s):
        n = s.size("n", 2)
        x, y, S = data(s, n)
        w, card, nb = weights(s, n, proper=True)
        m = s.size("m", 1, 3)
        X, Y = Arr((n,), x, "f"), Arr((n,), y, "f")
        snap = s.snapshot(X, Y)
        t = s.call("rank.Tau_Local_Neighborhood", X, Y, w, m)
        mm = lambda i: add(card(i), 1)

        def H(e, i):
            # pairs of a unit with itself have sign 0 (lemma of S)
            return div(sm(lambda a, b: S(e(i, a), e(i, b)), mm(i), mm(i)), mul(mm(i), card(i)))
        s.equal("observed concordance as without permutations", s.attr(t, "tau_lnhood"), (n,), lambda i: H(
            lambda i, r: ite(eq(r, ZERO), i, nb(i, sub(r, 1))), i))
        pi = s.perm()
        sim = s.attr(t, "tau_lnhood_sim")
        d = lambda i, k: ite(lt(k, i), k, add(k, 1))
        s.equal("simulations", sim, (n, m), lambda i, j: H(
            lambda i, r: ite(eq(r, ZERO), i, d(i, pi(add(j, 1), i, sub(r, 1)))), i))
        pvals(s, t, "tau_lnhood_pvalues", s.attr(t, "tau_lnhood").at, n, m, sim)
        s.unchanged("data unchanged", snap)
    R.case("Tau_Local_Neighborhood with permutations", hood)


def T04(R):
    def body(perms):
        def go(s):
            n, t = s.size("n", 1, 3), s.size("t", 2, 3)
            y = s.fn("y", sample=lambda m, *i: m.rng.randrange(0, 3))
            k, rix, lab = regions(s, n)
            m = s.size("m", 1, 3)
            rk = s.define("rk", (n, t), lambda i, p: add(
                1, sm(lambda j: iv(lt(y(j, p), y(i, p))), n),
                mul(div(1, 2), sub(sm(lambda j: iv(eq(y(j, p), y(i, p))), n), 1))))
            d = lambda i, p: sub(rk(i, add(p, 1)), rk(i, p))
            ab = lib.abs_
            # theta is undefined between two periods without any rank change
            tot = s.define("tot", (sub(t, 1),), lambda p: sm(lambda i: ab(d(i, p)), n),
                           facts=lambda p: [implies(and_(le(ZERO, p), lt(p, sub(t, 1))), lt(ZERO, app("tot", p)))])
            Y = Arr((n, t), y, "f")
            reg = Arr((n,), lambda i: lab(rix(i)), "f")
            snap = s.snapshot(Y, reg)
            # z is undefined when all values are equal; it is not part of the property
            s.fn("std", facts=lambda p: [lt(ZERO, app("std", p))], sample=lambda m, p: 1)
            s.it.hooks["arr_std"] = lambda it, o, ax: Arr(o.shape[1:], lambda *i: app("std", *i), "f")
            r = s.call("rank.Theta", Y, reg, m if perms else 0)
            s.equal("ranks are mid-ranks", s.attr(r, "ranks"), (n, t), rk)
            s.equal("rank changes", s.attr(r, "ranks_d"), (n, sub(t, 1)), d)
            s.equal("total rank change", s.attr(r, "total"), (sub(t, 1),), tot)
            s.equal("regimes", s.attr(r, "regimes"), (k,), lab)
            s.goal("maximum possible total", eq(s.attr(r, "max_total"), sm(
                lambda i: ab(sub(sub(mul(2, i), n), -1)), n)))
            net = lambda z: lambda p: div(sm(lambda a: ab(sm(lambda i: mul(iv(eq(rix(z(i)), a)), d(i, p)), n)), k), tot(p))
            if not perms:
                s.equal("theta", s.attr(r, "theta"), (sub(t, 1),), net(lambda i: i))
                s.forall("theta is not negative", (sub(t, 1),), lambda p: le(ZERO, net(lambda i: i)(p)))
                # within a regime the net change is at most the total change; regimes partition the units
                D = s.fn("D")
                mem = lambda i, a: iv(eq(rix(i), a))
                s.forall("net change of a regime is at most its total change", (k,), lambda a: and_(
                    le(sm(lambda i: mul(mem(i, a), D(i)), n), sm(lambda i: mul(mem(i, a), ab(D(i))), n)),
                    le(neg(sm(lambda i: mul(mem(i, a), D(i)), n)), sm(lambda i: mul(mem(i, a), ab(D(i))), n))))
                s.goal("the regimes' total changes add up to the total", eq(
                    sm(lambda a: sm(lambda i: mul(mem(i, a), ab(D(i))), n), k), sm(lambda i: ab(D(i)), n)))
            else:
                pi = s.perm()
                th = s.attr(r, "theta")
                s.equal("theta", th, (1, sub(t, 1)), lambda z, p: net(lambda i: i)(p))
                sim = s.attr(r, "sim")
                s.equal("observed and simulated values", sim, (add(m, 1), sub(t, 1)), lambda j, p: ite(
                    eq(j, ZERO), net(lambda i: i)(p), net(lambda i: pi(sub(j, 1), i))(p)))
                left = lambda p: sm(lambda j: iv(le(sim.at(j, p), sim.at(ZERO, p))), add(m, 1))
                right = lambda p: sm(lambda j: iv(lt(sim.at(ZERO, p), sim.at(j, p))), add(m, 1))
                s.equal("left p-values", s.attr(r, "pvalue_left"), (sub(t, 1),), lambda p: div(left(p), add(m, 1)))
                s.equal("right p-values", s.attr(r, "pvalue_right"), (sub(t, 1),), lambda p: div(right(p), add(m, 1)))
                s.forall("the p-values add up to one", (sub(t, 1),), lambda p: eq(
                    add(s.attr(r, "pvalue_left").at(p), s.attr(r, "pvalue_right").at(p)), 1))
            s.unchanged("data and regimes unchanged", snap)
        return go
    R.case("Theta", body(False))
    R.case("Theta with permutations", body(True))
