"""H01: chi2."""
from pyvc.driver import *
from pyvc.terms import *
from pyvc.values import *
from fractions import Fraction


def count(m, *a):
    return m.rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 7, 20000])


def weight(m, *a):
    """Counts, and the totals below one of scaled or expected counts."""
    return m.rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 7, 20000, Fraction(1, 4), Fraction(1, 8)])


def nonneg(f, sort="R"):
    return lambda *a: [le(ZERO, app(f, *a, sort=sort))]


def H01(R):
    def body(s):
        r = s.size("r")
        A = s.fn("A", facts=nonneg("A"), sample=weight)
        B = s.fn("B", facts=nonneg("B"), sample=weight)
        a, b = Arr((r, r), A, "f"), Arr((r, r), B, "f")
        snap = s.snapshot(a, b)
        res = s.call("markov.chi2", a, b)
        stat, p, dof = res.items
        rs1 = lambda i: sum_(ZERO, r, lambda j: A(i, j))
        rs2 = lambda i: sum_(ZERO, r, lambda j: B(i, j))
        E = lambda i, j: ite(eq(rs2(i), ZERO), ZERO, div(mul(rs1(i), B(i, j)), rs2(i)))

        def cell(i, j):
            d = sub(A(i, j), E(i, j))
            return ite(eq(E(i, j), ZERO), mul(d, d), div(mul(d, d), E(i, j)))
        S = sum_(ZERO, r, lambda i: sum_(ZERO, r, lambda j: cell(i, j)))
        nz = lambda f: sum_(ZERO, r, lambda i: iv(lt(ZERO, f(i))))
        D = mul(sub(nz(rs1), ONE), sub(nz(rs2), ONE))
        s.goal("statistic", eq(stat, S))
        s.goal("degrees of freedom", eq(dof, D))
        s.goal("p-value", eq(p, sub(ONE, app("chi2cdf", stat, dof))))
        s.unchanged("arguments unchanged", snap)
    R.case("chi2 of two count matrices", body)

    def same(s):
        r = s.size("r")
        A = s.fn("A", facts=nonneg("A"), sample=weight)
        a = Arr((r, r), A, "f")
        res = s.call("markov.chi2", a, a)
        s.goal("identical matrices give 0", eq(res.items[0], ZERO))
    R.case("chi2 of a matrix with itself", same)


def regimes(s, m, r, k, params=True):
    """Count matrices F of m regimes and the functions the tests are defined by."""
    F = s.fn("F", sample=count, facts=lambda a, i, j: [
        le(ZERO, app("F", a, i, j)),
        implies(and_(le(ZERO, a), lt(a, m), eq(app("T", i, j), ZERO)), eq(app("F", a, i, j), ZERO)),
        implies(and_(le(ZERO, j), lt(j, k), eq(app("Nim", a, i), ZERO)), eq(app("F", a, i, j), ZERO))])
    # the two implications are consequences of the definitions, proved here
    pos = lambda a, i, j: [le(ZERO, app("F0", a, i, j))]
    F0 = s.fn("F0", facts=pos, sample=count)
    a, i, j = fresh("a"), fresh("i"), fresh("j")
    s.goal("a cell of an empty pooled cell is empty", eq(F0(a, i, j), ZERO), le(ZERO, a), lt(a, m),
           eq(sum_(ZERO, m, lambda u: F0(u, i, j)), ZERO))
    s.goal("a cell of an empty row is empty", eq(F0(a, i, j), ZERO), le(ZERO, j), lt(j, k),
           eq(sum_(ZERO, k, lambda u: F0(a, i, u)), ZERO))
    T = s.define("T", (r, k), lambda i, j: sum_(ZERO, m, lambda u: F(u, i, j)),
                 lemmas=lambda i, j: [le(ZERO, app("T", i, j))])
    Nim = s.define("Nim", (r,) if params else (m, r), lambda a, i: sum_(ZERO, k, lambda j: F(a, i, j)),
                   params=(m,) if params else (),
                   lemmas=lambda a, i: [le(ZERO, app("Nim", a, i))])
    Ni = s.define("Ni", (r,), lambda i: sum_(ZERO, k, lambda j: T(i, j)),
                  lemmas=lambda i: [le(ZERO, app("Ni", i))])
    s.ctx.facts["T"] = (lambda f: lambda i, j: f(i, j) + [
        implies(and_(le(ZERO, i), lt(i, r), le(ZERO, j), lt(j, k), eq(Ni(i), ZERO)), eq(T(i, j), ZERO))])(
            s.ctx.facts["T"])
    return F, T, Ni, Nim


def H02(R):
    def body(s):
        m, r, k = s.size("m"), s.size("r"), s.size("k")
        F, T, Ni, Nim = regimes(s, m, r, k)
        M = Arr((m, r, k), F, "f")
        P0 = s.define("P0", (r, k), lambda i, j: ite(eq(Ni(i), ZERO), ZERO, div(T(i, j), Ni(i))),
                      lemmas=lambda i, j: [le(ZERO, app("P0", i, j)),
                                           implies(eq(app("P0", i, j), ZERO), eq(T(i, j), ZERO)),
                                           implies(eq(T(i, j), ZERO), eq(app("P0", i, j), ZERO))])
        P1 = s.define("P1", (r, k), lambda a, i, j: ite(eq(Nim(a, i), ZERO), ZERO, div(F(a, i, j), Nim(a, i))),
                      params=(m,), lemmas=lambda a, i, j: [
                          le(ZERO, app("P1", a, i, j)),
                          implies(eq(app("P1", a, i, j), ZERO), eq(F(a, i, j), ZERO)),
                          implies(eq(F(a, i, j), ZERO), eq(app("P1", a, i, j), ZERO))])
        snap = s.snapshot(M)
        h = s.call("markov.homogeneity", M)
        g = lambda nm: s.attr(h, nm)
        sum3 = lambda f: sum_(ZERO, m, lambda a: sum_(ZERO, r, lambda i: sum_(ZERO, k, lambda j: f(a, i, j))))

        def q(a, i, j):
            d = sub(P1(a, i, j), P0(i, j))
            return ite(lt(ZERO, P0(i, j)), div(mul(Nim(a, i), d, d), P0(i, j)), ZERO)

        def l(a, i, j):
            return ite(lt(ZERO, F(a, i, j)), mul(2, F(a, i, j), app("log", div(P1(a, i, j), P0(i, j)))), ZERO)
        s.equal("pooled probabilities", g("p_h0"), (r, k), P0)
        s.equal("regime probabilities", g("p_h1"), (m, r, k), P1)
        s.equal("Q table", g("Q_table"), (m, r, k), q)
        s.equal("LR table", g("LR_table"), (m, r, k), l)
        s.goal("Q", eq(g("Q"), sum3(q)))
        s.goal("LR", eq(g("LR"), sum3(l)))
        used = lambda i: sum_(ZERO, k, lambda j: iv(lt(ZERO, T(i, j))))
        data = lambda i: sum_(ZERO, m, lambda a: iv(lt(ZERO, Nim(a, i))))
        dof = sum_(ZERO, r, lambda i: mul(sub(data(i), ONE), sub(used(i), ONE)))
        s.goal("degrees of freedom", eq(g("dof"), dof))
        s.goal("Q p-value", eq(g("Q_p_value"), sub(ONE, app("chi2cdf", g("Q"), g("dof")))))
        s.goal("LR p-value", eq(g("LR_p_value"), sub(ONE, app("chi2cdf", g("LR"), g("dof")))))
        s.goal("number of classes", eq(g("k"), k))
        s.goal("number of regimes", eq(g("m"), m))
        s.goal("number of transitions", eq(g("t_total"), sum_(ZERO, r, lambda i: sum_(
            ZERO, k, lambda j: T(i, j)))))
        s.unchanged("the count matrices are unchanged", snap)
    R.case("homogeneity", body)


def H03(R):
    def body(s):
        m, r = s.size("m"), s.size("r")
        F, T, Ni, Nim = regimes(s, m, r, r, params=False)
        M = Arr((m, r, r), F, "f")
        s.assume(lt(ZERO, sum_(ZERO, m, lambda a: sum_(ZERO, r, lambda i: sum_(ZERO, r, lambda j: F(a, i, j))))))
        snap = s.snapshot(M)
        log = lambda x: app("log", x)
        xlogx = lambda x: ite(lt(ZERO, x), mul(x, log(x)), ZERO)
        XF = s.define("XF", (m, r, r), lambda a, i, j: xlogx(F(a, i, j)))
        XT = s.define("XT", (r, r), lambda i, j: xlogx(T(i, j)))
        XN = s.define("XN", (r,), lambda i: xlogx(Ni(i)))
        XM = s.define("XM", (m, r), lambda a, i: xlogx(Nim(a, i)))
        d = s.call("markov.kullback", M)
        sm = lambda f, *ns: f() if not ns else sum_(ZERO, ns[0], lambda v: sm(lambda *q: f(v, *q), *ns[1:]))
        K = mul(2, add(sm(XF, m, r, r), neg(sm(XM, m, r)), neg(sm(XT, r, r)), sm(XN, r)))
        s.goal("statistic, Kullback's form", eq(d.d["Conditional homogeneity"], K))
        # the likelihood ratio 2 sum F log((F / n_im) / (T / n_i)), the logarithm of
        # the quotient written out
        cell = lambda a, i, j, x: ite(lt(ZERO, F(a, i, j)), mul(F(a, i, j), log(x)), ZERO)
        LR = sm(lambda a, i, j: mul(2, add(
            cell(a, i, j, F(a, i, j)), cell(a, i, j, Ni(i)), neg(cell(a, i, j, Nim(a, i))),
            neg(cell(a, i, j, T(i, j))))), m, r, r)
        s.goal("likelihood ratio, split", eq(LR, mul(2, add(
            sm(lambda a, i, j: cell(a, i, j, F(a, i, j)), m, r, r),
            sm(lambda i: sm(lambda a, j: cell(a, i, j, Ni(i)), m, r), r),
            neg(sm(lambda a, i: sm(lambda j: cell(a, i, j, Nim(a, i)), r), m, r)),
            neg(sm(lambda i, j: sm(lambda a: cell(a, i, j, T(i, j)), m), r, r))))))
        s.forall("likelihood ratio, cells", (m, r, r), lambda a, i, j: eq(cell(a, i, j, F(a, i, j)), xlogx(F(a, i, j))))
        pos = lambda i, j: [le(ZERO, T(i, j))]
        s.forall("likelihood ratio, rows of regimes", (m, r), lambda a, i: eq(
            sm(lambda j: cell(a, i, j, Nim(a, i)), r),
            ite(lt(ZERO, Nim(a, i)), mul(sm(lambda j: F(a, i, j), r), log(Nim(a, i))), ZERO)))
        s.forall("likelihood ratio, pooled cells", (r, r), lambda i, j: eq(
            sm(lambda a: cell(a, i, j, T(i, j)), m),
            ite(lt(ZERO, T(i, j)), mul(sm(lambda a: F(a, i, j), m), log(T(i, j))), ZERO)))
        s.forall("likelihood ratio, pooled rows", (r,), lambda i: eq(
            sm(lambda a, j: cell(a, i, j, Ni(i)), m, r),
            ite(lt(ZERO, Ni(i)), mul(sm(lambda j: sm(lambda a: F(a, i, j), m), r), log(Ni(i))), ZERO)))
        s.goal("degrees of freedom", eq(d.d["Conditional homogeneity dof"], mul(r, sub(m, 1), sub(r, 1))))
        s.goal("p-value", eq(d.d["Conditional homogeneity pvalue"], sub(ONE, app(
            "chi2cdf", d.d["Conditional homogeneity"], d.d["Conditional homogeneity dof"]))))
        s.unchanged("the counts are unchanged", snap)
    R.case("kullback", body)
