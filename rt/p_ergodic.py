"""E01-E03, B01: long-run behaviour and mobility of transition matrices."""
import itertools
import math
from fractions import Fraction

import numpy as np

from core import Frame, Prop, Skip, Violation, call, close, need, quiet, short
from p_markov import structure


# A case holds integer weights c; the matrix is their row normalisation.
def build(case):
    c = case["c"]
    F = [[Fraction(v, sum(r)) if sum(r) else Fraction(0) for v in r] for r in c]
    if case.get("dtype") == "int":
        P = np.array([[int(v) for v in r] for r in F])
    else:
        P = np.array([[float(v) for v in r] for r in F])
    if case.get("aslist"):
        P = P.tolist()
    return F, P


def filled(F):
    return [[Fraction(int(i == j)) for j in range(len(F))] if sum(r) == 0 else list(r)
            for i, r in enumerate(F)]


def adj_of(F):
    return [[v > 0 for v in r] for r in F]


def weights_for(rng, support):
    k = len(support)
    return [[int(rng.integers(1, 7)) if support[i][j] else 0 for j in range(k)] for i in range(k)]


def gen_matrices(rng, tier, hints, empty=False, small=False, irreducible=False):
    def emit(c, **kw):
        if not empty and any(sum(r) == 0 for r in c):
            return None
        if irreducible:
            if any(sum(r) == 0 for r in c):
                return None
            if len(structure([[v > 0 for v in r] for r in c])[0]) != 1:
                return None
        return dict({"c": c}, **kw)

    rows3 = [r for r in itertools.product((0, 1), repeat=3) if empty or any(r)]
    for c in ([[1]], [[0]]):
        e = emit(c)
        if e:
            yield e
    for s in itertools.product((0, 1), repeat=4):
        e = emit(weights_for(rng, [s[:2], s[2:]]))
        if e:
            yield e
    for s in itertools.product(rows3, repeat=3):
        if small and rng.random() < 0.5:
            continue
        e = emit(weights_for(rng, s))
        if e:
            yield e
    # permutation matrices, as ints and floats
    for k in (1, 2, 3, 4):
        for p in itertools.permutations(range(k)):
            c = [[int(p[i] == j) for j in range(k)] for i in range(k)]
            for d in ("int", "float"):
                e = emit(c, dtype=d)
                if e:
                    yield e
    for s in hints.sizes(1, 40):
        for d in (0.15, 0.5, 1.0):
            sup = rng.random((s, s)) < d
            for i in range(s):
                sup[i, (i + 1) % s] = True
            e = emit(weights_for(rng, sup.tolist()))
            if e:
                yield e
    n = (120 if tier == "quick" else 3000) // (2 if small else 1)
    for it in range(n):
        k = int(rng.integers(2, 8))
        style = it % 7
        sup = rng.random((k, k)) < float(rng.choice([0.2, 0.35, 0.6, 1.0]))
        if style == 1:    # block diagonal: several closed classes
            h = int(rng.integers(1, k))
            sup[:h, h:] = False
            sup[h:, :h] = False
        elif style == 2:  # transient into closed
            h = int(rng.integers(1, k))
            sup[h:, :h] = False
        elif style == 3:  # two closed classes plus transient states
            a = int(rng.integers(1, k))
            b = int(rng.integers(a, k + 1))
            sup[:a, a:] = False
            sup[a:b, :a] = False
            sup[a:b, b:] = False
        elif style == 4:  # irreducible ring plus noise
            for i in range(k):
                sup[i, (i + 1) % k] = True
        elif style == 5:  # absorbing states
            for i in range(k):
                if rng.random() < 0.3:
                    sup[i] = False
                    sup[i, i] = True
        p = rng.permutation(k)
        sup = sup[np.ix_(p, p)]
        if style == 6 and empty:
            sup[rng.random(k) < 0.4] = False
        for i in range(k):
            if not sup[i].any() and not (style == 6 and empty):
                sup[i, i if rng.random() < 0.5 else int(rng.integers(k))] = True
        if irreducible:
            q = rng.permutation(k)
            for i in range(k):
                sup[q[i], q[(i + 1) % k]] = True
        e = emit(weights_for(rng, sup.tolist()))
        if e:
            if it % 6 == 0:
                e["aslist"] = True
            yield e
    if not small:
        # probabilities spanning several orders of magnitude
        for it in range(20 if tier == "quick" else 300):
            k = int(rng.integers(2, 5))
            c = [[int(10 ** rng.integers(0, 5)) for _ in range(k)] for _ in range(k)]
            e = emit(c)
            if e:
                yield e


def solve(A, b):
    """Exact solution of a square rational system."""
    n = len(A)
    M = [list(r) + [b[i]] for i, r in enumerate(A)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [v / d for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * v for a, v in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def stationary(F, cls):
    cls = sorted(cls)
    n = len(cls)
    A = [[F[cls[j]][cls[i]] - (1 if i == j else 0) for j in range(n)] for i in range(n)]
    A[-1] = [Fraction(1)] * n
    b = [Fraction(0)] * (n - 1) + [Fraction(1)]
    x = solve(A, b)
    out = [0.0] * len(F)
    for i, c in enumerate(cls):
        out[c] = float(x[i])
    return out


def sure_states(F, j):
    """States other than j that reach j with probability one (before return)."""
    k = len(F)
    adj = adj_of(F)
    oth = [i for i in range(k) if i != j]
    can = {j}
    ch = True
    while ch:
        ch = False
        for i in oth:
            if i not in can and any(adj[i][l] and l in can for l in range(k)):
                can.add(i)
                ch = True
    lost = {i for i in oth if i not in can}
    ch = True
    while ch:
        ch = False
        for i in oth:
            if i not in lost and any(adj[i][l] and l in lost for l in range(k)):
                lost.add(i)
                ch = True
    return [i for i in oth if i not in lost]


def passage(F):
    """Exact mean first passage matrix (None for infinite)."""
    k = len(F)
    M = [[None] * k for _ in range(k)]
    for j in range(k):
        s = sure_states(F, j)
        A = [[(1 if a == b else 0) - F[a][b] for b in s] for a in s]
        x = solve(A, [Fraction(1)] * len(s)) if s else []
        for a, v in zip(s, x):
            M[a][j] = v
        nxt = [l for l in range(k) if l != j and F[j][l] > 0]
        if all(M[l][j] is not None for l in nxt):
            M[j][j] = 1 + sum((F[j][l] * M[l][j] for l in nxt), Fraction(0))
    return M


def fl(M):
    return [[math.inf if v is None else float(v) for v in r] for r in M]


# ------------------------------------------------------------------ objects
def gen_objs(rng, tier):
    """Markov and Spatial_Markov objects whose long-run properties are asked."""
    import p_spatial
    q = tier == "quick"
    for it in range(60 if q else 600):
        n, t, k = (int(rng.integers(*b)) for b in ((2, 8), (2, 7), (2, 5)))
        yield {"panel": True, "c": rng.integers(0, k, (n, t)).tolist()}
    for it in range(70 if q else 700):
        c = p_spatial.sm_case(rng, n=int(rng.integers(2, 7)), t=int(rng.integers(2, 9)), k=int(rng.integers(1, 4)),
                              m=int(rng.integers(1, 4)))
        c["fill"] = bool(rng.random() < 0.75)
        yield {"sm": c}


def object_cases(case):
    """The object, and the exact matrices of its p and P (None for a Markov)."""
    from core import frac_matrix
    if "panel" in case:
        from giddy.markov import Markov
        y = np.array(case["c"])
        m = call(Markov, "Markov()", y, summary=False)
        return m, [(filled(frac_matrix(np.asarray(m.transitions).astype(int).tolist())))], None
    import p_spatial
    sm, _ = p_spatial.sm_obj(case["sm"])
    fill = bool(case["sm"].get("fill"))
    fr = [frac_matrix(np.asarray(a).astype(int).tolist()) for a in [sm.transitions] + list(sm.T)]
    fr = [filled(f) if fill else f for f in fr]
    return sm, fr[:1], fr[1:]


def asked_twice(obj, name, what):
    a = call(lambda: getattr(obj, name), what)
    b = call(lambda: getattr(obj, name), what + " again")
    need(a is b or all(np.array_equal(np.asarray(x, float), np.asarray(z, float)) for x, z in zip(a, b)),
         "%s asked again differs", what)
    return a


# ------------------------------------------------------------------ E01
def gen_e01(rng, tier, hints):
    for c in gen_matrices(rng, tier, hints, empty=True):
        yield c
    yield from gen_objs(rng, tier)


def chk_e01_obj(case):
    obj, g, cond = object_cases(case)
    empty = lambda f: any(sum(r) == 0 for r in f)
    if cond is None:
        check_steady(asked_twice(obj, "steady_state", "Markov.steady_state"), g[0], "Markov.steady_state")
        return
    if empty(g[0]):
        empty_row_rejected(lambda o: o.s, obj, "Spatial_Markov.s")
    else:
        check_steady(asked_twice(obj, "s", "Spatial_Markov.s"), g[0], "Spatial_Markov.s")
    if any(empty(f) for f in cond):
        empty_row_rejected(lambda o: o.S, obj, "Spatial_Markov.S")
        return
    S = asked_twice(obj, "S", "Spatial_Markov.S")
    need(len(S) == len(cond), "S has %s entries for %s lag classes", len(S), len(cond))
    for i, f in enumerate(cond):
        check_steady(S[i], f, f"Spatial_Markov.S[{i}]")


def check_steady(got, F, what):
    k = len(F)
    _, rec, _ = structure(adj_of(F))
    rec = sorted(rec, key=min)
    got = np.asarray(got, dtype=float)
    if len(rec) == 1:
        close(got, stationary(F, rec[0]), what, rtol=1e-6, atol=1e-8)
        return
    need(got.shape == (len(rec), k), "%s has shape %s, expected %s", what, got.shape,
         (len(rec), k))
    left = list(rec)
    for row in got:
        sup = frozenset(i for i in range(k) if row[i] > 1e-12)
        home = [c for c in left if sup <= c]
        need(len(home) == 1, "%s row %s is not supported on one recurrent class (classes %s)",
             what, short(row), [sorted(c) for c in rec])
        close(row, stationary(F, home[0]), what + " row", rtol=1e-6, atol=1e-8)
        left.remove(home[0])


def empty_row_rejected(fn, P, what):
    try:
        with quiet():
            r = fn(P)
    except ValueError:
        return
    except Exception as e:
        raise Violation(f"{what} of a matrix with an empty row raised {type(e).__name__} "
                        f"instead of ValueError: {e}")
    raise Violation(f"{what} accepted a matrix with an empty row: {short(r)}")


def chk_e01(case):
    if "panel" in case or "sm" in case:
        return chk_e01_obj(case)
    from giddy.ergodic import steady_state
    F, P = build(case)
    fr = Frame(P=P)
    G = filled(F)
    if any(sum(r) == 0 for r in F):
        empty_row_rejected(steady_state, P, "steady_state()")
        fr.check()
    else:
        check_steady(call(steady_state, "steady_state()", P), G, "steady_state")
        fr.check()
    got = call(steady_state, "steady_state(fill_empty_classes=True)", P, fill_empty_classes=True)
    fr.check()
    check_steady(got, G, "steady_state(filled)")
    if case.get("dtype") != "int" and not case.get("aslist") and \
            len(structure(adj_of(G))[0]) == 1 and all(sum(r) for r in F):
        from giddy import ergodic
        f = getattr(ergodic, "_steady_state_ergodic", None)
        if f is not None:
            check_steady(call(f, "_steady_state_ergodic()", P), G, "_steady_state_ergodic")
            fr.check()


Prop("E01", gen_e01, chk_e01,
     "all 1- and 2-state supports, all 3-state supports (empty rows included) with random rational "
     "entries, permutation matrices as int and float, random 2..7-state chains in seven "
     "reachability styles; exact rational oracle; non-trivial: more than one state",
     trivial=lambda c: len(c.get("c", [1, 2])) < 2)


# ------------------------------------------------------------------ E02
def chk_e02(case):
    from giddy.ergodic import mfpt
    F, P = build(case)
    fr = Frame(P=P)
    G = filled(F)
    want = fl(passage(G))
    if any(sum(r) == 0 for r in F):
        empty_row_rejected(mfpt, P, "mfpt()")
        fr.check()
    else:
        close(call(mfpt, "mfpt()", P), want, "mfpt", rtol=1e-5, atol=1e-6)
        fr.check()
    got = call(mfpt, "mfpt(fill_empty_classes=True)", P, fill_empty_classes=True)
    fr.check()
    close(got, want, "mfpt(filled)", rtol=1e-5, atol=1e-6)


def gen_e02(rng, tier, hints):
    import p_markov
    yield from gen_matrices(rng, tier, hints, empty=True)
    n = 0
    for c in p_markov.gen_panels(rng, "quick", hints):
        if rng.random() < 0.15:
            n += 1
            yield dict(c, panel=True)
    for c in gen_objs(rng, tier):
        if "sm" in c:
            yield c


def chk_e02_sm(case):
    obj, g, cond = object_cases(case)
    empty = lambda f: any(sum(r) == 0 for r in f)
    if empty(g[0]):
        empty_row_rejected(lambda o: o.f, obj, "Spatial_Markov.f")
    else:
        close(asked_twice(obj, "f", "Spatial_Markov.f"), fl(passage(g[0])), "Spatial_Markov.f", rtol=1e-5, atol=1e-6)
    if any(empty(f) for f in cond):
        empty_row_rejected(lambda o: o.F, obj, "Spatial_Markov.F")
        return
    F = asked_twice(obj, "F", "Spatial_Markov.F")
    need(len(F) == len(cond), "F has %s entries for %s lag classes", len(F), len(cond))
    for i, f in enumerate(cond):
        close(F[i], fl(passage(f)), f"Spatial_Markov.F[{i}]", rtol=1e-5, atol=1e-6)


def chk_e02x(case):
    if "sm" in case:
        return chk_e02_sm(case)
    if case.get("panel"):
        import p_markov
        from core import frac_matrix
        m, panel, classes = p_markov.markov_obj(case)
        if len(classes) > 8:
            raise Skip("too many classes")
        G = filled(frac_matrix(p_markov.tally(panel, classes)))
        close(call(lambda: m.mfpt, "Markov.mfpt"), fl(passage(G)), "Markov.mfpt", rtol=1e-5,
              atol=1e-6)
        check_steady(call(lambda: m.steady_state, "Markov.steady_state"), G, "Markov.steady_state")
        return
    chk_e02(case)


Prop("E02", gen_e02, chk_e02x,
     "as E01, plus Markov objects from random panels; exact rational solution of the first-passage "
     "equations; non-trivial: more than one state", trivial=lambda c: len(c.get("c", [1, 2])) < 2)


# ------------------------------------------------------------------ E03
def chk_e03(case):
    from giddy.ergodic import var_mfpt_ergodic
    F, P = build(case)
    k = len(F)
    M = passage(F)
    W = [[None] * k for _ in range(k)]
    for j in range(k):
        s = [i for i in range(k) if i != j]
        rhs = lambda i: 1 + 2 * sum((F[i][l] * M[l][j] for l in s), Fraction(0))  # noqa: E731
        A = [[(1 if a == b else 0) - F[a][b] for b in s] for a in s]
        x = solve(A, [rhs(i) for i in s]) if s else []
        for a, v in zip(s, x):
            W[a][j] = v
        W[j][j] = rhs(j) + sum((F[j][l] * W[l][j] for l in s), Fraction(0))
    want = [[float(W[i][j] - M[i][j] ** 2) for j in range(k)] for i in range(k)]
    scale = max(float(W[i][j]) for i in range(k) for j in range(k))
    fr = Frame(P=P)
    got = call(var_mfpt_ergodic, "var_mfpt_ergodic()", P)
    fr.check()
    close(got, want, "var_mfpt_ergodic", rtol=1e-5, atol=1e-7 * (1 + scale))


Prop("E03", lambda rng, tier, hints: gen_matrices(rng, tier, hints, irreducible=True), chk_e03,
     "all irreducible supports up to 3 states with random rational entries, permutation matrices "
     "as int and float, random irreducible chains up to 7 states; exact rational second moments; "
     "non-trivial: more than one state", trivial=lambda c: len(c["c"]) < 2)


# ------------------------------------------------------------------ B01
def det(F):
    k = len(F)
    M = [list(r) for r in F]
    d = Fraction(1)
    for c in range(k):
        p = next((r for r in range(c, k) if M[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, k):
            f = M[r][c] / M[c][c]
            M[r] = [a - f * v for a, v in zip(M[r], M[c])]
    return d


def gen_b01(rng, tier, hints):
    for c in gen_matrices(rng, tier, hints):
        k = len(c["c"])
        if k < 2:
            continue
        if rng.random() < 0.6:
            w = rng.integers(0, 5, k)
            if w.sum() == 0:
                w[0] = 1
            c["ini"] = [int(v) for v in w]
        yield c


def chk_b01(case):
    from giddy.mobility import markov_mobility
    F, P = build(case)
    k = len(F)
    if case.get("ini"):
        s = sum(case["ini"])
        ini = [Fraction(v, s) for v in case["ini"]]
        arg = np.array([float(v) for v in ini])
    else:
        ini = [Fraction(1, k)] * k
        arg = None
    tr = sum(F[i][i] for i in range(k))
    want = {
        "P": float((k - tr) / (k - 1)),
        "D": float(1 - abs(det(F))),
        "B1": float((k - k * sum(ini[i] * F[i][i] for i in range(k))) / (k - 1)),
        "B2": float(sum(ini[i] * F[i][j] * abs(i - j) for i in range(k) for j in range(k)) / (k - 1)),
    }
    ev = np.sort(np.abs(np.linalg.eigvals(np.array([[float(v) for v in r] for r in F]).T)))
    want["L2"] = 1 - float(ev[-2])
    fr = Frame(p=P, ini=arg)
    for ms, wv in want.items():
        tol = 1e-9 if ms != "L2" else 1e-3 if _defective(ev) else 1e-6
        if ms in ("B1", "B2"):
            got = call(markov_mobility, f"markov_mobility({ms})", P, measure=ms, ini=arg)
        else:
            got = call(markov_mobility, f"markov_mobility({ms})", P, measure=ms)
        fr.check()
        close(got, wv, f"measure {ms}", rtol=1e-7, atol=tol)
    close(call(markov_mobility, "markov_mobility()", P), want["P"], "default measure", atol=1e-9)


def _defective(ev):
    """Nearly repeated moduli: eigenvalues may be ill-conditioned."""
    return bool((np.diff(ev) < 1e-2).any())


Prop("B01", gen_b01, chk_b01,
     "as E01 without empty rows (k >= 2), random or default initial distributions, all five "
     "measures; non-trivial: matrix is not the identity",
     trivial=lambda c: all(r[i] == sum(r) for i, r in enumerate(c["c"])))
