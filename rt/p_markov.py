"""M01-M05, R01, H01-H03: classic Markov estimation and its tests."""
import itertools
import math
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as np

from core import (Frame, Prop, Skip, Violation, call, chi2_sf, close, need, quiet, same,
                  samelist, short, tolist)


# ------------------------------------------------------------------ oracles
def tally(panel, classes):
    """panel: list of rows (units) of labels; counts[a][b] by definition."""
    pos = {}
    for i, c in enumerate(classes):
        pos.setdefault(c, i)
    k = len(classes)
    cnt = [[0] * k for _ in range(k)]
    for row in panel:
        for a, b in zip(row[:-1], row[1:]):
            cnt[pos[a]][pos[b]] += 1
    return cnt


def structure(adj):
    """Communicating classes, recurrent ones and transient ones of a digraph."""
    k = len(adj)
    r = [[adj[i][j] or i == j for j in range(k)] for i in range(k)]
    for m in range(k):
        for i in range(k):
            if r[i][m]:
                for j in range(k):
                    if r[m][j]:
                        r[i][j] = True
    comm = {frozenset(j for j in range(k) if r[i][j] and r[j][i]) for i in range(k)}
    rec = {c for c in comm if all(j in c for i in c for j in range(k) if adj[i][j])}
    return comm, rec, comm - rec


def filled_adj(cnt):
    k = len(cnt)
    return [[cnt[i][j] > 0 or (i == j and sum(cnt[i]) == 0) for j in range(k)]
            for i in range(k)]


# --------------------------------------------------------------- generators
LABELS = {
    "int": lambda k: list(range(k)),
    "neg": lambda k: [3 * i - 4 for i in range(k)],
    "float": lambda k: [0.5 * i - 1.25 for i in range(k)],
    "str": lambda k: [f"c{chr(97 + i)}" for i in range(k)],
    "big": lambda k: [10 ** 6 * i + 7 for i in range(k)],
}


def labelled(codes, kind, k):
    lab = LABELS[kind](k)
    return [[lab[c] for c in row] for row in codes]


def rand_codes(rng, n, t, k, style):
    if style == "uniform":
        c = rng.integers(0, k, (n, t))
    elif style == "monotone":
        c = np.maximum.accumulate(rng.integers(0, k, (n, t)), axis=1)
    elif style == "blocks":
        h = max(1, k // 2)
        g = rng.integers(0, 2, n)
        c = np.where(g[:, None] == 0, rng.integers(0, h, (n, t)),
                     h + rng.integers(0, max(1, k - h), (n, t)))
        c = np.minimum(c, k - 1)
    elif style == "cycle":
        s = rng.integers(0, k, n)
        c = (s[:, None] + np.arange(t)[None, :]) % k
    elif style == "sticky":
        c = np.zeros((n, t), int)
        c[:, 0] = rng.integers(0, k, n)
        for j in range(1, t):
            mv = rng.random(n) < 0.2
            c[:, j] = np.where(mv, rng.integers(0, k, n), c[:, j - 1])
    else:  # drain: transient states first, then absorbing set
        c = rng.integers(0, k, (n, t))
        a = rng.integers(0, k)
        cutp = rng.integers(0, t + 1, n)
        c = np.where(np.arange(t)[None, :] >= cutp[:, None], a, c)
    return c.astype(int).tolist()


STYLES = ["uniform", "monotone", "blocks", "cycle", "sticky", "drain"]


def gen_panels(rng, tier, hints, withclasses=True):
    # exhaustive small panels
    for n, t, k in [(1, 1, 1), (1, 2, 2), (1, 3, 2), (2, 2, 2), (1, 4, 3), (2, 3, 2), (1, 5, 2)]:
        for flat in itertools.product(range(k), repeat=n * t):
            codes = [list(flat[i * t:(i + 1) * t]) for i in range(n)]
            yield {"y": codes, "kind": "int", "k": k, "classes": None}
    # a single label, for every transition count up to 130
    for t in range(2, 132 if tier == "quick" else 700):
        yield {"y": [[0] * t], "kind": "int", "k": 2, "classes": [0, 1]}
    sizes = hints.sizes(1, 140)
    for s in sizes:
        for (n, t, k) in [(s, 3, 3), (3, s, 3), (max(2, s // 8), 10, min(s, 60))]:
            for style in ("uniform", "monotone", "sticky"):
                yield {"y": rand_codes(rng, n, t, k, style), "kind": "int", "k": k,
                       "classes": list(range(k))}
        if s <= 60:
            yield {"y": rand_codes(rng, 2 * s, 4, s, "cycle"), "kind": "float", "k": s, "classes": None}
    # many identical units (counts beyond 8, 16 and, thorough, 17 bits; rare moves)
    for big in (255, 256, 300, 3000, 33000, 66000) if tier == "quick" else (
            127, 128, 255, 256, 257, 511, 3000, 32767, 32768, 65535, 65536, 65537, 140000):
        yield {"y": [[0, 0], [1, 0]], "mult": [big, 1], "kind": "int", "k": 2, "classes": [0, 1]}
        yield {"y": [[0, 0], [0, 1], [1, 1]], "mult": [big, 1, 2], "kind": "str", "k": 2, "classes": None}
        yield {"y": [[0, 1, 1], [1, 1, 0]], "mult": [big, 3], "kind": "int", "k": 3, "classes": [2, 1, 0]}
    yield {"y": [[0] * 1500 + [1]], "kind": "int", "k": 2, "classes": [0, 1]}
    n_rand = 350 if tier == "quick" else 4000
    for it in range(n_rand):
        k = int(rng.integers(1, 8))
        n = int(rng.integers(1, 11))
        t = int(rng.integers(1, 12))
        codes = rand_codes(rng, n, t, k, STYLES[it % len(STYLES)])
        kind = ["int", "neg", "float", "str", "big"][int(rng.integers(5))]
        case = {"y": codes, "kind": kind, "k": k, "classes": None,
                "fill": bool(rng.integers(2))}
        if withclasses and rng.random() < 0.5:
            kk = k + int(rng.integers(0, 3))
            case["k"] = kk
            perm = [int(v) for v in rng.permutation(kk)]
            case["classes"] = perm if rng.random() < 0.6 else list(range(kk))
        if rng.random() < 0.3:
            case["aslist"] = True
        yield case


def build_panel(case):
    k = case["k"]
    lab = LABELS[case["kind"]](k)
    panel = labelled(case["y"], case["kind"], k)
    if case.get("mult"):
        panel = [r for r, q in zip(panel, case["mult"]) for _ in range(q)]
    if case.get("classes") is not None:
        classes = [lab[i] for i in case["classes"]]
    else:
        classes = sorted({v for r in panel for v in r})
    return panel, classes


def markov_obj(case):
    from giddy.markov import Markov
    panel, classes = build_panel(case)
    arr = np.array(panel)
    y = panel if case.get("aslist") else arr
    given = np.array(classes) if case.get("classes") is not None else None
    fr = Frame(class_ids=y, classes=given)
    kw = {}
    if case.get("fill"):
        kw["fill_empty_classes"] = True
    m = call(Markov, "Markov()", y, given, summary=bool(case.get("summary")), **kw)
    fr.check()
    return m, panel, classes


def chk_m01(case):
    m, panel, classes = markov_obj(case)
    cnt = tally(panel, classes)
    need(int(m.k) == len(classes), "k is %s for %s classes", m.k, len(classes))
    samelist(m.classes, classes, "classes")
    same(m.transitions, cnt, "transitions")
    n, t = len(panel), len(panel[0])
    need(np.asarray(m.transitions).sum() == n * (t - 1), "transitions sum to %s, expected %s",
         np.asarray(m.transitions).sum(), n * (t - 1))


Prop("M01", gen_panels, chk_m01,
     "all label panels of a few small shapes, single-label panels, and random panels of six "
     "styles (uniform, monotone, blocks, cycle, sticky, draining) over five label types, "
     "inferred or supplied classes in random order with unvisited labels; non-trivial: at "
     "least one transition", trivial=lambda c: len(c["y"][0]) < 2)


def check_probs(p, cnt, fill, what):
    p = np.asarray(p, dtype=float)
    k = len(cnt)
    need(p.shape == (k, k), "%s has shape %s, expected %s", what, p.shape, (k, k))
    for i in range(k):
        s = int(sum(cnt[i]))
        for j in range(k):
            c = int(cnt[i][j])
            if s == 0:
                want = 1.0 if (fill and i == j) else 0.0
                need(p[i, j] == want, "%s[%d,%d] is %r in an empty row, expected %r",
                     what, i, j, p[i, j], want)
            elif c == s or c == 0:
                need(p[i, j] == (1.0 if c else 0.0), "%s[%d,%d] is %r for %d of %d transitions",
                     what, i, j, p[i, j], c, s)
            else:
                want = float(Fraction(c, s))
                need(abs(p[i, j] - want) <= 4e-15, "%s[%d,%d] is %r for %d of %d transitions",
                     what, i, j, p[i, j], c, s)


def gen_m02(rng, tier, hints):
    import p_spatial
    a = gen_panels(rng, tier, hints)
    b = p_spatial.gen_sm(rng, tier, hints, count=60 if tier == "quick" else 600)
    for c in a:
        yield c
    for c in b:
        c = dict(c)
        c["sm"] = True
        c["fill"] = bool(rng.integers(2))
        yield c


def chk_m02(case):
    if case.get("sm"):
        import p_spatial
        sm, _ = p_spatial.sm_obj(case)
        T = np.asarray(sm.T)
        need(np.asarray(sm.P).shape == T.shape, "P has shape %s, T %s",
             np.asarray(sm.P).shape, T.shape)
        for i in range(len(T)):
            check_probs(np.asarray(sm.P)[i], T[i].astype(int).tolist(), case["fill"], f"P[{i}]")
        check_probs(sm.p, np.asarray(sm.transitions).astype(int).tolist(), case["fill"], "p")
        return
    m, panel, classes = markov_obj(case)
    check_probs(m.p, tally(panel, classes), bool(case.get("fill")), "p")


Prop("M02", gen_m02, chk_m02,
     "as M01 (single-label rows of every length up to 130 included), plus random spatial Markov "
     "models (continuous and discrete), with and without filling; non-trivial: some transition",
     trivial=lambda c: not c.get("sm") and len(c["y"][0]) < 2)


# ------------------------------------------------------------------ M03
def gen_m03(rng, tier, hints):
    yield {"nd": 1, "v": [1.0, 0.0]}
    yield {"nd": 0, "v": 3.0}
    yield {"nd": 4, "v": [[[[1.0]]]]}
    yield {"nd": 4, "v": np.zeros((2, 2, 2, 2)).tolist()}
    yield {"nd": 1, "v": []}
    for k in (1, 2):
        for flat in itertools.product((0, 1), repeat=k * k):
            yield {"nd": 2, "v": np.array(flat).reshape(k, k).tolist()}
    for flat in itertools.product((0, 2), repeat=8):
        yield {"nd": 3, "v": np.array(flat).reshape(2, 2, 2).tolist()}
    for s in hints.sizes(1, 60):
        for nd in (2, 3):
            v = rng.integers(0, 3, (s, s) if nd == 2 else (2, s, s)) * 1.0
            v[..., rng.random(s) < 0.4, :] = 0
            yield {"nd": nd, "v": v.tolist()}
    for it in range(300 if tier == "quick" else 4000):
        nd = 2 + int(rng.integers(2))
        k = int(rng.integers(1, 7))
        m = int(rng.integers(1, 5))
        sh = (k, k) if nd == 2 else (m, k, k)
        v = rng.random(sh) if it % 2 else rng.integers(0, 4, sh)
        z = rng.random(sh[:-1]) < 0.4
        v = np.where(z[..., None], 0, v)
        yield {"nd": nd, "v": v.tolist(), "aslist": bool(rng.integers(4) == 0),
               "f": bool(rng.integers(3) == 0)}


def chk_m03(case):
    from giddy.util import fill_empty_diagonals
    a = np.array(case["v"])
    if case["nd"] not in (2, 3):
        try:
            with quiet():
                r = fill_empty_diagonals(case["v"] if case["nd"] else a)
        except NotImplementedError:
            return
        except Exception as e:
            raise Violation(f"{case['nd']}-d input: {type(e).__name__} instead of "
                            f"NotImplementedError: {e}")
        raise Violation(f"{case['nd']}-d input accepted: {short(r)}")
    if case.get("f"):
        a = np.asfortranarray(a)
    x = case["v"] if case.get("aslist") else a
    want = np.array(a)
    for idx in itertools.product(*[range(s) for s in a.shape[:-1]]):
        if a[idx].sum() == 0:
            want[idx + (idx[-1],)] = 1
    fr = Frame(p=x)
    got = call(fill_empty_diagonals, "fill_empty_diagonals()", x)
    fr.check()
    need(isinstance(got, np.ndarray) and got.dtype == want.dtype,
         "result has type %s, expected %s", getattr(got, "dtype", type(got)), want.dtype)
    same(got, want, "filled matrix")


Prop("M03", gen_m03, chk_m03,
     "all 0/1 matrices of size 1, 2 and 2x2x2 stacks, random int and float 2-d and 3-d arrays "
     "with empty rows, C and Fortran order, lists, and 0-, 1- and 4-d arrays; non-trivial: some "
     "empty row", trivial=lambda c: c["nd"] in (2, 3) and not (np.array(c["v"]).sum(-1) == 0).any())


# ------------------------------------------------------------------ M04
def chk_m04(case):
    m, panel, classes = markov_obj(case)
    cnt = tally(panel, classes)
    comm, rec, tra = structure(filled_adj(cnt))
    k = len(cnt)

    def sets(x, what):
        if x is None:
            return []
        return [frozenset(int(v) for v in np.asarray(c).ravel()) for c in x]

    for num, idx, want, what in [
            (m.num_cclasses, m.cclasses_indices, comm, "communicating"),
            (m.num_rclasses, m.rclasses_indices, rec, "recurrent"),
            (m.num_tclasses, m.tclasses_indices, tra, "transient")]:
        got = sets(idx, what)
        need(int(num) == len(want) and len(got) == len(want) and set(got) == want,
             "%s classes are %s (count %s), expected %s", what,
             [sorted(s) for s in got], num, [sorted(s) for s in want])
    want = [i for i in range(k) if all((j == i) == filled_adj(cnt)[i][j] for j in range(k))]
    got = sorted(int(v) for a in m.astates_indices for v in np.asarray(a).ravel())
    need(got == want and int(m.num_astates) == len(want),
         "absorbing states are %s (count %s), expected %s", got, m.num_astates, want)


Prop("M04", gen_panels, chk_m04,
     "as M01; classification compared with the transitive closure of the count graph; "
     "non-trivial: at least two classes", trivial=lambda c: c["k"] < 2)


# ------------------------------------------------------------------ M05
def gen_m05(rng, tier, hints):
    import p_ergodic
    for c in p_ergodic.gen_matrices(rng, tier, hints, empty=True, small=True):
        c["summary"] = bool(rng.integers(2))
        yield c
    for e in (1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10):
        # states that are left, but hardly ever, beside absorbing and empty ones
        for k in (2, 3, 4):
            for style in range(4):
                p = np.eye(k)
                p[0, 0], p[0, k - 1] = 1 - e, 1 - (1 - e)
                if style == 1 and k > 2:
                    p[1] = 0
                elif style >= 2 and k > 2:
                    p[1] = 1.0 / k
                if style == 3:
                    p = p[::-1, ::-1]
                yield {"close": p.tolist(), "summary": bool(style % 2)}
    for c in gen_panels(rng, "quick", hints):
        if rng.random() < 0.5:
            yield dict(c, panel=True)


def soj_want(F):
    out = []
    for i, row in enumerate(F):
        if sum(row) == 0 or row[i] == 1:
            out.append(math.inf)
        else:
            out.append(float(1 / (1 - row[i])))
    return out


def chk_m05(case):
    from giddy.markov import prais, sojourn_time
    if case.get("panel"):
        from core import frac_matrix
        m, panel, classes = markov_obj(case)
        want = soj_want(frac_matrix(tally(panel, classes)))
        p0 = np.array(m.p)
        close(call(lambda: m.sojourn_time, "Markov.sojourn_time"), want, "Markov.sojourn_time",
              rtol=1e-8)
        same(m.p, p0, "p after sojourn_time")
        return
    if case.get("close"):
        P = np.array(case["close"])
        F = [[Fraction(v) for v in r] for r in case["close"]]
    else:
        import p_ergodic
        F, P = p_ergodic.build(case)
    fr = Frame(p=P)
    got = call(sojourn_time, "sojourn_time()", P, summary=bool(case.get("summary")))
    fr.check()
    close(got, soj_want(F), "sojourn_time", rtol=1e-8)
    got = call(prais, "prais()", P)
    fr.check()
    close(got, [float(1 - F[i][i]) for i in range(len(F))], "prais", atol=1e-12)


Prop("M05", gen_m05, chk_m05,
     "stochastic matrices over every 2-state and many 3-state supports with random rational "
     "entries, larger random ones, empty rows, int and list input; Markov objects from random "
     "panels; non-trivial: more than one state", trivial=lambda c: len(c.get("c", [1, 2])) < 2)


# ------------------------------------------------------------------ R01
def gen_r01(rng, tier, hints):
    for n, t in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2)]:
        for flat in itertools.product(range(n), repeat=n * t):
            yield {"y": np.array(flat).reshape(n, t).tolist()}
    for s in hints.sizes(1, 120):
        yield {"y": rng.integers(0, max(2, s // 3), (s, 4)).tolist()}
        yield {"y": rng.random((5, s)).tolist()}
        yield {"y": rng.integers(0, 4, (6, s)).tolist()}
    for it in range(150 if tier == "quick" else 2500):
        n, t = int(rng.integers(1, 12)), int(rng.integers(1, 9))
        y = rng.random((n, t)) if it % 2 else rng.integers(-3, 4, (n, t))
        yield {"y": np.asarray(y).tolist(), "aslist": it % 5 == 0}


def chk_r01(case):
    from giddy.markov import FullRank_Markov, GeoRank_Markov
    y = case["y"]
    n, t = len(y), len(y[0])
    arr = y if case.get("aslist") else np.array(y)
    fr = Frame(y=arr)
    ranks = [[0] * t for _ in range(n)]
    geo = [[0] * t for _ in range(n)]
    for c in range(t):
        asc = sorted(range(n), key=lambda i: (y[i][c], i))
        for pos, i in enumerate(asc):
            geo[pos][c] = i + 1
            ranks[i][c] = n - pos
    for cls, panel, name in ((FullRank_Markov, ranks, "FullRank_Markov"),
                             (GeoRank_Markov, geo, "GeoRank_Markov")):
        m = call(cls, name + "()", arr, summary=False)
        fr.check()
        if name == "FullRank_Markov":
            same(m.ranks, ranks, "ranks")
        cnt = tally(panel, list(range(1, n + 1)))
        same(m.transitions, cnt, name + ".transitions")
        T = np.asarray(m.transitions)
        need((T.sum(0) == t - 1).all() and (T.sum(1) == t - 1).all(),
             "%s row or column sums differ from t-1: %s", name, short(T))
        samelist(m.classes, list(range(1, n + 1)), name + ".classes")
        check_probs(m.p, cnt, False, name + ".p")


Prop("R01", gen_r01, chk_r01,
     "all panels of small shapes over n distinct values (every tie pattern), random int and "
     "float panels with ties; non-trivial: at least 2 units and 2 periods",
     trivial=lambda c: len(c["y"]) < 2 or len(c["y"][0]) < 2)


# ------------------------------------------------------------------ H01
def count_stack(rng, m, k, style):
    a = rng.integers(0, 6, (m, k, k))
    if style == 1:
        a = a * (rng.random((m, k, k)) < 0.5)
    elif style == 2:
        a = a * (rng.random((m, k, 1)) < 0.6)
    elif style == 3:
        a = a * (rng.random((1, 1, k)) < 0.6)
    elif style == 4:
        a = np.repeat(a[:1], m, axis=0)
    elif style == 5:
        a = a[:1] * np.arange(1, m + 1)[:, None, None]
    elif style == 6:
        a = a * (rng.random((m, 1, 1)) < 0.6)
    elif style == 7:
        a = a * (rng.random((1, k, 1)) < 0.5)
    elif style == 8:  # counts of very different sizes
        a = a * 10 ** rng.integers(0, 6, (m, k, k))
    return a.astype(int)


def gen_h01(rng, tier, hints):
    for fa in itertools.product((0, 1, 3), repeat=4):
        for fb in itertools.product((0, 2), repeat=4):
            yield {"a": np.array(fa).reshape(2, 2).tolist(), "b": np.array(fb).reshape(2, 2).tolist()}
    for s in hints.sizes(1, 60):
        a = count_stack(rng, 2, s, 1)
        yield {"a": a[0].tolist(), "b": a[1].tolist()}
    for v in hints.ints:
        if v > 0:
            a = count_stack(rng, 2, 3, 0)
            a[0, 1] = [v, 0, 0]
            a[1, 2] = [0, v, v]
            yield {"a": a[0].tolist(), "b": a[1].tolist()}
            yield {"a": (a[0] * v).tolist(), "b": (a[1] * v).tolist()}
    for it in range(80 if tier == "quick" else 800):
        # scaled counts (expected counts, weighted spells): exact binary fractions
        k = int(rng.integers(1, 6))
        a = count_stack(rng, 2, k, it % 9).astype(float)
        a *= 2.0 ** rng.integers(-12, 3, (2, 1, 1) if it % 2 else (2, k, 1))
        yield {"a": a[0].tolist(), "b": a[int(it % 3 > 0)].tolist(), "float": True}
    for it in range(300 if tier == "quick" else 5000):
        k = int(rng.integers(1, 7))
        a = count_stack(rng, 2, k, it % 9)
        c = {"a": a[0].tolist(), "b": a[1].tolist(), "float": bool(it % 2)}
        if it % 9 == 0:
            c["b"] = c["a"]
        yield c


def chi2_want(a, b):
    k = len(a)
    a, b = ([[Fraction(v) for v in r] for r in x] for x in (a, b))
    st = Fraction(0)
    for i in range(k):
        sb = sum(b[i])
        sa = sum(a[i])
        for j in range(k):
            e = Fraction(sa * b[i][j], sb) if sb else Fraction(0)
            d = (a[i][j] - e) ** 2
            st += d / e if e else d
    dof = (sum(1 for r in a if sum(r) > 0) - 1) * (sum(1 for r in b if sum(r) > 0) - 1)
    return float(st), dof


def chk_h01(case):
    from giddy.markov import chi2
    a, b = np.array(case["a"]), np.array(case["b"])
    if case.get("float"):
        a, b = a.astype(float), b.astype(float)
    fr = Frame(T1=a, T2=b)
    got = call(chi2, "chi2()", a, b)
    fr.check()
    need(len(got) == 3, "chi2 returned %s", short(got))
    st, dof = chi2_want(case["a"], case["b"])
    close(got[0], st, "chi-square statistic", rtol=1e-8)
    need(int(got[2]) == dof, "degrees of freedom %s, expected %s", got[2], dof)
    close(got[1], chi2_sf(st, dof), "p-value", rtol=1e-6, atol=1e-9)
    if case["a"] == case["b"]:
        close(got[0], 0.0, "statistic of identical matrices", atol=1e-9)


Prop("H01", gen_h01, chk_h01,
     "all 2x2 pairs over {0,1,3}x{0,2}, pairs with fractional totals, random pairs up to 6x6 in nine sparsity styles, int and "
     "float; non-trivial: both matrices non-zero",
     trivial=lambda c: not np.any(c["a"]) or not np.any(c["b"]))


# ------------------------------------------------------------------ H02
def gen_stacks(rng, tier, hints):
    for fa in itertools.product((0, 1, 2), repeat=4):
        for fb in itertools.product((0, 3), repeat=4):
            yield {"F": [np.array(fa).reshape(2, 2).tolist(), np.array(fb).reshape(2, 2).tolist()]}
    for s in hints.sizes(1, 40):
        yield {"F": count_stack(rng, 3, s, 1).tolist()}
        if s <= 30:
            yield {"F": count_stack(rng, s, 3, 1).tolist()}
    for v in hints.ints:
        if v > 0:
            a = count_stack(rng, 3, 3, 0)
            a[0, 1] = [v, 0, 0]
            a[1, 2] = [0, v, 0]
            yield {"F": a.tolist(), "float": True}
            yield {"F": (a * v).tolist()}
    for it in range(250 if tier == "quick" else 4000):
        m, k = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        yield {"F": count_stack(rng, m, k, it % 9).tolist(), "float": bool(rng.integers(2)),
               "aslist": it % 7 == 0, "names": it % 3 == 0, "summ": it % 4 == 0,
               "file": it % 8 == 0}


def hom_want(F):
    m, k = len(F), len(F[0])
    pool = [[sum(F[s][i][j] for s in range(m)) for j in range(k)] for i in range(k)]
    Q = Fraction(0)
    LR = 0.0
    dof = 0
    for i in range(k):
        ni = sum(pool[i])
        A = sum(1 for j in range(k) if pool[i][j] > 0)
        b = 0
        for s in range(m):
            ns = sum(F[s][i])
            if ns == 0:
                continue
            b += 1
            for j in range(k):
                if pool[i][j] == 0:
                    continue
                p0 = Fraction(pool[i][j], ni)
                p1 = Fraction(F[s][i][j], ns)
                Q += ns * (p1 - p0) ** 2 / p0
                if F[s][i][j]:
                    LR += 2 * F[s][i][j] * math.log(p1 / p0)
        dof += (b - 1) * (A - 1)
    p0 = [[float(Fraction(v, sum(r))) if sum(r) else 0.0 for v in r] for r in pool]
    p1 = [[[float(Fraction(v, sum(r))) if sum(r) else 0.0 for v in r] for r in f] for f in F]
    return float(Q), LR, dof, p0, p1


def chk_h02(case):
    from giddy.markov import homogeneity
    F = case["F"]
    m, k = len(F), len(F[0])
    arr = np.array(F, dtype=float if case.get("float") else int)
    x = F if case.get("aslist") else arr
    fr = Frame(F=x)
    kw = {}
    if case.get("names"):
        kw = dict(regime_names=[f"R{i}" for i in range(m)], class_names=[f"C{i}" for i in range(k)])
    h = call(homogeneity, "homogeneity()", x, **kw)
    fr.check()
    Q, LR, dof, p0, p1 = hom_want(F)
    close(h.Q, Q, "Q", rtol=1e-8, atol=1e-8)
    close(h.LR, LR, "LR", rtol=1e-8, atol=1e-8)
    need(int(h.dof) == dof, "dof %s, expected %s", h.dof, dof)
    close(h.Q_p_value, chi2_sf(Q, dof), "Q_p_value", rtol=1e-5, atol=1e-8)
    if not (dof > 0 and abs(LR) < 1e-9):
        close(h.LR_p_value, chi2_sf(max(LR, 0.0) if abs(LR) < 1e-9 else LR, dof), "LR_p_value",
              rtol=1e-5, atol=1e-8)
    close(h.p_h0, p0, "pooled probabilities", atol=1e-12)
    close(h.p_h1, p1, "regime probabilities", atol=1e-12)
    if m > 1:
        order = list(range(m))[::-1]
        g = call(homogeneity, "homogeneity() on permuted regimes", arr[order])
        close(g.Q, Q, "Q of permuted regimes", rtol=1e-8, atol=1e-8)
        close(g.LR, LR, "LR of permuted regimes", rtol=1e-8, atol=1e-8)
        need(int(g.dof) == dof, "dof of permuted regimes %s, expected %s", g.dof, dof)
    if case.get("summ"):
        check_summary(h, case, F, m, k, dof, p0, p1)


def check_summary(h, case, F, m, k, dof, p0, p1):
    d = tempfile.mkdtemp(prefix="vhom")
    try:
        fn = os.path.join(d, "out") if case.get("file") else None
        try:
            with quiet() as buf:
                h.summary(file_name=fn)
        except Exception as e:
            raise Violation(f"summary() raised {type(e).__name__}: {e}")
        text = buf.getvalue()
        lines = [ln.split() for ln in text.splitlines()]
        stat = [ln[1:] for ln in lines if ln[:1] == ["Stat."]]
        dofs = [ln[1:] for ln in lines if ln[:1] == ["DOF"]]
        pv = [ln[1:] for ln in lines if ln[:1] == ["p-value"]]
        f3 = lambda v: "%.3f" % v  # noqa: E731
        need(stat == [[f3(h.LR), f3(h.Q)]], "report shows statistics %s, expected %s", stat,
             [f3(h.LR), f3(h.Q)])
        need(dofs == [[str(dof)] * 2], "report shows dof %s, expected %s", dofs, dof)
        need(pv == [[f3(h.LR_p_value), f3(h.Q_p_value)]], "report shows p-values %s", pv)
        tot = int(np.sum(F))
        for lab, v in (("Number of classes:", k), ("Number of transitions:", tot),
                       ("Number of regimes:", m)):
            got = [ln for ln in text.splitlines() if ln.startswith(lab)]
            need(got == [f"{lab} {v}"], "report line %r, expected %r", got, f"{lab} {v}")
        names = [f"C{i}" for i in range(k)] if case.get("names") else [str(i) for i in range(k)]
        rows = []
        for mat in [p0] + p1:
            for i in range(k):
                rows.append([names[i]] + [float(v) for v in mat[i]])
        got = [ln for ln in lines if len(ln) == k + 1 and ln[0] in names
               and all(_isnum(v) for v in ln[1:])]
        # three decimals; a value half way between two may be printed either way
        need(len(got) == len(rows) and all(
            g[0] == r[0] and all(len(a.split(".")[1]) == 3 and abs(float(a) - b) < 0.000501
                                 for a, b in zip(g[1:], r[1:])) for g, r in zip(got, rows)),
            "report tables %s, expected %s", short(got), short(rows))
        if fn:
            need(os.path.exists(fn + ".tex"), "no .tex file written")
            tex = open(fn + ".tex").read()
            for v in (f3(h.LR), f3(h.Q), f3(h.LR_p_value), f3(h.Q_p_value), str(dof)):
                need(v in tex, "LaTeX report lacks %s", v)
    finally:
        shutil.rmtree(d)


def _isnum(s):
    try:
        float(s)
        return "." in s
    except ValueError:
        return False


Prop("H02", gen_stacks, chk_h02,
     "all pairs of 2x2 count matrices over {0,1,2}x{0,3}, random stacks up to 5x5x5 in nine "
     "sparsity styles (identical and proportional regimes included), int, float and list input, "
     "reports parsed; non-trivial: at least two regimes with data",
     trivial=lambda c: sum(1 for f in c["F"] if np.any(f)) < 2)


# ------------------------------------------------------------------ H03
def chk_h03(case):
    from giddy.markov import kullback
    F = case["F"]
    if not np.any(F):
        raise Skip("no transition")
    m, k = len(F), len(F[0])
    arr = np.array(F, dtype=float if case.get("float") else int)
    fr = Frame(F=arr)
    r = call(kullback, "kullback()", arr)
    fr.check()
    _, LR, _, _, _ = hom_want(F)
    keys = ["Conditional homogeneity", "Conditional homogeneity dof",
            "Conditional homogeneity pvalue"]
    for key in keys:
        need(key in r, "result lacks %r", key)
    tol = 1e-7 + 1e-9 * float(np.sum(F)) * math.log(np.sum(F) + 1)
    close(r[keys[0]], LR, "statistic", rtol=1e-8, atol=tol)
    need(r[keys[0]] >= -tol, "negative statistic %r", r[keys[0]])
    dof = k * (m - 1) * (k - 1)
    need(int(r[keys[1]]) == dof, "dof %s, expected %s", r[keys[1]], dof)
    if LR > 1e-6:
        close(r[keys[2]], chi2_sf(LR, dof), "p-value", rtol=1e-5, atol=1e-8)
    perm = list(range(k))[::-1]
    g = call(kullback, "kullback() relabelled", arr[::-1][:, perm][:, :, perm].copy())
    close(g[keys[0]], LR, "statistic of relabelled stack", rtol=1e-8, atol=tol)


Prop("H03", gen_stacks, chk_h03,
     "as H02; compared with the likelihood ratio of the regime probabilities; non-trivial: at "
     "least two regimes with data", trivial=lambda c: sum(1 for f in c["F"] if np.any(f)) < 2)
