"""S01-S03, L01-L03: spatial Markov and LISA Markov models."""
import itertools
import math

import numpy as np

from core import (Frame, Known, Prop, Skip, Violation, call, chi2_sf, close, dense_w, make_w, need,
                  quiet, same, samelist, short, w_full, w_path, w_random)
from p_markov import LABELS, chi2_want, hom_want, tally


# ---------------------------------------------------------------- cases
def gen_sm(rng, tier, hints, count=None):
    for s in hints.sizes(2, 45):
        for kw in ({"k": 3, "m": 2}, {"k": min(s, 6), "m": min(s, 5)}):
            yield sm_case(rng, n=s, t=4, **kw)
            yield sm_case(rng, n=5, t=s, **kw)
        if s <= 12:
            yield sm_case(rng, n=2 * s, t=4, k=s, m=2, discrete=False)
            yield sm_case(rng, n=2 * s, t=4, k=2, m=s, discrete=False)
    for disc in (False, True):  # counts beyond eight bits
        yield sm_case(rng, n=300, t=3, k=2, m=2, discrete=disc)
    yield sm_case(rng, n=3, t=400, k=2, m=1, discrete=False)
    n = count or (160 if tier == "quick" else 2500)
    for it in range(n):
        yield sm_case(rng, values=hints.values() if it % 3 == 0 else None)


def sm_case(rng, n=None, t=None, k=None, m=None, discrete=None, values=None):
    n = n or int(rng.integers(2, 9))
    t = t or int(rng.integers(1, 7))
    discrete = bool(rng.random() < 0.3) if discrete is None else discrete
    if discrete:
        kk = int(rng.integers(1, 5))
        kind = ["int", "neg", "str", "float"][int(rng.integers(4))]
        y = rng.integers(0, kk, (n, t)).tolist()
        c = {"y": y, "disc": True, "kind": kind, "kk": kk}
        c["w"] = w_random(rng, n, tr="o")
        c["w"]["ids"] = list(range(n))
        return c
    style = int(rng.integers(5))
    if style == 0:
        y = rng.random((n, t))
    elif style == 1:
        y = rng.integers(0, 5, (n, t)).astype(float)
    elif style == 2:
        y = rng.integers(-3, 4, (n, t))
    elif style == 3:
        y = np.round(rng.normal(0, 2, (n, t)), 1)
    else:
        y = np.exp(rng.normal(0, 1, (n, t)))
    if values:
        y = np.asarray(y, float)
        mask = rng.random((n, t)) < 0.3
        y[mask] = rng.choice(values, mask.sum())
    c = {"y": np.asarray(y).tolist(), "disc": False,
         "k": k or int(rng.integers(1, 6)), "m": m or int(rng.integers(1, 6)),
         "fixed": bool(rng.random() < 0.6)}
    vals = np.unique(np.asarray(y, float))
    if k is None and rng.random() < 0.4:
        c["cut"] = _cuts(rng, vals)
    if m is None and rng.random() < 0.4:
        c["lcut"] = _cuts(rng, vals)
    c["w"] = w_random(rng, n, tr=["o", "r", "b"][int(rng.integers(3))],
                      islands=bool(rng.random() < 0.2), symmetric=bool(rng.random() < 0.7))
    if rng.random() < 0.2 and not c["w"]["tr"] == "b":
        c["w"]["wt"] = [[float(rng.integers(1, 4)) for _ in nb] for nb in c["w"]["nb"]]
    return c


def _cuts(rng, vals):
    nc = int(rng.integers(1, 4))
    pool = np.concatenate([vals, vals[:1] - 1, vals[-1:] + 1, (vals[:1] + vals[-1:]) / 2])
    cu = sorted({float(v) for v in rng.choice(pool, nc)})
    return cu


def sm_obj(case, **extra):
    from giddy.markov import Spatial_Markov
    w = make_w(case["w"])
    kw = dict(extra)
    if case.get("fill"):
        kw["fill_empty_classes"] = True
    if case["disc"]:
        y = np.array([[LABELS[case["kind"]](case["kk"])[v] for v in r] for r in case["y"]])
        fr = Frame(y=y, w=w)
        sm = call(Spatial_Markov, "Spatial_Markov(discrete)", y, w, discrete=True, **kw)
    else:
        y = np.array(case["y"])
        for a, b in (("cut", "cutoffs"), ("lcut", "lag_cutoffs")):
            if case.get(a) is not None:
                kw[b] = np.array(case[a])
        fr = Frame(y=y, w=w, **{b: kw[b] for b in ("cutoffs", "lag_cutoffs") if b in kw})
        sm = call(Spatial_Markov, "Spatial_Markov()", y, w, k=case["k"], m=case["m"],
                  fixed=case["fixed"], **kw)
    fr.check()
    return sm, y


# --------------------------------------------------------------- oracles
def classify(v, cuts):
    """Index of the first cut-off not smaller than v, or the last class."""
    for i, c in enumerate(cuts):
        if v <= c:
            return i
    return len(cuts)


def quantile_cuts(vals, k):
    """Upper bounds of all classes but the last: distinct pooled quantiles."""
    from scipy import stats
    w = 100.0 / k
    q = sorted({float(stats.scoreatpercentile(vals, min(w * (i + 1), 100.0))) for i in range(k)})
    return q[:-1]


def near(v, cuts, tol=1e-9):
    return any(abs(v - c) <= tol * max(1.0, abs(c)) for c in cuts)


def check_classes(got, y, cuts_of, what, exact):
    """got[i][t] must be the class of y[i][t] under period t's cut-offs; values
    within rounding of a cut-off may fall on either side unless exact."""
    got = np.asarray(got)
    need(got.shape == y.shape, "%s has shape %s, expected %s", what, got.shape, y.shape)
    n, t = y.shape
    for c in range(t):
        cuts = cuts_of(c)
        for i in range(n):
            want = classify(y[i, c], cuts)
            if int(got[i, c]) == want:
                continue
            if not exact and near(y[i, c], cuts) and abs(int(got[i, c]) - want) <= sum(
                    1 for q in cuts if abs(y[i, c] - q) <= 1e-9 * max(1, abs(q))):
                continue
            raise Violation(f"{what}[{i},{c}] is {got[i, c]} for value {y[i, c]!r}, expected "
                            f"{want} under cut-offs {short(cuts)}")


def lag_of(case, y):
    w = make_w(case["w"])
    return np.asarray(w.sparse @ np.asarray(y, float))


def lag_modes(case, ids):
    """For each unit and period the most common neighbour classes (ties: all)."""
    W = dense_w(case["w"])
    ids = np.asarray(ids)
    n, t = ids.shape
    out = [[None] * t for _ in range(n)]
    for c in range(t):
        for i in range(n):
            tal = {}
            for j in range(n):
                if W[i, j]:
                    tal[int(ids[j, c])] = tal.get(int(ids[j, c]), 0) + W[i, j]
            mx = max(tal.values()) if tal else 0
            out[i][c] = {k for k, v in tal.items() if abs(v - mx) < 1e-9} or set(
                int(v) for v in ids[:, c])
    return out


# ------------------------------------------------------------------- S01
def chk_s01(case):
    sm, y = sm_obj(case)
    own, lag = np.asarray(sm.class_ids), np.asarray(sm.lclass_ids)
    n, t = y.shape
    need(own.shape == (n, t) and lag.shape == (n, t), "class arrays have shapes %s and %s",
         own.shape, lag.shape)
    m, k = int(sm.m), int(sm.k)
    T = np.zeros((m, k, k))
    for c in range(t - 1):
        for i in range(n):
            T[int(lag[i, c]), int(own[i, c]), int(own[i, c + 1])] += 1
    same(sm.T, T, "T")
    G = tally(own.astype(int).tolist(), list(range(k)))
    same(sm.transitions, G, "transitions")
    same(np.asarray(sm.T).sum(axis=0), G, "sum of conditional counts")
    check_disc(case, sm, y)


def check_disc(case, sm, y):
    """Classes, lag classes, counts and cut-offs follow the stated rules."""
    own, lag = np.asarray(sm.class_ids), np.asarray(sm.lclass_ids)
    n, t = y.shape
    if case["disc"]:
        labs = sorted(set(y.ravel().tolist()))
        samelist(sm.classes, labs, "classes")
        need(int(sm.k) == len(labs) and int(sm.m) == len(labs), "k=%s m=%s for %s labels",
             sm.k, sm.m, len(labs))
        samelist(own, [[labs.index(v) for v in r] for r in y.tolist()], "class_ids")
        modes = lag_modes(case, own)
        for i in range(n):
            for c in range(t):
                ok = modes[i][c] | ({int(own[i, c])} if len(modes[i][c]) > 1 else set())
                need(int(lag[i, c]) in ok,
                     "lclass_ids[%d,%d] is %s, most common neighbour classes are %s", i, c,
                     lag[i, c], sorted(modes[i][c]))
        return
    yf = np.asarray(y, float)
    ly = lag_of(case, y)
    for vals, cut, kk, attr, karr, ids, cls in (
            (yf, "cut", case["k"], "cutoffs", sm.k, own, "class_ids"),
            (ly, "lcut", case["m"], "lag_cutoffs", sm.m, lag, "lclass_ids")):
        rep = getattr(sm, attr)
        if case.get(cut) is not None:
            cuts = list(case[cut])
            close(rep, cuts, attr, atol=0, rtol=0)
            need(int(karr) == len(cuts) + 1, "%s gives %s classes", attr, karr)
            check_classes(ids, vals, lambda c: cuts, cls, exact=cls == "class_ids")
        elif case["fixed"]:
            cuts = quantile_cuts(vals.ravel(), kk)
            close(rep, cuts, attr, atol=1e-9, rtol=1e-9)
            need(int(karr) == len(cuts) + 1, "%s gives %s classes", attr, karr)
            check_classes(ids, vals, lambda c: [float(v) for v in rep], cls, exact=False)
        else:
            need(rep is None, "%s is %s for period-specific quantiles", attr, short(rep))
            need(int(karr) == kk, "%s classes, expected %s", karr, kk)
            check_classes(ids, vals, lambda c: quantile_cuts(vals[:, c], kk), cls, exact=False)
    samelist(sm.classes, list(range(int(sm.k))), "classes")


Prop("S01", gen_sm, chk_s01,
     "random panels (continuous, integer, tied, skewed) and weights (plain, row-standardised, "
     "binary, islands, asymmetric), own and lag class counts 1..5 independently, user cut-offs at "
     "data values, fixed, period-specific and discrete classification; non-trivial: at least two "
     "periods", trivial=lambda c: len(c["y"][0]) < 2)


def chk_s02(case):
    sm, y = sm_obj(case)
    check_disc(case, sm, y)
    k, m = int(sm.k), int(sm.m)
    need(np.asarray(sm.T).shape == (m, k, k), "T has shape %s for m=%s k=%s",
         np.asarray(sm.T).shape, m, k)


Prop("S02", gen_sm, chk_s02, "as S01", trivial=lambda c: len(c["y"]) < 2)


# ------------------------------------------------------------------- S03
def gen_s03(rng, tier, hints):
    for c in gen_sm(rng, tier, hints, count=60 if tier == "quick" else 900):
        if len(c["y"][0]) >= 2:
            yield c
    for s in hints.sizes(1, 60):
        c = sm_case(rng, n=4, t=5, k=3, m=2, discrete=False)
        c["perm"] = s
        yield c
    yield dict(sm_case(rng, n=4, t=5, k=2, m=2, discrete=False), perm=300)
    for it in range(40 if tier == "quick" else 500):
        disc = it % 4 == 3
        if disc:
            # four mutually adjacent units, two labels: never a tie
            y = rng.integers(0, 2, (4, int(rng.integers(2, 6)))).tolist()
            c = {"y": y, "disc": True, "kind": "int", "kk": 2, "w": w_full(4)}
        else:
            c = sm_case(rng, n=4, t=int(rng.integers(2, 6)), k=int(rng.integers(1, 5)),
                        m=int(rng.integers(1, 5)), discrete=False)
            if it % 3 == 0:
                c["w"] = w_path(4, tr="r")
            c["fixed"] = bool(it % 2)
        c["perm"] = int(rng.integers(1, 30))
        c["seed"] = int(rng.integers(10 ** 6))
        yield c


SNAP = ("T", "P", "p", "transitions", "class_ids", "lclass_ids", "cutoffs", "lag_cutoffs", "k", "m",
        "classes")


def snap(sm):
    out = {}
    for a in SNAP:
        v = getattr(sm, a)
        out[a] = None if v is None else np.array(v)
    return out


def x2_of(case, sm, y, yp):
    """The overall statistic when the lags are those of the panel yp."""
    from giddy.markov import Spatial_Markov  # noqa: F401  (only for parity of imports)
    own = np.asarray(sm.class_ids).astype(int)
    n, t = own.shape
    m, k = int(sm.m), int(sm.k)
    if case["disc"]:
        labs = sorted(set(y.ravel().tolist()))
        ids = [[labs.index(v) for v in r] for r in yp.tolist()]
        modes = lag_modes(case, ids)
        lag = np.array([[min(modes[i][c]) for c in range(t)] for i in range(n)])
        if any(len(modes[i][c]) > 1 for i in range(n) for c in range(t)):
            return None
    else:
        ly = lag_of(case, yp)
        lag = np.zeros((n, t), int)
        for c in range(t):
            if sm.lag_cutoffs is not None:
                cuts = [float(v) for v in sm.lag_cutoffs]
            else:
                cuts = quantile_cuts(ly[:, c], case["m"])
            for i in range(n):
                if near(ly[i, c], cuts):
                    # is it exactly at the boundary by construction? then both
                    # sides of a rounding error are possible: undecidable here
                    return None
                lag[i, c] = classify(ly[i, c], cuts)
    T = np.zeros((m, k, k), int)
    for c in range(t - 1):
        for i in range(n):
            T[lag[i, c], own[i, c], own[i, c + 1]] += 1
    G = tally(own.tolist(), list(range(k)))
    return sum(chi2_want(T[i].tolist(), G)[0] for i in range(m))


def chk_s03(case):
    sm, y = sm_obj(case)
    k, m = int(sm.k), int(sm.m)
    T = np.asarray(sm.T).astype(int)
    G = np.asarray(sm.transitions).astype(int)
    lst = call(lambda: sm.chi2, "Spatial_Markov.chi2")
    need(len(lst) == m, "chi2 has %s entries for %s lag classes", len(lst), m)
    tot = 0.0
    for i in range(m):
        st, dof = chi2_want(T[i].tolist(), G.tolist())
        tot += st
        close(lst[i][0], st, f"chi2[{i}] statistic", rtol=1e-8)
        need(int(lst[i][2]) == dof, "chi2[%d] dof %s, expected %s", i, lst[i][2], dof)
        close(lst[i][1], chi2_sf(st, dof), f"chi2[{i}] p-value", rtol=1e-5, atol=1e-8)
    close(call(lambda: sm.x2, "x2"), tot, "x2", rtol=1e-8)
    dof = k * (k - 1) ** 2
    need(int(call(lambda: sm.x2_dof, "x2_dof")) == dof, "x2_dof %s, expected %s", sm.x2_dof, dof)
    close(call(lambda: sm.x2_pvalue, "x2_pvalue"), chi2_sf(tot, dof), "x2_pvalue", rtol=1e-5,
          atol=1e-8)
    Q, LR, hd, _, _ = hom_want(T.tolist())
    close(call(lambda: sm.Q, "Q"), Q, "Q", rtol=1e-8, atol=1e-8)
    close(call(lambda: sm.LR, "LR"), LR, "LR", rtol=1e-8, atol=1e-8)
    need(int(call(lambda: sm.dof_hom, "dof_hom")) == hd, "dof_hom %s, expected %s", sm.dof_hom, hd)
    close(call(lambda: sm.Q_p_value, "Q_p_value"), chi2_sf(Q, hd), "Q_p_value", rtol=1e-5, atol=1e-8)
    if LR > 1e-6:
        close(call(lambda: sm.LR_p_value, "LR_p_value"), chi2_sf(LR, hd), "LR_p_value", rtol=1e-5,
              atol=1e-8)
    shtest(case, sm, T, G, k, m)
    with quiet() as buf:
        call(sm.summary, "summary()")
    if case.get("perm"):
        perms(case, sm, y)


def shtest(case, sm, T, G, k, m):
    import p_ergodic
    from core import frac_matrix
    from p_markov import structure
    mats = [G] + [T[i] for i in range(m)]
    fr = [frac_matrix(a.tolist()) for a in mats]
    if any(sum(r) == 0 for f in fr for r in f):
        return
    st = []
    for f in fr:
        rec = structure(p_ergodic.adj_of(f))[1]
        if len(rec) != 1:
            return
        st.append(p_ergodic.stationary(f, next(iter(rec))))
    if min(st[0]) <= 0:
        return
    res = call(lambda: sm.shtest, "shtest")
    need(len(res) == m, "shtest has %s entries for %s lag classes", len(res), m)
    p_ergodic.check_steady(sm.s, fr[0], "s")
    for i in range(m):
        p_ergodic.check_steady(np.asarray(sm.S)[i], fr[i + 1], f"S[{i}]")
        nt = T[i].sum()
        want = sum((nt * a - nt * b) ** 2 / (nt * b) for a, b in zip(st[i + 1], st[0]))
        close(res[i][0], want, f"shtest[{i}] statistic", rtol=1e-5, atol=1e-6)
        need(int(res[i][2]) == k - 1, "shtest[%d] dof %s, expected %s", i, res[i][2], k - 1)
        if k > 1:
            close(res[i][1], chi2_sf(want, k - 1), f"shtest[{i}] p-value", rtol=1e-4, atol=1e-6)


def perms(case, plain, y):
    np.random.seed(case.get("seed", 1))
    sp, _ = sm_obj(case, permutations=case["perm"])
    a, b = snap(plain), snap(sp)
    for key in SNAP:
        x, z = a[key], b[key]
        if x is None or z is None:
            need(x is None and z is None, "%s is %s with permutations, %s without", key,
                 short(z), short(x))
        else:
            samelist(z, x, key + " with permutations")
    close(sp.x2, plain.x2, "x2 with permutations", rtol=1e-10)
    real = np.asarray(sp.x2_realizations, float).ravel()
    need(len(real) == case["perm"], "%s realizations for %s permutations", len(real), case["perm"])
    # count with the statistics as computed, up to rounding of equal ones
    # (a bit-for-bit equal one is certainly counted)
    lo = (1 + int(((real >= sp.x2 + 1e-9) | (real == sp.x2)).sum())) / (case["perm"] + 1)
    hi = (1 + int((real >= sp.x2 - 1e-9).sum())) / (case["perm"] + 1)
    need(lo - 1e-12 <= sp.x2_rpvalue <= hi + 1e-12, "x2_rpvalue %r, expected between %r and %r",
         sp.x2_rpvalue, lo, hi)
    n = len(y)
    if n <= 4:
        poss = []
        for p in itertools.permutations(range(n)):
            v = x2_of(case, plain, y, y[list(p)])
            if v is None:
                return
            poss.append(v)
        poss = np.array(poss)
        for v in real:
            need((np.abs(poss - v) <= 1e-7 * (1 + abs(v))).any(),
                 "permuted statistic %r is not the statistic of any permutation (possible: %s)",
                 float(v), short(sorted(set(np.round(poss, 6).tolist()))))
        top = max(np.mean(np.abs(poss - v) < 1e-7 * (1 + abs(v))) for v in poss)
        if top <= 0.5 and case["perm"] >= 29:
            need(len(set(np.round(real, 6).tolist())) > 1,
                 "all %s permuted statistics equal %r", case["perm"], float(real[0]))


Prop("S03", gen_s03, chk_s03,
     "as S01 for the analytic statistics; 4-unit panels with permutations, every simulated "
     "statistic matched against all 24 permutations; non-trivial: at least two lag classes",
     trivial=lambda c: not c["disc"] and c.get("m", 2) < 2)


# ------------------------------------------------------- LISA stand-in
class MoranStub:
    """Runs the real Moran_Local, then overrides quadrants and p-values."""

    def __init__(self, q=None, p=None, record=None):
        self.q, self.p, self.record, self.i = q, p, record, 0

    def __enter__(self):
        import esda.moran as em
        self.em = em
        self.orig = orig = em.Moran_Local.__init__
        stub = self

        def init(obj, *a, **k):
            if stub.p is not None:
                k["permutations"] = 0  # p-values are overridden below
            orig(obj, *a, **k)
            i = stub.i
            stub.i += 1
            if stub.q is not None:
                obj.q = np.array(stub.q[i])
            if stub.p is not None:
                obj.p_z_sim = np.array(stub.p[i], float)
                obj.p_sim = 1.0 - np.array(stub.p[i], float) / 2
            if stub.record is not None:
                stub.record.append(obj)

        em.Moran_Local.__init__ = init
        return self

    def __exit__(self, *a):
        self.em.Moran_Local.__init__ = self.orig


def gen_l01(rng, tier, hints):
    # every (origin, destination, significance, significance) combination
    combos = list(itertools.product(range(1, 5), range(1, 5), (0, 1), (0, 1)))
    q = [[a, b] for a, b, _, _ in combos]
    p = [[0.01 if s else 0.5, 0.02 if u else 0.9] for _, _, s, u in combos]
    yield {"q": q, "p": p, "lev": 0.05, "w": w_path(len(q), "r"), "gq": False, "perm": 3}
    for s in hints.sizes(2, 40):
        yield lisa_case(rng, n=max(4, s), t=3)  # (local Moran needs four units)
        yield lisa_case(rng, n=4, t=s)
    yield lisa_case(rng, n=300, t=3)
    for v in hints.values():
        if 0 < v < 1:
            c = lisa_case(rng, n=6, t=4)
            c["lev"] = v
            c["p"] = rng.choice([v, v / 2, min(1, v * 1.5)], (6, 4)).tolist()
            yield c
    for it in range(100 if tier == "quick" else 1500):
        c = lisa_case(rng)
        if it % 5 == 0:
            c["perm"] = 0
        if it % 6 == 1:
            c["perm"] = 1
        if it % 7 == 0:
            c["real"] = True
            c["perm"] = 0 if it % 2 else 9
        if it % 4 == 0:
            c["dflt"] = True
            c["gq"] = False
        yield c


def lisa_case(rng, n=None, t=None):
    n = n or int(rng.integers(3, 9))
    t = t or int(rng.integers(1, 6))
    lev = float(rng.choice([0.05, 0.1, 0.5, 0.01]))
    pv = [lev, lev / 2, lev * 1.5 if lev < 0.6 else 1.0, 0.0, 1.0, min(1.0, lev + 1e-9)]
    return {"q": rng.integers(1, 5, (n, t)).tolist(), "p": rng.choice(pv, (n, t)).tolist(),
            "lev": lev, "w": w_random(rng, n, tr=["r", "o"][int(rng.integers(2))]),
            "gq": bool(rng.integers(2)), "perm": 3, "seed": int(rng.integers(10 ** 6))}


def lisa_obj(case, record=None):
    from giddy.markov import LISA_Markov
    q, p = np.array(case["q"]), np.array(case["p"])
    n, t = q.shape
    rs = np.random.RandomState(case.get("seed", 5))
    y = np.round(rs.rand(n, t) * 10 + 1, 2)
    w = make_w(case["w"])
    real = case.get("real")
    fr = Frame(y=y, w=w)
    np.random.seed(case.get("seed", 5))
    with MoranStub(None if real else q.T, None if real or not case["perm"] else p.T, record):
        kw = dict(permutations=case["perm"], significance_level=case["lev"],
                  geoda_quads=case["gq"])
        for k, d in (("permutations", 0), ("significance_level", 0.05), ("geoda_quads", False)):
            if case.get("dflt") and kw[k] == d:
                del kw[k]
        lm = call(LISA_Markov, "LISA_Markov()", y, w, **kw)
    fr.check(allow_weights=True)
    return lm, y, w


def chk_l01(case):
    rec = []
    lm, y, w = lisa_obj(case, rec)
    n, t = y.shape
    if case.get("real"):
        # quadrants by definition: sign of own deviation and of its lag
        W = dense_w(dict(case["w"], tr="r"))
        code = {(1, 1): 1, (0, 1): 3 if case["gq"] else 2, (0, 0): 2 if case["gq"] else 3, (1, 0): 4}
        q = np.zeros((n, t), int)
        for c in range(t):
            z = y[:, c] - y[:, c].mean()
            lz = W @ z
            for i in range(n):
                if min(abs(z[i]), abs(lz[i])) < 1e-9:
                    raise Skip("quadrant undecided")
                q[i, c] = code[(int(z[i] > 0), int(lz[i] > 0))]
        p = np.asarray(lm.p_values) if case["perm"] else None
        if p is not None and len(rec) == t:
            same(p, np.array([r.p_z_sim for r in rec]).T, "p_values")
    else:
        q = np.array(case["q"])
        p = np.array(case["p"]) if case["perm"] else None
        if p is not None:
            samelist(lm.p_values, p, "p_values")
    samelist(lm.q, q, "q")
    same(lm.transitions, tally(q.tolist(), [1, 2, 3, 4]), "transitions")
    samelist(lm.classes, [1, 2, 3, 4], "classes")
    mv = [[4 * (int(q[i, c]) - 1) + int(q[i, c + 1]) for c in range(t - 1)] for i in range(n)]
    samelist(np.asarray(lm.move_types).reshape(n, t - 1), np.array(mv).reshape(n, t - 1), "move_types")
    if p is None:
        need(not hasattr(lm, "significant_moves"), "significant moves reported without permutations")
        return
    lev = case["lev"]
    sm = [[mv[i][c] + 16 * (0 if p[i, c] <= lev and p[i, c + 1] <= lev else
                            1 if p[i, c] <= lev else 2 if p[i, c + 1] <= lev else 3)
           for c in range(t - 1)] for i in range(n)]
    samelist(np.asarray(lm.significant_moves).reshape(n, t - 1), np.array(sm).reshape(n, t - 1),
             "significant_moves")


Prop("L01", gen_l01, chk_l01,
     "all 64 origin/destination/significance combinations, random quadrants and p-values at and "
     "around the level through a stand-in for the local Moran results, and real local Moran runs; "
     "non-trivial: at least two periods", trivial=lambda c: len(c["q"][0]) < 2)


# ------------------------------------------------------------------- L02
def gen_l02(rng, tier, hints):
    for s in hints.sizes(3, 40):
        yield dict(lisa_case(rng, n=max(4, s), t=3), quad=1, non=False)
        yield dict(lisa_case(rng, n=6, t=s), quad=1, non=True)
    # more clusters than eight bits hold: 300 pairs of units, one of each significant
    c = lisa_case(rng, n=4, t=2)
    yield {**c, "q": [[1, 1]] * 600, "p": [[.01, .5] if i % 2 else [.5, .01] for i in range(600)], "lev": .05,
           "w": {"ids": list(range(600)), "nb": [[i ^ 1] for i in range(600)], "wt": None, "tr": "r"},
           "quad": 1, "non": False}
    for it in range(220 if tier == "quick" else 4000):
        n = int(rng.integers(3, 13))
        c = lisa_case(rng, n=n, t=int(rng.integers(1, 6)))
        c["w"] = w_random(rng, n, p=float(rng.choice([0.0, 0.1, 0.2, 0.4])), tr="r")
        if it % 3 == 0:
            ids = [f"u{chr(97 + i)}" for i in rng.permutation(n)]
            old = c["w"]["ids"]
            c["w"] = {"ids": ids, "nb": [[ids[j] for j in nb] for nb in c["w"]["nb"]], "wt": None,
                      "tr": "r"}
        c["quad"] = int(rng.integers(1, 5))
        c["non"] = bool(rng.integers(2))
        if it % 5 == 0:
            c["dflt"], c["quad"] = True, 1
        if it % 2:
            a = rng.integers(1, 5, (n, len(c["q"][0])))
            a[rng.random(a.shape) < 0.5] = c["quad"]
            c["q"] = a.tolist()
        if it % 11 == 0:
            c["perm"] = 0
        yield c


def chk_l02(case):
    lm, y, w = lisa_obj(case)
    n, t = y.shape
    fr = Frame(q=lm.q, w=w)
    kw = dict(quadrant=case["quad"], neighbors_on=case["non"])
    for k, d in (("quadrant", 1), ("neighbors_on", False)):
        if case.get("dflt") and kw[k] == d:
            del kw[k]
    res = call(lm.spillover, "spillover()", **kw)
    fr.check()
    if not case["perm"]:
        need(res is None, "spillover without permutations returned %s", short(res))
        return
    ids = case["w"]["ids"]
    pos = {v: i for i, v in enumerate(ids)}
    nb = [[pos[j] for j in r] for r in case["w"]["nb"]]
    q, p = np.array(case["q"]), np.array(case["p"])
    lab = []
    for c in range(t):
        edges = set()
        for i in range(n):
            if q[i, c] == case["quad"] and p[i, c] <= case["lev"]:
                for j in nb[i]:
                    edges.add((i, j))
                    if case["non"]:
                        for l in nb[j]:
                            edges.add((j, l))
        par = {}

        def find(a):
            while par[a] != a:
                a = par[a]
            return a
        for a, b in edges:
            par.setdefault(a, a)
            par.setdefault(b, b)
            par[find(a)] = find(b)
        lab.append([find(i) if i in par else None for i in range(n)])
    comp = np.asarray(res["components"])
    need(comp.shape == (n, t), "components has shape %s", comp.shape)
    for c in range(t if t > 1 else 0):
        for i in range(n):
            need((comp[i, c] == 0) == (lab[c][i] is None),
                 "components[%d,%d] is %s, unit %s a cluster", i, c, comp[i, c],
                 "is outside" if lab[c][i] is None else "belongs to")
            for j in range(i):
                if lab[c][i] is not None and lab[c][j] is not None:
                    need((comp[i, c] == comp[j, c]) == (lab[c][i] == lab[c][j]),
                         "units %d and %d in period %d: labels %s and %s, expected %s cluster", i, j,
                         c, comp[i, c], comp[j, c],
                         "the same" if lab[c][i] == lab[c][j] else "different")
    want = np.zeros((n, t - 1))
    for c in range(t - 1):
        for i in range(n):
            if lab[c + 1][i] is not None and lab[c][i] is None:
                want[i, c] = any(lab[c + 1][j] == lab[c + 1][i] and lab[c][j] is not None
                                 for j in range(n))
    same(np.asarray(res["spill_over"]).reshape(n, t - 1), want, "spill_over")


Prop("L02", gen_l02, chk_l02,
     "random quadrants, p-values, sparse symmetric neighbour structures (int and string ids), all "
     "quadrants, both neighbour options; union-find oracle; non-trivial: a significant unit of the "
     "quadrant and two periods",
     trivial=lambda c: len(c["q"][0]) < 2 or not any(
         a == c["quad"] and b <= c["lev"] for r, s in zip(c["q"], c["p"]) for a, b in zip(r, s)))


# ------------------------------------------------------------------- L03
def gen_l03(rng, tier, hints):
    for s in hints.sizes(3, 30):
        yield dict(lisa_case(rng, n=max(4, s), t=3), real=True)
        yield dict(lisa_case(rng, n=5, t=s), real=True)
    for it in range(60 if tier == "quick" else 800):
        c = lisa_case(rng, t=int(rng.integers(2, 7)))
        c["perm"] = 0
        c["real"] = True
        yield c


def kron_expected(own, lag, trans):
    """own, lag: k x k probabilities with class 0 = high; quadrant order HH, LH, LL, HL."""
    order = [(0, 0), (1, 0), (1, 1), (0, 1)]
    k = np.zeros((4, 4))
    for a, (o, l) in enumerate(order):
        for b, (o2, l2) in enumerate(order):
            k[a, b] = own[o][o2] * lag[l][l2]
    return np.asarray(trans).sum(axis=1)[:, None] * k


def chain2(b):
    """2-state chain (0 = not below) of boolean rows, units by periods."""
    c = np.array(tally([[int(v) for v in r] for r in b], [0, 1]), float)
    s = c.sum(1)
    return c / (s + (s == 0))[:, None], c


def chk_l03(case):
    import random  # noqa: F401
    lm, y, w = None, None, None
    q = np.array(case["q"])
    n, t = q.shape
    lm, y, w = lisa_obj(case)
    # the weights as the model uses them (Moran statistics row-standardise)
    wl = w.sparse @ y
    exp_spec = None
    own, _ = chain2(y < y.mean(axis=0)[None, :])
    lag, _ = chain2(wl < y.mean(axis=0)[None, :])
    exp_spec = kron_expected(own, lag, lm.transitions)
    # what the code is known to compute: units and periods exchanged, and each
    # unit compared with its own mean over time
    r = y.T / y.T.mean(axis=0)
    rl = wl.T / y.T.mean(axis=0)
    kb, cb = chain2(r < 1.0)
    kl, cl = chain2(rl < 1.0)
    got = np.asarray(lm.expected_t, float)
    from giddy.markov import chi2
    ch = call(chi2, "chi2()", np.asarray(lm.transitions), got)
    close(lm.chi_2[0], ch[0], "chi_2 against the expected counts", rtol=1e-9)
    if np.allclose(got, exp_spec, rtol=1e-8, atol=1e-8):
        return
    # both values of each indicator must occur for the old code to run at all
    exp_known = None
    if len(set((r < 1.0).ravel().tolist())) == 2 and len(set((rl < 1.0).ravel().tolist())) == 2:
        exp_known = kron_expected(kb, kl, lm.transitions)
        if np.allclose(got, exp_known, rtol=1e-8, atol=1e-8):
            raise Known("L03-axes", "expected_t is built from chains running over units instead of "
                        "periods, and from means over time instead of period means")
    raise Violation(f"expected_t is {short(got)}; independence of the two marginal chains gives "
                    f"{short(exp_spec)}")


Prop("L03", gen_l03, chk_l03,
     "random panels and weights with real local Moran quadrants; non-trivial: at least two periods",
     trivial=lambda c: len(c["q"][0]) < 2)
