"""T01-T05: rank concordance."""
import itertools
import math

import numpy as np

from core import (Frame, Prop, call, close, make_w, need, same, samelist, short, w_full,
                  w_path, w_random)


def sgn(v):
    return (v > 0) - (v < 0)


def vec(c, key):
    v = c[key]
    kind = c.get("k" + key, "float")
    if kind == "list":
        return list(v)
    return np.array(v, dtype={"float": float, "int": int}[kind])


def rand_vec(rng, n, values=None):
    style = int(rng.integers(6))
    if style == 0:
        v = rng.integers(0, 3, n)
    elif style == 1:
        v = rng.integers(-n, n + 1, n)
    elif style == 2:
        v = np.round(rng.normal(0, 1, n), 1)
    elif style == 3:
        v = rng.permutation(n)
    elif style == 4:
        v = rng.random(n)
    else:
        v = np.sort(rng.integers(0, n + 1, n))[::(1 if rng.random() < .5 else -1)]
    if values:
        v = np.asarray(v, float)
        m = rng.random(n) < 0.4
        v[m] = rng.choice(values, m.sum())
    return np.asarray(v).tolist()


def xy_case(rng, n, hints=None, it=0):
    vals = hints.values() if hints and it % 3 == 0 else None
    c = {"x": rand_vec(rng, n, vals), "y": rand_vec(rng, n, vals), "seed": int(rng.integers(2**31))}
    for k in "xy":
        ints = all(isinstance(v, int) for v in c[k])
        c["k" + k] = "int" if ints and rng.random() < .7 else "float"
    return c


def weak_orders(n):
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            if t not in seen:
                seen.add(t)
                yield list(t)


def counts(x, y):
    """(concordant, discordant, tied in y only, tied in x only)."""
    con = dis = ty = tx = 0
    n = len(x)
    for i in range(n):
        for j in range(i):
            a, b = sgn(x[i] - x[j]), sgn(y[i] - y[j])
            if a * b > 0:
                con += 1
            elif a * b < 0:
                dis += 1
            elif a:
                ty += 1
            elif b:
                tx += 1
    return con, dis, ty, tx


# ------------------------------------------------------------------- T01
def gen_t01(rng, tier, hints):
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for x in weak_orders(n):
            for y in weak_orders(n):
                if n == 5 and rng.random() < .93:
                    continue
                yield {"x": x, "y": y, "kx": "int", "ky": "int"}
    for s in hints.sizes(2, 120):
        for _ in range(3):
            yield xy_case(rng, s, hints)
    for s in (300, 800):  # pair counts beyond eight and sixteen bits
        yield {"x": list(range(s)), "y": list(range(s)), "kx": "int", "ky": "int"}
        yield {"x": [i % 3 for i in range(s)], "y": [i % 2 for i in range(s)], "kx": "int", "ky": "float"}
    for it in range(400 if tier == "quick" else 6000):
        yield xy_case(rng, int(rng.integers(2, 30 if it % 5 else 90)), hints, it)


def chk_tau(t, c, what="Tau()"):
    n = len(c["x"])
    con, dis, ty, tx = counts(c["x"], c["y"])
    same(t.concordant, con, what + ".concordant")
    same(t.discordant, dis, what + ".discordant")
    same(t.extraX, ty, what + ".extraX (pairs tied in y only)")
    same(t.extraY, tx, what + ".extraY (pairs tied in x only)")
    ux, uy = con + dis + ty, con + dis + tx
    if ux == 0 or uy == 0:
        return None
    tau = (con - dis) / math.sqrt(ux * uy)
    close(t.tau, tau, what + ".tau", 1e-11, 1e-11)
    z = tau / math.sqrt((4 * n + 10) / (9 * n * (n - 1)))
    close(t.tau_p, math.erfc(abs(z) / math.sqrt(2)), what + ".tau_p", 1e-5, 1e-9)
    return tau


def chk_t01(c):
    from giddy.rank import Tau
    x, y = vec(c, "x"), vec(c, "y")
    n = len(x)
    fr = Frame(x=x, y=y)
    t = call(Tau, "Tau()", x, y)
    fr.check()
    tau = chk_tau(t, c)
    if tau is None:
        return
    s = call(Tau, "Tau(y, x)", y, x)
    close(s.tau, tau, "tau of (y, x)", 1e-11, 1e-11)
    p = np.random.permutation(n)
    s = call(Tau, "Tau of reordered data", np.asarray(x)[p], np.asarray(y)[p])
    close(s.tau, tau, "tau of the reordered observations", 1e-11, 1e-11)


Prop("T01", gen_t01, chk_t01, "all pairs of weak orders of up to 4 observations, plus random "
     "integer and real vectors with and without ties up to 90 observations",
     trivial=lambda c: len(set(c["x"])) == 1 or len(set(c["y"])) == 1)


# ------------------------------------------------------------------- T02
def signs(x, y):
    n = len(x)
    return [[sgn(x[i] - x[j]) * sgn(y[i] - y[j]) for j in range(n)] for i in range(n)]


REG = [lambda v: v, lambda v: "r%d" % v, lambda v: 10 - 3 * v, lambda v: float(v) / 2]


def gen_t02(rng, tier, hints):
    for n in (2, 3):
        for x in weak_orders(n):
            for y in weak_orders(n):
                yield {"x": x, "y": y, "kx": "int", "ky": "int", "reg": [i % 2 for i in range(n)],
                       "rk": 0, "w": w_full(n)}
    for s in hints.sizes(2, 60):
        for _ in range(3):
            yield t02_case(rng, s, hints, 1)
    c = t02_case(rng, 300, hints, 1)
    yield dict(c, x=list(range(300)), y=list(range(300)))
    for it in range(300 if tier == "quick" else 4000):
        yield t02_case(rng, int(rng.integers(2, 12 if it % 6 else 40)), hints, it)


def t02_case(rng, n, hints, it):
    c = xy_case(rng, n, hints, it)
    k = int(rng.integers(1, min(n, 5) + 1))
    c["reg"] = rng.integers(0, k, n).tolist()
    if rng.random() < .4:
        c["reg"] = sorted(c["reg"])
    c["rk"] = int(rng.integers(len(REG)))
    c["regarr"] = bool(rng.random() < .5)
    c["w"] = w_random(rng, n, tr=["o", "r", "b"][int(rng.integers(3))],
                      symmetric=bool(rng.random() < .7))
    return c


def regime(c):
    r = [REG[c.get("rk", 0)](v) for v in c["reg"]]
    return np.array(r) if c.get("regarr", True) else r


def want_reg(S, reg):
    """Mean pair sign of distinct ordered pairs, None where there is no pair."""
    n = len(reg)
    ur = sorted(set(reg))
    out = []
    for a in ur:
        row = []
        for b in ur:
            v = [S[i][j] for i in range(n) for j in range(n)
                 if i != j and reg[i] == a and reg[j] == b]
            row.append(sum(v) / len(v) if v else float("nan"))
        out.append(row)
    return np.array(out)


def chk_t02(c):
    from giddy.rank import Tau_Local, Tau_Local_Neighborhood, Tau_Regional
    x, y = vec(c, "x"), vec(c, "y")
    n = len(x)
    S = signs(c["x"], c["y"])
    si = [sum(r) for r in S]
    fr = Frame(x=x, y=y)
    t = call(Tau_Local, "Tau_Local()", x, y)
    same(t.n, n, "Tau_Local.n")
    same(t.S, S, "Tau_Local.S")
    want = [v / (n - 1) for v in si]
    close(t.tau_local, want, "tau_local", 1e-12, 1e-12)
    close(t.tau, sum(want) / n, "Tau_Local.tau", 1e-12, 1e-12)
    w = make_w(c["w"])
    t = call(Tau_Local_Neighborhood, "Tau_Local_Neighborhood()", x, y, w)
    same(t.S, S, "Tau_Local_Neighborhood.S")
    close(t.tau_local, want, "Tau_Local_Neighborhood.tau_local", 1e-12, 1e-12)
    hood = []
    for i in range(n):
        g = [i] + c["w"]["nb"][i]
        hood.append(sum(S[a][b] for a in g for b in g if a != b) / (len(g) * (len(g) - 1)))
    close(t.tau_lnhood, hood, "tau_lnhood", 1e-12, 1e-12)
    same(t.sign, [-1 if sum(S[a][b] for a in [i] + c["w"]["nb"][i] for b in [i] + c["w"]["nb"][i])
                  < 0 else 1 for i in range(n)], "Tau_Local_Neighborhood.sign")
    reg = regime(c)
    fr2 = Frame(regime=reg)
    t = call(Tau_Regional, "Tau_Regional()", x, y, reg)
    fr.check()
    fr2.check()
    rl = np.asarray(reg).tolist()
    wr = want_reg(S, rl)
    got = np.array(t.tau_reg, float)
    need(got.shape == wr.shape, "tau_reg has shape %s, expected %s", got.shape, wr.shape)
    k = np.isnan(wr)
    got = np.where(k, 0.0, got)
    close(got, np.where(k, 0.0, wr), "tau_reg", 1e-12, 1e-12)


Prop("T02", gen_t02, chk_t02, "random integer and real vectors with ties, random neighbour sets, "
     "regimes labelled by integers, strings or floats in sorted and unsorted order; oracle: direct "
     "enumeration of pairs", trivial=lambda c: len(set(c["x"])) == 1 or len(set(c["y"])) == 1)


# ------------------------------------------------------------------- T03
def gen_t03(rng, tier, hints):
    for n in (2, 3):
        for x in weak_orders(n):
            for y in weak_orders(n):
                for w in (w_full(n), w_path(n)):
                    yield {"x": x, "y": y, "kx": "int", "ky": "float", "w": w}
    for s in hints.sizes(2, 60):
        for _ in range(3):
            yield t03_case(rng, s, hints, 1)
    c = t03_case(rng, 300, hints, 1)
    yield dict(c, x=list(range(300)), y=list(range(300)))
    for it in range(400 if tier == "quick" else 5000):
        yield t03_case(rng, int(rng.integers(2, 12 if it % 6 else 40)), hints, it)


def t03_case(rng, n, hints, it):
    c = xy_case(rng, n, hints, it)
    ids = list(range(n))
    if it % 4 == 3:
        ids = [int(v) for v in rng.permutation(n)]
    c["w"] = w_random(rng, n, tr=["o", "r", "b"][int(rng.integers(3))], ids=ids)
    if rng.random() < .25 and c["w"]["tr"] != "b":
        c["w"]["wt"] = [[float(rng.integers(1, 4)) for _ in nb] for nb in c["w"]["nb"]]
    return c


def nbr(c):
    return {i: list(nb) for i, nb in zip(c["w"]["ids"], c["w"]["nb"])}


def spatial(x, y, nb):
    con = dis = ux = uy = 0
    for i in nb:
        for j in nb[i]:
            if i < j:
                a, b = sgn(x[i] - x[j]), sgn(y[i] - y[j])
                con += a * b > 0
                dis += a * b < 0
                ux += a != 0
                uy += b != 0
    return con, dis, ux, uy


def chk_t03(c):
    from giddy.rank import SpatialTau, Tau_Local_Neighbor
    x, y = vec(c, "x"), vec(c, "y")
    n = len(x)
    w = make_w(c["w"])
    nb = nbr(c)
    fr = Frame(x=x, y=y, w=w)
    con, dis, ux, uy = spatial(c["x"], c["y"], nb)
    t = call(SpatialTau, "SpatialTau()", x, y, w)
    chk_tau(t, c, "SpatialTau()")
    same(t.concordant_spatial, con, "concordant_spatial")
    same(t.discordant_spatial, dis, "discordant_spatial")
    same(t.pairs_spatial, sum(len(v) for v in nb.values()) // 2, "pairs_spatial")
    if ux and uy:
        close(t.tau_spatial, (con - dis) / math.sqrt(ux * uy), "tau_spatial", 1e-11, 1e-11)
    fr.check(allow_weights=True)
    w = make_w(c["w"])
    t = call(Tau_Local_Neighbor, "Tau_Local_Neighbor()", x, y, w)
    s0 = sum(len(v) for v in nb.values())
    tot = {i: sum(sgn(c["x"][i] - c["x"][j]) * sgn(c["y"][i] - c["y"][j]) for j in nb[i]) for i in nb}
    close(t.tau_ln, [tot[i] / len(nb[i]) for i in range(n)], "tau_ln", 1e-12, 1e-12)
    close(t.tau_ln_weights, [len(nb[i]) / s0 for i in range(n)], "tau_ln_weights", 1e-12, 1e-12)
    close(np.sum(t.tau_ln_weights), 1.0, "sum of tau_ln_weights", 1e-9, 1e-9)
    same(t.sign, [-1 if tot[i] < 0 else 1 for i in range(n)], "Tau_Local_Neighbor.sign")
    fr.check(allow_weights=True)


Prop("T03", gen_t03, chk_t03, "random vectors with ties over random symmetric neighbour graphs "
     "(ids 0..n-1 in any order, any transform, weighted or not); oracle: enumeration of neighbour "
     "pairs", trivial=lambda c: len(set(c["x"])) == 1 or len(set(c["y"])) == 1)


# ------------------------------------------------------------------- T04
def midranks(col):
    return [sum(1 for b in col if b < a) + (sum(1 for b in col if b == a) + 1) / 2 for a in col]


def gen_t04(rng, tier, hints):
    for s in hints.sizes(2, 60):
        for _ in range(2):
            yield t04_case(rng, s, 3, hints, 1, 0)
            yield t04_case(rng, 4, max(2, s), hints, 1, 0)
    yield t04_case(rng, 300, 3, hints, 1, 3)
    yield t04_case(rng, 4, 3, hints, 1, 300)
    for it in range(250 if tier == "quick" else 3000):
        n = int(rng.integers(2, 15))
        perms = 0 if it % 3 else int(rng.integers(1, 40))
        if it % 3 == 1:
            n, perms = int(rng.integers(2, 5)), int(rng.integers(30, 60))
        yield t04_case(rng, n, int(rng.integers(2, 6)), hints, it, perms)


def t04_case(rng, n, k, hints, it, perms):
    cols = [rand_vec(rng, n, hints.values() if it % 3 == 0 else None) for _ in range(k)]
    return {"y": [list(map(float, r)) for r in zip(*cols)], "rk": int(rng.integers(len(REG))),
            "reg": rng.integers(0, int(rng.integers(1, 4)), n).tolist(), "perms": perms,
            "seed": int(rng.integers(2**31))}


def theta_of(rd, reg):
    n = len(reg)
    k = len(rd[0])
    out = []
    for t in range(k):
        num = sum(abs(sum(rd[i][t] for i in range(n) if reg[i] == r)) for r in sorted(set(reg)))
        den = sum(abs(rd[i][t]) for i in range(n))
        out.append(num / den if den else float("nan"))
    return out


def chk_t04(c):
    from giddy.rank import Theta
    y = np.array(c["y"])
    n, k = y.shape
    reg = regime(c)
    rl = reg.tolist()
    fr = Frame(y=y, regime=reg)
    np.random.seed(c["seed"] % 2**32)
    t = call(Theta, "Theta()", y, reg, permutations=c["perms"])
    fr.check()
    rk = np.array([midranks(col) for col in y.T.tolist()]).T
    same(t.ranks, rk, "Theta.ranks")
    rd = rk[:, 1:] - rk[:, :-1]
    same(t.ranks_d, rd, "Theta.ranks_d")
    total = np.abs(rd).sum(axis=0)
    close(t.total, total, "Theta.total", 1e-12, 1e-12)
    same(t.max_total, sum(abs(2 * i - n - 1) for i in range(1, n + 1)), "Theta.max_total")
    need(np.asarray(t.regimes).tolist() == sorted(set(rl)), "Theta.regimes is %s", short(t.regimes))
    want = np.array(theta_of(rd.tolist(), rl))
    th = np.asarray(t.theta, float)
    shape = (1, k - 1) if c["perms"] else (k - 1,)
    need(th.shape == shape, "theta has shape %s, expected %s", th.shape, shape)
    th = th.reshape(-1)
    ok = total > 0
    close(th[ok], want[ok], "theta", 1e-12, 1e-12)
    need(bool(np.all((th[ok] >= 0) & (th[ok] <= 1 + 1e-12))), "theta outside [0, 1]: %s", short(th))
    same(t.permutations, c["perms"], "Theta.permutations")
    if not c["perms"]:
        return
    sim = np.asarray(t.sim, float)
    need(sim.shape == (c["perms"] + 1, k - 1), "sim has shape %s", sim.shape)
    same(sim[0][ok], th[ok], "sim[0]")
    den = c["perms"] + 1.0
    left, right = np.asarray(t.pvalue_left), np.asarray(t.pvalue_right)
    close(left[ok], ((sim <= sim[0]).sum(axis=0) / den)[ok], "pvalue_left", 1e-12, 1e-12)
    close(right[ok], ((sim > sim[0]).sum(axis=0) / den)[ok], "pvalue_right", 1e-12, 1e-12)
    close((left + right)[ok], np.ones(ok.sum()), "pvalue_left + pvalue_right", 1e-12, 1e-12)
    if n <= 4 and ok.all():
        vals = [theta_of(rd.tolist(), [rl[i] for i in p]) for p in itertools.permutations(range(n))]
        member(sim[1:], vals, "Theta.sim", len(vals), c["perms"])


def member(sims, vals, what, total=None, perms=None):
    """Each simulated row is one of the permuted values, and the draws vary."""
    vals = [np.atleast_1d(np.asarray(v, float)).ravel() for v in vals]
    hits = []
    for r, s in enumerate(sims):
        s = np.atleast_1d(np.asarray(s, float)).ravel()
        for q, v in enumerate(vals):
            if v.shape == s.shape and np.all((np.abs(v - s) <= 1e-9) | (np.isnan(v) & np.isnan(s))
                                             | (v == s)):
                hits.append(q)
                break
        else:
            need(False, "%s[%s] = %s is not the statistic of any permutation of the data", what, r,
                 short(s))
    if perms and perms >= 30:
        keys = [tuple(np.round(v, 9)) for v in vals]
        top = max(keys.count(k) for k in set(keys)) / len(keys)
        seen = {keys[h] for h in hits}
        if top <= 0.5:
            need(len(seen) >= 2, "all %s simulated values of %s are the same although permuting "
                 "the data gives several values", perms, what)


Prop("T04", gen_t04, chk_t04, "random panels with ties and regimes labelled by integers, strings or "
     "floats; permuted values are compared with the full enumeration for up to 4 observations",
     trivial=lambda c: len(set(c["reg"])) == 1)


# ------------------------------------------------------------------- T05
def gen_t05(rng, tier, hints):
    for s in hints.sizes(3, 30):
        yield t05_case(rng, s, 5, hints, 1)
    for s in hints.sizes(1, 130):
        yield t05_case(rng, 4, s, hints, 1)
    yield t05_case(rng, 3, 300, hints, 1)
    for it in range(130 if tier == "quick" else 1500):
        n = 4 if it % 3 else int(rng.integers(3, 9))
        yield t05_case(rng, n, int(rng.integers(1, 45)), hints, it)


def t05_case(rng, n, perms, hints, it):
    c = t02_case(rng, n, hints, it)
    c["perms"] = perms
    ids = [int(v) for v in rng.permutation(n)] if rng.random() < .3 else list(range(n))
    c["w"] = w_random(rng, n, tr=["o", "r", "b"][int(rng.integers(3))], ids=ids)
    if rng.random() < .4:
        c["x"] = rng.permutation(n).tolist()
        c["y"] = rng.permutation(n).tolist()
        c["kx"] = c["ky"] = "int" if rng.random() < .5 else "float"
    return c


def small_p(sim, obs, perms):
    sim = np.asarray(sim, float)
    return (min((sim >= obs).sum(), (sim <= obs).sum()) + 1.0) / (perms + 1.0)


def chk_t05(c):
    from giddy.rank import SpatialTau, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional
    x, y = vec(c, "x"), vec(c, "y")
    xl, yl = c["x"], c["y"]
    n, P = len(xl), c["perms"]
    nb = nbr(c)
    enum = n <= 4

    # spatial tau
    perms = list(itertools.permutations(range(n))) if enum else []

    def st(p):
        con, dis, ux, uy = spatial([xl[i] for i in p], [yl[i] for i in p], nb)
        return (con - dis) / math.sqrt(ux * uy) if ux and uy else float("nan")

    allv = [st(p) for p in perms] if enum else None
    con, dis, ux, uy = spatial(xl, yl, nb)
    if ux and uy and not (enum and any(v != v for v in allv)):
        w = make_w(c["w"])
        fr = Frame(x=x, y=y, w=w)
        t = call(SpatialTau, "SpatialTau()", x, y, w, permutations=P)
        fr.check(allow_weights=True)
        close(t.tau_spatial, (con - dis) / math.sqrt(ux * uy), "tau_spatial with permutations",
              1e-11, 1e-11)
        same(t.concordant_spatial, con, "concordant_spatial with permutations")
        taus = np.asarray(t.taus, float)
        need(taus.shape == (P,), "taus has shape %s", taus.shape)
        if not np.isnan(taus).any():
            larger = int((taus >= t.tau_spatial).sum())
            pv = (larger + 1.0) / (P + 1.0)
            if pv > 0.5:
                pv = (P - larger + 1.0) / (P + 1.0)
            close(t.tau_spatial_psim, pv, "tau_spatial_psim", 1e-12, 1e-12)
            if enum:
                member(taus, allv, "SpatialTau.taus", None, P)

    # neighbour set
    w = make_w(c["w"])
    fr = Frame(x=x, y=y, w=w)
    t = call(Tau_Local_Neighbor, "Tau_Local_Neighbor()", x, y, w, permutations=P)
    fr.check(allow_weights=True)
    sim = np.asarray(t.tau_ln_sim, float)
    need(sim.shape == (n, P), "tau_ln_sim has shape %s", sim.shape)
    S = signs(xl, yl)
    obs = [sum(S[i][j] for j in nb[i]) / len(nb[i]) for i in range(n)]
    close(t.tau_ln, obs, "tau_ln with permutations", 1e-12, 1e-12)
    close(t.tau_ln_pvalues, [small_p(sim[i], t.tau_ln[i], P) for i in range(n)], "tau_ln_pvalues",
          1e-12, 1e-12)
    for i in range(n):
        others = [j for j in range(n) if j != i]
        if enum:
            vals = []
            for q in itertools.permutations(others):
                m = dict(zip(others, q))
                vals.append(sum(S[i][m[j]] for j in nb[i]) / len(nb[i]))
            member(sim[i], vals, f"tau_ln_sim[{i}]", None, P)

    # neighbourhood
    w = make_w(c["w"])
    fr = Frame(x=x, y=y, w=w)
    t = call(Tau_Local_Neighborhood, "Tau_Local_Neighborhood()", x, y, w, permutations=P)
    fr.check(allow_weights=True)
    sim = np.asarray(t.tau_lnhood_sim, float)
    need(sim.shape == (n, P), "tau_lnhood_sim has shape %s", sim.shape)
    lookup = {i: [i] + nb[i] for i in range(n)}

    def hood(g):
        return sum(S[a][b] for a in g for b in g) / (len(g) * (len(g) - 1))

    close(t.tau_lnhood, [hood(lookup[i]) for i in range(n)], "tau_lnhood with permutations", 1e-12,
          1e-12)
    close(t.tau_lnhood_pvalues, [small_p(sim[i], t.tau_lnhood[i], P) for i in range(n)],
          "tau_lnhood_pvalues", 1e-12, 1e-12)
    if enum:
        for i in range(n):
            others = [j for j in range(n) if j != i]
            vals = [hood([i] + list(q[:len(nb[i])])) for q in itertools.permutations(others)]
            member(sim[i], vals, f"tau_lnhood_sim[{i}]", None, P)

    # regional
    reg = regime(c)
    rl = np.asarray(reg).tolist()
    wr = want_reg(S, rl)
    fr = Frame(x=x, y=y, regime=reg)
    t = call(Tau_Regional, "Tau_Regional()", x, y, reg, permutations=P)
    fr.check()
    ok = ~np.isnan(wr)
    close(np.asarray(t.tau_reg, float)[ok], wr[ok], "tau_reg with permutations", 1e-12, 1e-12)
    sim = np.asarray(t.tau_reg_sim, float)
    k = len(wr)
    need(sim.shape == (P, k, k), "tau_reg_sim has shape %s", sim.shape)
    want = np.array([[small_p(sim[:, a, b], t.tau_reg[a, b], P) for b in range(k)]
                     for a in range(k)])
    pv = np.asarray(t.tau_reg_pvalues, float)
    need(pv.shape == want.shape, "tau_reg_pvalues has shape %s", pv.shape)
    close(pv[ok], want[ok], "tau_reg_pvalues", 1e-12, 1e-12)
    if enum:
        vals = [want_reg([[S[a][b] for b in p] for a in p], rl) for p in perms]
        member([np.where(ok, s, 0) for s in sim], [np.where(ok, v, 0) for v in vals],
               "tau_reg_sim", None, P)


Prop("T05", gen_t05, chk_t05, "random vectors with ties, neighbour graphs, regimes and 1-45 "
     "permutations; for 4 observations each simulated value is looked up in the enumeration of all "
     "permutations", trivial=lambda c: len(set(c["x"])) == 1 or len(set(c["y"])) == 1)
