"""Q01-Q02, D01-D02, C01-C02, U01, P01, F01."""
import itertools
import math

import numpy as np

from core import (Frame, Prop, Skip, Violation, call, close, dense_w, make_w, need, quiet, same,
                  samelist, short, w_full, w_path, w_random)
from p_markov import LABELS


# ------------------------------------------------------------------- Q01
def align_cost(a, b, sub, indel):
    """Minimum alignment cost (rows over a); a, b state indices."""
    prev = [indel * j for j in range(len(b) + 1)]
    for i in range(1, len(a) + 1):
        cur = [indel * i]
        for j in range(1, len(b) + 1):
            cur.append(min(prev[j] + indel, cur[j - 1] + indel,
                           prev[j - 1] + sub[a[i - 1]][b[j - 1]]))
        prev = cur
    return prev[-1]


def brute(a, b, sub, indel):
    """The same minimum by enumerating every order-preserving matching."""
    best = None
    for r in range(min(len(a), len(b)) + 1):
        for ia in itertools.combinations(range(len(a)), r):
            for ib in itertools.combinations(range(len(b)), r):
                c = indel * (len(a) + len(b) - 2 * r) + sum(
                    sub[a[p]][b[q]] for p, q in zip(ia, ib))
                best = c if best is None or c < best else best
    return best


def rand_subs(rng, k):
    style = int(rng.integers(4))
    if style == 0:
        m = np.abs(np.subtract.outer(np.arange(k), np.arange(k))).astype(float)
    elif style == 1:
        m = rng.integers(0, 5, (k, k)).astype(float)
    elif style == 2:
        m = rng.random((k, k)) * 3
    else:
        m = np.ones((k, k)) * 0.5
    m = (m + m.T) / 2
    np.fill_diagonal(m, 0)
    return m.tolist()


def states(kind, k):
    if kind == "int":
        return [3 * i - 4 for i in range(k)]
    if kind == "str":
        return ["s%03d" % i for i in range(k)]
    if kind == "float":
        return [i / 2 - 1 for i in range(k)]
    return list(range(k))


def gen_q01(rng, tier, hints):
    for s in hints.sizes(1, 140):
        yield q01_case(rng, k=min(s, 30), n=4, t=6, ragged=False)
        yield q01_case(rng, k=3, n=min(s, 40), t=3, ragged=False)
        yield q01_case(rng, k=3, n=3, t=s, ragged=False)
        yield q01_case(rng, k=3, n=3, t=s, ragged=True)
    for ragged in (False, True):
        yield q01_case(rng, k=3, n=2, t=270, ragged=ragged)
    for it in range(350 if tier == "quick" else 4000):
        if it == 60:
            c = big_seqs(q01_case(rng, k=3), 290)
            c["sub"] = rand_subs(rng, 290)
            yield c
        yield q01_case(rng)


def q01_case(rng, k=None, n=None, t=None, ragged=None):
    k = k or int(rng.choice([1, 2, 2, 3, 3, 4, 5, 12, 15]))
    n = n or int(rng.integers(2, 8))
    ragged = bool(rng.random() < .5) if ragged is None else ragged
    t = t or int(rng.integers(1, 7))
    seqs = []
    for _ in range(n):
        ln = int(rng.integers(1, t + 1)) if ragged else t
        if seqs and rng.random() < .3:
            s = list(seqs[int(rng.integers(len(seqs)))])
            if rng.random() < .5:
                s[int(rng.integers(len(s)))] = int(rng.integers(k))
        else:
            s = rng.integers(0, k, ln).tolist()
        seqs.append(s)
    return {"seqs": seqs, "k": k, "kind": ["int", "str", "float", "range"][int(rng.integers(4))],
            "sub": rand_subs(rng, k), "indel": float(rng.choice([0.5, 1, 1, 1.5, 2, 3, 0])),
            "ints": bool(rng.random() < .3)}


def q01_input(c):
    seqs = [[states(c["kind"], c["k"])[v] for v in s] for s in c["seqs"]]
    if len({len(s) for s in seqs}) == 1:
        return np.array(seqs)
    return seqs if c["ints"] else [np.array(s) for s in seqs]


def used(c):
    return sorted({v for s in c["seqs"] for v in s})


def chk_q01(c):
    from giddy.sequence import Sequence
    y = q01_input(c)
    u = used(c)
    sub = np.array([[c["sub"][a][b] for b in u] for a in u])
    fr = Frame(y=y, subs_mat=sub)
    s = call(Sequence, "Sequence()", y, subs_mat=sub, indel=c["indel"])
    fr.check()
    n = len(c["seqs"])
    want = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            a = [u.index(v) for v in c["seqs"][i]]
            b = [u.index(v) for v in c["seqs"][j]]
            f = brute if len(a) + len(b) <= 7 else align_cost
            want[i, j] = want[j, i] = f(a, b, sub.tolist(), c["indel"])
    close(s.seq_dis_mat, want, "seq_dis_mat", 1e-9, 1e-9)
    need(bool((np.asarray(s.seq_dis_mat) == np.asarray(s.seq_dis_mat).T).all()),
         "seq_dis_mat is not symmetric")
    same(s.k, len(u), "Sequence.k")


Prop("Q01", gen_q01, chk_q01, "random sequences (equal and unequal lengths, repeats, up to 15 "
     "states, integer/float/string labels) under random symmetric costs; oracle: enumeration of all "
     "alignments (short) or an independent recurrence", trivial=lambda c: len(c["seqs"]) < 2)


# ------------------------------------------------------------------- Q02
def gen_q02(rng, tier, hints):
    types = ["interval", "arbitrary", "markov", "tran", "hamming"]
    for s in hints.sizes(1, 60):
        for ty in types:
            yield q02_case(rng, ty, k=min(s, 12 if ty == "tran" else 30), n=5, t=8)
            yield q02_case(rng, ty, k=3, n=s if s < 40 else 5, t=4)
            yield q02_case(rng, ty, k=3, n=3, t=s)
    for it in range(220 if tier == "quick" else 2500):
        if it == 60:
            # more states than small integer types hold
            for ty in ("hamming", "interval", "arbitrary", "markov"):
                yield big_seqs(dict(q02_case(rng, ty), kind="int"), 300)
            yield big_seqs(dict(q02_case(rng, "hamming"), kind="range"), 140)
        yield q02_case(rng, types[it % 5])
    for ty in types + [None]:
        yield {"err": True, "ty": ty, "seqs": [[0, 1], [1, 0, 1]], "k": 2, "kind": "range"}


def big_seqs(c, k):
    """k states, and pairs of positions whose codes differ by 128 and by 256."""
    flat = list(range(k))
    c["k"], c["seqs"] = k, []
    for i in range(0, k - 5, 6):
        c["seqs"].append(flat[i:i + 6])
    for d in (128, 256):
        c["seqs"] += [[(v + d) % k for v in q] for q in c["seqs"][:3]]
    c["seqs"].append(flat[k - 6:])
    return c


def q02_case(rng, ty, k=None, n=None, t=None):
    c = q01_case(rng, k=k, n=n, t=t, ragged=bool(ty in ("interval", "arbitrary")
                                                 and rng.random() < .5))
    c["ty"] = "".join(ch.upper() if rng.random() < .5 else ch for ch in ty) \
        if rng.random() < .3 else ty
    del c["sub"], c["indel"]
    return c


def chk_q02(c):
    from giddy.sequence import Sequence
    y = q01_input(dict(c, ints=c.get("ints", True)))
    ty = c["ty"]
    if c.get("err"):
        if ty not in (None, "hamming"):
            raise Skip
        try:
            with quiet():
                Sequence(y, dist_type=ty)
        except ValueError:
            return
        except Exception as e:
            raise Violation(f"dist_type={ty!r} on sequences of unequal lengths raised {e!r}, "
                            "expected ValueError")
        raise Violation(f"dist_type={ty!r} on sequences of unequal lengths was accepted")
    for kw in ({}, {"indel": 1.0}, {"subs_mat": np.zeros((1, 1))}):
        if c.get("seed0", len(c["seqs"][0]) % 4 == 0):
            try:
                with quiet():
                    Sequence(y, **kw)
            except ValueError:
                continue
            except Exception as e:
                raise Violation(f"an incomplete specification {list(kw)} raised {e!r}")
            raise Violation(f"an incomplete specification {list(kw)} was accepted")
    fr = Frame(y=y)
    s = call(Sequence, f"Sequence(dist_type={ty!r})", y, dist_type=ty)
    fr.check()
    u = used(c)
    k = len(u)
    need(np.asarray(s.classes).tolist() == [states(c["kind"], c["k"])[v] for v in u],
         "Sequence.classes is %s", short(s.classes))
    same(s.k, k, "Sequence.k")
    x = [[u.index(v) for v in q] for q in c["seqs"]]
    n = len(x)
    ty = ty.lower()
    if ty == "hamming":
        want = [[sum(a != b for a, b in zip(p, q)) for q in x] for p in x]
        close(s.seq_dis_mat, want, "hamming seq_dis_mat", 1e-9, 1e-9)
        return
    seqs = x
    if ty == "interval":
        indel = k - 1
        sub = [[abs(i - j) for j in range(k)] for i in range(k)]
    elif ty == "arbitrary":
        indel = 1
        sub = [[0.5 * (i != j) for j in range(k)] for i in range(k)]
    elif ty == "markov":
        indel = 1
        cnt = [[0] * k for _ in range(k)]
        for q in x:
            for a, b in zip(q, q[1:]):
                cnt[a][b] += 1
        p = [[v / (sum(r) or 1) for v in r] for r in cnt]
        sub = [[0.0 if i == j else 1 - (p[i][j] + p[j][i]) / 2 for j in range(k)] for i in range(k)]
    else:
        indel = 2
        codes = [(-1, a) for a in range(k)] + [(a, b) for a in range(k) for b in range(k)]
        sub = [[0.0 if p == q else (1.0 if -1 in (p[0], q[0]) else
                                    float((p[0] == p[1]) != (q[0] == q[1]))) for q in codes]
               for p in codes]
        seqs = [[codes.index(t) for t in zip([-1] + q, q)] for q in x]
    close(s.indel, indel, "indel")
    got = np.asarray(s.subs_mat, float)
    if ty == "tran":
        # the order of the transition codes is not promised, the costs are
        need(got.shape == (len(codes), len(codes)), "subs_mat has shape %s", got.shape)
        order = [(-1, a) for a in range(k)] + [(a, b) for a in range(k) for b in range(k)]
        m = getattr(s, "dict_trans_state", None)
        if m is not None and {tuple(int(v) for v in t) for t in m} == set(order):
            idx = [m[t] for t in order]
            got = got[np.ix_(idx, idx)]
            close(got, sub, "transition substitution costs", 1e-12, 1e-12)
    else:
        close(got, sub, f"{ty} subs_mat", 1e-12, 1e-12)
    want = [[align_cost(a, b, sub, indel) for b in seqs] for a in seqs]
    close(s.seq_dis_mat, want, f"{ty} seq_dis_mat", 1e-9, 1e-9)


Prop("Q02", gen_q02, chk_q02, "random sequences under the five distance types (any case), unequal "
     "lengths and incomplete specifications; oracle: documented costs and an independent recurrence",
     trivial=lambda c: len({tuple(s) for s in c["seqs"]}) < 2)


# ------------------------------------------------------------------- D01
def gen_d01(rng, tier, hints):
    for k in range(1, 41 if tier == "quick" else 260):
        yield d01_case(rng, k=k)
    for k in (49, 64, 71, 98, 103, 107, 161, 187, 360):
        yield d01_case(rng, k=k)
    for k in (1, 2, 4):
        yield d01_case(rng, n=600, t=2, k=k)
    for s in hints.sizes(1, 370):
        yield d01_case(rng, k=s)
        yield d01_case(rng, n=max(2, min(s, 200)))
        yield d01_case(rng, t=max(2, s))
    # movements along the axes and the diagonals
    for k in (4, 8, 5, 1):
        dirs = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (-1, -1), (1, -1), (0, 0)]
        yield {"Y": [[0.0, float(a)] for a, b in dirs] + [[0.0, float(b)] for a, b in dirs],
               "w": {"ids": list(range(18)), "nb": [[(i + 9) % 18] for i in range(18)], "wt": None,
                     "tr": "o"}, "k": k}
    for it in range(220 if tier == "quick" else 3000):
        yield d01_case(rng, values=hints.values() if it % 3 == 0 else None)


def d01_case(rng, n=None, t=None, k=None, values=None):
    n = n or int(rng.integers(2, 14))
    t = t or int(rng.integers(2, 5))
    k = k or int(rng.choice([1, 2, 3, 4, 4, 5, 6, 8, 8, 8, 12, 16]))
    style = int(rng.integers(4))
    if style == 0:
        y = rng.random((n, t))
    elif style == 1:
        y = rng.integers(-3, 4, (n, t)).astype(float)
    elif style == 2:
        y = rng.integers(-3, 4, (n, t))
    else:
        y = rng.normal(0, 100, (n, t))
    if values:
        y = np.asarray(y, float)
        m = rng.random((n, t)) < .4
        y[m] = rng.choice(values, m.sum())
    return {"Y": y.tolist(), "k": k, "ident": int(rng.integers(2)),
            "w": w_random(rng, n, tr=["o", "r", "b"][int(rng.integers(3))],
                          islands=bool(rng.random() < .2), symmetric=bool(rng.random() < .7))}


def angles(c):
    Y = np.array(c["Y"], float)
    lag = dense_w(c["w"]) @ Y
    dx = Y[:, -1] - Y[:, 0]
    dy = lag[:, -1] - lag[:, 0]
    return Y, lag, dx, dy


def sector_range(c):
    """For each sector the least and most units it can hold, allowing a unit within
    rounding of a boundary to be on either side of it."""
    Y, lag, dx, dy = angles(c)
    k = c["k"]
    lo, hi = [0] * k, [0] * k
    # (sums and differences of small whole numbers carry no rounding)
    exact = bool((Y == np.round(Y)).all() and (np.abs(Y) < 1e6).all()
                 and (dense_w(c["w"]) == np.round(dense_w(c["w"]))).all())
    scale = 1e-11 * max(1.0, float(np.abs(Y).max()) * (1 + float(np.abs(dense_w(c["w"])).sum(1).max())))
    for a, b in zip(dx, dy):
        r = math.hypot(a, b)
        th = math.atan2(b, a) % (2 * math.pi)
        if r <= scale * 10 and not (exact and a == 0 and b == 0):
            for q in range(k):
                hi[q] += 1
            continue
        f = th * k / (2 * math.pi)
        tol = k * (1e-12 + (scale / r if r else 0))
        if exact and abs(a) == r and a >= 0 and b == 0:
            tol = 0
        cand = {int(math.floor(f - tol)) % k, int(math.floor(f)) % k, int(math.floor(f + tol)) % k}
        for q in cand:
            hi[q] += 1
        if len(cand) == 1:
            lo[cand.pop()] += 1
    return lo, hi


def chk_d01(c):
    from giddy.directional import Rose
    Yin = np.array(c["Y"])
    w = make_w(c["w"])
    fr = Frame(Y=Yin, w=w)
    kw = {} if c["k"] == 8 and c.get("ident") else {"k": c["k"]}
    r = call(Rose, "Rose()", Yin, w, **kw)
    fr.check()
    check_rose(r, c)


def check_rose(r, c, when=""):
    Y, lag, dx, dy = angles(c)
    k, n = c["k"], len(c["Y"])
    same(r.k, k, "Rose.k" + when)
    same(np.asarray(r.Y, float), Y, "Rose.Y" + when)
    tol = 1e-9 * (1 + np.abs(Y).max())
    close(r.lag, lag, "Rose.lag" + when, 1e-9, tol)
    close(r.wY, lag, "Rose.wY" + when, 1e-9, tol)
    close(r.r, np.hypot(dx, dy), "Rose.r" + when, 1e-9, tol)
    close(r.cuts, [2 * math.pi * i / k for i in range(k + 1)], "Rose.cuts" + when, 1e-12, 1e-12)
    close(r.bins, [2 * math.pi * i / k for i in range(k + 1)], "Rose.bins" + when, 1e-12, 1e-12)
    th = np.asarray(r.theta, float)
    need(th.shape == (n,), "Rose.theta has shape %s", th.shape)
    for i in range(n):
        R = math.hypot(dx[i], dy[i])
        if R > 1e-9:
            d = abs(((th[i] - math.atan2(dy[i], dx[i])) + math.pi) % (2 * math.pi) - math.pi)
            need(d <= 1e-9 + 10 * tol / R, "Rose.theta[%s]%s is %s for movement (%s, %s)", i, when,
                 th[i], dx[i], dy[i])
    cnt = np.asarray(r.counts)
    need(cnt.shape == (k,), "Rose.counts%s has shape %s, expected (%s,)", when, cnt.shape, k)
    need(int(cnt.sum()) == n, "the counts%s sum to %s for %s units: %s", when, cnt.sum(), n,
         short(cnt))
    lo, hi = sector_range(c)
    for q in range(k):
        need(lo[q] <= cnt[q] <= hi[q], "sector %s%s counts %s units, expected %s..%s", q, when,
             cnt[q], lo[q], hi[q])


Prop("D01", gen_d01, chk_d01, "panels of values and random weights, every sector number 1-40 (quick) "
     "or 1-259 and selected larger ones, movements on sector boundaries and zero movements; oracle: "
     "hypot/atan2 and floor(angle*k/2pi)", trivial=lambda c: len(c["Y"]) < 2)


# ------------------------------------------------------------------- D02
def gen_d02(rng, tier, hints):
    for s in hints.sizes(1, 150):
        yield d02_case(rng, perms=s, n=4)
        yield d02_case(rng, perms=40, n=4, k=min(s, 40))
    for n, perms, k in ((3, 300, 2), (300, 3, 1), (300, 3, 4)):  # beyond eight bits
        c = d02_case(rng, perms=perms, n=n)
        yield dict(c, k=k, calls=[[perms, "two.sided"], [perms, None]])
    for it in range(130 if tier == "quick" else 1500):
        yield d02_case(rng, n=int(rng.integers(2, 5)) if it % 2 else None)


def d02_case(rng, perms=None, n=None, k=None):
    c = d01_case(rng, n=n or int(rng.integers(2, 9)), k=k)
    calls = []
    for _ in range(int(rng.integers(1, 4))):
        alt = ["two.sided", "two-sided", "TWO.SIDED", "positive", "negative", "Positive",
               "NEGATIVE", None][int(rng.integers(8))]
        calls.append([perms or int(rng.choice([1, 5, 19, 35, 99])), alt])
    if any(a and a.upper() in ("POSITIVE", "NEGATIVE") for _, a in calls):
        c["k"] = 8 if rng.random() < .5 else 4
    c["calls"] = calls
    c["seed"] = int(rng.integers(2**31))
    return c


POS = {8: [1, 1, 0, 0, 1, 1, 0, 0], 4: [1, 0, 1, 0]}


def chk_d02(c):
    from giddy.directional import Rose
    Yin = np.array(c["Y"])
    n, k = len(Yin), c["k"]
    w = make_w(c["w"])
    fr = Frame(Y=Yin, w=w)
    r = call(Rose, "Rose()", Yin, w, k=k)
    names = ("Y", "wY", "lag", "counts", "theta", "r", "cuts", "bins")
    before = Frame(**{a: getattr(r, a) for a in names})
    kept = {a: np.array(getattr(r, a), copy=True) for a in names}
    allc = None
    if n <= 4:
        allc = [sector_range(dict(c, Y=[c["Y"][i] for i in p])) for p in
                itertools.permutations(range(n))]
    for P, alt in c["calls"]:
        kw = {"permutations": P}
        if alt is not None:
            kw["alternative"] = alt
        call(r.permute, f"Rose.permute({kw})", **kw)
        before.check()
        fr.check()
        for a in names:
            same(getattr(r, a), kept[a], f"Rose.{a} after permute({kw})")
        cp = np.asarray(r.counts_perm, float)
        need(cp.shape == (P, k), "counts_perm has shape %s, expected %s", cp.shape, (P, k))
        need(bool((cp.sum(axis=1) == n).all()), "permuted counts do not sum to n: %s", short(cp))
        obs = kept["counts"]
        larger = (cp >= obs).sum(axis=0)
        smaller = (cp <= obs).sum(axis=0)
        same(r.larger_perm, larger, "larger_perm")
        same(r.smaller_perm, smaller, "smaller_perm")
        close(r.expected_perm, cp.mean(axis=0), "expected_perm", 1e-12, 1e-12)
        L, S = (larger + 1) / (P + 1.0), (smaller + 1) / (P + 1.0)
        a = (alt or "two.sided").upper()
        if a in ("TWO.SIDED", "TWO-SIDED"):
            want = np.array([2 * min(v, 1 - v) for v in L])
        else:
            pos = np.array(POS[k]) == (1 if a == "POSITIVE" else 0)
            want = np.where(pos, L, S)
        close(r.p, want, f"p-values of permute({kw})", 1e-12, 1e-12)
        if allc is not None:
            hit = set()
            for m in range(P):
                ok = [q for q, (lo, hi) in enumerate(allc)
                      if all(lo[s] <= cp[m, s] <= hi[s] for s in range(k))]
                need(ok, "permuted counts %s are those of no reassignment of the units' values",
                     short(cp[m]))
                hit.add(tuple(cp[m]))
            if P >= 35 and all(lo == hi for lo, hi in allc):
                keys = [tuple(lo) for lo, _ in allc]
                if max(keys.count(q) for q in keys) <= len(keys) / 2:
                    need(len(hit) >= 2, "all %s permutations give the same counts %s", P,
                         short(cp[0]))


Prop("D02", gen_d02, chk_d02, "histories of 1-3 permute() calls with every alternative, 1-99 "
     "permutations, sector numbers 1-16 (4 and 8 for the directional alternatives); permuted counts "
     "compared with all reassignments for up to 4 units", trivial=lambda c: len(c["Y"]) < 2)


# ------------------------------------------------------------------- C01
def connected(nb, ids):
    ids = list(ids)
    if not ids:
        return True
    comp = {ids[0]}
    grew = True
    while grew:
        grew = False
        for a in list(comp):
            for b in ids:
                if b not in comp and (b in nb[a] or a in nb[b]):
                    comp.add(b)
                    grew = True
    return len(comp) == len(ids)


IDK = [lambda i: i, lambda i: "u%d" % i, lambda i: 100 - 7 * i]


def gen_c01(rng, tier, hints):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        pairs = list(itertools.combinations(range(n), 2))
        for bits in range(2 ** len(pairs)):
            nb = [[] for _ in range(n)]
            for q, (a, b) in enumerate(pairs):
                if bits >> q & 1:
                    nb[a].append(b)
                    nb[b].append(a)
            for r in range(1, n + 1):
                if n == 5 and rng.random() < .6:
                    continue
                for g in itertools.combinations(range(n), r):
                    g = [g[i] for i in rng.permutation(len(g))]
                    yield {"nb": nb, "group": g, "leaver": g[int(rng.integers(r))], "idk": 0}
    sizes = hints.sizes(2, 60)
    for s in sizes:
        for p in (.05, 1.5 / s, 3.0 / s, .6):
            yield c01_case(rng, s, min(1, p))
        nb = w_path(s)["nb"]
        for v in (0, s // 2, s - 1):
            yield {"nb": nb, "group": list(range(s)), "leaver": v, "idk": 0}
            yield {"nb": nb, "group": [int(q) for q in rng.permutation(s)], "leaver": v, "idk": 0}
    for it in range(250 if tier == "quick" else 3000):
        n = int(rng.integers(3, 14))
        yield c01_case(rng, n, float(rng.choice([.1, .2, .3, .5])))
    for n in (40, 100, 300):
        yield {"nb": w_path(n)["nb"], "group": [int(v) for v in rng.permutation(n)], "leaver": 0,
               "idk": 0}
        yield {"nb": w_path(n)["nb"], "group": [int(v) for v in rng.permutation(n)],
               "leaver": n // 2, "idk": 1}


def c01_case(rng, n, p):
    w = w_random(rng, n, p=p, islands=True)
    g = [int(v) for v in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    return {"nb": w["nb"], "group": g, "leaver": g[int(rng.integers(len(g)))],
            "idk": int(rng.integers(3))}


def chk_c01(c):
    from giddy.components import check_contiguity
    f = IDK[c["idk"]]
    n = len(c["nb"])
    w = make_w({"ids": [f(i) for i in range(n)], "nb": [[f(j) for j in r] for r in c["nb"]],
                "wt": None, "tr": "o"})
    group = [f(i) for i in c["group"]]
    fr = Frame(neighbors=group, w=w)
    got = call(check_contiguity, "check_contiguity()", w, group, f(c["leaver"]))
    fr.check()
    rest = [i for i in c["group"] if i != c["leaver"]]
    want = connected(c["nb"], rest)
    need(bool(got) == want, "check_contiguity is %s for remaining units %s with neighbours %s, "
         "expected %s", got, short(rest), short(c["nb"]), want)


Prop("C01", gen_c01, chk_c01, "every symmetric graph on up to 4 (thorough: 5) units with every group, "
     "random graphs up to 13 units and paths up to 300; oracle: closure of the neighbour relation",
     trivial=lambda c: len(c["group"]) < 3)


# ------------------------------------------------------------------- C02
OPS = ["lt", "le", "gt", "ge", None]


def gen_c02(rng, tier, hints):
    for n in (2, 3):
        pairs = list(itertools.combinations(range(n), 2))
        for ws in itertools.product([None, 0.1, 0.5, 0.9], repeat=len(pairs)):
            e = [[a, b, x] for (a, b), x in zip(pairs, ws) if x is not None]
            for op in OPS[:4]:
                yield {"edges": e, "th": 0.5, "op": op, "idk": 0, "extra": []}
    for s in hints.sizes(2, 60):
        for _ in range(3):
            yield c02_case(rng, s)
    for it in range(350 if tier == "quick" else 4000):
        yield c02_case(rng, int(rng.integers(2, 11)), values=hints.values() if it % 3 == 0 else None)
    for n in (60, 300, 1500):
        yield {"edges": [[i, i + 1, 0.2] for i in range(n)], "th": None, "op": None, "idk": 0,
               "extra": []}


def c02_case(rng, n, values=None):
    e = []
    for _ in range(int(rng.integers(0, 2 * n + 1))):
        a, b = int(rng.integers(n)), int(rng.integers(n))
        x = float(rng.choice(values)) if values and rng.random() < .4 else float(
            rng.choice([0, .25, .5, .75, .9, 1.0]))
        e.append([a, b, x])
    th = None if rng.random() < .2 else float(rng.choice(values)) if values and rng.random() < .4 \
        else float(rng.choice([.25, .5, .9]))
    return {"edges": e, "th": th, "op": OPS[int(rng.integers(5))], "idk": int(rng.integers(3)),
            "directed": bool(rng.random() < .05), "extra": [int(rng.integers(n + 2))]
            if rng.random() < .2 else []}


def chk_c02(c):
    import operator
    from giddy.components import Graph
    f = IDK[c["idk"]]
    g = Graph(undirected=False) if c.get("directed") else Graph()
    links = {}
    nodes = set()
    for a, b, x in c["edges"]:
        call(g.add_edge, "add_edge()", f(a), f(b), x)
        links[(a, b)] = x
        if not c.get("directed"):
            links[(b, a)] = x
        nodes |= {a, b}
    for a in c["extra"]:
        g.nodes.add(f(a))
        nodes.add(a)
    kw = {}
    if c["th"] is not None:
        kw["threshold"] = c["th"]
    if c["op"]:
        kw["op"] = getattr(operator, c["op"])
    snap = (set(g.nodes), {k: dict(v) for k, v in g.edges.items()})
    comps = call(g.connected_components, f"connected_components({kw})", **kw)
    need(snap == (set(g.nodes), {k: dict(v) for k, v in g.edges.items()}), "the graph was modified")
    if c.get("directed"):
        need(comps is None, "components of a directed graph: %s", short(comps))
        return
    op = getattr(operator, c["op"] or "lt")
    th = 0.9 if c["th"] is None else c["th"]
    parent = {v: v for v in nodes}

    def find(v):
        while parent[v] != v:
            v = parent[v]
        return v

    for (a, b), x in links.items():
        if op(x, th):
            parent[find(a)] = find(b)
    want = {}
    for v in nodes:
        want.setdefault(find(v), set()).add(f(v))
    got = [set(s.nodes) for s in comps]
    key = lambda s: sorted(map(str, s))  # noqa: E731
    need(sorted(got, key=key) == sorted(want.values(), key=key),
         "components are %s, expected %s", short(sorted(map(list, got), key=key)),
         short(sorted(map(list, want.values()), key=key)))
    for s in comps:
        ge = {(a, b): x for a, d in s.edges.items() for b, x in d.items()}
        we = {(f(a), f(b)): x for (a, b), x in links.items() if f(a) in s.nodes and f(b) in s.nodes}
        need(ge == we, "component %s carries edges %s, expected %s", short(sorted(map(str, s.nodes))),
             short(ge), short(we))


Prop("C02", gen_c02, chk_c02, "all weighted graphs on 2-3 nodes and random multigraphs up to 10 nodes, "
     "thresholds equal to edge weights, four comparison operators; oracle: union-find",
     trivial=lambda c: not c["edges"])


# ------------------------------------------------------------------- U01
def gen_u01(rng, tier, hints):
    for n in list(range(1, 13)) + hints.sizes(1, 120):
        for kind in ("int", "float", "bool"):
            yield {"m": rng.integers(-9, 9, (n, n)).tolist(), "kind": kind, "ids": None,
                   "seed": int(rng.integers(2**31))}
    for it in range(250 if tier == "quick" else 2500):
        n = int(rng.integers(1, 9))
        c = {"m": rng.integers(-9, 9, (n, n)).tolist(), "kind": ["int", "float", "str"][it % 3],
             "seed": int(rng.integers(2**31)), "ids": [int(v) for v in rng.permutation(n)]}
        if rng.random() < .3:
            c["ids"] = c["ids"][:int(rng.integers(1, n + 1))]
        c["aslist"] = bool(rng.random() < .5)
        yield c


def chk_u01(c):
    from giddy.util import get_lower, shuffle_matrix
    m = np.array(c["m"])
    m = {"int": m, "float": m / 4, "bool": m > 0, "str": m.astype(str)}[c["kind"]]
    n = m.shape[0]
    fr = Frame(matrix=m)
    got = call(get_lower, "get_lower()", m)
    fr.check()
    want = [[m[i, j].item()] for i in range(n) for j in range(i)]
    got = np.asarray(got)
    need(got.shape == (n * (n - 1) // 2, 1), "get_lower has shape %s for a %sx%s matrix", got.shape,
         n, n)
    need(got.tolist() == want, "get_lower is %s, expected %s", short(got), short(want))
    ids = list(range(n)) if c["ids"] is None else list(c["ids"])
    arg = ids[:] if c.get("aslist", True) else np.array(ids)
    got = np.asarray(call(shuffle_matrix, "shuffle_matrix()", m, arg))
    fr.check()
    after = [int(v) for v in arg]
    need(sorted(after) == sorted(ids), "the id list %s is no permutation of %s", short(after),
         short(ids))
    want = [[m[a, b].item() for b in after] for a in after]
    need(got.tolist() == want, "shuffled matrix is %s, expected %s for ids %s", short(got),
         short(want), short(after))
    if n >= 6 and c["ids"] is None:
        seen = set()
        for _ in range(6):
            a = list(range(n))
            call(shuffle_matrix, "shuffle_matrix()", m, a)
            seen.add(tuple(a))
        need(len(seen) >= 2, "six shuffles of %s ids gave the same order %s", n, short(seen))


Prop("U01", gen_u01, chk_u01, "square matrices of sizes 1-12 of integers, reals, booleans or strings "
     "and random id lists (lists and arrays, full or partial)", trivial=lambda c: len(c["m"]) < 2)


# ------------------------------------------------------------------- P01
def gen_p01(rng, tier, hints):
    for s in hints.sizes(2, 60):
        yield p01_case(rng, n=s)
    for it in range(60 if tier == "quick" else 500):
        yield p01_case(rng, values=[v for v in hints.values() if 0 < v < 1])
    for it in range(0 if tier == "quick" else 4):
        yield dict(p01_case(rng, n=9), real=True)


def p01_case(rng, n=None, values=None):
    n = max(5, n or int(rng.integers(5, 16)))
    pv = [0.001, 0.01, 0.05, 0.049, 0.051, 0.1, 0.5] + list(values or [])
    return {"n": n, "w": w_random(rng, n), "Y": rng.integers(-5, 6, (n, 2)).astype(float).tolist(),
            "q": rng.integers(1, 5, (2, n)).tolist(),
            "ps": rng.choice(pv, (2, n)).tolist(),
            "p": None if rng.random() < .3 else float(rng.choice(pv)),
            "seed": int(rng.integers(2**31)), "how": int(rng.integers(2))}


class LocStub:
    """Local Moran statistics with quadrants and p-values chosen by the case."""

    def __init__(self, c, Y):
        self.c, self.Y, self.locs = c, Y, []

    def __enter__(self):
        import esda.moran as em
        self.cls, self.orig = em.Moran_Local, em.Moran_Local.__init__
        stub = self

        def init(obj, y, w, *a, **k):
            c, y = stub.c, np.array(y)
            if c.get("real"):
                stub.orig(obj, y, w, *a, **k)
            else:
                k["permutations"] = 0
                stub.orig(obj, y, w, **k)
                np.random.random()  # the real one consumes random numbers
                t = len(stub.locs) % 2
                if not np.array_equal(stub.Y[:, 0], stub.Y[:, 1]):
                    t = int(np.array_equal(y, stub.Y[:, 1]))
                obj.q, obj.p_sim = np.array(c["q"][t]), np.array(c["ps"][t])
            stub.locs.append((y, obj))

        em.Moran_Local.__init__ = init
        return self.locs

    def __exit__(self, *a):
        self.cls.__init__ = self.orig


def chk_p01(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import seaborn as sns
    import giddy.plotting as gp
    from giddy.directional import Rose
    w = make_w(c["w"])
    Y = np.array(c["Y"])
    rose = call(Rose, "Rose()", Y, w)
    seen = {}
    real_heat = sns.heatmap

    def heat(data, **kw):
        seen["data"] = np.array(data)
        seen.update({k: v for k, v in kw.items()})
        kw["annot"] = False
        return real_heat(data, **kw)

    spots = [(m, k) for m in (gp, sns) for k, v in vars(m).items() if v is real_heat]
    kw = {} if c["p"] is None else {"p": c["p"]}
    try:
        for m, k in spots:
            setattr(m, k, heat)
        np.random.seed(c["seed"] % 2**32)
        st = np.random.get_state()
        fr = Frame(Y=Y, w=w)
        with LocStub(c, Y) as locs:
            fig, ax = call(gp.dynamic_lisa_heatmap, "dynamic_lisa_heatmap()", rose, **kw)
        now = np.random.get_state()
        fr.check(allow_weights=True)
        xl = [t.get_text() for t in ax.get_xticklabels()]
        yl = [t.get_text() for t in ax.get_yticklabels()]
        plt.close("all")
    finally:
        for m, k in spots:
            setattr(m, k, real_heat)
    need(st[0] == now[0] and bool(np.all(st[1] == now[1])) and st[2:] == now[2:],
         "drawing the heatmap changed the global random state")
    if "data" not in seen:
        raise Skip("the table is not drawn by seaborn.heatmap")
    need(len(locs) == 2, "%s local Moran computations", len(locs))
    if not np.array_equal(Y[:, 0], Y[:, 1]):
        for t in (0, 1):
            need(any(np.array_equal(y, Y[:, t]) for y, _ in locs),
                 "no local Moran statistics of period %s", t)
    start = next((r for y, r in locs if np.array_equal(y, Y[:, 0])), locs[0][1])
    end = next((r for y, r in locs[::-1] if np.array_equal(y, Y[:, 1])), locs[1][1])
    cut = 0.05 if c["p"] is None else c["p"]
    code = [[int(q) if p < cut else 0 for q, p in zip(r.q, r.p_sim)] for r in (start, end)]
    want = np.zeros((5, 5), int)
    for a, b in zip(*code):
        want[a, b] += 1
    same(seen["data"], want, "heatmap table")
    need(int(seen["data"].sum()) == c["n"], "the table counts %s units of %s", seen["data"].sum(),
         c["n"])
    mask = np.asarray(seen.get("mask"))
    need(mask.tolist() == np.eye(5, dtype=bool).tolist(), "the mask is %s", short(mask))
    lab = ["ns", "HH", "LH", "LL", "HL"]
    need(xl == lab and yl == lab, "tick labels are %s / %s, expected %s", xl, yl, lab)
    need("nd" in ax.get_xlabel() and "tart" in ax.get_ylabel(), "axis labels %r, %r",
         ax.get_xlabel(), ax.get_ylabel())


Prop("P01", gen_p01, chk_p01, "random quadrants, p-values (including equal to the level) and levels "
     "through a recording stand-in for the local Moran statistics, plus real runs in the thorough tier; oracle: direct "
     "tally, eye(5) mask", trivial=lambda c: c["n"] < 2)


# ------------------------------------------------------------------- F01
def canon(v, depth=0):
    """Comparable snapshot of a result."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["A", list(v.shape)] + [canon(x, depth + 1) for x in v.ravel()]
        return ["A", list(v.shape), [repr(x) for x in v.ravel().tolist()]]
    if isinstance(v, np.generic):
        return repr(v.item())
    if isinstance(v, (list, tuple)):
        return ["L"] + [canon(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return ["D"] + sorted([repr(k), canon(x, depth + 1)] for k, x in v.items())
    if v is None or isinstance(v, (int, float, str, bool)):
        return repr(v)
    if depth < 2 and type(v).__module__.startswith("giddy"):
        return ["O"] + sorted([k, canon(x, depth + 1)] for k, x in vars(v).items())
    return type(v).__name__


def approx(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(approx(x, y) for x, y in zip(a, b))
    if a == b:
        return True
    try:
        x, y = complex(a), complex(b)
    except (ValueError, TypeError):
        return False
    return (x != x and y != y) or abs(x - y) <= 1e-9 * max(1.0, abs(x))


def get(obj, name):
    try:
        with quiet() as out:
            v = getattr(obj, name)
            if callable(v):
                v = v()
        return ["V", canon(v), out.getvalue() if name == "summary" else ""]
    except Exception as e:
        return ["E", type(e).__name__]


def stoch(rng, k):
    style = int(rng.integers(4))
    m = rng.integers(0 if style else 1, 5, (k, k)).astype(float)
    for i in range(k):
        if style == 3 and rng.random() < .3:
            m[i] = 0
            m[i, i] = 1
        if m[i].sum() == 0:
            m[i, int(rng.integers(k))] = 1
    if style == 2 and rng.random() < .5:
        m[int(rng.integers(k))] = 0
    s = m.sum(axis=1)
    return (m / (s + (s == 0))[:, None]).tolist()


FNS = ["steady_state", "mfpt", "var_mfpt_ergodic", "sojourn_time", "prais", "fill_empty_diagonals",
       "mob_P", "mob_D", "mob_L2", "mob_B1", "mob_B2", "homogeneity", "kullback", "chi2", "get_lower",
       "fill3", "is_component", "check_contiguity"]
OBJS = ["Markov", "Spatial_Markov", "Spatial_discrete", "FullRank_Markov", "GeoRank_Markov", "LISA_Markov",
        "Sequence", "Tau", "SpatialTau", "Tau_Local", "Tau_Local_Neighbor", "Tau_Local_Neighborhood",
        "Tau_Regional", "Theta", "Rose"]


def gen_f01(rng, tier, hints):
    sizes = hints.sizes(2, 30)
    for s in sizes:
        for f in FNS:
            yield f01_fn(rng, f, s)
        for o in OBJS:
            yield f01_obj(rng, o, s, min(s, 12), 3)
            yield f01_obj(rng, o, 6, s, 3)
    for it in range(14 if tier == "quick" else 150):
        for f in FNS:
            yield f01_fn(rng, f, int(rng.integers(2, 6)))
        for o in OBJS:
            yield f01_obj(rng, o, int(rng.integers(5, 9)), int(rng.integers(2, 6)),
                          int(rng.integers(2, 5)))


def f01_fn(rng, f, k):
    c = {"fn": f, "p": stoch(rng, k), "fill": bool(rng.random() < .5),
         "aslist": bool(rng.random() < .3)}
    c["ini"] = None
    if rng.random() < .5:
        v = rng.integers(1, 5, k).astype(float)
        c["ini"] = (v / v.sum()).tolist()
    c["F"] = rng.integers(0, 6, (int(rng.integers(1, 4)), k, k)).tolist()
    c["F"][0][0][0] += 1
    c["fdt"] = "float" if rng.random() < .6 else "int"
    if f in ("is_component", "check_contiguity"):
        c["w"] = w_random(rng, k)
        c["ids"] = rng.permutation(k)[:int(rng.integers(1, k + 1))].tolist()
        c["leaver"] = int(rng.integers(len(c["ids"])))
    return c


def f01_obj(rng, o, n, t, k):
    c = {"obj": o, "y": rng.integers(0, k, (n, t)).tolist(),
         "z": np.round(rng.normal(5, 1.5, (n, t)), 2).tolist(), "k": k,
         "reg": rng.integers(0, 2, n).tolist(), "seed": int(rng.integers(2**31)),
         "perm": int(rng.choice([0, 0, 3])), "fill": bool(rng.random() < .5),
         "w": w_random(rng, n, tr=["o", "r"][int(rng.integers(2))]),
         "ty": ["interval", "hamming", "arbitrary", "markov", "tran", "given"][int(rng.integers(6))],
         "order": rng.permutation(40).tolist(), "aslist": bool(rng.random() < .4),
         "cut": bool(rng.random() < .3), "fixed": bool(rng.random() < .6)}
    return c


def f01_call(c, args):
    import giddy.components as gc
    import giddy.ergodic as ge
    import giddy.markov as gm
    import giddy.mobility as mo
    import giddy.util as gu
    f = c["fn"]
    if f in ("steady_state", "mfpt"):
        return getattr(ge, f)(args["p"], fill_empty_classes=c["fill"])
    if f == "var_mfpt_ergodic":
        return ge.var_mfpt_ergodic(args["p"])
    if f in ("sojourn_time", "prais"):
        return getattr(gm, f)(args["p"])
    if f.startswith("mob_"):
        kw = {} if args["ini"] is None else {"ini": args["ini"]}
        return mo.markov_mobility(args["p"], measure=f[4:], **kw)
    if f == "fill_empty_diagonals":
        return gu.fill_empty_diagonals(args["p"])
    if f == "fill3":
        return gu.fill_empty_diagonals(args["F"])
    if f == "get_lower":
        return gu.get_lower(np.asarray(args["p"]))
    if f == "is_component":
        return gc.is_component(args["w"], args["ids"])
    if f == "check_contiguity":
        return gc.check_contiguity(args["w"], args["ids"], args["ids"][c["leaver"]])
    if f == "homogeneity":
        h = gm.homogeneity(args["F"], class_names=args["names"])
        return [h, get(h, "summary"), get(h, "summary")]
    if f == "kullback":
        return gm.kullback(args["F"])
    if f == "chi2":
        return gm.chi2(args["F"][0], args["F"][-1])


def chk_f01(c):
    if "fn" in c:
        wrap = (lambda v: v) if c["aslist"] else np.array
        F = np.array(c["F"], dtype=c["fdt"])
        args = {"p": wrap(c["p"]), "F": F, "ini": None if c["ini"] is None else np.array(c["ini"]),
                "names": [str(i) for i in range(len(c["p"]))], "ids": list(c.get("ids", []))}
        if "w" in c:
            args["w"] = make_w(c["w"])

        def run():
            try:
                with quiet():
                    return ["V", canon(f01_call(c, args))]
            except Exception as e:
                return ["E", type(e).__name__]

        fr = Frame(**args)
        first = run()
        fr.check()
        again = run()
        fr.check()
        need(approx(first, again), "%s gives %s the first time and %s the second", c["fn"],
             short(first), short(again))
        return
    import giddy.markov as gm
    import giddy.rank as gr
    from giddy.directional import Rose
    from giddy.sequence import Sequence
    y, z = np.array(c["y"]), np.array(c["z"])
    o, P = c["obj"], c["perm"]
    n, t = y.shape
    spec = c["w"]
    reg = np.array(c["reg"])
    args = {"y": y, "z": z, "reg": reg, "x1": z[:, 0].copy(), "x2": z[:, -1].copy(),
            "cut": np.array([4.0, 5.5]), "lcut": [5.0], "sub": np.ones((len(np.unique(y)),) * 2)
            - np.eye(len(np.unique(y))), "cls": np.arange(c["k"])}
    if c["aslist"] and o in ("Markov", "Sequence"):
        args["y"] = c["y"]

    def build():
        w = args["w"] = make_w(spec)
        np.random.seed(c["seed"] % 2**32)
        kw = {}
        if o == "Markov":
            if c["cut"]:
                kw["classes"] = args["cls"]
            return gm.Markov(args["y"], fill_empty_classes=c["fill"], **kw)
        if o == "Spatial_Markov":
            if c["cut"]:
                kw = {"cutoffs": args["cut"], "lag_cutoffs": args["lcut"]}
            return gm.Spatial_Markov(z, w, k=3, m=2, permutations=P, fixed=c["fixed"],
                                     fill_empty_classes=c["fill"], **kw)
        if o == "Spatial_discrete":
            return gm.Spatial_Markov(y, w, discrete=True, permutations=P,
                                     fill_empty_classes=c["fill"])
        if o in ("FullRank_Markov", "GeoRank_Markov"):
            return getattr(gm, o)(z, summary=False)
        if o == "LISA_Markov":
            return gm.LISA_Markov(z, w)
        if o == "Sequence":
            kw = {"subs_mat": args["sub"], "indel": 1} if c["ty"] == "given" else \
                {"dist_type": c["ty"]}
            return Sequence(args["y"], **kw)
        if o in ("Tau", "Tau_Local"):
            return getattr(gr, o)(args["x1"], args["x2"])
        if o in ("SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood"):
            return getattr(gr, o)(args["x1"], args["x2"], w, permutations=P)
        if o == "Tau_Regional":
            return gr.Tau_Regional(args["x1"], args["x2"], reg, permutations=P)
        if o == "Theta":
            return gr.Theta(z, reg, permutations=P)
        r = Rose(z, w, k=4)
        if P:
            r.permute(permutations=P, alternative="positive")
        return r

    fr = Frame(**args)
    try:
        with quiet():
            a = build()
    except Exception as e:
        if o == "LISA_Markov" or (o.startswith("Spatial") and isinstance(e, ValueError)):
            raise Skip
        raise Violation(f"{o} raised {e!r}")
    wa, w0 = args.pop("w"), make_w(spec)
    fr.check()
    need({k: list(v) for k, v in wa.neighbors.items()} == {k: list(v) for k, v in w0.neighbors.items()}
         and list(wa.id_order) == list(w0.id_order), "the neighbour lists were modified")
    if o not in ("SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood", "LISA_Markov"):
        need({k: list(v) for k, v in wa.weights.items()} ==
             {k: list(v) for k, v in w0.weights.items()} and wa.transform == w0.transform,
             "the weights were modified")
    with quiet():
        b = build()
    names = sorted(k for k in dir(type(a)) if isinstance(getattr(type(a), k, None), property))
    names += sorted(k for k in vars(a) if not k.startswith("_") and k not in ("w",))
    if o.startswith("Spatial_M"):
        names.append("summary")
    first = {k: get(a, k) for k in names}
    fr.check()
    order = [names[i % len(names)] for i in c["order"]] + names
    other = {k: get(b, k) for k in order}
    fr.check()
    for k in names:
        need(approx(first[k], other[k]), "%s.%s depends on the order of accesses: %s, %s", o, k,
             short(first[k]), short(other[k]))
        again = get(a, k)
        need(approx(first[k], again), "%s.%s is %s the first time and %s later", o, k,
             short(first[k]), short(again))
    fr.check()


Prop("F01", gen_f01, chk_f01, "every public function and estimator on random inputs (arrays, lists), "
     "argument snapshots compared bit by bit, every public result read in two different orders and "
     "repeatedly", trivial=lambda c: False)
