"""Runs the contracts of one property against the current source tree."""
import importlib
import os
import random
import sys
import time
import traceback

from . import lib, model
from . import nf as N
from .interp import Dead, Interp, Obligation
from .terms import (FALSE, ONE, T, TRUE, ZERO, add, and_, app, apps, eq, fresh, fv, iv, le, lift, lt, mul, neg,
                    not_, num, or_, peel, real, rebuild, show, sub, sum_, var)
from .values import HEAP, Arr, Obj, Unsupported, reset_heap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


NUMERIC = ("divisor is", "argument of log", "argument of sqrt", "mean of a non-empty")


class Spec:
    """One group of obligations: a symbolic input, an execution, its contract."""

    def __init__(self, run, name):
        self.r, self.name = run, name
        reset_heap()
        self.ctx = N.Ctx(timeout=4000)
        self.ctx.facts["floor"] = lambda x: [le(app("floor", x, sort="I"), x), lt(x, add(app("floor", x, sort="I"), ONE))]
        pi = app("pi")
        self.ctx.facts["pi"] = lambda: [lt(num(3), pi), lt(pi, num(4))]
        self.ctx.facts["arctan2"] = lambda y, x: [le(neg(pi), app("arctan2", y, x)), le(app("arctan2", y, x), pi)]
        self.it = Interp(run.repo, self.ctx)
        self.samplers = dict(BASE_SAMPLERS)
        self.sizes = {}
        self.done = 0
        self.case_of = None
        self.defs = []
        self.nofold = set()
        self.checked = False
        self.model_hyps = []  # preconditions known to the prover as facts
        self.in_frame = False
        self.soft = False  # a failed goal is undecided, not refuted (library preconditions)

    # ---- symbolic inputs
    def size(self, name, lo=1, hi=4, sample=None):
        v = var(name)
        if lo is not None:
            self.ctx.assume(le(num(lo), v))
        self.sizes[v] = sample or list(range(lo if lo is not None else 0, hi + 1))
        return v

    def real(self, name, sample=None):
        v = var(name, "R")
        self.sizes[v] = sample or [0, 1, 2, -1]
        return v

    def fn(self, name, sort="R", facts=None, sample=None):
        if facts:
            self.ctx.facts[name] = facts
        if sample:
            self.samplers[name] = sample
        return lambda *a: app(name, *a, sort=sort)

    def assume(self, *fs):
        self.ctx.assume(*fs)

    def define(self, name, shape, body, params=(), facts=None, lemmas=None, sort="R", fold=True):
        """A ghost function name(*params, *index) := body, used to abbreviate: a new
        array found (proved) equal to it, for the current loop indices as params,
        is folded to it.  lemmas: consequences of the definition, each an
        obligation proved from the unfolded definition before it may be used."""
        f = lambda *a: app(name, *a, sort=sort)  # noqa: E731
        self.defs.append((name, tuple(lift(x) for x in shape), tuple(lift(x) for x in params), body, sort))
        if not fold:
            self.nofold.add(name)
        self.samplers[name] = lambda m, *a: m.ev(body(*[num(x) for x in a]), {})
        if lemmas is not None:
            idx = [fresh("q") for _ in range(len(shape) + len(params))]
            hy = [h for i, n in zip(idx, list(params) + list(shape)) for h in (le(ZERO, i), lt(i, lift(n)))]
            d = eq(f(*idx), body(*idx))
            for k, g in enumerate(lemmas(*idx)):
                g, using = g if isinstance(g, tuple) else (g, [])
                self.decide(f"{self.name}: lemma {k + 1} of {name}", self.unfold_in(g, name, body), hy + list(using), "lemma")
            rng = list(params) + list(shape)

            def fact(*a):
                pre = and_(*[x for i, n in zip(a, rng) for x in (le(ZERO, i), lt(i, lift(n)))])
                return [or_(not_(pre), g[0] if isinstance(g, tuple) else g) for g in lemmas(*a)] + (
                    facts(*a) if facts else [])
            self.ctx.facts[name] = fact
            del d
        elif facts:
            self.ctx.facts[name] = facts
            if not params and not shape:
                self.model_hyps += [self.unfold_in(g, name, body) for g in facts()]
        self.it.fold = self.fold
        return f

    def prove(self, g, c):
        """Prove g, replacing more and more ghost functions by their definitions."""
        h = N.sum_height(g)
        if h:
            g = N.in_ranges(g, N.literals(c.hyps))
        limit = c.deadline
        for k in range(h - 1, 0, -1):
            # inner sums generalised to arbitrary functions of their indices
            if h < 3:
                break
            g2 = N.abstract(g, k)
            if g2 is not g:
                c.deadline = min(limit or 1e18, time.time() + 5)
                r = N.prove(g2, c)
                if r.ok:
                    return N.Result(True, r.by + "; inner sums generalised")
        c.deadline = limit
        r = N.prove(g, c)
        for name, shape, params, body, sort in reversed(self.defs):
            if r.ok or (c.deadline and time.time() > c.deadline):
                break
            g2 = self.unfold_in(g, name, body)
            if g2 is not g:
                for a in N.apps(g, name):
                    c = c.child(*[self.unfold_in(h, name, body) for h in (self.ctx.facts.get(name) or (
                        lambda *z: []))(*a.args[1:])])
                g = g2
                r2 = N.prove(g, c)
                if r2.ok:
                    r = N.Result(True, r2.by + "; definitions unfolded")
        return r

    def unfold_in(self, g, name, body):
        from .terms import replace_app
        return replace_app(g, name, lambda *a: body(*a))

    def fold(self, it, arr):
        for name, shape, params, body, sort in reversed(self.defs):
            if name in self.nofold or len(shape) != arr.nd or (sort == "B") != (arr.kind == "b"):
                continue
            if not all(it.same_dim(a, b) for a, b in zip(arr.shape, shape)):
                continue
            cands = [[]]
            for p in params:
                cands = [c + [v] for c in cands for v, n in it.loop_vars[::-1] if it.same_dim(n, p)]
            for ps in cands:
                idx = [fresh("q") for _ in shape]
                hy = list(it.pc) + [h for i, n in zip(idx, shape) for h in (le(ZERO, i), lt(i, n))]
                g = eqv(arr.at(*idx), body(*ps, *idx))
                ok = g is TRUE
                if not ok:
                    m, oks = self.find(g, list(self.ctx.hyps) + hy, tries=60)
                    if m is not None or not oks:
                        continue
                    c = self.ctx.child(*hy)
                    c.deadline = time.time() + 3
                    ok = self.prove(g, c).ok
                if ok:
                    self.r.record(f"{self.name}: an array of {it.where()} equals {name}", "proved",
                                  "definition", "fold")
                    arr.set_fn(lambda *ix: app(name, *ps, *ix, sort=sort))
                    return

    def perm(self, k=-1):
        """The k-th permutation the code drew: a function of the enclosing
        iterations and a position."""
        f, g, its, n = self.it.perms[k]
        return lambda *a: app(f, *a, sort="I")

    # ---- execution
    def get(self, q):
        return self.it.get(q)

    def call(self, q, *args, **kw):
        r = self.it.call(self.it.get(q) if isinstance(q, str) else q, list(args), kw)
        self.safety()
        return r

    def induction(self, name, bound, claim, hyps=(), step=lambda m: []):
        """claim(m) for 0 <= m <= bound, by induction on m: two obligations.  The
        result, a function of m, may be used as a hypothesis of later ones.
        step(m): properties of the objects the claim is about, used in step m."""
        m = fresh("ind")
        b = lift(bound)
        n0 = len(self.r.obligations)
        self.goal(f"{name} (at 0)", claim(ZERO), le(ZERO, b), *hyps)
        self.goal(f"{name} (step)", peel(claim(add(m, ONE)), m), claim(m), le(ZERO, m), lt(m, b), *hyps, *step(m))
        ok = all(o["status"] == "proved" for o in self.r.obligations[n0:])
        pre = and_(*hyps)
        return lambda i: or_(not_(and_(pre, le(ZERO, i), le(i, b))), claim(i)) if ok else TRUE

    def rejects(self, name, exc, q, *args, **kw):
        """The call raises exc on every input satisfying the preconditions."""
        n = len(self.it.raises)
        pc = list(self.it.pc)
        try:
            r = self.it.call(self.it.get(q) if isinstance(q, str) else q, list(args), kw)
            self.safety()
            self.refute(name, "returns a value") if not self.it.raises[n:] and r is not None else \
                self.structural(name, "returns a value on some path")
            return
        except Dead:
            pass
        self.it.pc[:] = pc
        got = {x[1] for x in self.it.raises[n:]}
        self.goal(name, got == {exc})

    def attr(self, o, name):
        r = self.it.attr(o, name)
        self.safety()
        return r

    def requires(self, name, arr, shape, fn):
        """Precondition of an assumed library contract: the argument is the array
        fn.  Where it fails, what the library then computes is unknown, so the
        obligation is undecided rather than refuted."""
        old, self.soft = self.soft, True
        try:
            self.equal(name, arr, shape, fn)
        finally:
            self.soft = old

    def requires_all(self, name, shape, fn):
        old, self.soft = self.soft, True
        try:
            self.forall(name, shape, fn)
        finally:
            self.soft = old

    def safety(self):
        obs = self.it.obligations[self.done:]
        self.done = len(self.it.obligations)
        for o in obs:
            # (an undefined number is no failure where the code then does not use it)
            old, self.soft = self.soft, self.soft or o.kind == "soft" or any(x in o.name for x in NUMERIC)
            try:
                self.decide(f"{self.name}: {o.name}", o.formula, o.hyps, "post" if o.kind in ("soft", "post") else "definedness")
            finally:
                self.soft = old

    # ---- obligations
    def goal(self, name, f, *hyps):
        if isinstance(f, bool):
            f = TRUE if f else FALSE
        if self.it.loop_stack:
            # a callee's contract, in an arbitrary iteration of a loop: decided once
            # the state before that iteration is known
            self.it.obligations.append(Obligation(name, f, list(self.it.pc) + list(hyps), "soft" if self.soft else "post"))
            return
        self.decide(f"{self.name}: {name}", f, list(self.it.pc) + list(hyps), "post")

    def forall(self, name, shape, fn):
        idx = [fresh("q") for _ in shape]
        hy = [h for i, n in zip(idx, shape) for h in (le(ZERO, i), lt(i, lift(n)))]
        self.goal(name, fn(*idx), *hy)

    def equal(self, name, arr, shape, fn):
        """arr has the shape and holds fn(index)."""
        if not isinstance(arr, Arr):
            if not shape:
                return self.goal(name, eq(real(scalar_(arr)), real(lift(fn()))))
            try:
                arr = lib.to_arr(self.it, arr)
            except Unsupported as e:
                return self.structural(name, f"not an array: {type(arr).__name__} ({e})")
        if len(arr.shape) != len(shape):
            return self.refute(name, f"{arr.nd} dimensions instead of {len(shape)}")
        self.goal(name + " (shape)", and_(*[eq(a, lift(b)) for a, b in zip(arr.shape, shape)]))
        self.forall(name, shape, lambda *i: eqv(arr.at(*i), fn(*i)))

    def under(self, t, *hyps, memo=None):
        """The term with its conditionals decided where the hypotheses decide them."""
        memo = {} if memo is None else memo
        if t in memo or not isinstance(t, T) or t.op in ("sum", "ex", "num", "var"):
            return memo.get(t, t)
        if t.op == "ite":
            c = self.ctx.child(*self.it.pc, *hyps)
            q = self.under(t.args[0], *hyps, memo=memo)
            if q is TRUE or c.entails(q):
                r = self.under(t.args[1], *hyps, memo=memo)
            elif q is FALSE or c.entails(not_(q)):
                r = self.under(t.args[2], *hyps, memo=memo)
            else:
                r = rebuild(t, [q] + [self.under(a, *hyps, memo=memo) for a in t.args[1:]])
        else:
            r = rebuild(t, [self.under(a, *hyps, memo=memo) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r

    def sums_equal(self, name, n, f, g, *hyps, split=lambda i: (), using=lambda i: []):
        """Sums of equal terms are equal: the terms, for every index, are an
        obligation (one for each combination of the conditions split(i)); returns the sums."""
        i = fresh("q")
        hy = [le(ZERO, i), lt(i, lift(n)), *hyps, *using(i)]
        cs = [[]]
        for c in split(i):
            cs = [h + [x] for h in cs for x in (c, not_(c))]
        for c in cs:
            self.goal(f"{name}: equal terms", eq(self.under(f(i), *hy, *c), self.under(g(i), *hy, *c)), *hy, *c)
        return sum_(ZERO, n, f), sum_(ZERO, n, g)

    def equals_sum(self, name, t, want, n, g, *hyps, split=lambda i: (), using=lambda i: []):
        """The term, as the code computes it, is want(the sum of g(i), i < n): its own
        sum over that range has equal terms, and enters it in the same way."""
        from .terms import subst
        t = self.under(t, *hyps)
        for x in N.sums_in(t):
            v, lo, hi, b = x.args
            if lo is ZERO and self.it.same_dim(hi, n):
                self.sums_equal(name, n, lambda i: subst(b, {v: i}), g, *hyps, split=split, using=using)
                w = fresh("sum", x.sort)
                f = eq(N.put_for(t, x, w), want(w))
                if N.sums_in(f):
                    break
                return self.goal(name, f, *hyps)
        old, self.soft = self.soft, True  # (the terms were not recognised: no refutation)
        try:
            self.goal(name, eq(t, want(sum_(ZERO, n, g))), *hyps)
        finally:
            self.soft = old

    def snapshot(self, *arrs):
        return [(a, a.shape, a.vars, a.body, a.kind) for a in arrs]

    def unchanged(self, name, snaps):
        self.in_frame = True
        try:
            self.frame(name, snaps)
        finally:
            self.in_frame = False

    def frame(self, name, snaps):
        ok = TRUE
        for a, sh, vs, body, kd in snaps:
            if a.shape != sh or a.kind != kd:
                return self.refute(name, "the argument changes shape or type")
            if a.body is body:
                continue
            idx = [fresh("q") for _ in sh]
            from .terms import subst
            self.goal(name, eqv(a.at(*idx), subst(body, dict(zip(vs, idx)))),
                      *[h for i, n in zip(idx, sh) for h in (le(ZERO, i), lt(i, n))])
        self.goal(name, ok)

    def weights_unchanged(self):
        """Nothing but the transform of a weights object is switched."""
        for o in [o for o in HEAP.objs if getattr(o, "given", None)]:
            name, d = "the weights object is unchanged", dict(o.attrs)
            self.unchanged(name, [(v, *st) for k, v, st in o.given if isinstance(v, Arr)])
            self.in_frame = True
            for k, v, st in o.given:
                now = d.pop(k, None)
                if k != "transform" and (now is not v or (st is not None and not isinstance(v, Arr) and v.save() != st)):
                    self.structural(name, f"{k} is another value")
            d.pop("transform", None)
            if d:
                self.structural(name, f"{', '.join(d)} added")
            self.in_frame = False

    def refute(self, name, why):
        if self.soft:
            return self.structural(name, why)
        self.r.record(f"{self.name}: {name}", "refuted", why, "frame" if self.in_frame else "post")

    def structural(self, name, why):
        self.r.record(f"{self.name}: {name}", "unknown", why, "frame" if self.in_frame else "post")

    def decide(self, name, f, hyps, kind):
        if self.r.frames and not self.in_frame:
            return
        kind = "frame" if self.in_frame else kind
        c = self.ctx.child(*hyps)
        if not self.checked and kind == "post":
            self.checked = True
            self.vacuity()
        t0 = time.time()
        if time.time() > self.r.deadline:
            return self.r.record(name, "unknown", "engine time budget used up", kind, f=f)
        c.deadline = min(self.r.deadline, t0 + self.r.per_goal)
        m, ok = (None, 0) if f is TRUE else self.find(
            f, list(self.ctx.hyps) + list(hyps), tries=10)
        try:
            res = N.Result(False, "", "") if m is not None else self.prove(f, c)
        except RecursionError:
            res = N.Result(False, "", "term too deep")
        if res.ok:
            return self.r.record(name, "proved", res.by, kind, t=time.time() - t0, f=f)
        for attempt in range(0 if m is not None else 3):
            m, ok = self.find(f, list(self.ctx.hyps) + list(hyps), tries=40)
            if m is not None:
                break
        if m is not None:
            # (an arbitrary loop state left in the formula decides nothing)
            loose = any(str(a.args[0]).startswith(("H~", "poison!")) for x in [f, *hyps] for a in apps(x))
            return self.r.record(name, "unknown" if self.soft or loose else "refuted",
                                 "false in the model " + str(model.describe(m))[:1500],
                                 kind, t=time.time() - t0, f=f)
        self.r.record(name, "unknown", res.reason + f" [no counterexample in {ok} models]", kind,
                      t=time.time() - t0, f=f)

    def find(self, f, hyps, tries=40, want_false=True):
        return model.find(f, list(hyps) + self.model_hyps, {**lib.SAMPLERS, **self.samplers}, self.sizes, self.r.rng, tries=tries,
                          want_false=want_false, facts=self.ctx.facts)

    def differs(self, f):
        """A finite model of the preconditions makes f false."""
        return self.find(f, list(self.ctx.hyps) + list(self.it.pc), tries=80)[0] is not None

    def vacuity(self):
        """The contract's preconditions are satisfiable."""
        m, ok = self.find(TRUE, list(self.ctx.hyps) + list(self.it.pc), tries=80, want_false=False)
        if m is not None:
            return
        if self.ctx.child(*self.it.pc).entails(FALSE, timeout=2000):
            self.r.record(f"{self.name}: preconditions satisfiable", "unknown",
                          "the hypotheses are contradictory", "vacuity")


def scalar_(v):
    from .values import scalar
    return scalar(v)


def eqv(a, b):
    b = lift(b)
    if a.sort == "B" or b.sort == "B":
        if a.sort == b.sort:
            return eq(a, b)
    return eq(real(a), real(b))


BASE_SAMPLERS = {}


class Run:
    def __init__(self, pid, repo, tier, seed):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.rng = random.Random(seed)
        self.obligations = []
        self.frames = False  # only the frame conditions of the contracts are decided
        self.functions, self.libs, self.contracts = set(), set(), set()
        self.bounded, self.assumptions = [], []
        self.per_goal = 60 if tier == "quick" else 180
        self.deadline = time.time() + (150 if tier == "quick" else 500)

    def record(self, name, status, reason, kind, t=0.0, f=None):
        if self.frames and kind not in ("frame", "subset"):
            return
        self.obligations.append({"name": name, "status": status, "kind": kind,
                                 "by" if status == "proved" else "reason": reason,
                                 "t": round(t, 3)})

    def case(self, name, body, reach=None):
        """Run one contract; constructs outside the subset leave it undecided."""
        s = Spec(self, name)
        n0 = len(self.obligations)
        try:
            body(s)
            if self.frames:
                s.weights_unchanged()
            ch = s.it.module_changes()
            if ch:
                self.record(f"{name}: no state outlives the call", "unknown", "changes " + ", ".join(ch), "frame")
        except Dead:
            self.record(f"{name}: does not raise", "unknown", "every path raises", "post")
        except Unsupported as e:
            self.record(f"{name}: within the verified subset", "unknown",
                        f"outside the verified subset: {e}", "subset")
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        except RecursionError:
            self.record(f"{name}: within the verified subset", "unknown", "recursion", "subset")
        except Exception as e:
            self.record(f"{name}: within the verified subset", "unknown",
                        f"engine: {type(e).__name__}: {e} " +
                        traceback.format_exc().strip().splitlines()[-3].strip(), "subset")
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        self.functions |= set(s.it.used)
        self.contracts |= set(s.it.called_contracts)
        self.libs |= set(s.it.libs_used)
        if len(self.obligations) == n0:
            self.record(f"{name}: generates obligations", "unknown", "no obligation generated", "vacuity")
        if getattr(s.it, "assumed_no_exception", False):
            self.assumptions.append(f"{name}: the body of a try statement raises nothing its handler catches")


def contracts_for(pid):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    out = []
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module("contracts." + f[:-3])
            fn = getattr(m, pid, None)
            if fn is not None:
                out.append((m, fn))
    return out


LIBNOTE = ("assumed contracts of library functions (exact real arithmetic, numpy/scipy semantics as "
           "modelled in pyvc/lib.py): ")


def run(pid, repo, tier="quick", seed=1):
    sys.setrecursionlimit(20000)
    r = Run(pid, repo, tier, seed)
    t0 = time.time()
    trusted = []
    for m, fn in contracts_for(pid):
        fn(r)
        trusted += getattr(fn, "trusted", [])
    st = N.STATS
    by = {}
    for o in r.obligations:
        if o["status"] == "proved":
            for b in o.get("by", "").split("; "):
                by[b] = by.get(b, 0) + 1
    if r.libs:
        trusted.append(LIBNOTE + ", ".join(sorted(x.replace("builtins.", "") for x in r.libs)))
    if r.obligations:
        trusted.append("pyvc: interpreter, normal form, loop-invariant engine, obligation generator; "
                       "z3 4.x (python3-vt z3-solver)")
        r.assumptions.append("machine integers and floating point treated as exact integers and reals")
    return {"obligations": r.obligations, "trusted": trusted, "functions": sorted(r.functions),
            "callee_contracts": sorted(r.contracts), "bounded": r.bounded,
            "backends": by, "solver_s": round(st["z3_s"] + getattr(r, "hoare_s", 0), 2),
            "z3_queries": st["z3_calls"] + getattr(r, "hoare_calls", 0),
            "assumptions": r.assumptions, "candidates": [], "engine_s": round(time.time() - t0, 2)}


def main():
    pid = sys.argv[1]
    repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    res = run(pid, repo, os.environ.get("TIER", "quick"))
    for o in res["obligations"]:
        print(f"{o['status']:8} {o['t']:7.2f}s {o['name']}" + (
            "" if o["status"] == "proved" else "\n      " + str(o.get("reason"))[:700]))
    n = sum(o["status"] == "proved" for o in res["obligations"])
    print(pid, n, "/", len(res["obligations"]), "proved;", res["engine_s"], "s; z3", res["z3_queries"],
          res["solver_s"], "s; functions", res["functions"])


if __name__ == "__main__":
    main()
