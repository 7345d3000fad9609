"""F01: no analysis changes the caller's data, and results can be asked for again."""
import ast
import itertools
import json
import multiprocessing
import os

from contracts._common import *

WORKERS = 7


# ------------------------------------------------------------------ frames
def frames_of(args):
    """The frame conditions among the obligations of another property's contracts."""
    pid, repo, tier = args
    from pyvc import driver
    from pyvc import nf as N
    r = driver.Run(pid, repo, tier, 1)
    r.frames = True
    for m, fn in driver.contracts_for(pid):
        fn(r)
    for o in r.obligations:
        o["name"] = f"{pid}: {o['name']}"
    return (r.obligations, r.functions, r.libs, r.contracts, r.assumptions,
            (N.STATS["z3_s"] + getattr(r, "hoare_s", 0), N.STATS["z3_calls"] + getattr(r, "hoare_calls", 0)))


def all_frames(R):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
    slow = ["L02", "T01", "H01", "S03", "T05", "D02", "M02", "E02"]
    ids = [i for i in slow if i in ids] + [i for i in ids if i not in slow and i != "F01"]
    # (processes of their own: the frames of a property do not depend on another's)
    with multiprocessing.get_context("fork").Pool(WORKERS, maxtasksperchild=1) as pool:
        for obs, fns, libs, cons, ass, (zs, zn) in pool.imap(frames_of, [(i, R.repo, R.tier) for i in ids], chunksize=1):
            R.obligations += obs
            R.functions |= fns
            R.libs |= libs
            R.contracts |= cons
            R.assumptions += [a for a in ass if a not in R.assumptions]
            R.hoare_s = getattr(R, "hoare_s", 0) + zs
            R.hoare_calls = getattr(R, "hoare_calls", 0) + zn


# --------------------------------------------------- lazily computed results
def freeze(v, memo=None):
    """A copy of the value that later changes of the original do not reach."""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = v.copy()
    elif isinstance(v, PList):
        r = PList([], v.tag)
        memo[id(v)] = r
        r.items = [freeze(x, memo) for x in v.items]
    elif isinstance(v, PDict):
        r = PDict({k: freeze(x, memo) for k, x in v.d.items()})
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        memo[id(v)] = r
        r.attrs = {k: freeze(x, memo) for k, x in v.attrs.items()}
    elif type(v).__name__ == "MList":
        r = type(v)(v.d["a"].copy())
    else:
        r = v
    memo[id(v)] = r
    return r


def same(s, name, v, w, *hy):
    """Obligations: the values are equal."""
    s.in_frame = True
    try:
        same_(s, name, v, w, *hy)
    finally:
        s.in_frame = False


def same_(s, name, v, w, *hy):
    if v is w:
        return s.goal(name, TRUE)
    if isinstance(v, Obj) and isinstance(w, Obj):
        if v.cls is not w.cls or v.attrs.keys() != w.attrs.keys():
            return s.refute(name, "an object of another kind")
        for k in v.attrs:
            same_(s, f"{name}.{k}", v.attrs[k], w.attrs[k], *hy)
        return
    if isinstance(v, Opq) and isinstance(w, Opq):
        return s.goal(name, TRUE) if v.tag == w.tag else s.structural(name, "an unmodelled value")
    if v is None or w is None or isinstance(v, str) or isinstance(w, str):
        return s.goal(name, TRUE) if type(v) is type(w) and v == w else s.refute(name, f"{v!r:.40}, then {w!r:.40}")
    if is_num(v) and is_num(w):
        return s.goal(name, eqv(scalar(v), scalar(w)), *hy)
    if isinstance(v, Arr) and isinstance(w, Arr):
        if v.nd != w.nd:
            return s.refute(name, f"{v.nd} dimensions, then {w.nd}")
        s.goal(name + " (shape)", and_(*[eq(a, b) for a, b in zip(v.shape, w.shape)]), *hy)
        ix = [fresh("q") for _ in v.shape]
        return s.goal(name, eqv(v.at(*ix), w.at(*ix)), *hy, *[h for i, n in zip(ix, v.shape) for h in (le(ZERO, i), lt(i, n))])
    if isinstance(v, (PList, SList)) and isinstance(w, (PList, SList)):
        if isinstance(v, PList) and isinstance(w, PList):
            if len(v.items) != len(w.items):
                return s.refute(name, f"{len(v.items)} items, then {len(w.items)}")
            for i, (a, b) in enumerate(zip(v.items, w.items)):
                same_(s, f"{name}[{i}]", a, b, *hy)
            return
        n = lib.ilen(s.it, v)
        s.goal(name + " (length)", eq(n, lib.ilen(s.it, w)), *hy)
        i = fresh("i")
        hy = (*hy, le(ZERO, i), lt(i, n))
        return same_(s, name + "[i]", lib.getitem(s.it, v, [i], False), lib.getitem(s.it, w, [i], False), *hy)
    raise Unsupported(f"{name}: {type(v).__name__} and {type(w).__name__}")


def properties(cls):
    out = []
    for c in [cls] + [b for b in cls.bases if isinstance(b, Cls)]:
        out += sorted(p for p in c.props if p not in out)
        for nm, f in c.methods.items():
            for d in f.node.decorator_list:
                if nm not in c.props or len(f.node.decorator_list) > 1:
                    raise Unsupported(f"{c.name}.{nm} is decorated")
    return out


def assigned(cls):
    """Attributes the constructors of the class and its bases assign."""
    out = set()
    for c in [cls] + [b for b in cls.bases if isinstance(b, Cls)]:
        for nm, f in c.methods.items():
            if nm not in c.props:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                        out.add(x.attr)
    return out


def fitted(s):
    """The attributes the results are computed from, for every class; contracts of
    the functions the results come from: functions of what they are given."""
    k, m, n, t = s.size("k", 1), s.size("m", 1), s.size("n", 1), s.size("t", 2)
    arr = lambda nm, *sh: Arr(sh, s.fn(nm), "f")
    base = {"p": arr("pg", k, k), "P": arr("pc", m, k, k), "T": arr("Tc", m, k, k), "transitions": arr("Tg", k, k),
            "k": k, "m": m, "classes": arr("cls", k), "class_ids": arr("ids", n, t), "lclass_ids": arr("lids", n, t),
            "fixed": True, "discrete": False, "variable_name": None, "num_cclasses": s.size("ncc", 1),
            "num_rclasses": s.size("nrc", 1)}
    s.assume(all_(ZERO, k, lambda a: and_(le(ZERO, app("pg", a, a)), le(app("pg", a, a), ONE))))

    def known(P, nd):
        P = lib.to_arr(s.it, P)
        for nm in ("pg", "pc", "Tc", "Tg"):
            l = slice_index(P, nm, nd)
            if l is not None:
                return nm, list(l)
        raise Unsupported("called with another array than those of the object")

    def of_matrix(q, *shape):
        def contract(it, P, fill_empty_classes=False):
            nm, l = known(P, 2)
            f = "fill" if it.truth(fill_empty_classes) is TRUE else "asis"
            return Arr(shape, lambda *i: app(f"{q}_{nm}_{f}", *l, *i), "f")
        return contract
    s.it.contracts["ergodic.steady_state"] = of_matrix("ss", k)
    s.it.contracts["ergodic.mfpt"] = of_matrix("fp", k, k)

    def chi2(it, T1, T2):
        (a, la), (b, lb) = known(T1, 2), known(T2, 2)
        return PList([app(f"x2{w}_{a}_{b}", *la, *lb) for w in ("stat", "p", "dof")], "tuple")
    s.it.contracts["markov.chi2"] = chi2

    def homogeneity(it, T, *a, **kw):
        nm, l = known(T, 3)
        return Obj("Homogeneity_Results", {w: app(f"hom{w}_{nm}", *l) for w in ("Q", "Q_p_value", "LR", "LR_p_value", "dof")})
    s.it.contracts["markov.homogeneity"] = homogeneity
    return base


class Getters:
    """The results of a class that are computed when asked for.  Invariant: an
    attribute added since the object was fitted holds the value its first
    computation gave (self.V).  Contract of every result, from every state that
    satisfies the invariant: what the object was fitted to is left as it was, the
    invariant holds again, and the value is the one given on a fresh object.
    Hence, by induction, every history of accesses gives the same values."""

    def __init__(self, s, cls):
        self.s, self.cls = s, cls
        self.base = fitted(s)
        for a in assigned(cls):
            if a not in self.base and not a.startswith("_"):
                self.base[a] = Opq(f"self.{a}")
        self.saved = {a: freeze(v) for a, v in self.base.items()}
        self.V, self.R, self.reads = {}, {}, {}

    def state(self, extra):
        o = Obj(self.cls, {**self.base, **{a: freeze(self.V[a]) for a in extra}})
        return o

    def ask(self, g, o):
        it = self.s.it
        it.reads = set()
        libs = len([x for x in it.libs_used if "random" in x])
        v = self.s.attr(o, g)
        if len([x for x in it.libs_used if "random" in x]) > libs:
            self.s.refute(f"{g} draws no random numbers", "it does")
        self.reads[g] |= it.reads
        return v

    def first(self, g):
        self.reads[g] = set()
        # (where a number is undefined, it is so again; S03 has the definedness)
        self.s.safety = lambda: None
        o = self.state(())
        self.R[g] = freeze(self.ask(g, o))
        for a, v in o.attrs.items():
            if a not in self.base and a not in self.V:
                self.V[a] = freeze(v)

    def check(self, g):
        s, done = self.s, set()
        # every subset of the added attributes the result looks at
        while True:
            # (the attributes asked for may depend on those there: until no new one)
            look = sorted(a for a in self.reads[g] if a in self.V)
            todo = [c for r in range(len(look) + 1) for c in itertools.combinations(look, r) if c not in done]
            if not todo:
                break
            for have in todo:
                done.add(have)
                o = self.state(have)
                # (such a state need not be one a history leads to: no refutation)
                s.soft = bool(have)
                try:
                    tag = g + (f" given {', '.join(have)}" if have else "")
                    same(s, f"{tag}: the same value", self.ask(g, o), self.R[g])
                    self.kept(tag, o)
                    s.soft = True
                    for a, v in o.attrs.items():
                        if a not in self.base:
                            same(s, f"{tag}: {a} holds what it is first given", v, self.V[a])
                finally:
                    s.soft = False

    def kept(self, tag, o):
        s = self.s
        for a, b in self.base.items():
            if a not in o.attrs:
                s.refute(f"{tag}: {a} stays", "it is removed")
            elif o.attrs[a] is not b:
                same(s, f"{tag}: {a} unchanged", o.attrs[a], self.saved[a])
        s.unchanged(f"{tag}: what was fitted is unchanged", [
            (self.base[a], x.shape, x.vars, x.body, x.kind) for a, x in self.saved.items() if isinstance(x, Arr)])

    def histories(self, ps):
        """Short histories, from the fresh object (these can be refuted)."""
        for h in ps:
            for g in ps:
                o = self.state(())
                self.ask(h, o)
                same(self.s, f"{g} after {h}: the same value", self.ask(g, o), self.R[g])
                self.kept(f"{g} after {h}", o)


def lazy(name):
    def go(s):
        cls = s.get("markov." + name)
        G = Getters(s, cls)
        ps = properties(cls)
        for g in ps:
            G.first(g)
        for g in ps:
            G.check(g)
        G.histories(ps)
        s.goal("results computed when asked for: " + ", ".join(ps), TRUE)
    return go


def F01(R):
    for c in ("Markov", "Spatial_Markov", "LISA_Markov", "FullRank_Markov", "GeoRank_Markov"):
        R.case(c, lazy(c))
    all_frames(R)
