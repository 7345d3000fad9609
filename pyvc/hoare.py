"""Loop-invariant verification of the worklist and search-tree functions.

The functions' real source is parsed on every run and executed symbolically,
path by path.  A loop is cut by the invariant its contract gives: it must hold
on entry, be kept by an arbitrary iteration, and is all that is known after the
loop.  A call of a function under contract is replaced by its contract, other
functions of the package are executed in place.  Obligations go to z3.

Containers are abstracted to what the contracts speak about: a set or a list of
units to its membership predicate, a dict to its domain and values, an indexable
list or array to its length and entries.  The order in which a loop visits a set,
a dict or such a list is arbitrary.
"""
import ast
import itertools
import os
import time

import z3

from .values import Unsupported

Node = z3.DeclareSort("Node")
Val = z3.DeclareSort("Val")
N, And, Or, Not, Implies = Node, z3.And, z3.Or, z3.Not, z3.Implies
_n = itertools.count()


def fresh(name, sort):
    return z3.Const(f"{name}!{next(_n)}", sort)


def ffun(name, *sorts):
    return z3.Function(f"{name}!{next(_n)}", *sorts)


def is_z(v):
    return isinstance(v, z3.ExprRef)


def zz(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if not v == v or v in (float("inf"), float("-inf")):
            raise Unsupported("infinite constant")
        return z3.RealVal(repr(v))
    if is_z(v):
        return v
    raise Unsupported(f"not a scalar: {type(v).__name__}")


def forall(sorts, f, pats=None):
    """for all x of the sorts, f(x); pats(x) gives the instantiation patterns."""
    vs = [z3.Const(f"q!{next(_n)}", s) for s in sorts]
    b = f(*vs)
    if z3.is_true(b):
        return b
    kw = {}
    if pats is not None:
        p = pats(*vs)
        try:
            kw["patterns"] = [z3.MultiPattern(*q) if isinstance(q, (tuple, list)) else q for q in p
                              if all(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
                                     for t in (q if isinstance(q, (tuple, list)) else [q]))]
            r = z3.ForAll(vs, b, **kw)
            return r
        except z3.Z3Exception:
            return z3.ForAll(vs, b)
    return z3.ForAll(vs, b)


def exists(sorts, f):
    vs = [z3.Const(f"e!{next(_n)}", s) for s in sorts]
    return z3.Exists(vs, f(*vs))


class Heap:
    """Mutable objects; uid identifies an object across the copies of a state."""

    def __init__(self):
        self.uid = next(_n)
        self.frozen = False
        self.ver = 0

    def touch(self):
        if self.frozen:
            raise Unsupported("an object is changed after it was handed over")
        self.ver = next(_n)

    def children(self):
        return []


class SetV(Heap):
    def __init__(self, sort, mem):
        super().__init__()
        self.sort, self.mem = sort, mem

    def havoc(self):
        f = ffun("set", self.sort, z3.BoolSort())
        self.mem, self.ver = (lambda x: f(x)), next(_n)

    def empty(self):
        return z3.BoolVal(True) if self.sort is None else forall([self.sort], lambda x: z3.Not(self.mem(x)))


class BagV(SetV):
    """A list seen through the membership predicate of its elements, and whether
    they are distinct."""

    def __init__(self, sort, mem, distinct=False):
        super().__init__(sort, mem)
        self.distinct = z3.BoolVal(distinct) if isinstance(distinct, bool) else distinct

    def havoc(self):
        super().havoc()
        self.distinct = fresh("distinct", z3.BoolSort())


class ObjBag(Heap):
    """A list of objects, each of which met the contract's condition when it was
    appended; cov is the union of their node sets."""

    def __init__(self):
        super().__init__()
        self.cov = None
        self.item = None

    def havoc(self):
        f = ffun("cov", Node, z3.BoolSort())
        self.cov, self.ver = (lambda x: f(x)), next(_n)


class DictV(Heap):
    """ks: key sort; dom(x); val(x) is a z3 term."""

    def __init__(self, ks=None, dom=None, val=None, vs=None):
        super().__init__()
        self.ks, self.vs = ks, vs
        self.dom = dom or (lambda x: z3.BoolVal(False))
        self.val = val

    def havoc(self):
        if self.ks is None:
            raise Unsupported("an empty dict filled in a loop")
        d = ffun("dom", self.ks, z3.BoolSort())
        v = ffun("val", self.ks, self.vs)
        self.dom, self.val, self.ver = (lambda x: d(x)), (lambda x: v(x)), next(_n)


class NestV(Heap):
    """dict of dicts: dom(x); inn(x, y) implies dom(x); val(x, y)."""

    def __init__(self, dom, inn, val):
        super().__init__()
        self.dom, self.inn, self.val = dom, inn, val

    def havoc(self):
        d, i, v = ffun("dom", Node, z3.BoolSort()), ffun("in", Node, Node, z3.BoolSort()), ffun(
            "val", Node, Node, z3.RealSort())
        self.dom, self.inn, self.val = (lambda x: d(x)), (lambda x, y: z3.And(d(x), i(x, y))), (lambda x, y: v(x, y))
        self.ver = next(_n)


class RowV:
    def __init__(self, nest, key):
        self.nest, self.key = nest, key


class SeqV(Heap):
    """len, at(i) (a z3 term, or an Opt)."""

    def __init__(self, n, at, sort):
        super().__init__()
        self.n, self.at, self.sort = n, at, sort

    def havoc(self):
        self.ver = next(_n)
        if is_opt(self):
            a, b = ffun("isnone", z3.IntSort(), z3.BoolSort()), ffun("val", z3.IntSort(), z3.IntSort())
            self.at = lambda i: Opt(a(i), b(i))
        else:
            f = ffun("seq", z3.IntSort(), self.sort)
            self.at = lambda i: f(i)


def is_opt(v):
    return isinstance(v.sort, str)


class Opt:
    """None or an integer."""

    def __init__(self, none, val):
        self.none, self.val = none, val


class ObjV(Heap):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls, self.f = cls, dict(fields or {})

    def children(self):
        return list(self.f.values())


class Grid(Heap):
    """A 2-d array: shape, at(i, j)."""

    def __init__(self, shape, at, sort):
        super().__init__()
        self.shape, self.at, self.sort = shape, at, sort

    def havoc(self):
        f = ffun("grid", z3.IntSort(), z3.IntSort(), self.sort)
        self.at, self.ver = (lambda i, j: f(i, j)), next(_n)


class Lazy:
    """An immutable sequence of values: n, at(i).  tag: what a contract knows of it."""

    def __init__(self, n, at, tag=None):
        self.n, self.at, self.tag = n, at, tag


class Filtered:
    """The elements elt(k), 0 <= k < n, with cond(k), in order."""

    def __init__(self, n, cond, elt):
        self.n, self.cond, self.elt = n, cond, elt


class Items:
    """What a loop over a dict or set visits: sort, mem(x), elem(x)."""

    def __init__(self, sort, mem, elem, distinct=True):
        self.sort, self.mem, self.elem, self.distinct = sort, mem, elem, distinct


class Untyped(Heap):
    """[] or {} before its first use decides what it holds."""

    def __init__(self, kind):
        super().__init__()
        self.kind, self.real = kind, None


class Fn:
    def __init__(self, f):
        self.f = f


class Opaque:
    pass


def clone(v, memo):
    if isinstance(v, Heap):
        r = memo.get(id(v))
        if r is None:
            r = object.__new__(type(v))
            memo[id(v)] = r
            r.__dict__.update(v.__dict__)
            if isinstance(v, ObjV):
                r.f = {k: clone(x, memo) for k, x in v.f.items()}
            if isinstance(v, Untyped) and v.real is not None:
                r.real = clone(v.real, memo)
            if isinstance(v, ObjBag) and v.item is not None:
                r.item = clone(v.item, memo)
        return r
    if isinstance(v, tuple):
        return tuple(clone(x, memo) for x in v)
    if isinstance(v, dict):
        return {k: clone(x, memo) for k, x in v.items()}
    if isinstance(v, RowV):
        return RowV(clone(v.nest, memo), v.key)
    return v


class State:
    def __init__(self, env, pc, g=None):
        self.env, self.pc, self.g = env, pc, g or {}

    def fork(self):
        memo = {}
        return State(clone(self.env, memo), list(self.pc), clone(self.g, memo))

    def objects(self):
        return reach(self.env)

    def assume(self, *fs):
        self.pc += [f for f in fs if not z3.is_true(f)]


def deref(v):
    while isinstance(v, Untyped) and v.real is not None:
        v = v.real
    return v


def reach(env):
    out, todo = {}, list(env.values())
    while todo:
        v = deref(todo.pop())
        if isinstance(v, tuple):
            todo += list(v)
        elif isinstance(v, dict):
            todo += list(v.values())
        elif isinstance(v, RowV):
            todo.append(v.nest)
        elif isinstance(v, Heap) and v.uid not in out:
            out[v.uid] = v
            todo += v.children()
    return out


class View:
    """What an invariant sees: v.name is a local, v.entry.name its value when the
    loop was entered; v.done(x) the elements visited, v.it the next index."""

    def __init__(self, e, st, entry=None, done=None, i=None, cur=None):
        self._e, self._st = e, st
        self.entry, self.done, self.it, self.cur = entry, done, i, cur

    def __getattr__(self, k):
        if k in self._st.env:
            v = self._st.env[k]
        elif k in self._st.g:
            v = self._st.g[k]
        else:
            raise Unsupported(f"the contract's invariant speaks of {k}, which the code does not define")
        v = deref(v)
        if isinstance(v, Untyped):
            # nothing was added yet
            if v.kind == "list":
                return BagV(None, lambda x: z3.BoolVal(False), True)
            return NestV(lambda x: z3.BoolVal(False), lambda x, y: z3.BoolVal(False), lambda x, y: z3.RealVal(0))
        if isinstance(v, (bool, int, float)):
            return zz(v)
        return v


TRACE = bool(os.environ.get("HOARE_TRACE"))


def subgoals(f, hyps=()):
    """f split into goals under extra hypotheses: f follows when all of them do."""
    hyps = list(hyps)
    if z3.is_and(f):
        return [x for c in f.children() for x in subgoals(c, hyps)]
    if z3.is_quantifier(f) and f.is_forall():
        vs = [fresh("sk", f.var_sort(i)) for i in range(f.num_vars())]
        return subgoals(z3.substitute_vars(f.body(), *reversed(vs)), hyps)
    if z3.is_implies(f):
        return subgoals(f.arg(1), hyps + [f.arg(0)])
    if z3.is_eq(f) and z3.is_bool(f.arg(0)) and not z3.is_quantifier(f.arg(0)):
        a, b = f.arg(0), f.arg(1)
        return subgoals(b, hyps + [a]) + subgoals(a, hyps + [b])
    if z3.is_eq(f) and z3.is_bool(f.arg(0)):
        a, b = f.arg(0), f.arg(1)
        return subgoals(b, hyps + [a]) + subgoals(a, hyps + [b])
    return [(hyps, f)]


SYMS = {}


def symbols(f):
    """The uninterpreted symbols of f."""
    k = f.get_id()
    if k in SYMS:
        return SYMS[k][1]
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    SYMS[k] = (f, out)
    return out


def relevant(hyps, g):
    """Two selections of the hypotheses, by the symbols they share with the goal."""
    out, sy = [], set(symbols(g))
    for d in range(2):
        for _ in range(2 if d else 1):
            pick = [h for h in hyps if symbols(h) & sy or not symbols(h)]
            if d == 0:
                pick = [h for h in pick if len(symbols(h) - sy) <= 2]
            new = set(sy)
            for h in pick:
                if len(symbols(h)) <= 8:
                    new |= symbols(h)
            sy = new
        out.append(pick)
    return out


class Engine:
    def __init__(self, run, name, module, src, others=()):
        self.run, self.name, self.module = run, name, module
        self.tree = ast.parse(src)
        self.funcs, self.imports = {}, {}
        for o in others:
            self._index(ast.parse(o), "")
        self._index(self.tree, "")
        self.loops = {}      # qualified name -> list of invariants, in source order
        self.contracts = {}  # qualified name -> f(engine, st, args, kw) -> value
        self.libs = {}
        self.on_append = None
        self.axioms = []
        self.deadline = time.time() + 100
        self.timeout = 15000
        self.depth = 0
        self.used, self.called = set(), set()
        self.solver_s = 0.0
        self.calls = 0
        self.quiet = 0
        self.kind = "post"
        self.stores = {}
        self.partial = False
        self.patterns = False  # the contract's facts carry instantiation patterns: try these alone first

    def _index(self, node, pre):
        for ch in node.body:
            if isinstance(ch, ast.FunctionDef):
                self.funcs[pre + ch.name] = ch
            elif isinstance(ch, ast.ClassDef):
                self.funcs[pre + ch.name] = ch
                self._index(ch, pre + ch.name + ".")
            elif isinstance(ch, ast.ImportFrom):
                for a in ch.names:
                    self.imports[a.asname or a.name] = (ch.module or "") + "." + a.name
            elif isinstance(ch, ast.Import):
                for a in ch.names:
                    self.imports[a.asname or a.name] = a.name

    # ------------------------------------------------------------ obligations
    def check(self, st, f, name, timeout=None):
        """Is f a consequence of the path condition?"""
        f = zz(f)
        if timeout is not None:
            return self.solve(list(self.axioms) + st.pc, f, timeout)
        for hy, g in subgoals(f):
            hs = list(self.axioms) + list(st.pc) + hy
            ok, why = False, "unknown"
            rel = relevant(hs, g)
            plan = [(rel[0], 2000, {}), (rel[1], 4000, {}), (hs, self.timeout, {}), (rel[1], 8000, {"smt.mbqi": False}),
                    (hs, self.timeout, {"smt.random_seed": 7, "smt.mbqi": False})]
            if self.patterns:
                plan = [(h, t, {"smt.mbqi": False}) for h, t in ((rel[1], 1000), (hs, 2000))] + plan
            for hyps, t, opts in plan:
                if time.time() > self.deadline:
                    break
                ok, why = self.solve(hyps, g, t, opts)
                if ok or (why == "sat" and hyps is hs):
                    break
            if not ok:
                if TRACE:
                    print("UNPROVED", name, g.sexpr()[:1500])
                return False, why
        return True, "unsat"

    def entails(self, st, f, timeout=1500):
        """A quick attempt to prove f."""
        for hy, g in subgoals(zz(f)):
            hs = list(self.axioms) + list(st.pc) + hy
            if not any(self.solve(h, g, timeout)[0] for h in (*relevant(hs, g), hs)):
                return False
        return True

    def solve(self, hyps, f, timeout, opts={}):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*hyps, z3.Not(f))
        t0 = time.time()
        r = s.check()
        self.solver_s += time.time() - t0
        self.calls += 1
        return r == z3.unsat, str(r)

    def goal(self, st, f, name, kind=None):
        if self.quiet:
            return True
        if self.run.frames and kind != "frame" and "unchanged" not in name:
            return True  # (an obligation of the property whose contract this is)
        kind = "frame" if self.run.frames else kind
        t0 = time.time()
        full = f"{self.name}: {name}"
        if time.time() > self.deadline:
            self.run.record(full, "unknown", "engine time budget used up", kind or self.kind)
            return False
        ok, why = self.check(st, f, full)
        self.run.record(full, "proved" if ok else "unknown",
                        "z3 (quantified)" if ok else f"z3: {why}", kind or self.kind, t=time.time() - t0)
        return ok

    def feasible(self, st):
        if self.quiet:
            return True
        s = z3.Solver()
        s.set("timeout", 250)
        s.add(*self.axioms, *st.pc)
        t0 = time.time()
        r = s.check()
        self.solver_s += time.time() - t0
        self.calls += 1
        return r != z3.unsat

    def lemma(self, name, hyps, goal):
        """An auxiliary fact, an obligation before it is used."""
        self.goal(State({}, list(hyps)), goal, "lemma: " + name, "lemma")

    # ------------------------------------------------------------ expressions
    def truth(self, st, v):
        v = deref(v)
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, (bool, int)):
            return z3.BoolVal(bool(v))
        if isinstance(v, Untyped):
            return z3.BoolVal(False)
        if isinstance(v, SetV):
            return z3.Not(v.empty())
        if isinstance(v, SeqV):
            return v.n > 0
        if isinstance(v, Opt):
            return z3.And(z3.Not(v.none), v.val != 0)
        if is_z(v):
            if z3.is_bool(v):
                return v
            if v.sort() == Node:
                raise Unsupported("truth value of a unit")
            return v != 0
        raise Unsupported(f"truth value of {type(v).__name__}")

    def guarded(self, st, cond, f, name):
        """Definedness obligation under the guards of the enclosing expression."""
        self.goal(st, z3.Implies(z3.And(*self.guards) if self.guards else z3.BoolVal(True), f), name, "definedness")

    guards = ()

    def where(self, node):
        return f"line {getattr(node, 'lineno', '?')}"

    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} ({self.where(e)})")
        return m(st, e)

    def e_Constant(self, st, e):
        return e.value

    def e_Name(self, st, e):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, Poison):
                raise Unsupported(f"{e.id} may be undefined")
            return v
        if e.id in self.libs:
            return Fn(self.libs[e.id])
        if e.id in self.funcs or e.id in self.imports or e.id in BUILTINS:
            return ("global", e.id)
        raise Unsupported(f"name {e.id}")

    def e_Tuple(self, st, e):
        return tuple(self.ev(st, x) for x in e.elts)

    def e_List(self, st, e):
        if not e.elts:
            return Untyped("list")
        vs = [self.ev(st, x) for x in e.elts]
        if all(v is None for v in vs):
            return SeqV(z3.IntVal(len(vs)), lambda i: Opt(z3.BoolVal(True), z3.IntVal(0)), "opt")
        if all(is_z(v) and v.sort() == Node for v in vs):
            return BagV(Node, lambda x: z3.Or(*[x == v for v in vs]), z3.Distinct(*vs) if len(vs) > 1 else True)
        return tuple(vs)

    def e_Set(self, st, e):
        vs = [self.ev(st, x) for x in e.elts]
        if not all(is_z(v) and v.sort() == Node for v in vs):
            raise Unsupported("set display")
        return SetV(Node, lambda x: z3.Or(*[x == v for v in vs]))

    def e_Dict(self, st, e):
        if not e.keys:
            return Untyped("dict")
        ks = [self.ev(st, k) for k in e.keys]
        if all(isinstance(k, str) for k in ks):
            return ObjV("dict", {k: self.ev(st, v) for k, v in zip(ks, e.values)})
        vs = [zz(self.ev(st, v)) for v in e.values]
        if len(ks) != 1:
            raise Unsupported("dict display")
        k, v = ks[0], vs[0]
        return DictV(k.sort(), lambda x: x == k, lambda x: v, v.sort())

    def e_BoolOp(self, st, e):
        old, out = self.guards, []
        try:
            for x in e.values:
                b = self.truth(st, self.ev(st, x))
                out.append(b)
                self.guards = tuple(self.guards) + (b if isinstance(e.op, ast.And) else z3.Not(b),)
        finally:
            self.guards = old
        return z3.And(*out) if isinstance(e.op, ast.And) else z3.Or(*out)

    def e_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        if isinstance(e.op, ast.Not):
            return z3.Not(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else -zz(v)
        if isinstance(e.op, ast.Invert):
            v = deref(v)
            if isinstance(v, (SeqV, Grid)):
                return elementwise1(v, z3.Not, z3.BoolSort())
        raise Unsupported("unary operator")

    def e_IfExp(self, st, e):
        c = self.truth(st, self.ev(st, e.test))
        return z3.If(c, zz(self.ev(st, e.body)), zz(self.ev(st, e.orelse)))

    def e_BinOp(self, st, e):
        a, b = deref(self.ev(st, e.left)), deref(self.ev(st, e.right))
        return self.binop(st, e.op, a, b)

    def binop(self, st, op, a, b):
        if isinstance(op, ast.Mult) and isinstance(a, (tuple, SeqV)) and not isinstance(b, (SeqV, Grid)):
            if isinstance(a, SeqV) and is_opt(a) and z3.is_int_value(a.n) and a.n.as_long() == 1:
                n = zz(b)
                return SeqV(z3.If(n > 0, n, 0), a.at, "opt")
        if isinstance(a, SetV) and isinstance(b, SetV) and not isinstance(a, BagV):
            f = {ast.BitOr: lambda x: z3.Or(a.mem(x), b.mem(x)), ast.BitAnd: lambda x: z3.And(a.mem(x), b.mem(x)),
                 ast.Sub: lambda x: z3.And(a.mem(x), z3.Not(b.mem(x)))}.get(type(op))
            if f and a.sort == b.sort:
                am, bm = a.mem, b.mem
                f = {ast.BitOr: lambda x: z3.Or(am(x), bm(x)), ast.BitAnd: lambda x: z3.And(am(x), bm(x)),
                     ast.Sub: lambda x: z3.And(am(x), z3.Not(bm(x)))}[type(op)]
                return SetV(a.sort, f)
        if isinstance(a, (SeqV, Grid)) or isinstance(b, (SeqV, Grid)):
            return elementwise2(a, b, lambda x, y: arith(op, x, y))
        if isinstance(a, str) or isinstance(b, str):
            return Opaque()
        if isinstance(a, BagV) and isinstance(b, BagV) and isinstance(op, ast.Add):
            am, bm = a.mem, b.mem
            return BagV(a.sort, lambda x: z3.Or(am(x), bm(x)))
        return arith(op, a, b)

    def e_Compare(self, st, e):
        left, out, old = self.ev(st, e.left), [], self.guards
        try:
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(st, r)
                c = self.compare(st, op, left, right)
                if len(e.ops) == 1:
                    return c
                out.append(c)
                left = right
        finally:
            self.guards = old
        return z3.And(*out)

    def compare(self, st, op, a, b):
        a, b = deref(a), deref(b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Untyped):
                r = z3.BoolVal(False)
            elif isinstance(b, SetV):
                r = b.mem(a)
            elif isinstance(b, DictV):
                r = b.dom(a)
            elif isinstance(b, NestV):
                r = b.dom(a)
            elif isinstance(b, tuple):
                r = z3.Or(*[zz(a) == zz(x) for x in b])
            else:
                raise Unsupported(f"membership in {type(b).__name__}")
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Opt) and b is None:
                r = a.none
            elif isinstance(b, Opt) and a is None:
                r = b.none
            elif b is None:
                r = z3.BoolVal(a is None)
            elif isinstance(b, bool) and (isinstance(a, bool) or is_z(a) and z3.is_bool(a)):
                r = zz(a) == zz(b)
            else:
                raise Unsupported("identity test")
            return z3.Not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(a, (SeqV, Grid)) or isinstance(b, (SeqV, Grid)):
            return elementwise2(a, b, lambda x, y: cmp(op, x, y), z3.BoolSort())
        if a is None or b is None:
            if isinstance(a, Opt) or isinstance(b, Opt):
                o = a if isinstance(a, Opt) else b
                r = o.none
            else:
                r = z3.BoolVal(a is b)
            return z3.Not(r) if isinstance(op, ast.NotEq) else r
        if isinstance(a, str) and isinstance(b, str):
            return z3.BoolVal({ast.Eq: a == b, ast.NotEq: a != b}[type(op)])
        if isinstance(a, SetV) and isinstance(b, SetV) and not isinstance(a, BagV) and isinstance(op, ast.Eq):
            return forall([a.sort], lambda x: a.mem(x) == b.mem(x))
        return cmp(op, a, b)

    def e_Attribute(self, st, e):
        v = deref(self.ev(st, e.value))
        return self.attr(st, v, e.attr, e)

    def attr(self, st, v, name, e):
        if isinstance(v, ObjV):
            if name in v.f:
                return v.f[name]
            if f"{v.cls}.{name}" in self.funcs or f"{v.cls}.{name}" in self.contracts:
                return ("bound", v, name)
            raise Unsupported(f"attribute {v.cls}.{name}")
        if isinstance(v, tuple) and v[0] == "global":
            return ("global", v[1] + "." + name)
        if isinstance(v, Grid) and name == "shape":
            return v.shape
        if isinstance(v, Grid) and name == "T":
            at = v.at
            return Grid(v.shape[::-1], lambda i, j: at(j, i), v.sort)
        return ("method", v, name)

    def e_Subscript(self, st, e):
        v = deref(self.ev(st, e.value))
        if isinstance(e.slice, ast.Slice):
            if e.slice.lower is None and e.slice.upper is None and e.slice.step is None and isinstance(v, BagV):
                return BagV(v.sort, v.mem, v.distinct)
            if e.slice.lower is None and e.slice.upper is None and e.slice.step is None and isinstance(v, SeqV):
                return SeqV(v.n, v.at, v.sort)
            raise Unsupported("slice")
        if isinstance(v, Grid) and isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2:
            a, b = e.slice.elts
            if full_slice(a) and not isinstance(b, ast.Slice):
                j = zz(self.ev(st, b))
                self.guarded(st, None, z3.And(0 <= j, j < v.shape[1]), f"{self.where(e)}: index in range")
                at = v.at
                return SeqV(v.shape[0], lambda i: at(i, j), v.sort)
            if full_slice(b) and not isinstance(a, ast.Slice):
                i = zz(self.ev(st, a))
                self.guarded(st, None, z3.And(0 <= i, i < v.shape[0]), f"{self.where(e)}: index in range")
                at = v.at
                return SeqV(v.shape[1], lambda j: at(i, j), v.sort)
        k = self.ev(st, e.slice)
        return self.getitem(st, v, k, e)

    def getitem(self, st, v, k, e):
        k = deref(k)
        if isinstance(k, Opt):
            self.guarded(st, None, z3.Not(k.none), f"{self.where(e)}: the index is not None")
            k = k.val
        if isinstance(v, tuple):
            if isinstance(k, int):
                return v[k]
            raise Unsupported("index of a tuple")
        if isinstance(v, (SeqV, Lazy)):
            i = zz(k)
            if isinstance(k, int) and k < 0:
                i = v.n + k
            self.guarded(st, None, z3.And(0 <= i, i < v.n), f"{self.where(e)}: index in range")
            return v.at(i)
        if isinstance(v, Filtered) and isinstance(k, int) and k == 0:
            z, m = z3.IntSort(), fresh("first", z3.IntSort())
            self.guarded(st, None, exists([z], lambda j: z3.And(0 <= j, j < v.n, v.cond(j))),
                         f"{self.where(e)}: some element satisfies the condition")
            st.assume(0 <= m, m < v.n, v.cond(m), forall([z], lambda j: z3.Implies(z3.And(0 <= j, j < m), z3.Not(v.cond(j)))))
            return v.elt(m)
        if isinstance(v, DictV):
            self.guarded(st, None, v.dom(k), f"{self.where(e)}: key present")
            return v.val(k)
        if isinstance(v, NestV):
            self.guarded(st, None, v.dom(k), f"{self.where(e)}: key present")
            return RowV(v, k)
        if isinstance(v, Grid) and isinstance(k, tuple) and len(k) == 2:
            i, j = [zz(x) for x in k]
            self.guarded(st, None, z3.And(0 <= i, i < v.shape[0], 0 <= j, j < v.shape[1]),
                         f"{self.where(e)}: index in range")
            return v.at(i, j)
        if isinstance(v, ObjV) and v.cls == "dict" and isinstance(k, str):
            return v.f[k]
        if isinstance(v, Fn):
            return v.f(self, st, k)
        raise Unsupported(f"subscript of {type(v).__name__} ({self.where(e)})")

    def e_Lambda(self, st, e):
        def go(eng, st2, *a, **k):
            s = State({**st.env, **dict(zip([x.arg for x in e.args.args], a))}, st2.pc, st2.g)
            return eng.ev(s, e.body)
        return Fn(go)

    # comprehensions: one generator, membership or index abstraction
    def comp_source(self, st, gen):
        return self.iterable(st, self.ev(st, gen.iter))

    def comp(self, st, gens, elt, conds=()):
        if len(gens) != 1:
            raise Unsupported("comprehension with several generators")
        g = gens[0]
        src = self.comp_source(st, g)
        return g, src

    def e_ListComp(self, st, e):
        g, src = self.comp(st, e.generators, e.elt)
        if isinstance(src, Items):
            x = fresh("c", src.sort)
            s = State(dict(st.env), st.pc + [src.mem(x)], st.g)
            self.assign(s, g.target, src.elem(x))
            old = self.guards
            cs = []
            for c in g.ifs:
                b = self.truth(s, self.ev(s, c))
                cs.append(b)
                self.guards = tuple(self.guards) + (b,)
            v = deref(self.ev(s, e.elt))
            self.guards = old
            mem, cond = src.mem, z3.And(*cs) if cs else z3.BoolVal(True)
            if is_z(v) and v.eq(x):
                return BagV(src.sort, lambda y: z3.And(mem(y), z3.substitute(cond, (x, y))), src.distinct)
            raise Unsupported("comprehension building other elements")
        if isinstance(src, (Lazy, SeqV)) and g.ifs:
            return self.filtered(st, g, src, e.elt)
        if isinstance(src, (Lazy, SeqV)):
            i = fresh("c", z3.IntSort())
            s = State(dict(st.env), st.pc + [0 <= i, i < src.n], st.g)
            self.assign(s, g.target, src.at(i))
            n0 = len(s.pc)
            v = deref(self.ev(s, e.elt))
            if len(s.pc) != n0:
                raise Unsupported("comprehension with effects")
            return Lazy(src.n, lambda k: subst(v, i, zz(k)), getattr(src, "tag", None))
        if isinstance(src, ObjBag) and src.item is not None and not g.ifs:
            return ("mapped", src, g.target, e.elt, dict(st.env))
        raise Unsupported(f"comprehension ({self.where(e)})")

    def filtered(self, st, g, src, elt):
        """The elements of a sequence that satisfy a condition, in its order."""
        i = fresh("c", z3.IntSort())
        s = State(dict(st.env), st.pc + [0 <= i, i < src.n], st.g)
        self.assign(s, g.target, src.at(i))
        cond = z3.And(*[self.truth(s, self.ev(s, c)) for c in g.ifs])
        v = deref(self.ev(s, elt))
        return Filtered(src.n, lambda k: z3.substitute(cond, (i, k)), lambda k: subst(v, i, k))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, st, e):
        r = self.e_ListComp(st, e)
        if isinstance(r, BagV):
            return SetV(r.sort, r.mem)
        raise Unsupported("set comprehension")

    def e_DictComp(self, st, e):
        g, src = self.comp(st, e.generators, e.key)
        if not isinstance(src, Items):
            raise Unsupported("dict comprehension")
        x = fresh("c", src.sort)
        s = State(dict(st.env), st.pc + [src.mem(x)], st.g)
        self.assign(s, g.target, src.elem(x))
        cs = [self.truth(s, self.ev(s, c)) for c in g.ifs]
        k, v = self.ev(s, e.key), zz(self.ev(s, e.value))
        if not (is_z(k) and k.eq(x)):
            raise Unsupported("dict comprehension with computed keys")
        mem, cond = src.mem, z3.And(*cs) if cs else z3.BoolVal(True)
        return DictV(src.sort, lambda y: z3.And(mem(y), z3.substitute(cond, (x, y))),
                     lambda y: z3.substitute(v, (x, y)), v.sort())

    # ------------------------------------------------------------ calls
    def e_Call(self, st, e):
        f = self.ev(st, e.func) if not (isinstance(e.func, ast.Name) and e.func.id not in st.env) else \
            self.e_Name(st, e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                raise Unsupported("starred argument")
            args.append(self.ev(st, a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("keyword dictionary")
            kw[k.arg] = self.ev(st, k.value)
        return self.apply(st, f, args, kw, e)

    def apply(self, st, f, args, kw, e):
        if isinstance(f, Fn):
            return f.f(self, st, *args, **kw)
        if isinstance(f, z3.FuncDeclRef):
            return f(*[zz(a) for a in args])
        if isinstance(f, tuple) and f[0] == "bound":
            q = f"{f[1].cls}.{f[2]}"
            if q in self.contracts:
                self.called.add(q)
                return self.contracts[q](self, st, [f[1]] + args, kw)
            return self.inline(st, self.funcs[q], [f[1]] + args, kw, q)
        if isinstance(f, tuple) and f[0] == "global":
            q = f[1]
            if q in self.libs:
                return self.libs[q](self, st, *args, **kw)
            if q in self.contracts:
                self.called.add(q)
                return self.contracts[q](self, st, args, kw)
            if q in self.funcs:
                d = self.funcs[q]
                if isinstance(d, ast.ClassDef):
                    o = ObjV(q)
                    if q + ".__init__" in self.funcs:
                        self.inline(st, self.funcs[q + ".__init__"], [o] + args, kw, q + ".__init__")
                    return o
                return self.inline(st, d, args, kw, q)
            if q in BUILTINS:
                return BUILTINS[q](self, st, *args, **kw)
            full = self.imports.get(q.split(".")[0])
            if full:
                q2 = ".".join([full] + q.split(".")[1:])
                if q2 in LIBS:
                    return LIBS[q2](self, st, *args, **kw)
            raise Unsupported(f"call of {q}")
        if isinstance(f, tuple) and f[0] == "method":
            return self.method(st, f[1], f[2], args, kw, e)
        raise Unsupported(f"call ({self.where(e)})")

    def inline(self, st, d, args, kw, q):
        """Execute a function without contract in place: one outcome is needed
        (statements of the form x = f(..) and return f(..) allow several)."""
        outs = self.outcomes(st, d, args, kw, q)
        if len(outs) != 1 or outs[0][1] is not st:
            raise Unsupported(f"a helper with several outcomes ({q})")
        if outs[0][0] != "return":
            raise Unsupported("a helper that raises")
        return outs[0][2]

    def outcomes(self, st, d, args, kw, q):
        if self.depth > 4:
            raise Unsupported("recursion without a contract")
        env = self.bind(st, d, args, kw)
        self.used.add(q)
        caller, old = st.env, self.guards
        env["@caller"] = caller
        sub = State(env, st.pc, st.g)
        self.depth += 1
        self.guards = ()
        try:
            outs = self.block(sub, d.body, q)
        finally:
            self.depth -= 1
            self.guards = old
        res = []
        for kind, s2, v in outs:
            if s2 is sub:
                r = st
            else:
                r = State(s2.env["@caller"], s2.pc, s2.g)
            res.append(("return" if kind == "next" else kind, r, v))
        return res

    def call_paths(self, st, e):
        """Outcomes of a call that is a whole right-hand side, or None."""
        if not isinstance(e, ast.Call) or not isinstance(e.func, (ast.Name, ast.Attribute)):
            return None
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None
        f = self.ev(st, e.func)
        if isinstance(f, tuple) and f[0] == "bound":
            q, pre = f"{f[1].cls}.{f[2]}", [f[1]]
        elif isinstance(f, tuple) and f[0] == "global":
            q, pre = f[1], []
        else:
            return None
        d = self.funcs.get(q)
        if q in self.contracts or q in self.libs or not isinstance(d, ast.FunctionDef):
            return None
        args = pre + [self.ev(st, a) for a in e.args]
        kw = {k.arg: self.ev(st, k.value) for k in e.keywords}
        return self.outcomes(st, d, args, kw, q)

    def bind(self, st, d, args, kw):
        a = d.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Unsupported("argument list")
        names = [x.arg for x in a.args]
        env = dict(zip(names, args))
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for k, v in kw.items():
            if k not in names or k in env:
                raise Unsupported(f"keyword {k}")
            env[k] = v
        for n, dv in zip(names[::-1], a.defaults[::-1]):
            if n not in env:
                if any(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.Call)) for x in ast.walk(dv)):
                    raise Unsupported(f"default of {n}: a changeable value shared by the calls")
                env[n] = self.ev(State({}, [], {}), dv)
        for n in names:
            if n not in env:
                raise Unsupported(f"missing argument {n}")
        return env

    def method(self, st, v, name, args, kw, e):
        v0, v = v, deref(v)
        a = deref(args[0]) if args else None
        if isinstance(v, Untyped):
            v = self.become(v, name, args)
        if kw and name not in ("sort",):
            raise Unsupported(f"keyword arguments of {name}")
        if isinstance(v, BagV):
            if name == "append":
                m = v.mem
                v.touch()
                v.mem = lambda x: z3.Or(m(x), x == a)
                v.distinct = z3.simplify(z3.And(v.distinct, z3.Not(m(a))))
                return None
            if name == "extend":
                m, b = v.mem, self.iterable(st, a)
                if not isinstance(b, Items) or b.sort != v.sort:
                    raise Unsupported("extend")
                v.touch()
                bm = b.mem
                v.mem = lambda x: z3.Or(m(x), bm(x))
                v.distinct = z3.BoolVal(False)
                return None
            if name == "pop" and len(args) <= 1:
                self.guarded(st, None, z3.Not(v.empty()), f"{self.where(e)}: pop from a non-empty list")
                x, f, m = fresh("popped", v.sort), ffun("rest", v.sort, z3.BoolSort()), v.mem
                v.touch()
                v.mem = lambda y: f(y)
                st.assume(m(x), forall([v.sort], lambda y: m(y) == z3.Or(f(y), y == x)))
                st.assume(z3.Implies(v.distinct, z3.Not(f(x))))
                return x
            if name == "remove":
                self.guarded(st, None, v.mem(a), f"{self.where(e)}: the removed element is present")
                f, m = ffun("rest", v.sort, z3.BoolSort()), v.mem
                v.touch()
                v.mem = lambda x: f(x)
                st.assume(forall([v.sort], lambda x: f(x) == z3.And(m(x), z3.Or(x != a, f(a))), lambda x: [f(x)]),
                          forall([v.sort], lambda x: z3.Implies(z3.And(m(x), x != a), f(x))),
                          z3.Implies(v.distinct, z3.Not(f(a))))
                return None
            if name == "copy":
                return BagV(v.sort, v.mem, v.distinct)
            if name in ("sort", "reverse"):
                return None
            if name == "tolist":
                return BagV(v.sort, v.mem, v.distinct)
        elif isinstance(v, SetV):
            m = v.mem
            if name == "add":
                v.touch()
                v.mem = lambda x: z3.Or(m(x), x == a)
                return None
            if name in ("remove", "discard"):
                if name == "remove":
                    self.guarded(st, None, m(a), f"{self.where(e)}: the removed element is present")
                v.touch()
                v.mem = lambda x: z3.And(m(x), x != a)
                return None
            if name == "pop" and not args:
                self.guarded(st, None, z3.Not(v.empty()), f"{self.where(e)}: pop from a non-empty set")
                x = fresh("popped", v.sort)
                st.assume(m(x))
                v.touch()
                v.mem = lambda y: z3.And(m(y), y != x)
                return x
            if name in ("union", "difference", "intersection", "update", "difference_update", "copy") and len(args) <= 1:
                if name == "copy" or not args:
                    return SetV(v.sort, m)
                b = self.iterable(st, a)
                if not isinstance(b, Items) or b.sort != v.sort:
                    raise Unsupported(name)
                bm = b.mem
                f = {"u": lambda x: z3.Or(m(x), bm(x)), "d": lambda x: z3.And(m(x), z3.Not(bm(x))),
                     "i": lambda x: z3.And(m(x), bm(x))}[name[0]]
                if name.endswith("update") or name == "update":
                    v.touch()
                    v.mem = f
                    return None
                return SetV(v.sort, f)
        elif isinstance(v, ObjBag):
            if name == "append":
                v.touch()
                self.on_append(self, st, v, a)
                return None
        elif isinstance(v, DictV):
            if name == "items" and not args:
                val = v.val
                return Items(v.ks, v.dom, lambda x: (x, val(x)))
            if name == "keys" and not args:
                return Items(v.ks, v.dom, lambda x: x)
            if name == "get":
                d = args[1] if len(args) > 1 else None
                if is_z(d) or isinstance(d, (int, float)):
                    return z3.If(v.dom(a), v.val(a), zz(d))
            if name == "copy" and not args:
                return DictV(v.ks, v.dom, v.val, v.vs)
        elif isinstance(v, NestV):
            if name == "get" and len(args) == 2 and isinstance(deref(args[1]), Untyped):
                inn, val = v.inn, v.val
                return DictV(Node, lambda y: inn(a, y), lambda y: val(a, y), z3.RealSort())
            if name == "setdefault" and len(args) == 2 and isinstance(deref(args[1]), Untyped):
                d = v.dom
                v.touch()
                v.dom = lambda x: z3.Or(d(x), x == a)
                return RowV(v, a)
            if name == "keys" and not args:
                return Items(Node, v.dom, lambda x: x)
        elif isinstance(v, RowV):
            if name == "update" and isinstance(a, DictV):
                n, key, inn, val, ad, av = v.nest, v.key, v.nest.inn, v.nest.val, a.dom, a.val
                n.touch()
                n.inn = lambda x, y: z3.Or(inn(x, y), z3.And(x == key, ad(y)))
                n.val = lambda x, y: z3.If(z3.And(x == key, ad(y)), real(av(y)), val(x, y))
                return None
            if name == "items" and not args:
                n, key = v.nest, v.key
                inn, val = n.inn, n.val
                return Items(Node, lambda y: inn(key, y), lambda y: (y, val(key, y)))
        elif isinstance(v, SeqV):
            if name == "tolist" and not args:
                return SeqV(v.n, v.at, v.sort)
            if name == "sort" and not args:
                return sort_seq(self, st, v, kw.get("key"))
            if name == "copy" and not args:
                return SeqV(v.n, v.at, v.sort)
            if name == "index" or name == "astype":
                raise Unsupported(name)
        elif isinstance(v, Items):
            if name == "tolist":
                return BagV(v.sort, v.mem)
        elif isinstance(v, Lazy):
            if name == "tolist":
                return v
        raise Unsupported(f"method {name} of {type(v).__name__} ({self.where(e)})")

    def become(self, u, name, args):
        """The first use of an empty list or dict decides its abstraction."""
        a = deref(args[0]) if args else None
        if u.kind == "list":
            if name == "append" and isinstance(a, ObjV):
                u.real = ObjBag()
                u.real.cov = lambda x: z3.BoolVal(False)
            elif name == "append" and is_z(a):
                u.real = BagV(a.sort(), lambda x: z3.BoolVal(False), True)
            elif name == "extend" and isinstance(a, SetV):
                u.real = BagV(a.sort, lambda x: z3.BoolVal(False), True)
            elif name == "extend" and isinstance(a, (Untyped,)):
                return u
            else:
                raise Unsupported(f"{name} on an empty list")
        else:
            if name == "setdefault":
                u.real = NestV(lambda x: z3.BoolVal(False), lambda x, y: z3.BoolVal(False), lambda x, y: z3.RealVal(0))
            elif name == "store":
                k, v = args
                if isinstance(k, str):
                    u.real = ObjV("dict")
                    u.real.uid = u.uid
                    return u.real
                u.real = DictV(zz(k).sort(), None, lambda x: zz(v), zz(v).sort())
            elif name == "get":
                u.real = NestV(lambda x: z3.BoolVal(False), lambda x, y: z3.BoolVal(False), lambda x, y: z3.RealVal(0))
            else:
                raise Unsupported(f"{name} on an empty dict")
        u.real.uid = u.uid
        return u.real

    def run_function(self, q, st, args, kw=None):
        """All outcomes of a function of the module on symbolic arguments."""
        d = self.funcs.get(q)
        if not isinstance(d, ast.FunctionDef):
            raise Unsupported(f"no function {q}")
        self.used.add(q)
        env = self.bind(st, d, args, kw or {})
        env["@args"] = tuple(args)
        outs = self.block(State(env, st.pc, st.g), d.body, q)
        return [("return" if k == "next" else k, s, v) for k, s, v in outs]

    # ------------------------------------------------------------ statements
    def iterable(self, st, v):
        v = deref(v)
        if isinstance(v, Untyped):
            return Items(Node, lambda x: z3.BoolVal(False), lambda x: x)
        if isinstance(v, Items):
            return v
        if isinstance(v, SetV):
            m = v.mem
            return Items(v.sort, m, lambda x: x, getattr(v, "distinct", True))
        if isinstance(v, DictV):
            return Items(v.ks, v.dom, lambda x: x)
        if isinstance(v, NestV):
            return Items(Node, v.dom, lambda x: x)
        if isinstance(v, (SeqV, Lazy)):
            at = v.at
            return Lazy(v.n, at)
        if isinstance(v, tuple) and v and v[0] == "range":
            lo, hi = zz(v[1]), zz(v[2])
            return Lazy(z3.If(hi > lo, hi - lo, 0), lambda i: lo + i)
        if isinstance(v, ObjBag):
            return v
        raise Unsupported(f"iteration over {type(v).__name__}")

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(t.elts):
                raise Unsupported("unpacking")
            for a, b in zip(t.elts, v):
                self.assign(st, a, b)
        elif isinstance(t, ast.Attribute):
            o = deref(self.ev(st, t.value))
            if not isinstance(o, ObjV):
                raise Unsupported("attribute store")
            o.touch()
            o.f[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o0 = self.ev(st, t.value)
            o = deref(o0)
            k = self.ev(st, t.slice)
            if isinstance(o, Untyped):
                o = self.become(o, "store", [k, v])
            self.setitem(st, o, k, v, t)
            if isinstance(t.value, ast.Name) and t.value.id in self.stores:
                self.stores[t.value.id](self, st, zz(k) if not isinstance(k, tuple) else k, v)
        else:
            raise Unsupported("assignment target")

    def setitem(self, st, o, k, v, t):
        v = deref(v)
        if isinstance(k, Opt):
            self.guarded(st, None, z3.Not(k.none), f"{self.where(t)}: the index is not None")
            k = k.val
        if isinstance(o, DictV):
            d, w, v = o.dom, o.val, zz(v)
            o.touch()
            o.dom = lambda x: z3.Or(d(x), x == k)
            o.val = lambda x: z3.If(x == k, v, w(x))
        elif isinstance(o, NestV) and isinstance(v, DictV):
            d, n, w, vd, vv = o.dom, o.inn, o.val, v.dom, v.val
            o.touch()
            o.dom = lambda x: z3.Or(d(x), x == k)
            o.inn = lambda x, y: z3.If(x == k, vd(y), n(x, y))
            o.val = lambda x, y: z3.If(x == k, real(vv(y)), w(x, y))
        elif isinstance(o, RowV):
            n, key, inn, val = o.nest, o.key, o.nest.inn, o.nest.val
            n.touch()
            n.inn = lambda x, y: z3.Or(inn(x, y), z3.And(x == key, y == k))
            n.val = lambda x, y: z3.If(z3.And(x == key, y == k), real(zz(v)), val(x, y))
        elif isinstance(o, SeqV):
            i, at = zz(k), o.at
            self.guarded(st, None, z3.And(0 <= i, i < o.n), f"{self.where(t)}: index in range")
            o.touch()
            if is_opt(o):
                nv = Opt(z3.BoolVal(True), z3.IntVal(0)) if v is None else v if isinstance(v, Opt) else Opt(
                    z3.BoolVal(False), zz(v))
                o.at = lambda j: Opt(z3.If(j == i, nv.none, at(j).none), z3.If(j == i, nv.val, at(j).val))
            else:
                nv = conv(zz(v), o.sort)
                o.at = lambda j: z3.If(j == i, nv, at(j))
        elif isinstance(o, Grid):
            i, j = [zz(x) for x in k]
            at, nv = o.at, conv(zz(v), o.sort)
            self.guarded(st, None, z3.And(0 <= i, i < o.shape[0], 0 <= j, j < o.shape[1]), f"{self.where(t)}: index in range")
            o.touch()
            o.at = lambda a, b: z3.If(z3.And(a == i, b == j), nv, at(a, b))
        elif isinstance(o, ObjV) and o.cls == "dict" and isinstance(k, str):
            o.touch()
            o.f[k] = v
        else:
            raise Unsupported(f"item store in {type(o).__name__}")

    def block(self, st, body, q):
        """Execute statements; the list of outcomes (kind, state, value)."""
        live, out = [st], []
        for i, s in enumerate(body):
            nxt = []
            for x in live:
                for o in self.stmt(x, s, q):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        out.append(o)
            live = nxt
            if len(live) > 64:
                raise Unsupported("too many paths")
        return out + [("next", x, None) for x in live]

    def stmt(self, st, s, q):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} ({self.where(s)})")
        return m(st, s, q)

    def s_Expr(self, st, s, q):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        outs = self.call_paths(st, s.value)
        if outs is not None:
            return [o if o[0] == "raise" else ("next", o[1], None) for o in outs]
        self.ev(st, s.value)
        return [("next", st, None)]

    def s_Pass(self, st, s, q):
        return [("next", st, None)]

    def s_Assign(self, st, s, q):
        outs = self.call_paths(st, s.value)
        if outs is not None:
            res = []
            for o in outs:
                if o[0] == "raise":
                    res.append(o)
                    continue
                for t in s.targets:
                    self.assign(o[1], t, o[2])
                res.append(("next", o[1], None))
            return res
        v = self.ev(st, s.value)
        if isinstance(v, Opt) and self.entails(st, z3.Not(v.none)):
            v = v.val
        for t in s.targets:
            self.assign(st, t, v)
        return [("next", st, None)]

    def s_AnnAssign(self, st, s, q):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))
        return [("next", st, None)]

    def s_AugAssign(self, st, s, q):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
        a, b = deref(self.ev(st, load)), deref(self.ev(st, s.value))
        if isinstance(a, SetV):
            r = self.binop(st, s.op, a, b) if not isinstance(a, BagV) else None
            if isinstance(a, BagV) and isinstance(s.op, ast.Add):
                self.method(st, a, "extend", [b], {}, s)
                return [("next", st, None)]
            a.touch()
            a.mem = r.mem
            return [("next", st, None)]
        if isinstance(a, (SeqV, Grid)):
            raise Unsupported("augmented assignment to an array")
        self.assign(st, s.target, self.binop(st, s.op, a, b))
        return [("next", st, None)]

    def s_Return(self, st, s, q):
        outs = self.call_paths(st, s.value)
        if outs is not None:
            return outs
        return [("return", st, self.ev(st, s.value) if s.value is not None else None)]

    def s_Raise(self, st, s, q):
        e = s.exc
        n = ast.unparse(e.func if isinstance(e, ast.Call) else e) if e else ""
        return [("raise", st, n)]

    def s_Break(self, st, s, q):
        return [("break", st, None)]

    def s_Continue(self, st, s, q):
        return [("continue", st, None)]

    def s_If(self, st, s, q):
        c = z3.simplify(self.truth(st, self.ev(st, s.test)))
        out = []
        if not z3.is_false(c):
            a = st if z3.is_true(c) else st.fork()
            a.assume(c)
            if z3.is_true(c) or self.feasible(a):
                out += self.block(a, s.body, q)
        if not z3.is_true(c):
            b = st if z3.is_false(c) else st.fork()
            b.assume(z3.Not(c))
            if z3.is_false(c) or self.feasible(b):
                out += self.block(b, s.orelse, q)
        return self.join(out, st, c)

    def join(self, outs, st, c):
        """Branches that only set numbers are one path again."""
        if len(outs) != 2 or outs[0][0] != "next" or outs[1][0] != "next":
            return outs
        a, b = outs[0][1], outs[1][1]
        n = len(b.pc) - 1
        if a is b or [f.get_id() for f in a.pc[:n]] != [f.get_id() for f in b.pc[:n]] or len(a.pc) != n + 1 \
                or not a.pc[n].eq(c) or a.env.keys() != b.env.keys() or a.g.keys() != b.g.keys():
            return outs
        ra, rb = a.objects(), b.objects()
        if ra.keys() != rb.keys() or any(ra[u].ver != rb[u].ver for u in ra) or not all(samev(a.g[k], b.g[k]) for k in a.g):
            return outs
        new = {}
        for k, v in a.env.items():
            w = b.env[k]
            if samev(v, w):
                continue
            if not all(is_z(x) or isinstance(x, (int, float)) for x in (v, w)):
                return outs
            x, y = zz(v), zz(w)
            if x.sort() != y.sort():
                return outs
            new[k] = z3.If(c, x, y)
        a.env.update(new)
        a.pc = a.pc[:n]
        return [("next", a, None)]

    # ------------------------------------------------------------ loops
    def inv_of(self, q, s):
        loops = [n for n in ordered(self.funcs[q]) if isinstance(n, (ast.For, ast.While))]
        k = loops.index(s)
        inv = self.loops.get(q)
        if inv is None:
            raise Unsupported(f"a loop without invariant ({self.where(s)})")
        if len(inv) != len(loops):
            m = align(inv, loops)
            if m is None or m[k] is None:
                return k, None
            return k, inv[m[k]]
        return k, inv[k]

    def s_While(self, st, s, q):
        if s.orelse:
            raise Unsupported("loop else")
        k, inv = self.inv_of(q, s)
        return self.loop(st, s, q, k, inv, None)

    def s_For(self, st, s, q):
        if s.orelse:
            raise Unsupported("loop else")
        body, target, it = s.body, s.target, s.iter
        if isinstance(it, ast.GeneratorExp) and len(it.generators) == 1:
            # lazily evaluated: the conditions are tested when an element is reached
            g = it.generators[0]
            inner = [ast.Assign(targets=[target], value=it.elt, lineno=s.lineno)] + body
            for c in g.ifs[::-1]:
                inner = [ast.If(test=c, body=inner, orelse=[], lineno=s.lineno)]
            target, it, body = g.target, g.iter, inner
        v = deref(self.ev(st, it))
        if isinstance(v, tuple) and v and v[0] == "enumerate":
            src = self.iterable(st, v[1])
            if not isinstance(src, Lazy):
                raise Unsupported("enumerate over an unordered collection")
            at = src.at
            src = Lazy(src.n, lambda i: (i, at(i)))
        else:
            src = self.iterable(st, v)
        if isinstance(v, tuple) and (not v or v[0] not in ("range", "enumerate")):
            raise Unsupported("loop over a tuple")
        k, inv = self.inv_of(q, s)
        return self.loop(st, s, q, k, inv, (src, target, body, v))

    def view(self, st, loop, entry, done=None, i=None):
        return View(self, st, entry, done, i)

    def loop(self, st, s, q, k, inv, it):
        name = f"{q} loop {k + 1}"
        src, target, body, coll = it if it else (None, None, s.body, None)
        grow, vary = getattr(inv, "grows", None), getattr(inv, "variant", None)
        if src is None and grow is None and vary is None:
            self.partial = True
        inv = inv or (lambda v: [])
        entry = View(self, st.fork())
        items = isinstance(src, Items)
        lazy = isinstance(src, Lazy)
        if src is not None and not items and not lazy:
            raise Unsupported("loop over this collection")
        none = (lambda x: z3.BoolVal(False)) if items else None
        for nm, f in inv(View(self, st, entry, none, z3.IntVal(0) if lazy else None)):
            self.goal(st, f, f"{name}: on entry, {nm}", "invariant")
        # what an iteration may change
        changed = set(), set(), set()
        for attempt in range(8):
            before = tuple(len(c) for c in changed)
            self.quiet += 1
            try:
                h = self.havocked(st, changed)
                done = ffun("done", src.sort, z3.BoolSort()) if items else None
                head = h.fork()
                outs = self.iteration(h, s, q, src, target, body, done, None)[0]
                for o in outs:
                    self.diff(head, o[1], changed)
            finally:
                self.quiet -= 1
            if before == tuple(len(c) for c in changed):
                break
        else:
            raise Unsupported("what the loop changes")
        h = self.havocked(st, changed)
        done = ffun("done", src.sort, z3.BoolSort()) if items else None
        idx = fresh("it", z3.IntSort()) if lazy else None
        d = (lambda x: done(x)) if items else None
        h.assume(*[f for _, f in inv(View(self, h, entry, d, idx))])
        if items:
            h.assume(forall([src.sort], lambda x: z3.Implies(done(x), src.mem(x)), lambda x: [done(x)]))
        if lazy:
            h.assume(0 <= idx, idx <= src.n)
        exit_ = h.fork()
        head = h.fork()
        outs, x = self.iteration(h, s, q, src, target, body, done, idx)
        for o in outs:
            c2 = set(), set(), set()
            self.diff(head, o[1], c2)
            if not (c2[0] <= changed[0] | set(self.names_bound(target) if it else []) and c2[1] <= changed[1] and c2[2] <= changed[2]):
                raise Unsupported(f"the loop changes more than was found {[sorted(map(str, a - b)) for a, b in zip(c2, changed)]}")
        res = []
        for o in outs:
            if o[0] in ("next", "continue"):
                d2 = (lambda y: z3.Or(done(y), y == x)) if items else None
                for nm, f in inv(View(self, o[1], entry, d2, idx + 1 if lazy else None)):
                    self.goal(o[1], f, f"{name}: kept, {nm}", "invariant")
                if grow is not None:
                    a, b = grow(View(self, head, entry)), grow(View(self, o[1], entry))
                    self.goal(o[1], forall([Node], lambda y: z3.Implies(a(y), b(y))), f"{name}: terminates, a finite set does not shrink", "termination")
                    self.goal(o[1], exists([Node], lambda y: z3.And(b(y), z3.Not(a(y)))), f"{name}: terminates, a finite set grows", "termination")
                if vary is not None:
                    a, b = vary(View(self, head, entry)), vary(View(self, o[1], entry))
                    self.goal(o[1], And(a >= 0, b < a), f"{name}: terminates, a natural number decreases", "termination")
                if isinstance(coll, Heap) and coll.uid in reach(o[1].env):
                    if reach(o[1].env)[coll.uid].ver != coll.ver:
                        raise Unsupported("a collection changed while it is visited")
            elif o[0] == "break":
                res.append(("next", o[1], None))
            else:
                res.append(o)
        # normal exit
        if items:
            exit_.assume(forall([src.sort], lambda y: done(y) == src.mem(y)))
        elif lazy:
            exit_.assume(idx == src.n)
        else:
            settle(exit_, z3.Not(self.truth(exit_, self.ev(exit_, s.test))))
        for n in self.names_bound(target) if it else []:
            exit_.env[n] = Poison()
        if self.quiet or self.feasible(exit_):
            res.append(("next", exit_, None))
        return res

    def names_bound(self, t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

    def iteration(self, h, s, q, src, target, body, done, idx):
        x = None
        if src is None:
            settle(h, self.truth(h, self.ev(h, s.test)))
        elif isinstance(src, Items):
            x = fresh("elem", src.sort)
            h.assume(src.mem(x))
            self.assign(h, target, src.elem(x))
        else:
            if idx is None:
                idx = fresh("it", z3.IntSort())
                h.assume(0 <= idx)
            h.assume(idx < src.n)
            self.assign(h, target, src.at(idx))
        if not self.quiet and not self.feasible(h):
            return [], x
        return self.block(h, body, q), x

    def diff(self, a, b, changed):
        names, uids, ghosts = changed
        ra, rb = reach({**a.env, **{"@" + k: v for k, v in a.g.items()}}), reach(
            {**b.env, **{"@" + k: v for k, v in b.g.items()}})
        for u, v in ra.items():
            w = rb.get(u)
            if w is not None and w.ver != v.ver:
                uids.add(u)
            if isinstance(v, Untyped) and w is not None and not isinstance(w, Untyped):
                uids.add(u)
        for k, v in b.env.items():
            if k not in a.env:
                names.add(k)
            elif not samev(a.env[k], v):
                names.add(k)
        for k, v in b.g.items():
            if k not in a.g or not samev(a.g[k], v):
                ghosts.add(k)
        self.types = getattr(self, "types", {})
        for u, w in rb.items():
            if u not in self.types or isinstance(self.types[u], Untyped):
                self.types[u] = w
        for k, v in b.env.items():
            if k in names:
                self.types["name:" + k] = deref(v)

    def havocked(self, st, changed):
        names, uids, ghosts = changed
        h = st.fork()
        objs = reach({**h.env, **{"@" + k: v for k, v in h.g.items()}})
        for u in sorted(uids):
            o = objs.get(u)
            if o is None:
                continue
            if isinstance(o, Untyped):
                t = self.types.get(u)
                if t is None or isinstance(t, Untyped):
                    raise Unsupported("an untyped container changed in a loop")
                o.real = clone(t, {})
                o.real.uid = u
                o = o.real
            if isinstance(o, ObjV):
                for k in list(o.f):
                    if not isinstance(o.f[k], Heap):
                        o.f[k] = havoc_value(o.f[k])
                o.ver = next(_n)
                continue
            o.havoc()
        for k in sorted(names):
            if k in h.env:
                v = deref(h.env[k])
                if isinstance(v, Poison):
                    continue
                t = self.types.get("name:" + k)
                if isinstance(v, Heap):
                    if isinstance(v, Untyped):
                        v = t
                    if t is not None and type(t) is not type(v):
                        h.env[k] = Poison()
                        continue
                    c = clone(v, {})
                    c.uid = next(_n)
                    if isinstance(c, (ObjV, Untyped)) or c is None:
                        h.env[k] = Poison()
                        continue
                    if isinstance(c, SeqV):
                        c.n = fresh("len", z3.IntSort())
                    c.havoc()
                    h.env[k] = c
                else:
                    h.env[k] = havoc_value(v, t)
            else:
                h.env[k] = Poison()
        for k in sorted(ghosts):
            if k in h.g and isinstance(h.g[k], Heap):
                h.g[k].havoc()
            elif k in h.g:
                h.g[k] = havoc_value(h.g[k])
        return h


def settle(st, c):
    """Assume c; a flag whose value it gives is replaced by it in what is known."""
    c = z3.simplify(c)
    b, val = (c.arg(0), False) if z3.is_not(c) else (c, True)
    if z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        fs = [z3.simplify(z3.substitute(f, (b, z3.BoolVal(val)))) if b.decl().name() in symbols(f) else f for f in st.pc]
        st.pc = [f for f in fs if not z3.is_true(f)]
    st.assume(c)


class Poison:
    pass


def havoc_value(v, t=None):
    if isinstance(v, Opt):
        return Opt(fresh("none", z3.BoolSort()), fresh("val", z3.IntSort()))
    if v is None or isinstance(v, (tuple, str, Fn, Items, Lazy, RowV, Opaque)):
        return Poison()
    z = zz(v)
    if t is not None and is_z(t) and t.sort() != z.sort():
        if t.sort() == z3.RealSort() and z.sort() == z3.IntSort():
            return fresh("v", z3.RealSort())
        return Poison()
    if t is not None and not is_z(t) and not isinstance(t, (bool, int, float)):
        return Poison()
    return fresh("v", z.sort())


def samev(a, b):
    a, b = deref(a), deref(b)
    if a is b:
        return True
    if isinstance(a, Heap) and isinstance(b, Heap):
        return a.uid == b.uid
    if is_z(a) and is_z(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, float, str)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(samev(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(samev(a[k], b[k]) for k in a)
    if isinstance(a, Opt):
        return a.none.eq(b.none) and a.val.eq(b.val)
    return isinstance(a, Poison)


def ordered(node):
    """Descendants in source order."""
    for ch in ast.iter_child_nodes(node):
        yield ch
        yield from ordered(ch)


def align(inv, loops):
    """Contracts of loops to the loops there are, keeping their order, by kind."""
    kinds = [getattr(f, "kind", None) for f in inv]
    m, p = [], 0
    for lp in loops:
        k = "for" if isinstance(lp, ast.For) else "while"
        p2 = p
        while p2 < len(inv) and kinds[p2] not in (None, k):
            p2 += 1
        if p2 < len(inv):
            m.append(p2)
            p = p2 + 1
        else:
            m.append(None)
    return m


def full_slice(n):
    return isinstance(n, ast.Slice) and n.lower is None and n.upper is None and n.step is None


def real(x):
    x = zz(x)
    return z3.ToReal(x) if z3.is_int(x) else x


def conv(v, sort):
    if v.sort() == sort:
        return v
    if sort == z3.RealSort():
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        return real(v)
    raise Unsupported(f"a {v.sort()} stored in an array of {sort}")


def num2(a, b):
    a, b = zz(a), zz(b)
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a, b


def arith(op, a, b):
    if isinstance(a, Opt) or isinstance(b, Opt) or a is None or b is None:
        raise Unsupported("arithmetic on a value that may be None")
    if isinstance(op, ast.Mult) and is_z(a) and is_z(b) and z3.is_bool(a) and z3.is_bool(b):
        return z3.And(a, b)
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        a, b = zz(a), zz(b)
        if z3.is_bool(a) and z3.is_bool(b):
            return z3.And(a, b) if isinstance(op, ast.BitAnd) else z3.Or(a, b)
        raise Unsupported("bit operation")
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b}[type(op)]()
    a, b = num2(a, b)
    if isinstance(op, ast.Add):
        return a + b
    if isinstance(op, ast.Sub):
        return a - b
    if isinstance(op, ast.Mult):
        return a * b
    if isinstance(op, ast.Div):
        return real(a) / real(b)
    if isinstance(op, ast.Pow) and z3.is_int_value(b) and b.as_long() == 2:
        return a * a
    if isinstance(op, ast.Pow) and z3.is_rational_value(b) and b.as_fraction() * 2 == 1:
        return SQRT(real(a))
    raise Unsupported(f"operator {type(op).__name__}")


def cmp(op, a, b):
    if isinstance(a, Opt) or isinstance(b, Opt):
        raise Unsupported("comparison of a value that may be None")
    a, b = zz(a), zz(b)
    if a.sort() != b.sort():
        a, b = num2(a, b)
    if isinstance(op, ast.Eq):
        return a == b
    if isinstance(op, ast.NotEq):
        return a != b
    if a.sort() == Node or z3.is_bool(a):
        raise Unsupported("order of units")
    return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()


def elementwise1(v, f, sort):
    at = v.at
    if isinstance(v, Grid):
        return Grid(v.shape, lambda i, j: f(at(i, j)), sort)
    return SeqV(v.n, lambda i: f(at(i)), sort)


def elementwise2(a, b, f, sort=None):
    if isinstance(a, Grid) or isinstance(b, Grid):
        g = a if isinstance(a, Grid) else b
        if isinstance(a, Grid) and isinstance(b, Grid):
            if not all(zz(x).eq(zz(y)) for x, y in zip(a.shape, b.shape)):
                raise Unsupported("arrays of different shapes")
        elif isinstance(a, SeqV) or isinstance(b, SeqV):
            raise Unsupported("broadcasting")
        fa = a.at if isinstance(a, Grid) else (lambda i, j: a)
        fb = b.at if isinstance(b, Grid) else (lambda i, j: b)
        z = z3.IntVal(0)
        return Grid(g.shape, lambda i, j: f(fa(i, j), fb(i, j)), zz(f(fa(z, z), fb(z, z))).sort() if sort is None else sort)
    g = a if isinstance(a, SeqV) else b
    fa = a.at if isinstance(a, SeqV) else (lambda i: a)
    fb = b.at if isinstance(b, SeqV) else (lambda i: b)
    if isinstance(a, SeqV) and isinstance(b, SeqV) and not zz(a.n).eq(zz(b.n)):
        raise Unsupported("arrays of different lengths")
    z = z3.IntVal(0)
    return SeqV(g.n, lambda i: f(fa(i), fb(i)), zz(f(fa(z), fb(z))).sort() if sort is None else sort)


def subst(v, i, k):
    """Replace the index i by k in a value."""
    if is_z(v):
        return z3.substitute(v, (i, k))
    if isinstance(v, BagV):
        m = v.mem
        return BagV(v.sort, lambda x: z3.substitute(m(x), (i, k)), z3.substitute(v.distinct, (i, k)))
    if isinstance(v, SeqV):
        at = v.at
        return SeqV(z3.substitute(zz(v.n), (i, k)), lambda j: subst(at(j), i, k), v.sort)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    raise Unsupported(f"a sequence of {type(v).__name__}")


def sort_seq(e, st, v, key):
    """list.sort: the sorted list is the list read through a bijection of its
    positions, the keys not decreasing (lexicographic order of tuples)."""
    n, at = v.n, v.at
    p, inv = ffun("sorted", z3.IntSort(), z3.IntSort()), ffun("rank", z3.IntSort(), z3.IntSort())
    i = fresh("i", z3.IntSort())
    st.assume(forall([z3.IntSort()], lambda a: z3.Implies(z3.And(0 <= a, a < n), z3.And(
        0 <= p(a), p(a) < n, inv(p(a)) == a)), lambda a: [p(a)]),
        forall([z3.IntSort()], lambda a: z3.Implies(z3.And(0 <= a, a < n), z3.And(
            0 <= inv(a), inv(a) < n, p(inv(a)) == a)), lambda a: [inv(a)]))
    s = State(st.env, st.pc + [0 <= i, i < n], st.g)
    k = at(p(i)) if key is None else e.apply(s, key, [at(p(i))], {}, None)
    ks = [zz(x) for x in (k if isinstance(k, tuple) else (k,))]

    def le(a, b):
        ka, kb = [z3.substitute(x, (i, a)) for x in ks], [z3.substitute(x, (i, b)) for x in ks]
        r = ka[-1] <= kb[-1]
        for x, y in list(zip(ka, kb))[-2::-1]:
            r = z3.Or(x < y, z3.And(x == y, r))
        return r
    st.assume(forall([z3.IntSort(), z3.IntSort()], lambda a, b: z3.Implies(
        z3.And(0 <= a, a < b, b < n), le(a, b)), lambda a, b: [(p(a), p(b))]))
    v.touch()
    v.at = lambda j: at(p(j))
    st.g["sorted"] = Fn(p)
    st.g["rank"] = Fn(inv)
    return None


# ---------------------------------------------------------------- library
def b_len(e, st, v):
    v = deref(v)
    if isinstance(v, Untyped):
        return 0
    if isinstance(v, SeqV):
        return v.n
    if isinstance(v, Lazy):
        return v.n
    if isinstance(v, SetV):
        # all that is used of the size of a collection of units is whether it is 0
        n = fresh("len", z3.IntSort())
        st.assume(n >= 0, (n == 0) == v.empty())
        return n
    if isinstance(v, tuple):
        return len(v)
    raise Unsupported(f"len of {type(v).__name__}")


def b_set(e, st, v=None):
    if v is None:
        return SetV(Node, lambda x: z3.BoolVal(False))
    it = e.iterable(st, v)
    if isinstance(it, Items) and is_z(it.elem(fresh("c", it.sort))):
        return SetV(it.sort, it.mem)
    raise Unsupported("set()")


def b_list(e, st, v=None):
    if v is None:
        return Untyped("list")
    v = deref(v)
    if isinstance(v, tuple) and v[0] == "range":
        lo, hi = zz(v[1]), zz(v[2])
        return SeqV(z3.If(hi > lo, hi - lo, 0), lambda i: lo + i, z3.IntSort())
    it = e.iterable(st, v)
    if isinstance(it, Items):
        if is_z(it.elem(fresh("c", it.sort))):
            return BagV(it.sort, it.mem, getattr(v, "distinct", True))
        return it
    if isinstance(v, SeqV):
        return SeqV(v.n, v.at, v.sort)
    raise Unsupported("list()")


def b_range(e, st, *a):
    if len(a) == 1:
        return ("range", 0, a[0])
    if len(a) == 2:
        return ("range", a[0], a[1])
    raise Unsupported("range with a step")


BUILTINS = {
    "len": b_len, "set": b_set, "list": b_list, "range": b_range,
    "print": lambda e, st, *a, **k: None,
    "enumerate": lambda e, st, v: ("enumerate", v),
    "abs": lambda e, st, v: z3.If(zz(v) < 0, -zz(v), zz(v)),
    "bool": lambda e, st, v: e.truth(st, v), "float": lambda e, st, v: real(zz(v)),
}


def np_zeros(e, st, n, dtype=None):
    if dtype is not None and dtype != ("global", "float"):
        raise Unsupported("zeros of another type")
    if isinstance(n, tuple) and len(n) == 2:
        return Grid(tuple(zz(x) for x in n), lambda i, j: z3.RealVal(0), z3.RealSort())
    if isinstance(n, tuple):
        raise Unsupported("zeros")
    return SeqV(zz(n), lambda i: z3.RealVal(0), z3.RealSort())


def np_array(e, st, v, **k):
    v = deref(v)
    if isinstance(v, SeqV) and not k:
        return SeqV(v.n, v.at, v.sort)
    raise Unsupported("np.array")


def np_nonzero(e, st, v):
    v = deref(v)
    if isinstance(v, SeqV):
        at, n = v.at, v.n
        if v.sort != z3.BoolSort():
            raise Unsupported("nonzero of numbers")
        return (BagV(z3.IntSort(), lambda i: z3.And(0 <= i, i < n, at(i)), True),)
    raise Unsupported("nonzero")


R_ = z3.RealSort()
SQRT, ERFC = z3.Function("sqrt", R_, R_), z3.Function("erfc", R_, R_)


def scalar_lib(f):
    def go(e, st, v):
        v = deref(v)
        if not (is_z(v) or isinstance(v, (int, float))):
            raise Unsupported("a scalar function of an array")
        if f is SQRT and isinstance(v, (int, float)) and v >= 0:
            return float(v) ** 0.5
        return f(real(zz(v)))
    return go


def b_sorted(e, st, v, key=None):
    v = b_list(e, st, v)
    if not isinstance(v, SeqV):
        raise Unsupported("sorted")
    sort_seq(e, st, v, key)
    return v


def np_lexsort(e, st, keys):
    """Positions in the order of the last key, ties by the one before it."""
    ks = [deref(k) for k in keys] if isinstance(keys, tuple) else [None]
    if not all(isinstance(k, SeqV) for k in ks):
        raise Unsupported("lexsort")
    v = SeqV(ks[0].n, lambda i: i, z3.IntSort())
    sort_seq(e, st, v, Fn(lambda e2, s2, a: tuple(k.at(a) for k in ks[::-1])))
    return v


BUILTINS["sorted"] = b_sorted
LIBS = {"numpy.lexsort": np_lexsort, "numpy.sqrt": scalar_lib(SQRT), "math.sqrt": scalar_lib(SQRT), "scipy.special.erfc": scalar_lib(ERFC),
        "math.erfc": scalar_lib(ERFC), "numpy.abs": scalar_lib(lambda x: z3.If(x < 0, -x, x)),
        "numpy.fabs": scalar_lib(lambda x: z3.If(x < 0, -x, x)),
        "numpy.absolute": scalar_lib(lambda x: z3.If(x < 0, -x, x)),
        "numpy.zeros": np_zeros, "numpy.array": np_array, "numpy.nonzero": np_nonzero, "numpy.flatnonzero":
        lambda e, st, v: np_nonzero(e, st, v)[0]}


# ---------------------------------------------------------------- contracts
class Closure:
    """The reflexive transitive closure of adj, by its definition: the least
    relation that is reflexive and closed under one more link."""

    def __init__(self, name, adj, sort=Node):
        self.r = ffun(name, sort, sort, z3.BoolSort())
        self.adj, self.sort = adj, sort
        r, s = self.r, sort
        self.axioms = [forall([s], lambda a: r(a, a), lambda a: [r(a, a)]),
                       forall([s, s, s], lambda a, b, c: z3.Implies(z3.And(r(a, b), adj(b, c)), r(a, c)))]

    def __call__(self, a, b):
        return self.r(a, b)

    def least(self, rel):
        """rel is reflexive and closed under links: then it contains the closure."""
        s = self.sort
        return z3.Implies(z3.And(
            forall([s], lambda a: rel(a, a)),
            forall([s, s, s], lambda a, b, c: z3.Implies(z3.And(rel(a, b), self.adj(b, c)), rel(a, c)))),
            forall([s, s], lambda a, b: z3.Implies(self.r(a, b), rel(a, b)), lambda a, b: [self.r(a, b)]))

    def closed(self, S):
        """A set closed under links contains what is reached from its elements
        (`least` for the relation S(a) implies S(b))."""
        s = self.sort
        return z3.Implies(
            forall([s, s], lambda a, b: z3.Implies(z3.And(S(a), self.adj(a, b)), S(b))),
            forall([s, s], lambda a, b: z3.Implies(z3.And(S(a), self.r(a, b)), S(b)), lambda a, b: [self.r(a, b)]))


def engine(R, name, module, others=()):
    import os
    src = [open(os.path.join(R.repo, "giddy", m + ".py")).read() for m in (module, *others)]
    return Engine(R, name, module, src[0], src[1:])


def verify(R, name, module, body, others=()):
    """Run one contract; what lies outside the subset leaves it undecided."""
    n0 = len(R.obligations)
    try:
        e = engine(R, name, module, others)
        body(e)
        if e.partial:
            R.assumptions.append(f"{name}: termination is not proved")
        R.functions |= {module + "." + u for u in e.used}
        R.contracts |= {module + "." + u for u in e.called}
        R.hoare_s = getattr(R, "hoare_s", 0) + e.solver_s
        R.hoare_calls = getattr(R, "hoare_calls", 0) + e.calls
    except Unsupported as x:
        R.record(f"{name}: within the verified subset", "unknown", f"outside the verified subset: {x}", "subset")
        import os
        if os.environ.get("PYVC_TRACE"):
            import traceback
            traceback.print_exc()
    except Exception as x:
        import os
        import traceback
        R.record(f"{name}: within the verified subset", "unknown", f"engine: {type(x).__name__}: {x} " +
                 traceback.format_exc().strip().splitlines()[-3].strip(), "subset")
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    if len(R.obligations) == n0:
        R.record(f"{name}: generates obligations", "unknown", "no obligation generated", "vacuity")
