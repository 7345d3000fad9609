"""Symbolic interpreter for the subset of Python (and numpy, through lib.py)
that the verified functions use.  It works on the ast of the current source
files; docstrings, comments, annotations and print calls are dropped."""
import ast
import os

from . import nf as N
from .terms import (FALSE, ONE, T, TRUE, ZERO, add, and_, app, eq, ex_, fresh, fv, inv, isnum, ite, iv,
                    le, lift, lt, mentions, mk, mul, neg, not_, num, nval, or_, real, replace_app, sub,
                    subst, sum_, var)
from .values import *  # noqa: F401,F403
from .values import HEAP


class MergeFail(Exception):
    pass


class Choice:
    """v1 when cond, v2 otherwise."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Obligation:
    def __init__(self, name, formula, hyps, kind="post"):
        self.name, self.formula, self.hyps, self.kind = name, formula, hyps, kind


JUMPS = (ast.Return, ast.Break, ast.Continue, ast.Raise)


def has_jump(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, JUMPS):
                return True
    return False


class Module:
    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.env = None


class Interp:
    def __init__(self, repo, ctx):
        self.repo, self.ctx = repo, ctx
        self.modules = {}
        self.pc = []
        self.obligations = []
        self.raises = []
        self.contracts = {}
        self.invariants = {}
        self.used = []          # functions whose bodies were executed
        self.called_contracts = set()
        self.libs_used = set()
        self.frames = []
        self.loops = 0
        self.steps = 0
        self.loop_stack = []
        self.loop_vars = []
        self.untracked = set()
        self.claims = []        # (shape, function, axioms): what arrays filled by recursion hold
        self.absent = []     # attributes the code looked for in vain
        self.fold_scalars = False
        self.hooks = {}
        self.libattrs = {}
        self.attr_models = {}
        self.perms = []
        self.reads = set()  # names of attributes read or asked for
        self.defaults = {}
        self.module_state = []  # (module, name, value, saved) as imported
        self.fnstack = []
        self.unordered = 0
        self.max_unroll = 130

    # ------------------------------------------------------------ context
    def hyps(self):
        return self.ctx.child(*self.pc)

    def entails(self, f, timeout=None):
        if f is TRUE:
            return True
        if f is FALSE and not self.pc:
            return False
        return self.hyps_cached().entails(f, timeout=timeout)

    def hyps_cached(self):
        key = (tuple(self.pc), tuple(self.ctx.hyps))
        if getattr(self, "_hk", None) != key:
            self._hk, self._hc = key, self.ctx.child(*self.pc)
        return self._hc

    def oblige(self, name, formula, kind="safety"):
        if formula is TRUE:
            return
        self.obligations.append(Obligation(name, formula, list(self.pc), kind))

    def oblige_at(self, name, shape, fn, kind="safety"):
        """For every index of the shape, fn(index)."""
        idx = [fresh("g") for _ in shape]
        f = fn(*idx)
        if f is TRUE:
            return
        hy = [x for i, n in zip(idx, shape) for x in (le(ZERO, i), lt(i, n))]
        self.obligations.append(Obligation(name, f, list(self.pc) + hy, kind))

    def set_global(self, module, name, v):
        """A contract's assumption about a value of the module."""
        m = self.module(module)
        m.env.d[name] = v
        self.module_state = [x for x in self.module_state if (x[0], x[1]) != (m, name)] + [
            (m, name, v, v.save() if hasattr(v, "save") else None)]

    def module_changes(self):
        """Names of module-level values that are not as imported."""
        out = [f"{m.name}.{k}" for m, k, v, st in self.module_state
               if m.env.d.get(k) is not v or (st is not None and v.save() != st)]
        out += [d for d, v, st in self.defaults.values() if st is not None and v.save() != st]
        have = {(m.name, k) for m, k, *_ in self.module_state}
        return out + [f"{m.name}.{k}" for m in self.modules.values() for k in m.env.d if (m.name, k) not in have]

    def where(self):
        return self.frames[-1] if self.frames else "?"

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, "giddy", name + ".py")
        with open(path) as f:
            tree = ast.parse(f.read())
        m = Module(name, tree)
        self.modules[name] = m
        m.env = Env({"__name__": "giddy." + name})
        self.run_module(m)
        self.module_state += [(m, k, v, v.save() if hasattr(v, "save") else None) for k, v in m.env.d.items()]
        return m

    def run_module(self, m):
        self.frames.append(f"giddy.{m.name}")
        for st in m.tree.body:
            try:
                self.module_stmt(m, st)
            except Unsupported as e:
                if os.environ.get("PYVC_TRACE"):
                    print("module-level", m.name, e)
                for n in self.touched(st):
                    if not isinstance(m.env.d.get(n), Lib):
                        m.env.d[n] = Poison(f"module-level code: {e}")
        self.frames.pop()

    @staticmethod
    def touched(st):
        """Names a statement may bind, or whose values it may change."""
        def base(n):
            while isinstance(n, (ast.Subscript, ast.Attribute, ast.Starred)):
                n = n.value
            return [n.id] if isinstance(n, ast.Name) else []
        out = []
        for n in ast.walk(st):
            if isinstance(n, (ast.Name, ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out += base(n)
            elif isinstance(n, ast.AugAssign):
                out += base(n.target)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.append(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out += [(a.asname or a.name).split(".")[0] for a in n.names]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and base(n.func):
                out += [b for b in base(n.func)]
                out += [b for a in n.args for b in base(a)]
        return out

    def module_stmt(self, m, st):
        d = m.env.d
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    d[a.asname] = Lib(self.canon_lib(a.name))
                else:
                    d[a.name.split(".")[0]] = Lib(self.canon_lib(a.name.split(".")[0]))
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                nm = a.asname or a.name
                if st.level:
                    if st.module is None:
                        d[nm] = self.module(a.name)
                    else:
                        d[nm] = Lazy(self, st.module, a.name)
                else:
                    d[nm] = Lib(self.canon_lib(f"{st.module}.{a.name}"))
        elif isinstance(st, ast.FunctionDef):
            d[st.name] = Fn(st, m, f"{m.name}.{st.name}", env=m.env)
        elif isinstance(st, ast.ClassDef):
            bases = [self.eval(b, m.env) for b in st.bases]
            c = Cls(st, m, f"{m.name}.{st.name}", bases)
            for x in st.body:
                if isinstance(x, ast.FunctionDef):
                    c.methods[x.name] = Fn(x, m, f"{m.name}.{st.name}.{x.name}", c, env=m.env)
                    for dec in x.decorator_list:
                        if isinstance(dec, ast.Name) and dec.id == "property":
                            c.props.add(x.name)
                        elif ast.unparse(dec) in ("cached_property", "functools.cached_property"):
                            c.props.add(x.name)
                            c.cached.add(x.name)
            d[st.name] = c
        elif isinstance(st, (ast.Try, ast.If)):
            for n in self.touched(st):
                d[n] = Poison("conditional module code")
        else:
            self.exec_stmts([st], m.env)

    @staticmethod
    def canon_lib(n):
        for a, b in (("numpy", "np"),):
            if n == a or n.startswith(a + "."):
                return b + n[len(a):]
        return n

    def get(self, qual):
        """Function or class giddy.<module>.<name>[.<method>]."""
        parts = qual.split(".")
        m = self.module(parts[0])
        v = m.env.d.get(parts[1])
        v = self.force(v)
        if v is None:
            raise Unsupported(f"{qual} is gone")
        for p in parts[2:]:
            v = v.find(p)
            if v is None:
                raise Unsupported(f"{qual} is gone")
        return v

    def force(self, v):
        return v.resolve() if isinstance(v, Lazy) else v

    # --------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        f = self.force(f)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, Fn):
            c = self.contracts.get(f.qual)
            if c is not None:
                self.called_contracts.add(f.qual)
                return c(self, *args, **kwargs)
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            c = self.contracts.get(f.name)
            if c is not None:
                self.called_contracts.add(f.name)
                return c(self, *args, **kwargs)
            o = Obj(f)
            init = f.find("__init__")
            if init is not None:
                self.call(init, [o] + list(args), kwargs)
            return o
        if isinstance(f, Lib):
            from . import lib
            return lib.call(self, f.name, list(args), kwargs)
        if isinstance(f, Method):
            from . import lib
            return lib.method(self, f.obj, f.name, list(args), kwargs)
        if isinstance(f, Opq):
            return opq(f.tag, *args, *kwargs.values())
        if callable(f):
            return f(*args, **kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def call_fn(self, f, args, kwargs):
        if len(self.frames) > 40:
            raise Unsupported("recursion")
        if f.qual.split(".")[-1] != "<lambda>" and f.qual not in self.used:
            self.used.append(f.qual)
        a = f.node.args
        d = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported(f"too many arguments for {f.qual}")
            d[a.vararg.arg] = PList(args[len(names):], "tuple")
            args = args[:len(names)]
        for n, v in zip(names, args):
            d[n] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n, dv in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            names.append(n)
            if dv is not None:
                defaults[n] = dv
        extra = {}
        for k, v in kwargs.items():
            if k in names:
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Unsupported(f"unexpected argument {k} of {f.qual}")
        if a.kwarg is not None:
            d[a.kwarg.arg] = PDict(extra)
        for n in names:
            if n not in d:
                if n not in defaults:
                    raise Unsupported(f"missing argument {n} of {f.qual}")
                d[n] = self.default(f, n, defaults[n])
        env = Env(d, f.env)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        self.frames.append(f.qual)
        self.fnstack.append((f, d.get(names[0]) if names else None))
        try:
            flow = self.exec_stmts(list(f.node.body), env)
        finally:
            self.frames.pop()
            self.fnstack.pop()
        if flow is None:
            return None
        if flow[0] == "return":
            return flow[1]
        if flow[0] == "dead":
            raise Dead()
        raise Unsupported(f"flow {flow[0]} leaves a function")

    def default(self, f, n, e):
        """The value of a default: evaluated once, shared by the calls."""
        if isinstance(e, ast.Constant):
            return self.eval(e, f.env)
        key = (id(f.node), n)
        if key not in self.defaults:
            v = self.eval(e, f.env)
            self.defaults[key] = f"the default of {n} of {f.qual}", v, v.save() if hasattr(v, "save") else None
        return self.defaults[key][1]

    # ---------------------------------------------------------- statements
    def exec_stmts(self, stmts, env):
        stmts = list(stmts)
        while stmts:
            st = stmts.pop(0)
            self.steps += 1
            if self.steps > 60000:
                raise Unsupported("too many steps")
            try:
                if isinstance(st, ast.If):
                    c = self.truth(self.eval(st.test, env))
                    c = self.decide(c)
                    if c is TRUE:
                        stmts = list(st.body) + stmts
                        continue
                    if c is FALSE:
                        stmts = list(st.orelse) + stmts
                        continue
                    if not has_jump(st.body) and not has_jump(st.orelse):
                        self.branch(c, lambda: self.exec_stmts(st.body, env),
                                    lambda: self.exec_stmts(st.orelse, env))
                        continue
                    rest = stmts
                    return self.branch(c, lambda: self.exec_stmts(list(st.body) + rest, env),
                                       lambda: self.exec_stmts(list(st.orelse) + rest, env))
                flow = self.exec_stmt(st, env)
            except Dead:
                return ("dead",)
            if flow is not None:
                return flow
        return None

    def decide(self, c):
        c = some(c)
        if c in (TRUE, FALSE):
            return c
        c2 = N.canon_bool(c)
        if c2 in (TRUE, FALSE):
            return c2
        if self.entails(c, 1500):
            return TRUE
        if self.entails(not_(c), 1500):
            return FALSE
        c2 = self.vanish(c)
        return c if c2 is c else self.decide(c2)

    def vanish(self, c):
        """c with the sums whose every term is 0 here replaced by 0, and FALSE for
        'some element is' where none is."""
        if c.op == "not":
            return not_(self.vanish(c.args[0]))
        if c.op == "ex":
            v, lo, hi, b = c.args
            w = fresh("g")
            f = not_(subst(b, {v: w}))
            return FALSE if self.hyps_cached().child(le(lo, w), lt(w, hi)).entails(f, timeout=500) else c
        if c.op in ("eq", "lt"):
            for x in N.sums_in(c):
                v, lo, hi, b = x.args
                w = fresh("g")
                hy = [le(lo, w), lt(w, hi)]
                f = eq(subst(b, {v: w}), ZERO)
                if not (fv(x) - fv(c)) and f is not FALSE and self.hyps_cached().child(*hy).entails(f, timeout=500):
                    c = N.put_for(c, x, ZERO)
        return c

    def branch(self, c, f1, f2):
        """Run f1 under c and f2 under not c, and merge the two states."""
        if self.tracer is not None:
            self.tracer.append(c)
        s0 = HEAP.snap()
        npc = len(self.pc)
        self.pc.append(c)
        r1 = f1()
        pc1 = self.pc[npc + 1:]
        s1 = HEAP.snap()
        HEAP.restore(s0)
        del self.pc[npc:]
        self.pc.append(not_(c))
        r2 = f2()
        pc2 = self.pc[npc + 1:]
        del self.pc[npc:]
        if r1 == ("dead",) and r2 == ("dead",):
            return ("dead",)
        if r1 == ("dead",):
            self.pc.append(not_(c))
            self.pc.extend(pc2)
            return r2
        if r2 == ("dead",):
            n1, st1 = s1
            keep = HEAP.objs
            HEAP.restore(s1) if False else None
            for o, x in st1:
                o.load(x)
            have = {id(o) for o in keep}
            HEAP.objs = keep + [o for o, _ in st1 if id(o) not in have]
            self.pc.append(c)
            self.pc.extend(pc1)
            return r1
        if pc1:
            self.pc.append(or_(not_(c), and_(*pc1)))
        if pc2:
            self.pc.append(or_(c, and_(*pc2)))
        self.merge(c, s1)
        return self.merge_flow(c, r1, r2)

    tracer = None
    outside = ()  # libraries whose calls are assumed not to touch the data (drawing)

    def merge_flow(self, c, r1, r2):
        if r1 is None and r2 is None:
            return None
        k1 = r1[0] if r1 else None
        k2 = r2[0] if r2 else None
        if k1 in (None, "continue") and k2 in (None, "continue") and self.loop_stack:
            return ("continue",)
        if k1 in (None, "return") and k2 in (None, "return") and not self.in_loop():
            v1 = r1[1] if r1 else None
            v2 = r2[1] if r2 else None
            return ("return", self.merge_val(c, v1, v2))
        if k1 == k2 == "break":
            return r1
        raise Unsupported(f"merging control flow {k1}/{k2}")

    def in_loop(self):
        return bool(self.loop_stack) and self.loop_stack[-1] == len(self.frames)

    def merge(self, c, s1):
        """Current state is the else-state; s1 the snapshot of the then-state."""
        st1 = {id(o): (o, x) for o, x in s1[1]}
        cur = {id(o): o for o in HEAP.objs}
        for i, (o, x) in st1.items():
            if i not in cur:
                HEAP.objs.append(o)
                o.load(x)
                continue
            y = o.save()
            if same_state(x, y):
                continue
            if isinstance(o, Arr):
                if x[0] != y[0] or x[1] != y[1]:
                    raise Unsupported("merging arrays of different shapes")
                o.load((x[0], x[1], ite(c, x[2], y[2]), join_kind(x[3], y[3])))
            elif isinstance(o, PList):
                if len(x) != len(y):
                    raise Unsupported("merging lists of different lengths")
                o.load([self.merge_val(c, a, b) for a, b in zip(x, y)])
            else:
                d = {}
                for k in list(x) + [k for k in y if k not in x]:
                    if k in x and k in y:
                        d[k] = self.merge_val(c, x[k], y[k])
                    else:
                        v = x.get(k, y.get(k))
                        und = Poison(f"{k} is set on one path only")
                        d[k] = Choice(c, v, und) if k in x else Choice(c, und, v)
                o.load(d)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (int, float, str, bool)) and type(a) is type(b) and a == b:
            return a
        if is_num(a) and is_num(b):
            try:
                return ite(c, scalar(a), scalar(b))
            except Unsupported:
                return Choice(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.nd == b.nd and \
                all(self.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            r = Arr(a.shape, lambda *i: ite(c, a.at(*i), b.at(*i)), join_kind(a.kind, b.kind))
            r.ro = True
            return r
        return Choice(c, a, b)

    def same_dim(self, x, y):
        return x is y or N.canon(x) is N.canon(y) or self.entails(eq(x, y))

    def exec_stmt(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def x_Pass(self, st, env):
        return None

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and \
                st.value.func.id == "print":
            return None
        self.eval(st.value, env)

    fold = None

    def x_Assign(self, st, env):
        v = self.folded(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            v = self.eval(st.value, env)
            if isinstance(old, Arr):
                new = self.binop(type(st.op).__name__, old, v)
                if KORD.get(kind_of(new), 3) > KORD.get(old.kind, 3):
                    raise Unsupported("in-place operation changing the type")
                self.store_all(old, new)
                return None
            if isinstance(old, PList) and isinstance(st.op, ast.Add):
                from . import lib
                lib.method(self, old, "extend", [v], {})
                return None
            env.d[t.id] = self.binop(type(st.op).__name__, old, v)
            return None
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.attr(o, t.attr)
            new = self.binop(type(st.op).__name__, old, self.eval(st.value, env))
            if isinstance(old, Arr):
                self.store_all(old, new)
            else:
                self.setattr(o, t.attr, new)
            return None
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.index(t.slice, env)
            old = self.getitem(o, i)
            v = self.eval(st.value, env)
            if isinstance(o, Arr) and o.view is None and is_num(v) and is_num(old) and \
                    not isinstance(old, Arr) and o.kind != "b":
                # written as one update of the generic element
                new = self.binop(type(st.op).__name__, old, v)
                if KORD.get(kind_of(new), 3) > KORD.get(o.kind, 3):
                    raise Unsupported("in-place operation changing the type")
                prev, vs = o.body, o.vars
                S = fresh("aug", scalar(new).sort)
                self.setitem(o, i, S)
                if o.vars == vs:
                    gen = scalar(self.binop(type(st.op).__name__, prev, v))
                    o.body = subst(o.body, {S: gen})
                    return None
                o.body = subst(o.body, {S: scalar(new)})
                return None
            self.setitem(o, i, self.binop(type(st.op).__name__, old, v))
            return None
        raise Unsupported("augmented assignment")

    def store_all(self, arr, new):
        if getattr(arr, "ro", False):
            raise Unsupported("write to a merged array")
        if isinstance(new, Arr):
            if new.nd > arr.nd:
                raise Unsupported("in-place broadcast")
            off = arr.nd - new.nd
            body = new.at
            vals = lambda *i: body(*self.bidx(i[off:], new))  # noqa: E731
            vs = arr.vars
            nb = vals(*vs)
            arr.set_fn(lambda *i: subst(nb, dict(zip(vs, i))))
        else:
            s = scalar(new)
            arr.set_fn(lambda *i: s)

    @staticmethod
    def bidx(idx, arr):
        return [ZERO if (s is ONE) else i for i, s in zip(idx, arr.shape)]

    def x_Return(self, st, env):
        return ("return", None if st.value is None else self.folded(st.value, env))

    def x_Break(self, st, env):
        return ("break",)

    def x_Continue(self, st, env):
        return ("continue",)

    def x_Raise(self, st, env):
        name = "?"
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        self.raises.append((list(self.pc), name, self.where()))
        return ("dead",)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            else:
                raise Unsupported("del")

    def x_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        self.oblige(f"{self.where()}: assert", c)

    def x_Import(self, st, env):
        for a in st.names:
            env.d[a.asname or a.name.split(".")[0]] = Lib(self.canon_lib(
                a.name if a.asname else a.name.split(".")[0]))

    def x_ImportFrom(self, st, env):
        for a in st.names:
            if st.level:
                env.d[a.asname or a.name] = Lazy(self, st.module, a.name)
            else:
                env.d[a.asname or a.name] = Lib(self.canon_lib(f"{st.module}.{a.name}"))

    def x_FunctionDef(self, st, env):
        env.d[st.name] = Fn(st, None, f"{self.where()}.{st.name}", env=env)

    def x_Global(self, st, env):
        raise Unsupported("global")

    def x_Try(self, st, env):
        # the body is executed; the handlers are reached only by exceptions of
        # operations whose success the contract's preconditions establish
        h = self.hooks.get("try")
        if h is not None:
            return h(self, st, env)
        try:
            flow = self.exec_stmts(list(st.body) + list(st.orelse), env)
        except AttributeMissing:
            hs = st.handlers
            if st.finalbody or len(hs) != 1 or hs[0].name or not isinstance(
                    hs[0].type, ast.Name) or hs[0].type.id not in ("AttributeError", "Exception"):
                raise
            return self.exec_stmts(list(hs[0].body), env)
        if st.finalbody:
            f2 = self.exec_stmts(st.finalbody, env)
            flow = f2 or flow
        self.assumed_no_exception = True
        return flow

    def x_With(self, st, env):
        raise Unsupported("with")

    # -------------------------------------------------------------- loops
    def x_While(self, st, env):
        key = self.loop_key(st)
        h = self.invariants.get(key)
        if h is not None:
            return h(self, st, env)
        # concrete loops only
        n = 0
        while True:
            c = self.decide(self.truth(self.eval(st.test, env)))
            if c is FALSE:
                return None
            if c is not TRUE or n > self.max_unroll:
                raise Unsupported(f"while loop without an invariant in {self.where()}")
            n += 1
            self.loop_stack.append(len(self.frames))
            try:
                flow = self.exec_stmts(list(st.body), env)
            finally:
                self.loop_stack.pop()
            if flow is not None:
                if flow[0] == "break":
                    return None
                if flow[0] != "continue":
                    return flow

    def loop_key(self, st):
        """(function, ordinal of the loop in it)."""
        return (self.where(), getattr(st, "_ordinal", None) or self.number_loops(st))

    def number_loops(self, st):
        fn = None
        q = self.where().split(".")
        try:
            fn = self.get(".".join(q))
        except Exception:
            return None
        n = 0
        for x in ast.walk(fn.node):
            if isinstance(x, (ast.For, ast.While)):
                x._ordinal = (x.lineno, x.col_offset)
        loops = sorted((x for x in ast.walk(fn.node) if isinstance(x, (ast.For, ast.While))),
                       key=lambda x: x._ordinal)
        for n, x in enumerate(loops):
            x._ordinal = n + 1
        return getattr(st, "_ordinal", None)

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        if st.orelse:
            raise Unsupported("for/else")
        key = self.loop_key(st)
        h = self.invariants.get(key)
        if h is not None:
            return h(self, st, env, it)
        return self.run_for(it, lambda v: self.assign(st.target, v, env),
                            lambda: self.exec_stmts(list(st.body), env))

    def run_for(self, it, bind, body):
        """Execute a loop over the iterable: unrolled when its length is a small
        numeral, otherwise by an inferred invariant."""
        items = self.concrete_items(it)
        if items is not None:
            for v in items:
                bind(v)
                self.loop_stack.append(len(self.frames))
                try:
                    flow = body()
                finally:
                    self.loop_stack.pop()
                if flow is not None:
                    if flow[0] == "break":
                        return None
                    if flow[0] != "continue":
                        return flow
            return None
        from . import lib
        if isinstance(it, lib.Zip2):
            a, b = {}, {}

            def inner():
                def put(j):
                    b["j"] = j
                    bind(it.elem(a["i"], j))
                return self.summarise(it.m, lambda j: j, lambda j: it.mask(a["i"], j), put, body)
            return self.summarise(it.n, lambda i: i, lambda i: TRUE, lambda i: a.update(i=i), inner)
        n, elem, guard = self.seq(it)
        if getattr(it, "mono", True) is False or getattr(it, "unordered", False):
            self.unordered += 1
            try:
                return self.summarise(n, elem, guard, bind, body, True)
            finally:
                self.unordered -= 1
        return self.summarise(n, elem, guard, bind, body)

    def concrete_items(self, it):
        if isinstance(it, PList):
            if it.items and it.items[-1] is SYM:
                return None
            return list(it.items)
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, PDict):
            return list(it.d)
        if isinstance(it, SList):
            k = concrete(it.n)
            if k is not None and k <= self.max_unroll:
                return [it.get(num(i)) for i in range(k)]
        if isinstance(it, Arr):
            k = concrete(it.shape[0])
            if k is not None and k <= self.max_unroll:
                return [self.getitem(it, [i]) for i in range(k)]
        return None

    def seq(self, it):
        """(number of steps, element function, guard): iteration v stands for the
        element elem(v), taken only when guard(v)."""
        if isinstance(it, PList) and it.items and it.items[-1] is SYM:
            it = it.sym
        if isinstance(it, SList):
            return it.n, it.get, lambda v: TRUE
        if isinstance(it, Arr):
            return it.shape[0], lambda v: self.getitem(it, [v], check=False), lambda v: TRUE
        if isinstance(it, Opq):
            n = app("len!" + it.tag, sort="I")
            self.pc.append(le(ZERO, n))
            return n, lambda v: opq(it.tag + "[]", v), lambda v: TRUE
        if isinstance(it, USet):
            return it.size, it.value, it.member
        if isinstance(it, Filt):
            if it.rest:
                return it.n, lambda r: Arr(it.rest, lambda *i: it.elem(r, *i), it.kind), it.mask
            return it.n, it.elem, it.mask
        raise Unsupported(f"iteration over {type(it).__name__}")

    def summarise(self, n, elem, guard, bind, body, unordered=False):
        """Inferred loop invariant.  The body is run once from an arbitrary state
        of everything it modifies; if each modified location changes by an amount
        that does not depend on the modified state (or is overwritten at an index
        determined by the iteration), the state after i iterations is the initial
        one plus the sum of the changes, and this holds inductively."""
        i = fresh("it")
        s0 = HEAP.snap()
        npc = len(self.pc)
        nob = len(self.obligations)
        nabs = len(self.absent)
        g = guard(i)
        rng = [le(ZERO, i), lt(i, n)] + ([g] if g is not TRUE else [])

        def run():
            self.pc.extend(rng)
            self.loop_stack.append(len(self.frames))
            self.loop_vars.append((i, n))
            try:
                bind(elem(i))
                flow = body()
            finally:
                self.loop_stack.pop()
                self.loop_vars.pop()
            if flow is not None and flow[0] not in ("continue",):
                raise Unsupported(f"{flow[0]} inside a summarised loop in {self.where()}")
            extra = self.pc[npc + len(rng):]
            del self.pc[npc:]
            return extra

        modified = {}
        for round_ in range(8):
            HEAP.restore(s0)
            del self.obligations[nob:]
            nr = len(self.raises)
            hav = {}
            for (oid, key), (o, kd) in modified.items():
                hav[(oid, key)] = self.havoc(o, key, kd)
            before = HEAP.snap()
            extra = run()
            after = {id(o): (o, o.save()) for o, _ in before[1]}
            new = self.diff(before, after)
            fresh_mod = {k: v for k, v in new.items() if k not in modified}
            if not fresh_mod:
                break
            modified.update(fresh_mod)
            del self.raises[nr:]
        else:
            raise Unsupported("loop state does not stabilise")
        end = {id(o): (o, o.save()) for o, _ in before[1]}
        deltas = {}
        for (oid, key), (o, kd) in modified.items():
            deltas[(oid, key)] = self.delta(o, key, kd, hav[(oid, key)], end, i, before)
        kept = self.kept_values(modified, hav, deltas, end, i, n, g)
        if kept:
            # values computed once and kept: had they been there before the first
            # iteration, every iteration would have done the same
            obs = self.obligations[nob:]
            HEAP.restore(s0)
            del self.obligations[nob:]
            for (oid, key), v in kept.items():
                modified[(oid, key)][0].attrs[key] = v
                del modified[(oid, key)]
            s0 = HEAP.snap()
            d1, h1, hav = deltas, hav, {}
            for (oid, key), (o, kd) in modified.items():
                hav[(oid, key)] = self.havoc(o, key, kd)
            before = HEAP.snap()
            extra = run()
            after = {id(o): (o, o.save()) for o, _ in before[1]}
            if any(k not in modified for k in self.diff(before, after)):
                raise Unsupported("loop state does not stabilise")
            end = {id(o): (o, o.save()) for o, _ in before[1]}
            deltas = {k: self.delta(o, k[1], kd, hav[k], end, i, before) for k, (o, kd) in modified.items()}
            for k, d in deltas.items():
                if not self.same_delta(d1[k], d, h1, hav):
                    raise Unsupported("the first iteration differs from the others")
            for ob in obs:
                ob.formula = self.renamed(ob.formula, h1, hav)
                ob.hyps = [self.renamed(h, h1, hav) for h in ob.hyps]
            self.obligations += obs
        if any(k in self.absent[nabs:] and kd == "slot" and hav[k][1] is UNDEF for k, (o, kd) in modified.items()):
            raise Unsupported("an attribute that a previous iteration may have set")
        rebound = {}
        for k, d in deltas.items():
            o, kd = modified[k]
            if d[0] == "arr" and kd != "arr":
                new = end[id(o)][1][k[1]]
                if id(new) in rebound:
                    deltas[k] = deltas[rebound[id(new)]] = ("poison", "aliased arrays in a loop")
                rebound[id(new)] = k
        HEAP.restore(s0)
        # solve dependencies among the modified locations
        solved = {}
        pending = dict(deltas)
        progress = True
        while pending and progress:
            progress = False
            for k, d in list(pending.items()):
                names = {h for kk, h in ((kk, hav[kk][0]) for kk in deltas if kk not in solved)
                         if h is not None}
                if d[0] == "poison":
                    solved[k] = ("poison", d[1])
                    del pending[k]
                    progress = True
                    continue
                d2 = self.apply_solved(d, solved, hav, i)
                if not self.d_mentions(d2, names):
                    solved[k] = self.closed(k, d2, modified[k], n, i, g, unordered)
                    del pending[k]
                    progress = True
        if pending:
            for k, d in list(pending.items()):
                solved[k] = ("poison", "loop-carried dependence")
        final = {}
        # obligations of the body hold for an arbitrary iteration: replace the
        # arbitrary state by the invariant's state
        for ob in self.obligations[nob:]:
            ob.formula = self.fix_term(ob.formula, solved, hav, i)
            ob.hyps = [self.fix_term(h, solved, hav, i) for h in ob.hyps]
        for k, s in solved.items():
            final[k] = s
        self.commit(final, modified)
        # facts learned in each iteration (no exception was raised)
        ex2 = [self.fix_term(x, solved, hav, i) for x in extra]
        ex2 = [x for x in ex2 if x is not None]
        for x in ex2:
            v = fresh("it")
            self.pc.append(not_(ex_(ZERO, n, lambda u: and_(subst(g, {i: u}), not_(subst(x, {i: u}))))))
        self.loops += 1
        return None

    def kept_values(self, modified, hav, deltas, end, i, n, g):
        """Attributes the body sets when they are missing, to the same value in
        every iteration."""
        names = {h[0] for h in hav.values() if h[0] is not None}
        out = {}
        for k, (o, kd) in modified.items():
            if kd == "slot" and isinstance(o, Obj) and hav[k][1] is UNDEF and k[1] in end[k[0]][1]:
                v = end[k[0]][1][k[1]]
                if self.constant_value(v, i, names):
                    out[k] = v
        if out and g is TRUE and self.entails(le(ONE, n)):
            return out
        return {}

    def constant_value(self, v, i, names):
        if v is None or isinstance(v, (int, float, str, bool)):
            return True
        if is_term(v):
            return i not in fv(v) and not mentions(v, names)
        if isinstance(v, Arr):
            return v.view is None and all(self.constant_value(x, i, names) for x in [v.body, *v.shape])
        if isinstance(v, PList):
            return (not v.items or v.items[-1] is not SYM) and all(self.constant_value(x, i, names) for x in v.items)
        if isinstance(v, SList):
            return self.constant_value(v.n, i, names) and self.constant_value(v.get(fresh("q")), i, names)
        return False

    def renamed(self, t, h1, h2):
        for k, h in h2.items():
            old = h1[k][0]
            if old is not None and h[0] is not None:
                t = replace_app(t, old, lambda *a, h=h: app(h[0], *a, sort=h[2]))
        return t

    def same_delta(self, d1, d2, h1, h2):
        f = lambda t: self.renamed(t, h1, h2)  # noqa: E731
        if d1[0] != d2[0]:
            return False
        if d1[0] == "poison":
            return True
        if d1[0] == "arr":
            a = Arr([ZERO] * len(d1[1]), lambda *ix: f(subst(d1[2], dict(zip(d1[1], ix)))))
            b = Arr([ZERO] * len(d2[1]), lambda *ix: subst(d2[2], dict(zip(d2[1], ix))))
            return d1[4] == d2[4] and self.agree(a, b)
        if d1[0] == "temp" and isinstance(d1[1], Arr) != isinstance(d2[1], Arr):
            return False
        if d1[0] == "temp" and isinstance(d1[1], Arr):
            return self.agree(self.fix_val(d1[1], f), d2[1])
        if d1[0] in ("scal", "temp"):
            return self.agree(f(d1[1]), d2[1])
        if d1[0] == "list":
            return self.agree(PList([self.fix_val(v, f) for v in d1[1]]), PList(list(d2[1])))
        return False

    # ---- loop helper: locations are (object, key) with key None for arrays
    def diff(self, before, after):
        out = {}
        for o, x in before[1]:
            y = after[id(o)][1]
            if same_state(x, y):
                continue
            if isinstance(o, Arr):
                if x[0] != y[0]:
                    raise Unsupported("array changes shape in a loop")
                out[(id(o), None)] = (o, "arr")
            elif isinstance(o, PList):
                if len(y) == len(x) and len(x):
                    for j, (a, b) in enumerate(zip(x, y)):
                        if not same_val(a, b):
                            out[(id(o), j)] = (o, "item")
                else:
                    out[(id(o), None)] = (o, "list")
            elif isinstance(o, PDict):
                out[(id(o), None)] = (o, "dict")
            else:
                for k in set(x) | set(y):
                    if k not in x or k not in y or not same_val(x[k], y[k]):
                        out[(id(o), k)] = (o, "slot")
        return out

    def havoc(self, o, key, kd):
        """Put an arbitrary value into the location; returns (symbol name, old)."""
        if kd == "arr":
            if o.view is not None:
                raise Unsupported("view modified in a loop")
            name = f"H~{next(_CT)}"
            srt = {"b": "B"}.get(o.kind, "I" if o.body.sort == "I" and o.kind == "i" else "R")
            old = o.save()
            o.set_fn(lambda *ix: app(name, *ix, sort=srt))
            return (name, old, srt)
        if kd == "list":
            # appended lists: the prefix is opaque
            old = o.save()
            return (None, old, None)
        if kd == "dict":
            return (None, o.save(), None)
        cont = o.items if kd == "item" else (o.attrs if isinstance(o, Obj) else o.d)
        try:
            old = cont[key]
        except (KeyError, IndexError):
            return (None, UNDEF, None)
        if is_num(old) and not isinstance(old, Arr):
            t = scalar(old)
            name = f"H~{next(_CT)}"
            srt = t.sort
            cont[key] = app(name, sort=srt)
            return (name, old, srt)
        if isinstance(old, Arr) and (old.view is not None or not getattr(old, "ro", False)):
            # a name bound to a new array of the same shape in every iteration
            name = f"H~{next(_CT)}"
            srt = {"b": "B"}.get(old.kind, "R")
            cont[key] = Arr(old.shape, lambda *ix: app(name, *ix, sort=srt), old.kind)
            cont[key].ro = old.view is not None
            return (name, old, srt)
        return (None, old, None)

    def delta(self, o, key, kd, hv, end, i, before):
        name, old, srt = hv
        st = end[id(o)][1]
        if kd == "arr":
            vs, body = st[1], st[2]
            return ("arr", vs, body, name, st[3], srt)
        if kd == "list":
            x, y = old, st
            if len(y) >= len(x) and all(same_val(a, b) for a, b in zip(x, y)):
                return ("list", y[len(x):])
            return ("poison", "list modified in a loop")
        if kd == "dict":
            return ("poison", "dictionary filled in a loop")
        try:
            new = st[key]
        except (KeyError, IndexError):
            return ("poison", "deleted in a loop")
        if name is None:
            if old is UNDEF and is_num(new) and not isinstance(new, Arr):
                return ("temp", scalar(new))
            if old is UNDEF and isinstance(new, Arr) and new.view is None and not any(new is q for q, _ in before[1]):
                return ("temp", new)
            return ("poison", f"loop temporary {key}")
        if isinstance(old, Arr):
            if isinstance(new, Arr) and new.nd == old.nd and \
                    not any(new is q for q, _ in before[1]) and \
                    (new.view is None or not any(new.view[0] is q for q, _ in before[1])) and \
                    not any(old.view is not None and old.view[0] is q and not same_state(x, end[id(q)][1])
                            for q, x in before[1]) and \
                    all(self.same_dim(a, b) for a, b in zip(new.shape, old.shape)) and \
                    (new.kind == "b") == (old.kind == "b"):
                if new.view is not None or old.view is not None:
                    # not to be written to afterwards: its aliases are not tracked
                    vs = tuple(fresh("ix") for _ in new.shape)
                    self.untracked.add((id(o), key))
                    return ("arr", vs, new.at(*vs), name, join_kind(new.kind, old.kind), srt)
                return ("arr", new.vars, new.body, name, join_kind(new.kind, old.kind), srt)
            return ("poison", "array variable rebound in a loop")
        if is_num(new) and not isinstance(new, Arr):
            return ("scal", scalar(new), name, srt)
        return ("poison", "loop variable changes its type")

    def apply_solved(self, d, solved, hav, i):
        f = lambda t: self.fix_term(t, solved, hav, i)  # noqa: E731
        if d[0] == "arr":
            return ("arr", d[1], f(d[2])) + d[3:]
        if d[0] == "scal":
            return ("scal", f(d[1])) + d[2:]
        if d[0] == "temp":
            return ("temp", self.fix_val(d[1], f))
        if d[0] == "list":
            return ("list", [self.fix_val(v, f) for v in d[1]])
        return d

    def fix_val(self, v, f):
        if is_term(v):
            return f(v)
        if isinstance(v, (int, float, str, bool, type(None))):
            return v
        if isinstance(v, PList):
            return PList([self.fix_val(x, f) for x in v.items], v.tag)
        if isinstance(v, Arr):
            a = Arr(v.shape, v.at, v.kind)
            a.body = f(a.body)
            return a
        return v

    def fix_term(self, t, solved, hav, i):
        """Replace the arbitrary pre-iteration state by the invariant's."""
        for k, s in solved.items():
            name = hav[k][0]
            if name is None or not mentions(t, {name}):
                continue
            if s[0] == "poison":
                return t
            t = replace_app(t, name, lambda *a, s=s: s[2](i, *a))
        return t

    def d_mentions(self, d, names):
        if d[0] in ("arr",):
            own = d[3]
            others = names - {own}
            return mentions(d[2], others)
        if d[0] == "scal":
            return mentions(d[1], names - {d[2]})
        if d[0] == "temp":
            return mentions(d[1].body if isinstance(d[1], Arr) else d[1], names)
        if d[0] == "list":
            return any(is_term(v) and mentions(v, names) for v in d[1])
        return False

    def closed(self, k, d, mod, n, i, g, unordered=False):
        """('set', final value function, state before iteration i)."""
        o, kd = mod
        if d[0] == "temp":
            # set in every iteration: afterwards, what the last iteration left
            if g is not TRUE or unordered or not self.entails(le(ONE, n)):
                return ("poison", "loop temporary")
            return ("val", self.inst(d[1], i, sub(n, ONE)))
        if d[0] == "list":
            vals = d[1]
            if g is not TRUE or unordered:
                return ("poison", "list filled from a selection")
            return ("list", vals, None, n, i)
        if d[0] == "scal":
            new, name, srt = d[1], d[2], d[3]
            cont = o.items if kd == "item" else (o.attrs if isinstance(o, Obj) else o.d)
            old = scalar(cont[k[1]])
            X = app(name, sort=srt)
            dl = N.canon(sub(new, X)) if srt != "B" else None
            if dl is not None and not mentions(dl, {name}):
                fin = lambda m: add(old, sum_(ZERO, m, lambda u: mul(iv(subst(g, {i: u})), subst(dl, {i: u}))))  # noqa: E731,E501
                if g is TRUE and i not in fv(dl):
                    # a counter: used only for iterations in range
                    lin = lambda m: add(old, mul(m, dl))  # noqa: E731
                    return ("scal", lin(n) if self.entails(le(ZERO, n)) else fin(n), lin)
                return ("scal", fin(n), lambda it: fin(it))
            if not mentions(new, {name}):
                if g is not TRUE or unordered:
                    return ("poison", "overwritten in a selection loop")
                fin = lambda m: ite(lt(ZERO, m), subst(new, {i: sub(m, ONE)}), old)  # noqa: E731
                return ("scal", fin(n), lambda it: fin(it))
            r = self.flag(new, X, name, old, n, i, g)
            if r is not None:
                return r
            return ("poison", "scalar carried through the loop")
        vs, body, name, kind, srt = d[1:]
        if kd != "arr":
            o = (o.items if kd == "item" else o.attrs if isinstance(o, Obj) else o.d)[k[1]]
            o = o if o.view is None else o.copy()
        H = app(name, *vs, sort=srt)
        a0 = lambda *ix: o.at(*ix)  # noqa: E731
        if srt != "B":
            dl = N.canon(sub(body, H))
            if not mentions(dl, {name}):
                def fin(m):
                    return lambda *ix: add(o0(*ix), sum_(ZERO, m, lambda u: mul(
                        iv(subst(g, {i: u})), subst(dl, dict(zip(vs, ix)) | {i: u}))))
                ob, ovars = o.body, o.vars
                o0 = lambda *ix: subst(ob, dict(zip(ovars, [lift(x) for x in ix])))  # noqa: E731
                return ("arr", fin(n), lambda it, *ix: fin(it)(*ix), kind)
        # reordered by a permutation in every iteration: by some permutation so far
        if body.op == "app" and body.args[0] == name and len(body.args) > 1 and g is TRUE:
            from . import lib
            p = body.args[1]
            if p.op == "app" and p.args[0] in lib.PERMS and p.args[-1] is vs[0] and body.args[2:] == tuple(vs[1:]):
                pre = [x for x in p.args[1:-1] if x is not i]
                cum = lib.cumulative_perm(self, o.shape[0], pre, p, i)
                ob, ovars = o.body, o.vars
                o1 = lambda *ix: subst(ob, dict(zip(ovars, [lift(x) for x in ix])))  # noqa: E731
                fin = lambda m: (lambda x, *r: o1(cum(m, x), *r))  # noqa: E731
                return ("arr", fin(n), lambda it, *ix: fin(it)(*ix), kind)
        # overwriting at an index determined by the iteration
        ev = self.events(body, H, name)
        given = None
        if ev is None and kd == "arr":
            # a solution given with the contract, checked by an inductive obligation
            ev, given = self.given(o, vs, body, H, name)
        if ev is None:
            return ("poison", "array element depends on earlier iterations")
        ob, ovars = o.body, o.vars
        o0 = lambda *ix: subst(ob, dict(zip(ovars, [lift(x) for x in ix])))  # noqa: E731
        sols = []
        if unordered and len(ev) > 1:
            return ("poison", "several writes in an unordered loop")
        for cnd, val in ev:
            if mentions(cnd, {name}) or mentions(val, {name}):
                return ("poison", "array element depends on earlier iterations")
            if i not in fv(cnd):
                if i in fv(val) or g is not TRUE:
                    if g is not TRUE or unordered:
                        return ("poison", "overwritten in a selection loop")
                    sols.append((cnd, val, None))
                    continue
                sols.append((cnd, val, None))
                continue
            parts = cnd.args if cnd.op == "and" else (cnd,)
            s = None
            for p in parts:
                s = N.solve_for(N.canon_bool(p), i)
                if s is not None and not any(v in fv(s) for v in (i,)):
                    break
                s = None
            if s is None:
                return ("poison", "cannot invert the index written in the loop")
            sols.append((cnd, val, s))

        def fin(m):
            def get(*ix):
                mp = dict(zip(vs, [lift(x) for x in ix]))
                out, bo, bi = o0(*ix), FALSE, None
                for cnd, val, s in sols:
                    if s is None:
                        it = sub(m, ONE)
                        ok = and_(lt(ZERO, m), subst(cnd, {**mp, i: it}))
                    else:
                        it = subst(s, mp)
                        ok = and_(le(ZERO, it), lt(it, m), subst(cnd, {**mp, i: it}), subst(g, {**mp, i: it}))
                    v = subst(val, {**mp, i: it})
                    # the later iteration wins, the later event on a tie
                    take = ok if bi is None else and_(ok, or_(not_(bo), le(bi, it)))
                    out = ite(take, v, out)
                    bi = it if bi is None else ite(take, it, bi)
                    bo = or_(ok, bo)
                return out
            return get
        if given:
            for cnd, val, axioms in given:
                # the entries before this iteration are as claimed: so is the one written
                pre = replace_app(val, name, lambda *ix: fin(i)(*ix))
                claim = eq(real(pre), real(dict((c, v) for c, v in ev)[cnd]))
                hy = [le(ZERO, i), lt(i, n)] + ([g] if g is not TRUE else []) + [cnd] + list(axioms)
                hy += [x for v, d in zip(vs, o.shape) for x in (le(ZERO, v), lt(v, d))]
                self.obligations.append(Obligation(f"{self.where()}: the loop computes the given values", claim,
                                                   list(self.pc) + hy, "soft"))
        return ("arr", fin(n), lambda it, *ix: fin(it)(*ix), kind)

    def flag(self, new, X, name, old, n, i, g):
        """A scalar conditionally overwritten by a constant."""
        if new.op == "ite":
            c, a, b = new.args
            if mentions(c, {name}):
                return None
            if b is X and not mentions(a, {name}) and i not in fv(a):
                cc, v = c, a
            elif a is X and not mentions(b, {name}) and i not in fv(b):
                cc, v = not_(c), b
            else:
                return None
            fin = lambda m: ite(ex_(ZERO, m, lambda u: and_(subst(g, {i: u}), subst(cc, {i: u}))), v, old)  # noqa: E731,E501
            return ("scal", fin(n), lambda it: fin(it))
        return None

    def given(self, o, vs, body, H, name):
        """Writes whose values depend on earlier iterations, with the values the
        contract's author claims for them instead."""
        for shape, fn, axioms in self.claims:
            if len(shape) != len(vs) or not all(self.same_dim(a, b) for a, b in zip(o.shape, shape)):
                continue
            out = []

            def rec(t, cond):
                if t is H:
                    return True
                if t.op == "ite" and not mentions(t.args[0], {name}):
                    c, a, b = t.args
                    if a is H or b is H or mentions(b, {name}) and not mentions(a, {name}):
                        return rec(b, cond + [not_(c)]) and rec(a, cond + [c])
                out.append((and_(*cond), t))
                return bool(cond)
            if H.sort != "B" and rec(body, []) and out:
                ev = [(c, fn(*vs) if mentions(v, {name}) else v) for c, v in out]
                return ev, [(c, v, axioms(*vs)) for c, v in out if mentions(v, {name})]
        return None, None

    def events(self, body, H, name):
        """Decompose ite(c1, v1, ite(c2, v2, H)) into write events, first write
        first."""
        out = []

        def rec(t, cond):
            if t is H:
                return True
            if t.op == "ite" and t.sort == H.sort or t.op == "ite":
                c, a, b = t.args
                if mentions(t, {name}) and (mentions(a, {name}) or mentions(b, {name})):
                    if mentions(c, {name}):
                        return False
                    # order: the else part holds the earlier writes
                    return rec(b, cond + [not_(c)]) and rec(a, cond + [c])
            if mentions(t, {name}):
                return False
            out.append((and_(*cond), t))
            return True

        if H.sort == "B":
            return None
        return out if rec(body, []) and out else None

    def commit(self, final, modified):
        for k, s in final.items():
            o, kd = modified[k]
            if kd == "arr":
                if s[0] == "poison":
                    o.body = app("poison!" + s[1].replace(" ", "_"), *o.vars)
                    o.poisoned = True
                    raise Unsupported(f"{s[1]} in {self.where()}")
                fn = s[1]
                vs = o.vars
                b = fn(*vs)
                o.kind = s[3]
                o.body = b
            elif kd == "list":
                if s[0] == "poison":
                    o.items = [Poison(s[1])]
                else:
                    self.commit_list(o, s)
            elif kd == "dict":
                o.d = {None: Poison("filled in a loop")}
            else:
                cont = o.items if kd == "item" else (o.attrs if isinstance(o, Obj) else o.d)
                if s[0] == "arr":
                    cont[k[1]] = Arr(cont[k[1]].shape, s[1], s[3])
                    cont[k[1]].ro = k in self.untracked
                else:
                    cont[k[1]] = Poison(s[1]) if s[0] == "poison" else s[1]

    def commit_list(self, o, s):
        vals, n, i = s[1], s[3], s[4]
        old = list(o.items)
        if len(vals) != 1:
            o.items = [Poison("several appends per iteration")]
            return
        v = vals[0]

        def get(j, v=v):
            return self.inst(v, i, sub(lift(j), num(len(old))))

        if old:
            def get2(j, get=get):
                r = get(j)
                for q in reversed(range(len(old))):
                    r = self.merge_val(eq(lift(j), num(q)), old[q], r)
                return r
            o.sym = SList(add(num(len(old)), n), get2)
        else:
            o.sym = SList(n, get)
        o.items = [SYM]

    def inst(self, v, i, j):
        """The value with iteration variable i replaced by j."""
        if is_term(v):
            return subst(v, {i: j})
        if isinstance(v, (int, float, str, bool, type(None), Opq)):
            return v
        if isinstance(v, PList):
            return PList([self.inst(x, i, j) for x in v.items], v.tag)
        if isinstance(v, Arr):
            a = Arr([subst(s, {i: j}) for s in v.shape],
                    lambda *ix: subst(v.at(*ix), {i: j}), v.kind)
            a.ro = True   # a copy: writes to it would be lost
            return a
        if isinstance(v, Obj):
            o = Obj(v.cls, {k: self.inst(x, i, j) for k, x in v.attrs.items()})
            o.ro = True
            return o
        if isinstance(v, SList):
            return SList(subst(v.n, {i: j}), lambda q: self.inst(v.get(q), i, j), v.tag)
        if isinstance(v, Filt):
            f = Filt(v.n, lambda r: subst(v.mask(r), {i: j}),
                     lambda r, *x: subst(v.elem(r, *x), {i: j}), v.kind)
            f.rest = v.rest
            return f
        from . import lib
        if isinstance(v, lib.StrOf):
            return lib.StrOf(self.inst(v.val, i, j))
        if isinstance(v, lib.Joined):
            return lib.Joined(v.sep, self.inst(v.items, i, j))
        raise Unsupported(f"list of {type(v).__name__} built in a loop")

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, PList):
            items = self.items(v)
        elif isinstance(v, (tuple, list)):
            items = list(v)
        elif isinstance(v, SList) and concrete(v.n) == n:
            items = [v.get(num(i)) for i in range(n)]
        elif isinstance(v, Arr) and concrete(v.shape[0]) == n:
            items = [self.getitem(v, [i]) for i in range(n)]
        else:
            raise Unsupported(f"unpacking {type(v).__name__}")
        if len(items) != n:
            raise Unsupported("unpacking a different number of values")
        return items

    def items(self, v):
        if isinstance(v, PList):
            if v.items and v.items[-1] is SYM:
                raise Unsupported("list of symbolic length")
            return v.items
        return list(v)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if getattr(o, "ro", False):
                raise Unsupported("attribute of an object in a list built in a loop")
            o.attrs[name] = v
            return
        h = self.hooks.get("setattr")
        if h is not None and h(self, o, name, v):
            return
        if isinstance(o, Arr) and name == "shape":
            new = [scalar(x) for x in self.items(v)]
            old = list(o.shape)
            drop = lambda s: [x for x in s if concrete(x) != 1]  # noqa: E731
            a, b = drop(old), drop(new)
            if len(a) == len(b) and all(self.same_dim(x, y) for x, y in zip(a, b)):
                fn, ov = o.body, o.vars
                pos = [k for k, x in enumerate(new) if concrete(x) != 1]
                opos = [k for k, x in enumerate(old) if concrete(x) != 1]
                nv = tuple(fresh("ix") for _ in new)
                mp = {w: ZERO for w in ov}
                for q, r in zip(opos, pos):
                    mp[ov[q]] = nv[r]
                o.shape, o.vars, o.body = tuple(new), nv, subst(fn, mp)
                return
            raise Unsupported("reshape by assignment")
        if isinstance(o, Lib):
            self.libattrs[f"{o.name}.{name}"] = v
            return
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    # --------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def lookup(self, name, env):
        d = env
        while d is not None:
            if name in d.d:
                v = self.force(d.d[name])
                return self.read(v)
            d = d.parent
        if name in BUILTINS:
            return Lib("builtins." + name)
        raise Unsupported(f"unknown name {name}")

    def read(self, v):
        while isinstance(v, Choice):
            c = self.decide(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                return v
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis:
            raise Unsupported("ellipsis")
        return e.value

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, env)
        return "<formatted>"

    def e_List(self, e, env):
        return PList(self.elts(e.elts, env))

    def e_Tuple(self, e, env):
        return PList(self.elts(e.elts, env), "tuple")

    def e_Set(self, e, env):
        return self.set_of(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.items(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            d.d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, PList):
            return tuple(self.hashable(x) for x in self.items(k))
        if isinstance(k, T):
            c = concrete(k)
            if c is not None:
                return c
            if k is TRUE:
                return True
            if k is FALSE:
                return False
            return k
        if isinstance(k, (str, int, float, bool, type(None))) and k != "<formatted>":
            return k
        raise Unsupported("dictionary key")

    def e_IfExp(self, e, env):
        c = self.decide(self.truth(self.eval(e.test, env)))
        if c is TRUE:
            return self.eval(e.body, env)
        if c is FALSE:
            return self.eval(e.orelse, env)
        self.pc.append(c)
        a = self.eval(e.body, env)
        self.pc.pop()
        self.pc.append(not_(c))
        b = self.eval(e.orelse, env)
        self.pc.pop()
        return self.merge_val(c, a, b)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.d[e.target.id] = v
        return v

    def e_Lambda(self, e, env):
        return Fn(e, None, f"{self.where()}.<lambda>", env=env)

    def e_BoolOp(self, e, env):
        conj = isinstance(e.op, ast.And)
        acc = []
        npc = len(self.pc)
        try:
            for k, x in enumerate(e.values):
                v = self.eval(x, env)
                c = self.truth(v)
                c = self.decide(c)
                if c is (FALSE if conj else TRUE):
                    if k == 0 or not acc:
                        return v
                    acc.append(c)
                    break
                if c is (TRUE if conj else FALSE):
                    if k == len(e.values) - 1 and not acc:
                        return v
                    continue
                acc.append(c)
                self.pc.append(c if conj else not_(c))
        finally:
            del self.pc[npc:]
        return and_(*acc) if conj else or_(*acc)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return not_(self.truth(v))
        if op == "USub":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return self.binop("Mult", -1, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr) and v.kind == "b":
                return Arr(v.shape, lambda *i: not_(v.at(*i)), "b")
            if isinstance(v, T) and v.sort == "B":
                return not_(v)
        raise Unsupported(f"unary {op}")

    def e_BinOp(self, e, env):
        a = self.folded(e.left, env)
        b = self.folded(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.folded(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.folded(r, env)
            v = self.compare(type(op).__name__, left, right)
            res = v if res is None else self.binop("BitAnd", self.tt(res), self.tt(v))
            left = right
        return res

    def tt(self, v):
        return v if isinstance(v, (Arr, T)) else lift(bool(v))

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                args += self.items(v) if isinstance(v, PList) else [Spread(v)]
            else:
                args.append(self.folded(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PDict):
                    raise Unsupported("** argument")
                kw.update(d.d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def e_Attribute(self, e, env):
        return self.attr(self.folded(e.value, env), e.attr)

    def folded(self, e, env):
        """Evaluate; an array just computed is folded to a ghost function it equals."""
        n0 = len(HEAP.objs)
        v = self.eval(e, env)
        if self.fold_scalars and is_term(v) and v.sort != "B" and N.sum_height(v):
            a = Arr((), lambda: v, kind_of(v))
            self.fold(self, a)
            return a.at()
        if self.fold is not None and isinstance(v, Arr) and v.view is None and \
                getattr(v, "tried", None) is not v.body and \
                (not self.loop_stack or any(v is o for o in HEAP.objs[n0:])):
            self.fold(self, v)
            v.tried = v.body
        return v

    def plain(self, cls):
        """No attribute of its objects is made up when it is asked for."""
        return cls.find("__getattr__") is None and cls.find("__getattribute__") is None and all(
            isinstance(b, Cls) and self.plain(b) or isinstance(b, Lib) and b.name in ("builtins.object", "object")
            for b in cls.bases) and not cls.node.decorator_list and not any(
                isinstance(x, (ast.Assign, ast.AnnAssign)) for x in cls.node.body)

    def attr(self, o, name):
        from . import lib
        if isinstance(o, lib.Super):
            f, me = self.fnstack[-1]
            for b in f.cls.bases:
                if isinstance(b, Cls) and b.find(name) is not None:
                    return Bound(b.find(name), me)
            raise Unsupported("super")
        if isinstance(o, Obj):
            self.reads.add(name)
            if name in o.attrs:
                return self.read(o.attrs[name])
            m = o.cls.find(name) if isinstance(o.cls, Cls) else None
            if m is not None:
                c = o.cls
                props, cached = set(), set()
                todo = [c]
                while todo:
                    x = todo.pop()
                    if isinstance(x, Cls):
                        props |= x.props
                        cached |= x.cached
                        todo += x.bases
                if name in cached:
                    self.absent.append((id(o), name))
                    v = self.call(m, [o])
                    self.setattr(o, name, v)
                    return v
                if name in props:
                    return self.call(m, [o])
                return Bound(m, o)
            h = self.hooks.get("attr")
            if h is not None:
                r = h(self, o, name)
                if r is not None:
                    return r
            if isinstance(o.cls, Cls) and self.plain(o.cls):
                self.absent.append((id(o), name))
                raise AttributeMissing(f"attribute {name}")
            raise Unsupported(f"attribute {name}")
        if isinstance(o, Opq):
            return Opq(f"{o.tag}.{name}")
        if isinstance(o, Module):
            v = o.env.d.get(name)
            if v is None:
                raise Unsupported(f"{o.name}.{name}")
            return self.read(self.force(v))
        if isinstance(o, Cls):
            m = o.find(name)
            if m is None:
                raise Unsupported(f"{o.name}.{name}")
            return m
        if isinstance(o, Lib) and f"{o.name}.{name}" in self.libattrs:
            return self.libattrs[f"{o.name}.{name}"]
        if isinstance(o, Lib):
            return lib.libattr(self, o, name)
        return lib.attr(self, o, name)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.index(e.slice, env))

    def index(self, s, env):
        if isinstance(s, ast.Tuple):
            return [self.index1(x, env) for x in s.elts]
        return [self.index1(s, env)]

    def index1(self, s, env):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.eval(x, env)
                           for x in (s.lower, s.upper, s.step)])
        return self.eval(s, env)

    def e_ListComp(self, e, env):
        return self.comp(e, env, "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, "list")

    def e_SetComp(self, e, env):
        r = self.comp(e, env, "set")
        if isinstance(r, SList):
            a, b = r.get(fresh("c")), r.get(fresh("c"))
            if self.same_value(a, b) and self.entails(le(ONE, r.n)):
                return PList([a], "set")
            from . import lib
            if lib.is_opaque(a) and lib.distinct_items(r):
                return lib.FUNCS["builtins.set"](self, r)
            raise Unsupported("set of a symbolic number of values")
        if isinstance(r, PList):
            return self.set_of(r.items)
        raise Unsupported("set comprehension")

    def set_of(self, items):
        out = []
        for x in items:
            if any(self.same_value(x, y) for y in out):
                continue
            for y in out:
                if self.decide(self.truth(self.compare("Eq", x, y))) is not FALSE:
                    raise Unsupported("set of values that may be equal")
            out.append(x)
        return PList(out, "set")

    def agree(self, a, b):
        """The two values are provably equal."""
        if isinstance(a, PList) and isinstance(b, PList):
            return len(a.items) == len(b.items) and all(self.agree(x, y) for x, y in zip(a.items, b.items))
        if is_num(a) and is_num(b):
            x, y = scalar(a), scalar(b)
            return x is y or ("B" not in (x.sort, y.sort) and self.entails(eq(real(x), real(y))))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.nd == b.nd and all(map(self.same_dim, a.shape, b.shape)):
            ix = [fresh("q") for _ in a.shape]
            return self.agree(a.at(*ix), b.at(*ix))
        return isinstance(a, str) and a == b

    def same_value(self, a, b):
        """The two values are identical terms."""
        if isinstance(a, PList) and isinstance(b, PList):
            return len(a.items) == len(b.items) and all(self.same_value(x, y) for x, y in zip(a.items, b.items))
        if is_num(a) and is_num(b):
            return scalar(a) is scalar(b)
        return isinstance(a, str) and a == b

    def comp(self, e, env, tag):
        env2 = Env({}, env)
        gens = e.generators
        if len(gens) == 1 or all(True for _ in gens):
            items = self.comp_rec(e.elt, gens, env2, tag)
            return items

    def comp_rec(self, elt, gens, env, tag):
        g = gens[0]
        it = self.eval(g.iter, env)
        conc = self.concrete_items(it)
        if conc is not None:
            out = []
            for v in conc:
                self.assign(g.target, v, env)
                ok = True
                for c in g.ifs:
                    d = self.decide(self.truth(self.eval(c, env)))
                    if d is FALSE:
                        ok = False
                    elif d is not TRUE:
                        raise Unsupported("symbolic filter in a comprehension")
                if not ok:
                    continue
                if len(gens) > 1:
                    out += self.items(self.comp_rec(elt, gens[1:], env, tag))
                else:
                    out.append(self.eval(elt, env))
            return PList(out, tag)
        if len(gens) > 1:
            raise Unsupported("nested symbolic comprehension")
        n, el, guard = self.seq(it)
        v0 = None
        for attempt in range(2):
            i = fresh("c")
            s0 = HEAP.snap()
            npc = len(self.pc)
            gi = guard(i)
            self.pc += [le(ZERO, i), lt(i, n)] + ([gi] if gi is not TRUE else [])
            self.loop_stack.append(len(self.frames))
            self.loop_vars.append((i, n))
            nob = len(self.obligations)
            try:
                self.assign(g.target, el(i), env)
                cs = []
                for c in g.ifs:
                    cc = self.truth(self.eval(c, env))
                    cs.append(cc)
                    self.pc.append(cc)
                v = self.eval(elt, env)
            finally:
                self.loop_stack.pop()
                self.loop_vars.pop()
                del self.pc[npc:]
            if all(o is env or same_state(x, o.save()) for o, x in s0[1]):
                break
            if attempt or g.ifs or gi is not TRUE or not self.entails(le(ONE, n)):
                raise Unsupported("comprehension with side effects")
            # values computed once and kept: the first element is evaluated for
            # itself, after which the others must leave the state alone
            HEAP.restore(s0)
            del self.obligations[nob:]
            z = fresh("c")
            self.pc += [eq(z, ZERO), lt(z, n)]
            self.loop_stack.append(len(self.frames))
            self.loop_vars.append((z, n))
            try:
                self.assign(g.target, el(z), env)
                v0 = self.inst(self.eval(elt, env), z, ZERO)
            finally:
                self.loop_stack.pop()
                self.loop_vars.pop()
                del self.pc[npc:]
        if v0 is not None and not self.agree(v0, self.inst(v, i, ZERO)):
            raise Unsupported("comprehension whose first element differs")
        cond = and_(gi, *cs)
        if cond is TRUE:
            return SList(n, lambda j: self.inst(v, i, lift(j)), tag)
        if is_term(v):
            f = Filt(n, lambda r: subst(cond, {i: r}), lambda r: subst(v, {i: r}), kind_of(v))
            f.rest = ()
            f.aslist = True
            return f
        raise Unsupported("filtered comprehension")

    # ------------------------------------------------------------ operators
    def truth(self, v):
        if isinstance(v, Choice):
            v = self.read(v)
            if isinstance(v, Choice):
                return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, T):
            return v if v.sort == "B" else not_(eq(v, ZERO))
        if isinstance(v, (bool, int, float, str)) or v is None:
            return TRUE if v else FALSE
        if isinstance(v, PList):
            if v.items and v.items[-1] is SYM:
                return lt(ZERO, v.sym.n)
            return TRUE if v.items else FALSE
        if isinstance(v, SList):
            return lt(ZERO, v.n)
        if isinstance(v, Filt):
            if getattr(v, "aslist", False):
                return lt(ZERO, v.size())
            raise Unsupported("truth value of an array")
        if isinstance(v, PDict):
            return TRUE if v.d else FALSE
        if isinstance(v, Opq):
            return app("truth!" + v.tag, sort="B")
        if isinstance(v, Arr) and v.nd == 0:
            return self.truth(v.at())
        if isinstance(v, (Lib, Fn, Cls, Obj)):
            return TRUE
        raise Unsupported(f"truth value of {type(v).__name__}")

    def binop(self, op, a, b):
        from . import lib
        return lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        from . import lib
        if any(isinstance(x, str) and x == "<formatted>" for x in (a, b)):
            raise Unsupported("comparison of a formatted string")
        return lib.compare(self, op, a, b)

    def getitem(self, o, idx, check=True):
        from . import lib
        return lib.getitem(self, o, idx, check)

    def setitem(self, o, idx, v):
        from . import lib
        return lib.setitem(self, o, idx, v)


class Dead(Exception):
    """The current path raised."""


class Lazy:
    def __init__(self, it, mod, name):
        self.it, self.mod, self.name = it, mod, name

    def resolve(self):
        return self.it.get(f"{self.mod}.{self.name}")


class Spread:
    def __init__(self, v):
        self.v = v


class _Sym:
    def __repr__(self):
        return "<symbolic>"


SYM = _Sym()
UNDEF = object()
def some(c):
    """'The number of elements that .. is positive' as 'some element ..'."""
    if c.op == "not":
        return not_(some(c.args[0]))
    x = c.args[::-1] if c.op == "eq" and c.args[1] is ZERO else c.args
    if c.op in ("eq", "lt") and x[0] is ZERO and x[1].op == "sum":
        v, lo, hi, b = x[1].args
        if b.op == "ite" and b.args[1:] == (ONE, ZERO):
            e = ex_(lo, hi, lambda u: subst(b.args[0], {v: u}))
            return e if c.op == "lt" else not_(e)
    return c


import itertools as _it  # noqa: E402
_CT = _it.count()
BUILTINS = {"len", "range", "list", "tuple", "set", "dict", "zip", "enumerate", "map", "sum", "abs",
            "min", "max", "int", "float", "str", "bool", "sorted", "print", "isinstance", "hasattr",
            "getattr", "setattr", "super", "reversed", "any", "all", "round", "ValueError",
            "NotImplementedError", "True", "False", "None", "DeprecationWarning", "object"}


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
        return a == b
    return False


def same_state(x, y):
    if isinstance(x, tuple):
        return len(x) == len(y) and all(p is q or (not isinstance(p, T) and p == q)
                                        for p, q in zip(x, y))
    if isinstance(x, list):
        return len(x) == len(y) and all(same_val(p, q) for p, q in zip(x, y))
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same_val(x[k], y[k]) for k in x)
    return x is y
