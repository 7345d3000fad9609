"""Contract of LISA_Markov.spillover, by loop invariants."""
import z3

from pyvc import hoare as H
from pyvc.hoare import And, Implies, Not, Or, forall, exists, N

Z = z3.IntSort()


class Panel:
    """A fitted LISA_Markov: quadrants, p-values, weights."""

    def __init__(self, e, on):
        self.n, self.k = z3.Int("n"), z3.Int("k")
        n, k = self.n, self.k
        qf, pf = H.ffun("q", Z, Z, Z), H.ffun("p", Z, Z, z3.RealSort())
        self.quadrant, self.level = z3.Int("quadrant"), z3.Real("level")
        ids, nb, i2 = H.ffun("id", N, z3.BoolSort()), H.ffun("nb", N, N, z3.BoolSort()), H.ffun("id2i", N, Z)
        self.ids, self.nb, self.i2 = ids, nb, i2
        e.axioms += [
            n >= 1, k >= 2,
            forall([N, N], lambda a, b: Implies(nb(a, b), And(ids(a), ids(b))), lambda a, b: [nb(a, b)]),
            forall([N], lambda a: Implies(ids(a), And(0 <= i2(a), i2(a) < n)), lambda a: [i2(a)]),
            forall([N, N], lambda a, b: Implies(And(ids(a), ids(b), i2(a) == i2(b)), a == b), lambda a, b: [(i2(a), i2(b))]),
            forall([Z], lambda i: Implies(And(0 <= i, i < n), exists([N], lambda a: And(ids(a), i2(a) == i)))),
        ]
        self.sig = lambda t, a: And(ids(a), qf(i2(a), t) == self.quadrant, pf(i2(a), t) <= self.level)
        one = lambda t, a, b: And(self.sig(t, a), nb(a, b))
        two = lambda t, b, c: exists([N], lambda a: And(self.sig(t, a), nb(a, b), nb(b, c)))
        self.one, self.two = one, two
        E = H.ffun("linked", Z, N, N, z3.BoolSort())  # the links of a period
        self.E = E
        body = lambda t, x, y: Or(one(t, x, y), one(t, y, x), *([two(t, x, y), two(t, y, x)] if on else []))
        e.axioms.append(forall([Z, N, N], lambda t, x, y: E(t, x, y) == body(t, x, y), lambda t, x, y: [E(t, x, y)]))
        V = H.ffun("clustered", Z, N, z3.BoolSort())
        self.V = V
        e.axioms += [
            forall([Z, N], lambda t, x: Implies(V(t, x), exists([N], lambda y: E(t, x, y))), lambda t, x: [V(t, x)]),
            forall([Z, N, N], lambda t, x, y: Implies(E(t, x, y), And(V(t, x), V(t, y))), lambda t, x, y: [E(t, x, y)])]
        self.R = H.ffun("chain", Z, N, N, z3.BoolSort())  # linked by a chain of links of the period
        self.define_joined(e)
        nbs = H.DictV(N, lambda a: ids(a), lambda a: H.BagV(N, lambda b: nb(a, b)))
        self.w = H.ObjV("W", {"neighbors": nbs, "id2i": H.DictV(N, lambda a: ids(a), lambda a: i2(a), Z)})
        self.perms = z3.Int("permutations")
        self.obj = H.ObjV("LISA_Markov", {
            "q": H.Grid((n, k), lambda i, j: qf(i, j), Z), "p_values": H.Grid((n, k), lambda i, j: pf(i, j), z3.RealSort()),
            "w": self.w, "permutations": self.perms, "significance_level": self.level})

    def define_joined(self, e):
        """joined(t, x), "x is marked as spill-over in period t": x is in a cluster of
        t + 1, in none of t, and its cluster of t + 1 holds a unit y clustered in t."""
        V, R = self.V, self.R
        J, wit = H.ffun("joined", Z, N, z3.BoolSort()), H.ffun("witness", Z, N, N)
        self.joined = lambda t, x: J(t, x)
        e.axioms += [
            forall([Z, N], lambda t, x: Implies(J(t, x), And(
                V(t + 1, x), Not(V(t, x)), V(t + 1, wit(t, x)), R(t + 1, x, wit(t, x)), V(t, wit(t, x)))), lambda t, x: [J(t, x)]),
            forall([Z, Z, N, N], lambda t, u, x, y: Implies(And(
                u == t + 1, V(u, x), Not(V(t, x)), V(u, y), R(u, x, y), V(t, y)), J(t, x)), lambda t, u, x, y: [(R(u, x, y), V(t, y))])]


def L02(R):
    def run(on):
        def go(e):
            P = Panel(e, on)
            E, V, ids, i2, n, k, nb, chain = P.E, P.V, P.ids, P.i2, P.n, P.k, P.nb, P.R
            B = z3.BoolVal

            def components(e, st, args, kw):
                """the contract of Graph.connected_components (property C02), on the
                graph of a period"""
                names = ["self", "threshold", "op"]
                a = {**dict(zip(names, args)), **kw}
                g, th, op = a["self"], a.get("threshold", 0.9), a.get("op", "lt")
                test = {"_operator.gt": lambda w: w > H.real(th), "operator.gt": lambda w: w > H.real(th),
                        "operator.lt": lambda w: w < H.real(th), "lt": lambda w: w < H.real(th),
                        "operator.ge": lambda w: w >= H.real(th), "operator.le": lambda w: w <= H.real(th)}.get(
                            e.imports.get(op[1], op[1]) if isinstance(op, tuple) else op)
                if test is None:
                    raise H.Unsupported("comparison passed to connected_components")
                nodes, edges = H.deref(g.f["nodes"]), H.deref(g.f["edges"])
                if isinstance(edges, H.Untyped):
                    edges = H.NestV(lambda x: B(False), lambda x, y: B(False), lambda x, y: z3.RealVal(0))
                for j, f in enumerate(wellformed(nodes, edges)):
                    e.goal(st, f, f"connected_components: the graph is well formed ({j + 1})")
                e.goal(st, e.truth(st, g.f["undirected"]), "connected_components: the graph is undirected")
                link = lambda x, y: And(edges.inn(x, y), test(edges.val(x, y)))
                r = H.Closure("reach", link)
                m, idx, nm = H.fresh("clusters", Z), H.ffun("cluster", N, Z), nodes.mem
                st.assume(m >= 0, forall([N], lambda x: Implies(nm(x), And(0 <= idx(x), idx(x) < m)), lambda x: [idx(x)]),
                          forall([N, N], lambda x, y: Implies(And(nm(x), nm(y)), (idx(x) == idx(y)) == r(x, y)), lambda x, y: [(idx(x), idx(y))]))
                t = H.zz(st.env["t"])
                # the graph is that of this period or of the next
                which = [u for u in (t, t + 1) if e.entails(st, forall([N, N], lambda x, y: link(x, y) == E(u, x, y)))][:1]
                e.goal(st, B(bool(which)), "the links of the graph are those of a period")
                for u in which:
                    # equal links have equal chains
                    st.assume(forall([N, N], lambda x, y: r(x, y) == chain(u, x, y), lambda x, y: [r(x, y), chain(u, x, y)]))
                    inn, own = edges.inn, forall([N], lambda x: nm(x) == V(u, x))
                    same = forall([N, N], lambda x, y: inn(x, y) == E(u, x, y), lambda x, y: [inn(x, y), E(u, x, y)])
                    ends = forall([N], lambda x: nm(x) == exists([N], lambda y: inn(x, y)), lambda x: [nm(x)])
                    if e.entails(st, same) and e.entails(st, ends) and e.entails(H.State({}, [same, ends]), own):
                        e.goal(H.State({}, [same, ends]), own, "the nodes of the graph are the clustered units of the period")
                        nm = lambda x: V(u, x)  # noqa: E731
                        st.assume(forall([N, N], lambda x, y: Implies(And(V(u, x), V(u, y)), (idx(x) == idx(y)) == chain(u, x, y)),
                                         lambda x, y: [(idx(x), idx(y)), chain(u, x, y)]))
                        st.assume(forall([N], lambda x: Implies(V(u, x), And(0 <= idx(x), idx(x) < m)), lambda x: [V(u, x)]))

                def at(c):
                    return H.ObjV("Graph", {"nodes": H.SetV(N, lambda x: And(nm(x), idx(x) == c))})
                return H.Lazy(m, at, (nm, idx))
            e.contracts["Graph.connected_components"] = components
            z_ = lambda v: H.zz(v)

            def period(v, which):
                return v.t + which

            # ---- i2id
            def index(v):
                d = v.i2id
                dom, val = (d.dom, d.val) if isinstance(d, H.DictV) else ((lambda i: B(False)), None)
                out = [("positions of the units seen", forall([N], lambda a: Implies(v.done(a), dom(i2(a)))))]
                if val is not None:
                    out.append(("each position names its unit", forall([Z], lambda i: Implies(dom(i), And(ids(val(i)), i2(val(i)) == i)))))
                return out

            # ---- building the graph of a period; g: variable, s: the significant units
            def edges(v, g):
                o = getattr(v, g)
                d, nd = H.deref(o.f["edges"]), H.deref(o.f["nodes"])
                if isinstance(d, H.Untyped):
                    d = H.NestV(lambda x: B(False), lambda x, y: B(False), lambda x, y: z3.RealVal(0))
                return d.inn, d.val, nd.mem

            def shape(v, g, has):
                i, w, nm = edges(v, g)
                return [("the links so far", forall([N, N], lambda x, y: i(x, y) == Or(has(x, y), has(y, x)))),
                        ("their weights", forall([N, N], lambda x, y: Implies(i(x, y), w(x, y) == 1))),
                        ("their ends", forall([N], lambda x: nm(x) == exists([N], lambda y: i(x, y))))]

            def units(g):
                def inv(v):
                    dn = lambda a: And(ids(a), v.done(i2(a)))
                    has = lambda x, y: Or(And(dn(x), nb(x, y)), *([exists([N], lambda a: And(dn(a), nb(a, x), nb(x, y)))] if on else []))
                    return shape(v, g, has)
                inv.kind = "for"
                return inv

            def outer(g, v):
                """links of the units done before the current one: what the graph held"""
                return edges(v.entry, g)

            def around(g):
                def inv(v):
                    i0, w0, n0 = outer(g, v)
                    me = H.deref(v.i2id).val(v.i)
                    new = lambda x, y: And(x == me, v.done(y))
                    far = lambda x, y: And(v.done(x), nb(x, y)) if on else B(False)
                    i, w, nm = edges(v, g)
                    return [("the links so far", forall([N, N], lambda x, y: i(x, y) == Or(
                                i0(x, y), new(x, y), new(y, x), far(x, y), far(y, x)))),
                            ("their weights", forall([N, N], lambda x, y: Implies(i(x, y), w(x, y) == 1))),
                            ("their ends", forall([N], lambda x: nm(x) == exists([N], lambda y: i(x, y))))]
                inv.kind = "for"
                return inv

            def second(g):
                def inv(v):
                    i0, w0, n0 = outer(g, v)
                    new = lambda x, y: And(x == v.neighbor, v.done(y))
                    i, w, nm = edges(v, g)
                    return [("the links so far", forall([N, N], lambda x, y: i(x, y) == Or(i0(x, y), new(x, y), new(y, x)))),
                            ("their weights", forall([N, N], lambda x, y: Implies(i(x, y), w(x, y) == 1))),
                            ("their ends", forall([N], lambda x: nm(x) == exists([N], lambda y: i(x, y))))]
                inv.kind = "for"
                return inv

            def gather(c, comps):
                def inv(v):
                    m = getattr(v, c).mem
                    L = getattr(v, comps)
                    if isinstance(L, H.Lazy) and L.tag:
                        nm, idx = L.tag
                        return [("members of the clusters so far", forall([N], lambda x: m(x) == And(nm(x), idx(x) < v.it)))]
                    return [("members of the clusters so far", forall([N], lambda x: m(x) == exists(
                        [Z], lambda j: And(0 <= j, j < v.it, L.at(j).mem(x)))))]
                inv.kind = "for"
                return inv

            def spill(v):
                m = v.spill_ids.mem
                c1 = v.c1.mem
                return [("spill-over so far", forall([N], lambda x: m(x) == And(v.done(x), P.joined(v.t, x))))]

            def member(v):
                return [("no member belonged to a cluster before", forall([N], lambda x: Implies(v.done(x), Not(v.c1.mem(x))))),
                        ("nothing found yet", forall([N], lambda x: v.spill_ids.mem(x) == v.entry.spill_ids.mem(x)))]

            def mark(v):
                so, s0 = v.spill_over.at, v.entry.spill_over.at
                return [("marks so far", forall([Z, Z], lambda a, u: so(a, u) == z3.If(And(u == v.t, exists(
                    [N], lambda x: And(v.done(x), i2(x) == a))), 1, s0(a, u))))]

            def labels(comps, which):
                def col(v):
                    return v.t if which == 0 else k - 1

                def inv(v):
                    cm, c0, L = v.components.at, v.entry.components.at, getattr(v, comps)
                    if isinstance(L, H.Lazy) and L.tag:
                        nm, idx = L.tag
                        return [("labels so far", forall([N], lambda x: Implies(ids(x), cm(i2(x), col(v)) == z3.If(
                                    And(nm(x), idx(x) < v.it), H.real(idx(x)) + 1, c0(i2(x), col(v)))))),
                                ("other periods", forall([Z, Z], lambda a, u: Implies(u != col(v), cm(a, u) == c0(a, u))))]
                    return [("labels so far", forall([N], lambda x: Implies(ids(x), And(
                                forall([Z], lambda j: Implies(And(0 <= j, j < v.it, L.at(j).mem(x)), cm(i2(x), col(v)) == j + 1)),
                                Implies(Not(exists([Z], lambda j: And(0 <= j, j < v.it, L.at(j).mem(x)))), cm(i2(x), col(v)) == c0(i2(x), col(v))))))),
                            ("other periods", forall([Z, Z], lambda a, u: Implies(u != col(v), cm(a, u) == c0(a, u))))]

                def inner(v):
                    cm, c0 = v.components.at, v.entry.components.at
                    return [("labels so far", forall([N], lambda x: Implies(ids(x), cm(i2(x), col(v)) == z3.If(
                                v.done(x), H.real(v.c) + 1, c0(i2(x), col(v)))))),
                            ("other periods", forall([Z, Z], lambda a, u: Implies(u != col(v), cm(a, u) == c0(a, u))))]
                inv.kind = inner.kind = "for"
                return [inv, inner]

            def good(cm, u):
                return [forall([N], lambda x: Implies(ids(x), (cm(i2(x), u) != 0) == V(u, x))),
                        forall([N, N], lambda x, y: Implies(And(V(u, x), V(u, y)), (cm(i2(x), u) == cm(i2(y), u)) == chain(u, x, y)))]

            def periods(v):
                cm, so, t = v.components.at, v.spill_over.at, v.it
                pu = lambda f: forall([Z], lambda u: Implies(And(0 <= u, Or(u < t, And(t == k - 1, u == t))), f(u)))
                past = lambda u: And(0 <= u, Or(u < t, And(t == k - 1, u == t)))
                return [("labels are 0 outside clusters", forall([Z, N], lambda u, x: Implies(And(past(u), ids(x)), (cm(i2(x), u) != 0) == V(u, x)))),
                        ("labels tell clusters apart", forall([Z, N, N], lambda u, x, y: Implies(And(past(u), V(u, x), V(u, y)), (
                            cm(i2(x), u) == cm(i2(y), u)) == chain(u, x, y)))),
                        ("later periods are untouched", forall([Z, Z], lambda a, u: Implies(And(Not(past(u)), 0 <= a, a < n, 0 <= u, u < k), cm(a, u) == 0))),
                        ("spill-over so far", forall([Z, N], lambda u, x: Implies(And(0 <= u, u < k - 1, ids(x)), so(i2(x), u) == z3.If(
                            And(u < t, P.joined(u, x)), z3.RealVal(1), z3.RealVal(0)))))]
            for f in (index, periods, spill, member, mark):
                f.kind = "for"
            build = lambda g: [units(g), around(g), second(g)]
            e.loops["LISA_Markov.spillover"] = [index, periods] + build("g1") + build("g2") + [
                gather("c2", "components2"), gather("c1", "components1"), spill, member, mark] + labels(
                    "components1", 0) + labels("components2", 1)
            st = H.State({}, [])

            def versions(o):
                d = {nm: H.deref(v) for nm, v in o.f.items()}
                return {nm: (type(v), v.ver) if hasattr(v, "ver") else v for nm, v in d.items() if not isinstance(v, H.ObjV)} | {
                    (nm, x): y for nm, v in d.items() if isinstance(v, H.ObjV) for x, y in versions(v).items()}
            v0 = versions(P.obj)

            def samev(a, b):
                return a.eq(b) if H.is_z(a) and H.is_z(b) else a == b
            for kind, s, res in e.run_function("LISA_Markov.spillover", st, [P.obj], {"quadrant": P.quadrant, "neighbors_on": on}):
                v1 = versions(s.objects()[P.obj.uid])
                e.goal(s, B(v1.keys() == v0.keys() and all(samev(v1[x], v0[x]) for x in v0)), "the object and its weights are not changed", "frame")
                if kind == "raise":
                    e.goal(s, False, "raises nothing")
                    continue
                if res is None:
                    e.goal(s, P.perms == 0, "nothing is returned only without permutations")
                    continue
                e.goal(s, P.perms != 0, "without permutations nothing is returned")
                res = H.deref(res)
                f = {kk: H.deref(x) for kk, x in res.f.items()} if isinstance(res, H.ObjV) else {}
                if isinstance(res, H.DictV):
                    f = {}
                if not all(isinstance(f.get(x), H.Grid) for x in ("components", "spill_over")):
                    e.goal(s, False, "components and spill_over are returned")
                    continue
                cm, so = f["components"], f["spill_over"]
                e.goal(s, And(cm.shape[0] == n, cm.shape[1] == k, so.shape[0] == n, so.shape[1] == k - 1), "shapes")
                u = H.fresh("u", Z)
                s.assume(0 <= u, u < k)
                for nm, g in zip(("labels are 0 exactly outside the clusters", "two units share a label exactly when a chain of links joins them"), good(cm.at, u)):
                    e.goal(s, g, nm)
                e.goal(s, Implies(u < k - 1, forall([N], lambda x: Implies(ids(x), so.at(i2(x), u) == z3.If(
                    P.joined(u, x), z3.RealVal(1), z3.RealVal(0))))), "spill-over exactly where a new member joins a cluster of this period")
        return go
    H.verify(R, "spillover, neighbours only", "markov", run(False), ["components"])
    H.verify(R, "spillover, neighbours of neighbours too", "markov", run(True), ["components"])


from contracts.components_c import wellformed  # noqa: E402
