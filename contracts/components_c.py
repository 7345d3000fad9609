"""Contracts of giddy.components: worklist algorithms, by loop invariants."""
import z3

from pyvc import hoare as H
from pyvc.hoare import And, Implies, Not, Or, forall, exists, N


def neighbours():
    """A weights object: w.neighbors[a] lists the units b with nb(a, b)."""
    nb = H.ffun("nb", N, N, z3.BoolSort())

    def get(e, st, a):
        return H.BagV(N, lambda b: nb(a, b))
    w = H.ObjV("W", {"neighbors": H.Fn(get)})
    return nb, w


def member_preserving(v0, v1):
    return forall([v0.sort], lambda x: v0.mem(x) == v1.mem(x))


class Contiguity:
    """ids: the remaining group; links stay inside it; the relation is symmetric."""

    def __init__(self, e, nb, ids):
        self.ids = ids
        self.adj = lambda a, b: And(ids(a), ids(b), nb(a, b))
        self.reach = H.Closure("reach", self.adj)
        e.axioms += self.reach.axioms
        e.axioms.append(forall([N, N], lambda a, b: nb(a, b) == nb(b, a), lambda a, b: [nb(a, b)]))
        r = self.reach
        # consequences of the definition, each an obligation
        tr = forall([N, N, N], lambda a, b, c: Implies(And(r(a, b), r(b, c)), r(a, c)), lambda a, b, c: [(r(a, b), r(b, c))])
        a0 = H.fresh("a", N)
        e.lemma("what is reached is reached by longer chains", [r.closed(lambda x: r(a0, x))],
                forall([N, N], lambda b, c: Implies(And(r(a0, b), r(b, c)), r(a0, c))))
        e.axioms.append(tr)
        e.lemma("chains can be followed backwards", [r.least(lambda a, b: r(b, a))],
                forall([N, N], lambda a, b: Implies(r(a, b), r(b, a))))
        e.axioms.append(forall([N, N], lambda a, b: Implies(r(a, b), r(b, a)), lambda a, b: [r(a, b)]))
        self.connected = forall([N, N], lambda a, b: Implies(And(ids(a), ids(b)), r(a, b)))


def C01(R):
    def component(e):
        nb, w = neighbours()
        ids = H.BagV(N, None)
        ids.havoc()
        K = Contiguity(e, nb, ids.mem)
        r, idm = K.reach, ids.mem
        M = lambda v: (lambda x: And(v.marks.dom(x), v.marks.val(x) != 0))

        def common(v, exc=lambda a, b: z3.BoolVal(False)):
            m, q, c = M(v), v.q.mem, v.components
            mq = lambda x: Or(m(x), q(x))
            return [
                ("no more than one component yet", And(c >= 0, c <= 1)),
                ("every unit has a mark", forall([N], lambda x: v.marks.dom(x) == idm(x))),
                ("queued units belong to the group", forall([N], lambda x: Implies(q(x), idm(x)))),
                ("units seen are connected", forall([N, N], lambda a, b: Implies(And(mq(a), mq(b)), r(a, b)))),
                ("the neighbours of a marked unit were seen", forall([N, N], lambda a, b: Implies(
                    And(m(a), K.adj(a, b)), Or(mq(b), exc(a, b))))),
                ("nothing is seen before the first unit", Implies(c == 0, forall([N], lambda x: Not(mq(x))))),
                ("one unit was seen", Implies(c == 1, exists([N], mq))),
                ("marks", forall([N], lambda x: Implies(m(x), v.marks.val(x) == c))),
                ("a unit is queued once, before it is marked", And(v.q.distinct, forall([N], lambda x: Not(And(m(x), q(x)))))),
            ]

        def outer(v):
            m = M(v)
            return common(v) + [
                ("the queue is empty", forall([N], lambda x: Not(v.q.mem(x)))),
                ("visited units are marked", forall([N], lambda x: Implies(v.done(x), m(x))))]

        def search(v):
            m, en = M(v), M(v.entry)
            return common(v) + [
                ("marks are kept", forall([N], lambda x: Implies(en(x), m(x)))),
                ("queued units are kept", forall([N], lambda x: Implies(v.entry.q.mem(x), Or(m(x), v.q.mem(x))))),
                ("a component was opened", v.components == 1),
            ]

        def others(v):
            m, nd = M(v), v.node
            same = forall([N], lambda x: And(v.marks.dom(x) == v.entry.marks.dom(x), v.marks.val(x) == v.entry.marks.val(x)))
            return common(v, lambda a, b: And(a == nd, Not(v.done(b)))) + [
                ("marks unchanged", same),
                ("queued units are kept", forall([N], lambda x: Implies(v.entry.q.mem(x), v.q.mem(x)))),
                ("neighbours visited so far were seen", forall([N], lambda b: Implies(v.done(b), Or(m(b), v.q.mem(b))))),
            ]
        search.grows = M
        for f, k in ((outer, "for"), (search, "while"), (others, "for")):
            f.kind = k
        e.loops["is_component"] = [outer, search, others]
        st = H.State({}, [])
        outs = e.run_function("is_component", st, [w, ids])
        for kind, s, v in outs:
            if kind == "raise":
                e.goal(s, False, "raises nothing")
                continue
            res = e.truth(s, v)
            m = s.env.get("marks")
            facts = []
            if isinstance(m, H.DictV):
                facts.append(K.reach.closed(lambda x: And(m.dom(x), m.val(x) != 0)))
            s.assume(*facts)
            e.goal(s, Implies(res, K.connected), "true only for a connected group")
            e.goal(s, Implies(Not(res), Not(K.connected)), "false only for a disconnected group")
            e.goal(s, member_preserving(H.BagV(N, idm), s.objects()[ids.uid]), "the group is unchanged")
    H.verify(R, "is_component", "components", component)

    def contiguity(e):
        nb, w = neighbours()
        group = H.BagV(N, None)
        group.havoc()
        group.distinct = z3.BoolVal(True)
        g0 = group.mem
        leaver = H.fresh("leaver", N)
        e.axioms.append(g0(leaver))
        rest = lambda x: And(g0(x), x != leaver)
        seen = []

        def contract(e, st, args, kw):
            a = H.deref(args[1] if len(args) > 1 else kw["ids"])
            e.goal(st, args[0] is w or args[0].uid == w.uid, "the weights are passed on")
            e.goal(st, forall([N], lambda x: a.mem(x) == rest(x)), "the group without the leaving unit is examined")
            r = H.fresh("contiguous", z3.BoolSort())
            seen.append(r)
            return r
        e.contracts["is_component"] = contract
        st = H.State({}, [])
        outs = e.run_function("check_contiguity", st, [w, group, leaver])
        for kind, s, v in outs:
            e.goal(s, e.truth(s, v) == seen[-1] if kind == "return" and seen else False,
                   "the answer is that of is_component on the remaining group")
            e.goal(s, member_preserving(H.BagV(N, g0), s.objects()[group.uid]), "the group is unchanged")
    H.verify(R, "check_contiguity", "components", contiguity)


def graph(e, undirected=True):
    """A graph built by add_edge: the edges of an undirected graph are stored in
    both directions, their ends are nodes."""
    g = H.ObjV("Graph")
    e.inline(H.State({}, []), e.funcs["Graph.__init__"], [g], {}, "Graph.__init__")
    nodes, edges = H.SetV(N, None), H.NestV(None, None, None)
    nodes.havoc()
    edges.havoc()
    look = H.DictV(N, None, None, H.Val)
    look.havoc()
    g.f.update(nodes=nodes, edges=edges, cluster_lookup=look, undirected=undirected)
    e.axioms += wellformed(nodes, edges)
    return g, nodes, edges


def wellformed(nodes, edges, sym=True):
    i, v = edges.inn, edges.val
    return [forall([N, N], lambda a, b: Implies(i(a, b), And(nodes.mem(a), nodes.mem(b)))),
            forall([N, N], lambda a, b: Implies(i(a, b), And(i(b, a), v(a, b) == v(b, a))))][:2 if sym else 1]


def links(e, edges, th):
    opf = H.ffun("op", z3.RealSort(), z3.RealSort(), z3.BoolSort())
    i, v = edges.inn, edges.val
    return opf, (lambda a, b: And(i(a, b), opf(v(a, b), th)))


def same_graph(s, g, nodes0, edges0):
    o = s.objects()[g.uid]
    n, d = H.deref(o.f["nodes"]), H.deref(o.f["edges"])
    return And(forall([N], lambda x: n.mem(x) == nodes0[0](x)),
               forall([N, N], lambda x, y: And(d.inn(x, y) == edges0[0](x, y), Implies(d.inn(x, y), d.val(x, y) == edges0[1](x, y)))))


def C02(R):
    B = z3.BoolVal

    def search(e):
        g, nodes, edges = graph(e)
        th = H.fresh("threshold", z3.RealSort())
        op, link = links(e, edges, th)
        r = H.Closure("reach", link)
        e.axioms += r.axioms
        v0 = H.fresh("v", N)
        vis = H.SetV(N, None)
        vis.havoc()
        V0 = vis.mem
        e.axioms.append(Not(V0(v0)))

        def common(v, exc=lambda a, b: B(False), todo=None):
            a, s, vs = v.aux.mem, v.stack.mem, v.visited.mem
            return [
                ("visited: what was visited before, and the component", forall([N], lambda x: vs(x) == Or(V0(x), a(x)))),
                ("the component was not visited before", forall([N], lambda x: Implies(a(x), Not(V0(x))))),
                ("the start belongs to the component", a(v0)),
                ("stacked nodes belong to the component", forall([N], lambda x: Implies(s(x), a(x)))),
                ("the component is reached from the start", forall([N], lambda x: Implies(a(x), r(v0, x)))),
                ("the links of nodes off the stack were followed", forall([N, N], lambda x, y: Implies(
                    And(a(x), link(x, y)), Or(s(x), vs(y), exc(x, y))))),
                ("a node is stacked once", v.stack.distinct),
            ]

        def whole(v):
            return common(v)

        def items(v):
            nd = v.node
            return common(v, lambda x, y: And(x == nd, Not(v.done(y)))) + [
                ("the node belongs to the component, off the stack", And(v.aux.mem(nd), Not(v.stack.mem(nd)))),
                ("nodes off the stack stay off", forall([N], lambda x: Implies(
                    And(v.entry.aux.mem(x), Not(v.entry.stack.mem(x))), And(v.aux.mem(x), Not(v.stack.mem(x)))))),
                ("links followed so far", forall([N], lambda y: Implies(And(v.done(y), link(nd, y)), v.visited.mem(y))))]
        whole.grows = lambda v: (lambda x: And(v.aux.mem(x), Not(v.stack.mem(x))))
        whole.kind, items.kind = "while", "for"
        e.loops["Graph.dfs"] = [whole, items]
        st = H.State({}, [])
        keep = (nodes.mem,), (edges.inn, edges.val)
        for kind, s, res in e.run_function("Graph.dfs", st, [g, v0, vis, th, op]):
            if kind != "return" or not isinstance(res, tuple) or len(res) != 2:
                e.goal(s, False, "returns the component and the visited nodes")
                continue
            aux, visited = [H.deref(x) for x in res]
            e.goal(s, forall([N], lambda x: visited.mem(x) == Or(V0(x), aux.mem(x))), "visited: what was visited before, and the component")
            e.goal(s, forall([N], lambda x: Implies(aux.mem(x), Not(V0(x)))), "the component was not visited before")
            e.goal(s, aux.mem(v0), "the start belongs to it")
            e.goal(s, forall([N], lambda x: Implies(aux.mem(x), r(v0, x))), "all of it is reached from the start")
            e.goal(s, forall([N, N], lambda x, y: Implies(And(aux.mem(x), link(x, y)), visited.mem(y))), "its links lead to visited nodes")
            e.goal(s, same_graph(s, g, *keep), "the graph is unchanged")
    H.verify(R, "Graph.dfs", "components", search)

    def components(e):
        g, nodes, edges = graph(e)
        th = H.fresh("threshold", z3.RealSort())
        op, link = links(e, edges, th)
        r = H.Closure("reach", link)
        e.axioms += r.axioms
        nm, em, ev = nodes.mem, edges.inn, edges.val
        a0 = H.fresh("a", N)
        e.lemma("what is reached is reached by longer chains", [r.closed(lambda x: r(a0, x))],
                forall([N, N], lambda b, c: Implies(And(r(a0, b), r(b, c)), r(a0, c))))
        e.axioms.append(forall([N, N, N], lambda a, b, c: Implies(And(r(a, b), r(b, c)), r(a, c)), lambda a, b, c: [(r(a, b), r(b, c))]))
        e.lemma("chains can be followed backwards", [r.least(lambda a, b: r(b, a))],
                forall([N, N], lambda a, b: Implies(r(a, b), r(b, a))))
        e.axioms.append(forall([N, N], lambda a, b: Implies(r(a, b), r(b, a)), lambda a, b: [r(a, b)]))
        e.axioms.append(r.closed(nm))

        def dfs(e, st, args, kw):
            """the contract of Graph.dfs, proved above"""
            names = ["self", "v", "visited", "threshold", "op", "first"]
            a = {**dict(zip(names, args)), **kw}
            e.goal(st, a["self"].uid == g.uid and same_graph(st, g, (nm,), (em, ev)), "dfs: the graph itself is searched")
            e.goal(st, a["threshold"] is th or H.zz(a["threshold"]) == th, "dfs: with the threshold")
            e.goal(st, a.get("op") is op, "dfs: with the comparison")
            vis = H.deref(a["visited"])
            if isinstance(vis, H.Untyped):
                raise H.Unsupported("visited is not a set")
            V0, v = vis.mem, a["v"]
            e.goal(st, Not(V0(v)), "dfs: the start was not visited")
            aux, new = H.BagV(N, None), H.SetV(N, None)
            aux.havoc()
            new.havoc()
            st.assume(forall([N], lambda x: new.mem(x) == Or(V0(x), aux.mem(x))),
                      forall([N], lambda x: Implies(aux.mem(x), Not(V0(x)))), aux.mem(v),
                      forall([N], lambda x: Implies(aux.mem(x), r(v, x))),
                      forall([N, N], lambda x, y: Implies(And(aux.mem(x), link(x, y)), new.mem(y))))
            vis.touch()
            vis.mem = gone
            # the component is closed under links where the visited nodes are
            am = aux.mem
            st.assume(r.closed(am))
            return (aux, new)

        def gone(x):
            raise H.Unsupported("the visited set handed to dfs is used again")
        e.contracts["Graph.dfs"] = dfs

        def append(e, st, bag, o):
            """One component: the class of the relation 'linked by a chain'."""
            if o.cls != "Graph":
                raise H.Unsupported("component of another type")
            c, d = H.deref(o.f["nodes"]), H.deref(o.f["edges"])
            if isinstance(d, H.Untyped):
                d = H.NestV(lambda x: B(False), lambda x, y: B(False), lambda x, y: z3.RealVal(0))
            cov = bag.cov
            e.goal(st, exists([N], c.mem), "a component is not empty")
            e.goal(st, forall([N], lambda x: Implies(c.mem(x), nm(x))), "it consists of nodes of the graph")
            e.goal(st, forall([N, N], lambda x, y: Implies(And(c.mem(x), nm(y)), c.mem(y) == r(x, y))),
                   "it holds exactly the nodes linked to its own by a chain")
            e.goal(st, forall([N], lambda x: Implies(c.mem(x), Not(cov(x)))), "its nodes are in no other component")
            e.goal(st, forall([N, N], lambda x, y: d.inn(x, y) == And(c.mem(x), c.mem(y), em(x, y))),
                   "it carries exactly the edges whose two ends it contains")
            e.goal(st, forall([N, N], lambda x, y: Implies(d.inn(x, y), d.val(x, y) == ev(x, y))), "with their weights")
            cm = c.mem
            bag.cov = lambda x: Or(cov(x), cm(x))
            for q in (o, o.f["nodes"], c, o.f["edges"], d):
                q.frozen = True
        e.on_append = append

        def cover(v):
            b = v.components
            return b.cov if isinstance(b, H.ObjBag) else lambda x: B(False)

        def whole(v):
            vs, nd, cov = v.visited.mem, v.nodes.mem, cover(v)
            return [("each node is visited or still to be visited", forall([N], lambda x: nm(x) == Or(vs(x), nd(x)))),
                    ("not both", forall([N], lambda x: Not(And(vs(x), nd(x))))),
                    ("links of visited nodes lead to visited nodes", forall([N, N], lambda x, y: Implies(And(vs(x), link(x, y)), vs(y)))),
                    ("the components cover the visited nodes", forall([N], lambda x: cov(x) == vs(x)))]

        def dropping(v):
            nd, n0 = v.nodes.mem, v.entry.nodes.mem
            return [("nodes of the component are dropped", forall([N], lambda x: nd(x) == And(n0(x), Not(v.done(x)))))]

        def sub(v):
            return H.deref(v.subgraph.f["edges"]) if not isinstance(H.deref(v.subgraph.f["edges"]), H.Untyped) else \
                H.NestV(lambda x: B(False), lambda x, y: B(False), lambda x, y: z3.RealVal(0))

        def copying(v):
            d, c = sub(v), H.deref(v.subgraph.f["nodes"]).mem
            return [("edges of the nodes done", forall([N, N], lambda x, y: d.inn(x, y) == And(v.done(x), c(x), c(y), em(x, y)))),
                    ("their weights", forall([N, N], lambda x, y: Implies(d.inn(x, y), d.val(x, y) == ev(x, y))))]

        def row(v):
            d, d0, c, s = sub(v), sub(v.entry), H.deref(v.subgraph.f["nodes"]).mem, v.s
            return [("edges of the node done so far", forall([N, N], lambda x, y: d.inn(x, y) == Or(
                        d0.inn(x, y), And(x == s, v.done(y), c(y), em(x, y))))),
                    ("their weights", forall([N, N], lambda x, y: Implies(d.inn(x, y), d.val(x, y) == ev(x, y))))]
        whole.grows = lambda v: v.visited.mem
        for f, k in ((whole, "while"), (dropping, "for"), (copying, "for"), (row, "for")):
            f.kind = k
        e.loops["Graph.connected_components"] = [whole, dropping, copying, row]
        st = H.State({}, [])
        for kind, s, res in e.run_function("Graph.connected_components", st, [g], {"threshold": th, "op": op}):
            res = H.deref(res) if kind == "return" else None
            if isinstance(res, H.Untyped):
                cov = lambda x: B(False)
            elif isinstance(res, H.ObjBag):
                cov = res.cov
            else:
                e.goal(s, False, "a list of components is returned")
                continue
            e.goal(s, forall([N], lambda x: cov(x) == nm(x)), "the components cover the graph")
            e.goal(s, same_graph(s, g, (nm,), (em, ev)), "the graph is unchanged")
    H.verify(R, "Graph.connected_components", "components", components)

    def directed(e):
        g, nodes, edges = graph(e, False)
        th = H.fresh("threshold", z3.RealSort())
        op, link = links(e, edges, th)
        for kind, s, res in e.run_function("Graph.connected_components", H.State({}, []), [g], {"threshold": th, "op": op}):
            e.goal(s, kind == "return" and res is None, "a directed graph yields nothing")
    H.verify(R, "Graph.connected_components of a directed graph", "components", directed)

    def adding(und):
        def go(e):
            g, nodes, edges = graph(e, und)
            e.axioms = wellformed(nodes, edges, und)
            nm, em, ev = nodes.mem, edges.inn, edges.val
            a, b, wt = H.fresh("a", N), H.fresh("b", N), H.fresh("w", z3.RealSort())
            for kind, s, res in e.run_function("Graph.add_edge", H.State({}, []), [g, a, b, wt]):
                o = s.objects()[g.uid]
                n, d = H.deref(o.f["nodes"]), H.deref(o.f["edges"])
                new = lambda x, y: Or(And(x == a, y == b), And(x == b, y == a) if und else B(False))
                e.goal(s, forall([N], lambda x: n.mem(x) == Or(nm(x), x == a, x == b)), "the ends are nodes")
                e.goal(s, forall([N, N], lambda x, y: d.inn(x, y) == Or(em(x, y), new(x, y))), "the edge is stored")
                e.goal(s, forall([N, N], lambda x, y: Implies(d.inn(x, y), d.val(x, y) == z3.If(new(x, y), wt, ev(x, y)))), "with its weight, the others kept")
                for f in wellformed(n, d, und):
                    e.goal(s, f, "the graph stays well formed")
        return go
    H.verify(R, "Graph.add_edge (undirected)", "components", adding(True))
    H.verify(R, "Graph.add_edge (directed)", "components", adding(False))

    def empty(e):
        g = H.ObjV("Graph")
        st = H.State({"@g": g}, [])
        for kind, s, res in e.run_function("Graph.__init__", st, [g]):
            o = s.objects()[g.uid]
            n, d = H.deref(o.f["nodes"]), H.deref(o.f["edges"])
            e.goal(s, (isinstance(d, H.Untyped) and d.kind == "dict") and n.empty(), "a new graph is empty")
            e.goal(s, e.truth(s, o.f["undirected"]), "and undirected")
    H.verify(R, "Graph.__init__", "components", empty)
