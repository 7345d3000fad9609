"""Contracts of giddy.plotting: the table, its labels and the random state."""
from contracts._common import *

QUADRANT = {0: "ns", 1: "HH", 2: "LH", 3: "LL", 4: "HL"}  # esda's q


def codes(s, name, n, p):
    """A local Moran result; its cluster codes."""
    q = s.fn("q" + name, sort="I", facts=lambda u: [le(ONE, app("q" + name, u, sort="I")), le(app("q" + name, u, sort="I"), num(4))],
             sample=lambda m, u: m.rng.randrange(1, 5))
    ps = s.fn("ps" + name, sample=lambda m, u: m.rng.choice([0, Fraction(1, 100), 0.05, Fraction(1, 10), 1]))
    o = Obj("Moran_Local", {"q": Arr((n,), q, "i"), "p_sim": Arr((n,), ps, "f")})
    return o, lambda u: ite(lt(ps(u), p), q(u), ZERO)


def results(s, level, own=False):
    n = s.size("n")
    p = s.real("p", [Fraction(1, 100), 0.05, Fraction(1, 10), 1]) if level else num(0.05)
    start, cs = codes(s, "s", n, p)
    end, ce = codes(s, "e", n, p)
    cell = lambda a, b: sum_(ZERO, n, lambda u: mul(iv(eq(cs(u), a)), iv(eq(ce(u), b))))
    if not own:
        # the callee's contract (its own case)
        def spots(it, m, p_=0.05):
            if m is not start and m is not end:
                raise Unsupported("the codes of other results")
            s.goal("the codes are those of the chosen level", eq(lift(scalar(p_)), p))
            code = cs if m is start else ce
            return Arr((n,), code, "i")
        s.it.contracts["plotting._moran_hot_cold_spots"] = lambda it, moran_loc, p=0.05: spots(it, moran_loc, p)
        for nm, code in (("cs", cs), ("ce", ce)):
            s.define(nm, (n,), code, sort="I", lemmas=lambda u, nm=nm: [le(ZERO, app(nm, u, sort="I")), le(app(nm, u, sort="I"), num(4))])
        cs, ce = [lambda u, nm=nm: app(nm, u, sort="I") for nm in ("cs", "ce")]
    return n, p, start, end, cs, ce, cell


def counts(s, t, cell):
    t = lib.to_arr(s.it, t).copy()
    s.goal("5 by 5 cells", len(t.shape) == 2 and and_(*[eq(x, num(5)) for x in t.shape]))
    for a in range(5):
        for b in range(5):
            s.goal(f"cell {a},{b}: the units with that start and that end code", eq(t.at(num(a), num(b)), cell(num(a), num(b))))


def P01(R):
    def spots(s, level=True):
        n, p, start, end, cs, ce, cell = results(s, level, True)
        snap = s.snapshot(start.attrs["q"], start.attrs["p_sim"])
        r = s.call("plotting._moran_hot_cold_spots", start, **({"p": p} if level else {}))
        s.equal("the code: the quadrant where significant, else 0", r, (n,), cs)
        s.unchanged("the results are unchanged", snap)
    R.case("codes", spots)
    R.case("codes, default level", lambda s: spots(s, False))

    def table(s, level=True):
        n, p, start, end, cs, ce, cell = results(s, level)
        snap = s.snapshot(*[o.attrs[k] for o in (start, end) for k in ("q", "p_sim")])
        kw = {"p": p} if level else {}
        r = s.call("plotting._dynamic_lisa_heatmap_data", start, end, **kw)
        t, mask = [lib.getitem(s.it, r, [i]) for i in range(2)]
        counts(s, t, cell)
        s.goal("counts are integers", lib.to_arr(s.it, t).kind == "i")
        s.equal("mask: the diagonal", mask, (5, 5), lambda a, b: eq(a, b))
        # every unit is in one cell
        u = fresh("u")
        s.goal("every unit is counted once", eq(add(ZERO, *[mul(iv(eq(cs(u), num(a))), iv(eq(ce(u), num(b)))) for a in range(5) for b in range(5)]),
                                                ONE), le(ZERO, u), lt(u, n))
        s.unchanged("the results are unchanged", snap)
    R.case("table", table)
    R.case("table, default level", lambda s: table(s, False))

    def draw(q, level, s):
        n, p, start, end, cs, ce, cell = results(s, level)
        drawn, named = [], {}
        ax = Obj("Axes", {f: Lib("Axes." + f) for f in ("set_xlabel", "set_ylabel", "get_figure")})
        s.it.hooks["call:Axes.set_xlabel"] = lambda it, v, **k: named.__setitem__("x", v)
        s.it.hooks["call:Axes.set_ylabel"] = lambda it, v, **k: named.__setitem__("y", v)
        for f in ("xaxis", "yaxis", "set_title"):
            ax.attrs[f] = Lib("matplotlib.Axes." + f)
        s.it.hooks["call:Axes.get_figure"] = lambda it: Obj("Figure", {})

        def heatmap(it, data, **kw):
            drawn.append((lib.to_arr(it, data).copy(), kw))
            return ax
        s.it.hooks["call:seaborn.heatmap"] = heatmap
        s.it.outside = ("matplotlib", "gdf")
        s.it.set_global("plotting", "ESDA_GE_270", True)
        state = [app("state0")]
        if q[0] != "_":
            Y, w = Arr((n, 2), s.fn("Y"), "f"), Obj("W", {})
            rose = Obj("Rose", {"Y": Y, "w": w, "theta": Arr((n,), s.fn("theta"), "f"), "r": Arr((n,), s.fn("r"), "f")})
            for o in (start, end):
                o.attrs["plot"] = Lib("matplotlib.lisa_cluster")
            asked = []

            def moran(it, v, w_, *a, **k):
                v = lib.to_arr(it, v)
                b = v.at(fresh("u")) if v.nd == 1 else ZERO
                if b.op != "app" or b.args[0] != "Y" or b.args[2] not in (ZERO, ONE):
                    raise Unsupported("local Moran statistics of unknown values")
                s.goal("local Moran statistics use the weights of the rose", w_ is w and not a and not k)
                state[0] = app("drawn", state[0])  # random numbers are consumed
                asked.append(b.args[2])
                return start if b.args[2] is ZERO else end
            s.it.hooks["call:esda.moran.Moran_Local"] = moran
            s.it.hooks["call:np.random.get_state"] = lambda it, *a, **k: state[0]
            s.it.hooks["call:np.random.set_state"] = lambda it, v: state.__setitem__(0, v)
            args = (rose,)
        else:
            args = (start, end)
        kw = {"p": p} if level else {}
        if q == "dynamic_lisa_composite":
            args += (Lib("gdf"),)
        snap = s.snapshot(*[o.attrs[k] for o in (start, end) for k in ("q", "p_sim")])
        s.call("plotting." + q, *args, **({"ax": None} if q[0] == "_" else {}), **kw)
        s.unchanged("the results are unchanged", snap)
        s.goal("the random state is as before", eq(state[0], app("state0")))
        if len(drawn) != 1:
            return s.structural("one heatmap is drawn", f"{len(drawn)} are")
        t, kw = drawn[0]
        counts(s, t, cell)
        s.equal("the mask drawn", kw.get("mask"), (5, 5), lambda a, b: eq(a, b))
        for axis in "xy":
            lab = kw.get(axis + "ticklabels")
            for c in range(5):
                s.goal(f"{axis} labels name the codes' quadrants", lib.getitem(s.it, lab, [c]) == QUADRANT[c])
        s.goal("columns are the end", named.get("x") == "End time")
        s.goal("rows are the start", named.get("y") == "Start time")
    R.case("drawing the table", lambda s: draw("_dynamic_lisa_heatmap", True, s))
    R.case("drawing from a rose", lambda s: draw("dynamic_lisa_heatmap", True, s))
    R.case("drawing from a rose, default level", lambda s: draw("dynamic_lisa_heatmap", False, s))
    R.case("drawing the composite", lambda s: draw("dynamic_lisa_composite", True, s))
    R.case("drawing the composite, default level", lambda s: draw("dynamic_lisa_composite", False, s))

    def polar(s):
        n = s.size("n")
        arrs = {k: Arr((n,), s.fn(k), "f") for k in ("theta", "r")}
        s.it.outside = ("matplotlib",)
        snap = s.snapshot(*arrs.values())
        s.call("plotting.dynamic_lisa_rose", Obj("Rose", dict(arrs)))
        s.unchanged("the rose is unchanged", snap)
    R.case("drawing the rose", polar)
