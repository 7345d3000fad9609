"""Contracts of giddy.util."""
from contracts._common import *


def M03(R):
    def two(kind):
        def go(s):
            k = s.size("k")
            p = s.fn("p", "I" if kind == "i" else "R")
            P = Arr((k, k), p, kind)
            Z = s.define("Z", (k,), lambda i: sm(lambda v: p(i, v), k))
            snap = s.snapshot(P)
            r = s.call("util.fill_empty_diagonals", P)
            z = lambda i: eq(Z(i), ZERO)
            s.equal("exactly the empty rows are filled", r, (k, k), lambda i, j: ite(
                and_(z(i), eq(i, j)), ONE, p(i, j)))
            s.goal("same type", r.kind == kind)
            s.unchanged("the argument is unchanged", snap)
        return go
    R.case("square matrix of reals", two("f"))
    R.case("square matrix of integers", two("i"))

    def three(s):
        m, k = s.size("m"), s.size("k")
        p = s.fn("p")
        P = Arr((m, k, k), p, "f")
        Z = s.define("Z", (m, k), lambda a, i: sm(lambda v: p(a, i, v), k))
        snap = s.snapshot(P)
        r = s.call("util.fill_empty_diagonals", P)
        z = lambda a, i: eq(Z(a, i), ZERO)
        s.equal("exactly the empty rows are filled", r, (m, k, k), lambda a, i, j: ite(
            and_(z(a, i), eq(i, j)), ONE, p(a, i, j)))
        s.goal("same type", r.kind == "f")
        s.unchanged("the argument is unchanged", snap)
    R.case("stack of square matrices", three)

    def bad(nd):
        def go(s):
            P = Arr(tuple(s.size(f"d{i}") for i in range(nd)), lambda *i: app("p", *i), "f")
            s.rejects(f"{nd} dimensions are rejected", "NotImplementedError", "util.fill_empty_diagonals", P)
        return go
    for nd in (1, 4, 5):
        R.case(f"array of {nd} dimensions", bad(nd))


def U01(R):
    def lower(s):
        n = s.size("n")
        a = s.fn("a")
        A = Arr((n, n), a, "f")
        snap = s.snapshot(A)
        r = s.call("util.get_lower", A)
        # the selected positions are the pairs (i, j), j < i, taken row by row
        if not isinstance(r, lib.Tri):
            return s.structural("one column of the entries below the diagonal", f"result {type(r).__name__}")
        s.goal("one column", r.shape == "column")
        s.forall("exactly the positions below the diagonal", (n, n), lambda i, j: eq(r.p.dom(i, j), lt(j, i)))
        s.goal("rows and columns", and_(eq(r.p.n, n), eq(r.p.m, n)))
        s.forall("the entry at (i, j) is a(i, j)", (n, n), lambda i, j: implies(lt(j, i), eq(r.elem(i, j), a(i, j))))
        s.unchanged("the matrix is unchanged", snap)
    R.case("get_lower", lower)

    def shuffle(s):
        n = s.size("n")
        a = s.fn("a")
        X = Arr((n, n), a, "f")
        ids = lib.as_range_arr(s.it, lib.FUNCS["builtins.range"](s.it, n))
        snap = s.snapshot(X)
        r = s.call("util.shuffle_matrix", X, ids)
        s.equal("rows and columns permuted alike", r, (n, n), lambda i, j: a(ids.at(i), ids.at(j)))
        # ids after the call is a permutation of ids before
        s.forall("ids stay in range", (n,), lambda i: and_(le(ZERO, ids.at(i)), lt(ids.at(i), n)))
        s.forall("ids stay distinct", (n, n), lambda i, j: implies(not_(eq(i, j)), not_(eq(ids.at(i), ids.at(j)))))
        s.unchanged("the matrix is unchanged", snap)
    R.case("shuffle_matrix", shuffle)
