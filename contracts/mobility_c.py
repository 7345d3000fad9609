"""Contracts of giddy.mobility."""
from contracts._common import *


def B01(R):
    def run(measure, ini):
        def go(s):
            k = s.size("k", 2)
            M, I = s.fn("M"), s.fn("I")
            p, v = Arr((k, k), M, "f"), Arr((k,), I, "f")

            # assumed: numpy.linalg.det/eig are functions of the matrix
            def det(it, a):
                s.requires("det is given the matrix", a, (k, k), M)
                return app("det")
            mod = s.fn("modulus")  # the eigenvalue moduli in increasing order

            def eig(it, a):
                s.requires("eig is given the matrix", a, (k, k), M)
                return PList([Arr((k,), s.fn("eigenvalue"), "f"), Arr((k, k), s.fn("eigenvector"), "f")], "tuple")

            def sort(it, a, axis=-1):
                s.requires("sorted are the eigenvalue moduli", a, (k,), lambda i: lib.abs_(app("eigenvalue", i)))
                return Arr((k,), mod, "f")
            for nm, f in (("det", det), ("eig", eig)):
                s.it.hooks["call:np.linalg." + nm] = f
            s.it.hooks["call:np.linalg.eigvals"] = lambda it, a: eig(it, a).items[0]
            s.it.hooks["call:np.sort"] = sort
            snap = s.snapshot(p, v)
            kw = {} if measure is None else {"measure": measure}
            if ini:
                kw["ini"] = v
            r = s.call("mobility.markov_mobility", p, **kw)
            share = I if ini else (lambda i: div(ONE, k))
            trace = sum_(ZERO, k, lambda i: M(i, i))
            want = {
                None: div(sub(k, trace), sub(k, 1)), "P": div(sub(k, trace), sub(k, 1)),
                "D": sub(ONE, lib.abs_(app("det"))),
                "L2": sub(ONE, mod(sub(k, 2))),
                "B1": div(sub(k, mul(k, sum_(ZERO, k, lambda i: mul(share(i), M(i, i))))), sub(k, 1)),
                "B2": div(sm(lambda i, j: mul(share(i), M(i, j), lib.abs_(sub(i, j))), k, k), sub(k, 1)),
            }[measure]
            s.equal("value", r, (), lambda: want)
            s.unchanged("arguments unchanged", snap)
        return go
    for m in (None, "P", "D", "L2"):
        R.case(f"measure {m or 'by default'}", run(m, False))
    for m in ("B1", "B2"):
        R.case(f"measure {m}, uniform initial distribution", run(m, False))
        R.case(f"measure {m}, given initial distribution", run(m, True))
