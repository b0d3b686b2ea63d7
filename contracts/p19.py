"""P19: parallel loops."""
from .common import *
from . import joblib_ as J
from nnv.load import SymList, SymRange


def loop(P):
    P.fn("parallel.parloop")
    P.trust(J.TRUST, "functools.wraps does not change what the wrapped function does")
    P.assume("the function is deterministic (the same arguments give the same value in every worker)")
    W = World("numpy")
    J.install(W.prog)
    par = W.prog.load("nannos.parallel").parloop
    for jobs in ("default", "symbolic"):
        for extra in ((), ("a",), ("a", "b", "c")):
            for kws in ((), ("u",), ("u", "x", "n_jobs", "prefer")):
                for kind in ("list", "range"):
                    seen = []

                    def f(*a, **k):
                        seen.append(1)
                        return J.Call(a, k)

                    def run():
                        n = SInt.var("n")
                        CTX.assume(zpoly(n.p) >= 0)
                        xs = SymList(n, lambda i: J.Elem("x", i)) if kind == "list" else SymRange(0, n)
                        vals = {w: object() for w in extra + kws}
                        kw = {}
                        if jobs == "symbolic":
                            kw["n_jobs"] = SInt.var("n_jobs")
                            kw["prefer"] = object()
                        g = par(**kw)(f)
                        r = g(xs, *[vals[w] for w in extra], **{w: vals[w] for w in kws})
                        m = r.nnv_len() if hasattr(r, "nnv_len") else len(r)
                        i = SInt.var("i")
                        CTX.assume(z3().And(zpoly(i.p) >= 0, zpoly(i.p) < zpoly(n.p)))
                        if hasattr(r, "nnv_iter"):
                            e = r.nnv_iter().at(i)
                        else:
                            raise Unsupported("the result is not the list of the values")
                        return n, m, i, e, vals
                    nm = f"{jobs} workers, {len(extra)} further arguments, {len(kws)} keywords, {kind}"
                    for r in P.paths(nm, run):
                        n, m, i, e, vals = r.value
                        c = list(r.cond)
                        nm2 = f"{nm} [{r.label()}]"
                        P.z(nm2 + ": as many values as elements", zpoly(topoly(m)) == zpoly(n.p), c)
                        if not isinstance(e, J.Call):
                            P.true(nm2 + ": every value is the value of the function", False, repr(e))
                            continue
                        ix = e.a[0].i if e.a and isinstance(e.a[0], J.Elem) else topoly(e.a[0]) if e.a and isinstance(e.a[0], (SInt, int)) else None
                        P.true(nm2 + ": called with an element first", ix is not None)
                        if ix is not None:
                            P.z(nm2 + ": value number i is the value at element number i", zpoly(ix) == zpoly(i.p), c)
                        P.true(nm2 + ": the other positional arguments are passed unchanged", len(e.a) == 1 + len(extra) and all(x is vals[w] for x, w in zip(e.a[1:], extra)))
                        P.true(nm2 + ": the keyword arguments are passed unchanged", set(e.k) == set(kws) and all(e.k[w] is vals[w] for w in kws))
    # the code enumerates its argument as Python does: concrete lists, tuples and arrays
    for n in range(0, 5):
        for mk in (list, tuple):
            def f2(*a, **k):
                return J.Call(a, k)

            def run2():
                xs = [object() for _ in range(n)]
                if n > 2:
                    xs[-1] = xs[0]          # repeated elements
                b = object()
                return xs, b, par(n_jobs=2)(f2)(mk(xs), b, z=b)
            for r in P.paths(f"{mk.__name__} of {n}", run2):
                xs, b, v = r.value
                v = list(v)
                P.true(f"{mk.__name__} of {n} elements: the values at the elements in order",
                       len(v) == n and all(isinstance(e, J.Call) and len(e.a) == 2 and e.a[0] is x and e.a[1] is b and e.k == {"z": b} for e, x in zip(v, xs)))
    P.files |= W.prog.files


PARTS = [loop]
