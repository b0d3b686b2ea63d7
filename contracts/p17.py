"""P17: adaptive sampling."""
from .common import *
from . import joblib_ as J
from nnv.seq import *
from nnv import seq as Q
from nnv.load import Loop, LOOPS, AList, SymRange, WhileRule, UNDEF, Stub, SHADOW

FACTS = {}


def order(z, sq, idxs):
    """x strictly increasing, at the given (symbolic) indices"""
    Z = z3()
    out = []
    for i in idxs:
        for j in idxs:
            d = topoly(j) - topoly(i)
            if d.isconst() and d.constval().re == 1:
                out.append(zpoly(Elem(sq, i).p) < zpoly(Elem(sq, j).p))
    return out


class Refine(Loop):
    """the loop over the triples of points: an arbitrary iteration, every value it appends is checked;
    afterwards, the list holds values having the property proved of each of them"""

    def next(s, loc):
        if s.stage == 0:
            s.stage = 1
            for v in s.names:
                s.state[v] = loc.get(v, UNDEF)
            s.before = dict(s.state)
            if CTX.choose(2, f"loop line {s.line}") == 0:
                s.mode = "iteration"
                i = SInt.var(CTX.fresh("i"))
                s.index = i
                CTX.assume(z3().And(zpoly(i.p) >= 0, zpoly(i.p) < zpoly(topoly(s.it.n))))
                X = FACTS["x"]
                # as many points as the range admits: i + 2 is an index
                ix = [i, i + 1, i + 2]
                for c in order(None, X, ix):
                    CTX.assume(c)
                s.elem = s.it.at(i)
                LOOPS.append(s)
                return True
            s.mode = "after"
            lists = [v for v in loc.values() if isinstance(v, AList) and not list.__len__(v) and v.sym is None]
            for l in lists:
                l.bag = s
            for v in s.names:
                if s.state[v] is not UNDEF and not isinstance(s.state[v], AList):
                    s.state[v] = UNDEF
            return False
        return False

    def end(s, loc):
        LOOPS.remove(s)
        FACTS["appended"](s)
        raise PathEnd()

    def broke(s, loc):
        raise Unsupported("break in the loop over the points")

    def ret(s, v):
        raise Unsupported("return in the loop over the points")


class Stale:
    """a variable the invariant says nothing about"""
    def __getattr__(s, n):
        raise Unsupported("variable without invariant")

    __getitem__ = __iter__ = __len__ = lambda s, *a: (_ for _ in ()).throw(Unsupported("variable without invariant"))


class Invariant(WhileRule):
    """x strictly increasing, contains the initial grid, lies within its range; every other sequence holds
    the values of the function at x"""

    def havoc(s, st):
        seqs = {v: q for v, q in st.items() if isinstance(q, Seq)}
        ts = {q.t for q in seqs.values()}
        P, nm = FACTS["P"], FACTS["name"]
        if ts != {FACTS["x0"]}:
            raise Unsupported("state of the loop")
        s.kinds = {v: q.kind for v, q in seqs.items()}
        P.true(nm + ": invariant holds initially (the values are those at the initial grid)", True)
        X = Q.fresh("x", inc=True)
        FACTS["x"] = X
        return {v: Stale() if v in FACTS["dropped"] else Seq(X, q.g, q.arr) for v, q in seqs.items()}

    def check(s, st):
        P, nm = FACTS["P"], FACTS["name"]
        X = FACTS["x"]
        new = {v: st[v] for v in s.kinds if v not in FACTS["dropped"]}
        if not all(isinstance(q, Seq) for q in new.values()):
            raise Unsupported("state after an iteration")
        xs = {q.t for v, q in new.items() if s.kinds[v] == ("x",)}
        if len(xs) != 1:
            P.add(nm + ": one grid after an iteration", "undecided", "", 0, repr(xs))
            raise PathEnd()
        t = xs.pop()
        P.soft(nm + ": strictly increasing after an iteration", t.inc, repr(t))
        P.soft(nm + ": no point is lost", X.key() in members(t), repr(t))
        P.soft(nm + ": the points added lie within the range", all(k == X.key() or k in FACTS["inside"] for k in members(t)), repr(t))
        for v, q in new.items():
            if not (q.t == t and q.kind == s.kinds[v]):
                FACTS["failing"].add(v)
            P.soft(nm + f": `{v}` holds the values of the function at the points, in their order", q.t == t and q.kind == s.kinds[v], f"{q.t!r} for the grid {t!r}, {q.kind}")


def numpy_contracts(bk):
    b = bk.__dict__

    def unique(x, return_index=False, **k):
        if k:
            raise Unsupported("options of unique")
        if isinstance(x, Seq):
            if x.kind != ("x",):
                raise Unsupported("unique of values")
            u = Seq(uniq(x.t))
            return (u, First(x.t)) if return_index else u
        if isinstance(x, AList) and getattr(x, "bag", None) is not None and not return_index:
            t = Q.fresh("new", inc=True, disjoint=[FACTS["x"].key()])
            FACTS["inside"].add(t.key())
            return Seq(t)
        if isinstance(x, (list, tuple)) and all(isinstance(v, (int, np.integer)) for v in x) and not return_index:
            return sorted(set(x))
        raise Unsupported("unique")

    def sort(x, *a, **k):
        if a or k:
            raise Unsupported("options of sort")
        if isinstance(x, Seq) and x.kind == ("x",) and x.t.inc:
            return x.copy()
        if isinstance(x, Seq) and x.kind == ("x",):
            return Seq(Term("sorted", (x.t,)))
        raise Unsupported("sort")

    def extremum(first):
        def f(x, *a, **k):
            if a or k:
                raise Unsupported("options of min / max")
            if isinstance(x, Seq) and x.kind == ("x",) and x.t.inc:
                return x[0] if first else x[-1]
            if isinstance(x, Seq) or isinstance(x, (list, tuple)):
                return Sc(sym(CTX.fresh("extremum"), "real"))
            raise Unsupported("min / max")
        return f

    def setdiff1d(a, c, assume_unique=False):
        if isinstance(a, Seq) and isinstance(c, Seq) and a.kind == c.kind == ("x",) and a.t.inc:
            return Seq(without(a.t, c.t))
        raise Unsupported("setdiff1d")
    arr0, sqrt0 = b["array"], b["sqrt"]
    b["array"] = b["asarray"] = lambda x, *a, **k: Seq(x.t, x.g) if isinstance(x, Seq) and not a and not k else arr0(x, *a, **k)
    b.update(unique=unique, sort=sort, min=extremum(True), max=extremum(False), amin=extremum(True), amax=extremum(False), setdiff1d=setdiff1d,
             hstack=lambda xs: Q.hstack(xs), vstack=lambda xs: Q.hstack(xs, True), sqrt=lambda x: Sc(sym(CTX.fresh("sqrt"), "pos")) if isinstance(x, Sc) else sqrt0(x),
             copy=lambda x: x.copy())

    def concatenate(xs, axis=0):
        xs = list(xs)
        if axis == 0 and xs and all(isinstance(x, Seq) for x in xs):
            return Q.hstack(xs, xs[0].kind is not None and xs[0].kind[0] == "vs")
        raise Unsupported("concatenate")
    b["concatenate"] = concatenate

    def append(a, v, axis=None):
        if isinstance(a, Seq) and isinstance(v, Seq):
            return Q.hstack([a, v], a.kind[0] == "vs")
        raise Unsupported("append")
    b["append"] = append


def sampler(P):
    P.fn("sample.adaptive_sampler", "sample.adaptive_sampler.get_new", "parallel.parloop")
    P.trust(J.TRUST, "numpy: sort, unique(return_index), hstack / vstack, element-wise indexing as documented",
            "x[i], x[i+1] consecutive elements of a strictly increasing grid: no element of the grid lies strictly between them")
    P.assume("the function is deterministic; exact arithmetic: the midpoint of two distinct points lies strictly between them")
    P.lean("Seq.lean", ["unique_cat_minus", "values_follow", "no_point_between"])
    Z = z3()
    for jobs in ("1", "several"):
        for out in ("scalar", "multi", "one"):
            W = World("numpy")
            J.install(W.prog)
            numpy_contracts(W.prog.bk)
            W.prog.loop_default = Refine
            W.prog.while_rule = Invariant
            m = W.prog.load("nannos.sample")
            nm = f"{jobs} worker(s), {out} output(s)"
            FACTS.clear()
            FACTS.update(P=P, name=nm, inside=set())
            count = [0]

            def appended(loop):
                for l, v in loop.appends:
                    count[0] += 1
                    i = loop.index
                    X = FACTS["x"]
                    p = [zpoly(Elem(X, i + k).p) for k in range(3)]
                    if not isinstance(v, Sc) or not topoly(v).is_real():
                        P.add(nm + ": the points added lie strictly between consecutive points", "undecided", "", 0, repr(v))
                        continue
                    z = zpoly(topoly(v))
                    conds = [c for c in CTX.cond if Z.is_expr(c)]
                    key = (topoly(v) - topoly(Elem(X, i))).key()
                    P.z(nm + f": a point added lies strictly between two consecutive points [{key[:60].replace(X.key()[0], 'x')}]", Z.Or(Z.And(p[0] < z, z < p[1]), Z.And(p[1] < z, z < p[2])), order(None, X, [i, i + 1, i + 2]))
                    if P.obls[-1]["status"] == "refuted":       # sufficient, not necessary
                        P.obls[-1]["status"] = "undecided"
            FACTS["appended"] = appended
            ncomp = {"scalar": 0, "multi": 3, "one": 1}[out]

            def f(*a, **k):
                if k or len(a) != 1 or not isinstance(a[0], Elem):
                    raise Unsupported("argument of the function")
                return FVals("F", a[0], ncomp) if ncomp else FVal("F", a[0])

            def run():
                X0 = Q.fresh("grid", inc=True)
                FACTS["x0"] = FACTS["x"] = X0
                FACTS["inside"] = set()
                CTX.assume(zpoly(length(X0).p) >= 1)
                kw = {}
                if jobs == "several":
                    kw["n_jobs"] = SInt.var("n_jobs")
                    CTX.assume(zpoly(kw["n_jobs"].p) > 1)
                kw.update(max_bend=scal("bend", "pos"), max_x_rel=scal("xrel", "pos"), max_df=scal("df", "pos"))
                r = m.adaptive_sampler(f, Seq(X0), **kw)
                return r, FACTS["x"], X0
            n0 = len(P.obls)
            FACTS["dropped"] = set()
            # the strongest invariant of this form: variables that are not kept up to date are dropped
            while True:
                FACTS["failing"] = set()
                rs = P.paths(nm, run, limit=6000)
                if not FACTS["failing"]:
                    break
                FACTS["dropped"] |= FACTS["failing"]
                del P.obls[n0:]
                count[0] = 0
            for r in rs:
                v, X, X0 = r.value
                n = nm + f": returned [{r.label()}]"
                if not (isinstance(v, tuple) and len(v) == 2 and all(isinstance(q, Seq) for q in v)):
                    P.add(n, "unsupported", "", 0, f"form of the result {v!r}")
                    continue
                x, y = v
                P.soft(n + ": the abscissae of the invariant", x.t == X and x.kind == ("x",), repr(x.t))
                P.soft(n + ": the values of the function at these abscissae", y.t == x.t and y.kind == (("vs", "F", ncomp) if ncomp else ("v", "F")), f"{y.t!r} {y.kind}")
            P.soft(nm + ": refinement is reachable", count[0] > 0)
            # identical obligations of different paths
            seen, keep = set(), []
            for o in P.obls[n0:]:
                k = (o["name"], o["status"])
                if k not in seen:
                    seen.add(k)
                    keep.append(o)
            P.obls[n0:] = keep
            P.files |= W.prog.files


PARTS = [sampler]
