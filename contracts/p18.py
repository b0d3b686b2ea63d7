"""P18: density projection and interpolation."""
from .common import *
from nnv.load import SymList, SymSum

ZT = {}


class Tr:
    """real z3 term of a Poly: inverses with their defining equation, tanh as a strictly increasing odd function"""

    def __init__(s):
        s.facts, s.args, s.memo = [], [], {}
        s.T = z3().Function("tanh", z3().RealSort(), z3().RealSort())

    def term(s, p):
        Z = z3()
        out = Z.RealVal(0)
        for m, c in p.t.items():
            if c.im:
                raise Unsupported("complex value")
            t = Z.RealVal(str(Fr(c.re)))
            for a, e in m:
                v = s.atom(a)
                if e < 0:
                    w = Z.Real(f"recip {a.key}")
                    s.facts.append(w * v == 1)
                    v, e = w, -e
                for _ in range(e):
                    t = t * v
            out = out + t
        return out

    def atom(s, a):
        Z = z3()
        if a in s.memo:
            return s.memo[a]
        if a.kind == "sym":
            v = Z.Real(a.args[0])
            if apos(a):
                s.facts.append(v > 0)
        elif a.kind == "fn" and a.args[0] == "inv":
            v = Z.Real(f"inv {a.key}")
            s.facts.append(v * s.term(a.args[1]) == 1)
        elif a.kind == "fn" and a.args[0] == "tanh":
            u = s.term(a.args[1])
            s.args.append(u)
            v = s.T(u)
        else:
            raise Unsupported(f"function {a.key[:40]}")
        s.memo[a] = v
        return v

    def axioms(s):
        Z = z3()
        T = s.T
        out = list(s.facts)
        us = s.args
        for u in us:
            out += [T(-u) == -T(u), Z.Implies(u > 0, T(u) > 0), Z.Implies(u < 0, T(u) < 0), Z.Implies(u == 0, T(u) == 0), T(u) < 1, T(u) > -1]
        for i, u in enumerate(us):
            for v in us[:i]:
                for w, tw in ((v, T(v)), (-v, -T(v))):
                    out += [Z.Implies(u < w, T(u) < tw), Z.Implies(u > w, T(u) > tw), Z.Implies(u == w, T(u) == tw)]
        return out


def projection(P):
    P.fn("optimize.project", "optimize.multi_project")
    P.trust("tanh: strictly increasing, odd, between -1 and 1")
    Z = z3()
    for be in bks(P, "numpy", "torch", "jax", "autograd"):
        W = World(be)
        m = W.prog.load("nannos.optimize")

        def run():
            x, y, b, t = scal("x", "real"), scal("y", "real"), scal("beta", "pos"), scal("thr", "real")
            return x, y, b, t, m.project(x, b, t), m.project(y, b, t), m.project(0, b, t), m.project(1, b, t)
        for r in P.paths(f"[{be}] project", run):
            x, y, b, t, px, py, p0, p1 = r.value
            n = f"[{be}] project"
            try:
                q = Tr()
                X, Y, A, B, zx, zy, zt = (q.term(topoly(v)) for v in (px, py, p0, p1, x, y, t))
                c = q.axioms() + [0 <= zx, zx <= 1, 0 <= zy, zy <= 1, 0 <= zt, zt <= 1]
                zb = Z.Real("beta")
                # arguments of tanh are affine in the density: products of the bounds
                c += [zb * zx <= zb, zb * zx >= 0, zb * zy <= zb, zb * zy >= 0, Z.Implies(zx < zy, zb * zx < zb * zy), zb * zt >= 0, zb * zt <= zb]
                P.z(n + ": 0 is mapped to 0", A == 0, c)
                P.z(n + ": 1 is mapped to 1", B == 1, c)
                P.z(n + ": values are at least 0", X >= 0, c)
                P.z(n + ": values are at most 1", X <= 1, c)
                P.z(n + ": increasing", Z.Implies(zx < zy, X < Y), c)
                P.z(n + ": the threshold and sharpness considered are possible", Z.BoolVal(True), [])
            except Unsupported as e:
                P.add(n, "unsupported", "", 0, str(e))
        # several thresholds: the mean of projections (each in [0, 1], increasing, with fixed end points)
        for N in range(2, 7):
            calls = []

            def proj(x, beta=1, thres=0.5):
                calls.append((x, beta, thres))
                return Sc(sym(f"projection{len(calls)}", "real"))
            keep = m.project

            def run2():
                del calls[:]
                x, b = scal("x", "real"), scal("beta", "pos")
                m.project = proj
                try:
                    v = m.multi_project(x, b, N)
                finally:
                    m.project = keep
                return x, b, v, list(calls)
            for r in P.paths(f"[{be}] multi_project", run2):
                x, b, v, cs = r.value
                n = f"[{be}] multi_project, {N} materials"
                P.true(n + ": projections of the same density with the same sharpness", bool(cs) and all(topoly(a) == topoly(x) and topoly(c) == topoly(b) for a, c, _ in cs))
                ts = [topoly(t) for _, _, t in cs]
                P.true(n + ": thresholds inside [0, 1]", all(t.isconst() and 0 <= t.constval().re <= 1 for t in ts), str(ts))
                mean = sum((sym(f"projection{i + 1}", "real") for i in range(len(cs))), Poly({})).scale(GQ(Fr(1, max(1, len(cs)))))
                P.goal(n + ": the mean of the projections", [topoly(v) - mean])
        P.files |= W.prog.files


def interpolation(P):
    P.fn("optimize.simp", "optimize.multi_simp")
    P.trust("x**p for x >= 0, p > 0: 0**p = 0, 1**p = 1, x**(n p) = (x**p)**n", "linalg.inv(M) M = 1")
    P.assume("multi_simp: the matrix inverted is invertible (its nodes are distinct)")
    for be in bks(P, "numpy", "torch", "jax", "autograd"):
        W = World(be)
        m = W.prog.load("nannos.optimize")

        def run():
            a, b, p = scal("emin"), scal("emax"), scal("p", "pos")
            x = Sc(sym("density", "pos"))
            return a, b, [(nm, m.simp(Sc(Poly.const(v)), a, b, q)) for v, nm in ((0, 0), (1, 1)) for q in (p, 1, 3)], m.simp(x, a, b, p), m.multi_simp(x, [a, b], p), \
                [m.multi_simp(Sc(Poly.const(v)), [a, b], p) for v in (0, 1)]
        for r in P.paths(f"[{be}] simp", run):
            a, b, vs, g, g2, ends = r.value
            P.goal(f"[{be}] simp: minimum at density 0, maximum at density 1", [topoly(v) - topoly(b if k else a) for k, v in vs])
            P.goal(f"[{be}] multi_simp of two materials: minimum at density 0, maximum at density 1", [topoly(v) - topoly(w) for v, w in zip(ends, (a, b))])
        anymaterials(P, m, be)
        inv0, solve0 = m.bk.linalg.inv, m.bk.linalg.solve
        for N in range(3, 9):
            got = []

            def inv(M):
                U = np.empty(M.shape, object)
                for i in np.ndindex(*M.shape):
                    U[i] = scal(f"U{i[0]},{i[1]}")
                got.append((M, U))
                return U.view(OArr)

            def run2():
                del got[:]
                p = scal("p", "pos")
                e = [scal(f"e{k}") for k in range(N)]
                pts = m.bk.linspace(0, 1, N)
                m.bk.linalg.inv = inv
                m.bk.linalg.solve = lambda M, b: inv(M) @ b
                out = []
                try:
                    for k in range(N):
                        del got[:]
                        v = m.multi_simp(pts[k], e, p)
                        out.append((v, list(got)))
                finally:
                    m.bk.linalg.inv, m.bk.linalg.solve = inv0, solve0
                return p, e, pts, out
            for r in P.paths(f"[{be}] multi_simp, {N} materials", run2):
                p, e, pts, out = r.value
                n = f"[{be}] multi_simp, {N} materials (bounded)"
                for k, (v, g) in enumerate(out):
                    if len(g) != 1 or g[0][0].shape != (N, N):
                        P.add(n + f": density {k}/{N - 1}", "undecided", "", 0, "the coefficients are not computed by one inverse")
                        continue
                    M, U = g[0]
                    # value = row k of M times U e:  M U = 1
                    row = sum((topoly(M[k, j]) * topoly(U[j, l]) * topoly(e[l]) for j in range(N) for l in range(N)), Poly({}))
                    P.goal(n + f": value at density {k}/{N - 1} is material {k}", [topoly(v) - row], setup=False)
                    P.true(n + f": the matrix inverted has distinct nodes (row {k})", all(any(not is_zero(topoly(M[k, j]) - topoly(M[q, j])) for j in range(N)) for q in range(N) if q != k))
        P.files |= W.prog.files


class Materials:
    """the permittivities of any number of materials"""
    _nnv_array = True
    __array_ufunc__ = None
    dtype = "complex128"

    def __init__(s, n):
        s.n = n

    shape = property(lambda s: (s.n,))

    def nnv_len(s):
        return s.n

    def __add__(s, o):
        if isinstance(o, (int, float, complex)) and o == 0:
            return s
        raise Unsupported("arithmetic of the permittivities")

    __radd__ = __add__

    def __getitem__(s, i):
        return Sc(sym(f"e[{topoly(i).key()}]"))

    def nnv_iter(s):
        return SymIter(s.n, s.__getitem__)


class Entries:
    """matrix by its generic entry"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, n, f):
        s.n, s.f = n, f

    shape = property(lambda s: (s.n, s.n))


class Solution:
    """M^-1 b"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, M, b):
        s.M, s.b = M, b

    def nnv_len(s):
        return s.M.n

    def __getitem__(s, i):
        return Sc(sym(f"c[{topoly(i).key()}]"))

    def nnv_iter(s):
        return SymIter(s.M.n, s.__getitem__)


class Inverse:
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, M):
        s.M = M

    def __matmul__(s, b):
        if not isinstance(b, Materials):
            raise Unsupported("product with the inverse")
        return Solution(s.M, b)

    dot = __matmul__


class Nodes:
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, n):
        s.n = n

    shape = property(lambda s: (s.n,))

    def nnv_len(s):
        return s.n

    def __getitem__(s, i):
        return scal(f"rpt[{topoly(i).key()}]", "real") ** 2      # i / (n - 1), non-negative

    def nnv_iter(s):
        return SymIter(s.n, s.__getitem__)


def anymaterials(P, m, be):
    """any number of materials N > 2: multi_simp(j/(N-1)) is material j.  The value is the sum over n of
    (M^-1 e)_n w_n with w_n the entry (j, n) of M: row j of M M^-1 e"""
    Z = z3()
    b = m.bk
    keep = b.linspace, b.array, b.linalg.inv, b.linalg.solve

    def array(x, *a, **k):
        if isinstance(x, (Materials, Entries, Nodes)):
            return x
        if isinstance(x, SymList):
            return Entries(x.n, lambda i, j: x.at(i).at(j))
        return keep[1](x, *a, **k)

    def linspace(a, c, n, *r, **k):
        if isinstance(n, SInt) and topoly(a) == Poly.const(0) and topoly(c) == Poly.const(1):
            return Nodes(n)
        return keep[0](a, c, n, *r, **k)

    def run():
        N, j, n = SInt.var("nmat"), SInt.var("j"), SInt.var("n")
        CTX.assume(Z.And(zpoly(N.p) > 2, zpoly(j.p) >= 0, zpoly(j.p) < zpoly(N.p)))
        p = scal("p", "pos")
        b.linspace, b.array = linspace, array
        b.linalg.inv, b.linalg.solve = Inverse, lambda M, e: Inverse(M) @ e
        try:
            made = []
            e = Materials(N)
            sol = Solution.__init__

            def init(s, M, v):
                made.append(s)
                sol(s, M, v)
            Solution.__init__ = init
            try:
                v = m.multi_simp(Nodes(N)[j], e, p)
            finally:
                Solution.__init__ = sol
            if not isinstance(v, SymSum) or len(made) != 1 or not isinstance(made[0].M, Entries):
                raise Unsupported(f"form of the interpolation: {type(v).__name__}")
            s = made[0]
            return N, e, v, s, s.M.f(j, v.index), s.M.f(v.index, j), s[v.index]
        finally:
            b.linspace, b.array, b.linalg.inv, b.linalg.solve = keep
    for r in P.paths(f"[{be}] multi_simp, any number of materials", run):
        N, e, v, s, ent, tr, c = r.value
        n = f"[{be}] multi_simp, any number of materials: "
        P.goal(n + "one coefficient per material", [topoly(v.n) - N.p, topoly(s.M.n) - N.p])
        P.true(n + "right-hand side: the permittivities in their order", s.b is e)
        P.goal(n + "the value at j/(N-1) is row j of the matrix times its inverse times the permittivities", [topoly(v.term) - topoly(c) * topoly(ent)], setup=False)
        P.true(n + "rows are those of the nodes", not is_zero(topoly(ent) - topoly(tr)))


PARTS = [projection, interpolation]
