"""P11: masks are pointwise membership."""
from .common import *
from nnv import ordr as O, mask as K
from nnv.ordr import Rz, zz
from nnv.lin import lin_valid, Rat

BACKENDS = ("numpy", "torch", "jax")


def fresh(n, *c):
    Z = z3()
    v = Z.Real(n)
    return Rz(v)


def obligations(P, nm, obl):
    """those met during the execution"""
    done = set()
    for name, goal, cs in obl:
        k = (name, goal.sexpr(), tuple(c.sexpr() for c in cs))
        if k in done:
            continue
        done.add(k)
        if lin_valid(goal, cs):
            P.add(f"{nm}: {name}", "proved", "z3 (linear arithmetic over monomials)")
        elif not P.z(f"{nm}: {name}", goal, cs, timeout=8000) and P.obls[-1]["status"] == "refuted":
            P.obls[-1]["status"] = "undecided"


# ------------------------------------------------------------------ the recursion
def raster(P):
    P.fn("geometry.shape_mask", "geometry._grid_bbox", "geometry._bbox_to_rect", "geometry.set_index_2d")
    P.trust("shapely: `intersects` of a rectangle is false only if no point of it is in the shape; `contains` of a rectangle (also degenerate to a "
            "segment or a point) is true only if all its points off the boundary of the shape are in it; `contains` of a point is membership")
    P.assume("points exactly on the boundary of a shape may belong or not")
    Z = z3()
    for be in bks(P, *BACKENDS):
        for given in (False, True):
            prog = Program(be)
            geo, _ = K.install(prog)
            real = geo.shape_mask
            nm = f"[{be}] shape_mask, {'mask given' if given else 'new mask'}"
            S = {}

            def contract(shp, x, y, m=None):
                """what every call may assume; its preconditions are obligations"""
                if shp is not S["shape"] or not isinstance(x, K.Seq1) or not isinstance(y, K.Seq1) or x.f is not S["x"].f or y.f is not S["y"].f:
                    raise Unsupported("recursive call")
                K.oblige("recursive call: non empty parts of the grid", Z.And(x.n >= 1, y.n >= 1, x.off >= 0, x.off + x.n <= S["x"].n, y.off >= 0, y.off + y.n <= S["y"].n))
                K.oblige("recursive call: fewer points", Z.And(x.n <= S["x"].n, y.n <= S["y"].n, Z.Or(x.n < S["x"].n, y.n < S["y"].n)))
                val = lambda i, j: shp.z(Rz(x.at(j)), Rz(y.at(i)))
                if m is None:
                    return K.Mask(K.Base(val), y.n, x.n)
                if not isinstance(m, K.Mask) or m.tr:
                    raise Unsupported("recursive call")
                K.oblige("recursive call: shape of the mask", Z.And(m.nr == y.n, m.nc == x.n))
                if be == "jax":
                    return K.Mask(K.Base(val), y.n, x.n)
                m[:, :] = K.Mask(K.Base(val), y.n, x.n)
                return m
            geo.__dict__["shape_mask"] = contract

            def run():
                K.reset()
                xf, yf = (Z.Function(n, Z.IntSort(), Z.RealSort()) for n in ("x", "y"))
                nx, ny = Z.Ints("nx ny")
                CTX.assume(Z.And(nx >= 1, ny >= 1))
                shp = K.Shape("S", lambda a, b: (a, b), calls=[])
                S.update(shape=shp, x=K.Seq1(lambda i: xf(i), nx), y=K.Seq1(lambda i: yf(i), ny))
                m0 = None
                if given:
                    old = Z.Function("m0", Z.IntSort(), Z.IntSort(), Z.BoolSort())
                    r0, c0 = Z.Ints("r0 c0")
                    m0 = K.Mask(K.Base(lambda i, j: old(i, j)), ny, nx, r0, c0)
                v = real(shp, S["x"], S["y"], m0) if given else real(shp, S["x"], S["y"])
                return v, m0, shp, list(K.OBL)
            n = 0
            for r in P.paths(nm, run):
                v, m0, shp, obl = r.value
                n += 1
                obligations(P, nm, obl)
                cs = [c for c in r.cond if Z.is_expr(c)]
                if not isinstance(v, K.Mask):
                    P.add(nm + ": result", "undecided", "", 0, repr(v)[:200])
                    continue
                nx, ny = S["x"].n, S["y"].n
                P.z(nm + f": shape (number of y, number of x) [{n}]", Z.And(zz(v.shape[0]) == ny, zz(v.shape[1]) == nx), cs)
                i, j = Z.Ints("i j")
                inr = [i >= 0, i < ny, j >= 0, j < nx]
                facts = inr + grid_facts(S["x"], j) + grid_facts(S["y"], i)
                px, py = S["x"].at(j), S["y"].at(i)
                for what, bb, b, _ in shp.calls:
                    inside = Z.And(bb[0].z <= px, px <= bb[1].z, bb[2].z <= py, py <= bb[3].z)
                    here = shp.z(Rz(px), Rz(py))
                    facts.append(Z.Implies(Z.And(inside, b), here) if what == "contains" else Z.Implies(Z.And(inside, Z.Not(b)), Z.Not(here)))
                goal = v.get(i, j) == shp.z(Rz(px), Rz(py))
                P.z(nm + f": every element is the membership of its point [{n}]", goal, cs + facts)
                if given and be != "jax":
                    P.z(nm + f": the mask given is filled [{n}]", m0.get(i, j) == shp.z(Rz(px), Rz(py)), cs + facts)
                    k, l = Z.Ints("k l")
                    out = Z.Or(k < m0.r0, k >= m0.r0 + ny, l < m0.c0, l >= m0.c0 + nx)
                    old = Z.Function("m0", Z.IntSort(), Z.IntSort(), Z.BoolSort())
                    P.z(nm + f": nothing else is changed [{n}]", Z.Implies(out, m0.base.f(k, l) == old(k, l)), cs)
                if P.obls[-1]["status"] == "refuted" and zsolve(cs)[0] == "unsat":
                    P.obls[-1]["status"] = "undecided"
            P.soft(nm + ": paths", n >= 3)
            geo.__dict__["shape_mask"] = real
            P.files |= prog.files


def grid_facts(s, j):
    """the grid increases: the element j lies between the first and the last"""
    Z = z3()
    return [s.at(Z.IntVal(0)) <= s.at(j), s.at(j) <= s.at(s.n - 1), Z.Implies(j == 0, s.at(j) == s.at(Z.IntVal(0)))]


# ------------------------------------------------------------------ shapes on a lattice
def params():
    Z = z3()
    R = lambda n: Rz(Z.Real(n))
    p = dict(a=((R("ux"), R("uy")), (R("vx"), R("vy"))), c=(R("cx"), R("cy")), r=(R("rx"), R("ry")), th=R("theta"),
             Nx=Rz(Z.Int("Nx")), Ny=Rz(Z.Int("Ny")))
    a = p["a"]
    p["cross"] = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    CTX.assume(Z.And(p["cross"].z != 0, p["r"][0].z > 0, p["r"][1].z > 0, p["Nx"].z >= 1, p["Ny"].z >= 1))
    return p


HELPERS = {
    "polygon": lambda l, p: l.polygon(K.Verts()),
    "circle": lambda l, p: l.circle(p["c"], p["r"][0]),
    "ellipse": lambda l, p: l.ellipse(p["c"], p["r"]),
    "ellipse, rotated": lambda l, p: l.ellipse(p["c"], p["r"], rotate=p["th"]),
    "square": lambda l, p: l.square(p["c"], p["r"][0]),
    "square, rotated": lambda l, p: l.square(p["c"], p["r"][0], rotate=p["th"]),
    "rectangle": lambda l, p: l.rectangle(p["c"], p["r"]),
    "rectangle, rotated": lambda l, p: l.rectangle(p["c"], p["r"], rotate=p["th"]),
    "geometry_mask": lambda l, p: l.geometry_mask(K.Shape("user", lambda x, y: (x, y))),
}


def expected(kind, p, px, py, cs):
    """predicate and its arguments at a point"""
    Z = z3()
    k = kind.split(",")[0]
    if k in ("polygon", "geometry_mask"):
        return {"polygon": "polygon", "geometry_mask": "user"}[k], (px, py)
    u, v = px - p["c"][0], py - p["c"][1]
    if "rotated" in kind and not lin_valid(p["th"].z == 0, cs):
        c, s = K.trig(p["th"], True)
        u, v = c * u + s * v, c * v - s * u
    sx, sy = p["r"][0], p["r"][1] if k in ("ellipse", "rectangle") else p["r"][0]
    return ("disc" if k in ("circle", "ellipse") else "square"), (u / sx, v / sy)


def helpers(P):
    P.fn("geometry.geometry_mask", "geometry.polygon", "geometry.circle", "geometry.ellipse", "geometry.rectangle", "geometry.square",
         "Lattice.geometry_mask", "Lattice.polygon", "Lattice.circle", "Lattice.ellipse", "Lattice.rectangle", "Lattice.square", "Lattice.matrix")
    P.trust("shapely.affinity: affine_transform, rotate (degrees, counterclockwise), scale, translate map the points of the shape as documented; "
            "Point.buffer(r): the regular polygon shapely takes for the disc of radius r; linspace(0, 1, N): increasing from 0 to 1",
            "linalg.inv of a 2 x 2 matrix")
    P.assume("radii and widths are positive, the lattice vectors independent")
    Z = z3()
    for be in bks(P, *BACKENDS):
        prog = Program(be)
        geo, lat = K.install(prog)
        for kind, call in HELPERS.items():
            nm = f"[{be}] {kind}"
            S = {}

            def contract(shp, x, y, m=None):
                if not isinstance(shp, K.Shape) or not isinstance(x, K.Seq1) or not isinstance(y, K.Seq1) or m is not None:
                    raise Unsupported("call of shape_mask")
                K.oblige("shape_mask is called on grids that are not empty", Z.And(x.n >= 1, y.n >= 1))
                i, j = Z.Ints("gi gj")
                for g in (x, y):
                    K.oblige("shape_mask is called on increasing grids", Z.Implies(Z.And(i >= 0, i < j, j < g.n, K.unit(i, g.n) < K.unit(j, g.n)), g.at(i) < g.at(j)))
                S.update(shp=shp, x=x, y=y)
                return K.Mask(K.Base(lambda i, j: shp.z(Rz(x.at(j)), Rz(y.at(i)))), y.n, x.n)
            real = geo.shape_mask
            geo.__dict__["shape_mask"] = contract

            def run():
                K.reset()
                S.clear()
                p = params()
                l = object.__new__(lat.Lattice)
                l.is_1D, l.truncation, l.harmonics_array = False, "circular", None
                l.basis_vectors, l.discretization = p["a"], (p["Nx"], p["Ny"])
                v = call(l, p)
                return v, p, dict(S), list(K.OBL), dict(O.CACHE), dict(K.TRIG)
            for r in P.paths(nm, run):
                v, p, s, obl, cache, trig = r.value
                K.TRIG.clear()
                K.TRIG.update(trig)
                cs = [c for c in r.cond if Z.is_expr(c)]
                invertible(P, nm, obl, p, cache)
                if not isinstance(v, K.Mask) or not s:
                    P.add(nm + ": result", "undecided", "", 0, repr(v)[:200])
                    continue
                P.z(nm + ": shape (Nx, Ny)", Z.And(zz(v.shape[0]) == p["Nx"].z, zz(v.shape[1]) == p["Ny"].z), cs)
                # element (i, j): which point of the grids does it test
                i, j = Z.Ints("i j")
                inr = [i >= 0, i < p["Nx"].z, j >= 0, j < p["Ny"].z]
                e = v.get(i, j)
                xi, yj = K.unit(i, p["Nx"].z), K.unit(j, p["Ny"].z)
                P.z(nm + ": element (i, j) is the membership of the point with unit cell coordinates (x_i, y_j)", e == s["shp"].z(Rz(xi), Rz(yj)), cs + inr)
                sx, sy = Rz(Z.Real("sx")), Rz(Z.Real("sy"))
                a = p["a"]
                px, py = sx * a[0][0] + sy * a[1][0], sx * a[0][1] + sy * a[1][1]
                pred, want = expected(kind, p, px, py, cs)
                have = s["shp"].args(sx, sy)
                same(P, nm + ": the shape described, at the point x L1 + y L2", s["shp"].pred, have, pred, want, cache, p)
            geo.__dict__["shape_mask"] = real
        P.files |= prog.files


def invertible(P, nm, obl, p, cache):
    """the obligations met, the invertibility ones by rational identities"""
    Z = z3()
    rest = []
    for name, goal, cs in obl:
        if name == "the transformation is invertible":
            rat = rational(cache, p)
            d = goal.children()[0] if goal.decl().kind() == Z.Z3_OP_DISTINCT else goal.children()[0].children()[0]
            try:
                n, q = rat.reduce(rat.conv(d))
                ok = [p["cross"], p["r"][0], p["r"][1]]
                fac = rat.S.factor_list(rat.S.expand(n))[1]
                good = bool(n != 0) and all(any(rat.S.expand(f - t * rat.conv(x.z)) == 0 for x in ok for t in (1, -1)) for f, _ in fac)
                P.soft(f"{nm}: {name}", good, str(n), "rational function identity")
            except Unsupported as e:
                P.add(f"{nm}: {name}", "undecided", "", 0, str(e))
        else:
            rest.append((name, goal, cs))
    obligations(P, nm, rest)


def rational(cache, p):
    rat = Rat(cache)
    for c, s in K.TRIG.values():
        if z3().is_const(s.z) and str(s.z).startswith("sin"):
            S = rat.S
            rat.sq[S.Symbol(str(s.z))] = 1 - S.Symbol(str(c.z)) ** 2
    return rat


SYMM = [lambda a, b: (a, b), lambda a, b: (-a, b), lambda a, b: (a, -b), lambda a, b: (-a, -b),
        lambda a, b: (b, a), lambda a, b: (-b, a), lambda a, b: (b, -a), lambda a, b: (-b, -a)]


def same(P, name, pred, have, want_pred, want, cache, p):
    """the same predicate, at the same arguments up to the symmetries of the square and of the polygon taken for the disc"""
    import random
    t0 = time.time()
    rat = rational(cache, p)
    try:
        h, w = [rat.conv(x.z) for x in have], [rat.conv(x.z) for x in want]
    except Unsupported as e:
        return P.add(name, "undecided", "", 0, str(e))
    if pred == want_pred:
        for f in SYMM if pred in ("square", "disc") else SYMM[:1]:
            g = f(*h)
            if all(rat.zero(x - y) for x, y in zip(g, w)):
                return P.add(name, "proved", "rational function identity", time.time() - t0)
    # a point that is in one set, not in the other
    S = rat.S
    rnd = random.Random(1)
    syms = sorted(set().union(*[e.free_symbols for e in h + w]), key=str)
    if {pred, want_pred} <= {"square", "disc"}:
        inside = {"square": lambda a, b: max(abs(a), abs(b)) < 0.499, "disc": lambda a, b: a * a + b * b < 0.98}
        outside = {"square": lambda a, b: max(abs(a), abs(b)) > 0.501, "disc": lambda a, b: a * a + b * b > 1.001}
        fun = S.lambdify(syms, h + w)
        for _ in range(20000):
            val = {str(y): rnd.uniform(-1, 1) for y in syms}
            for k in val:
                if k in ("rx", "ry"):
                    val[k] = rnd.uniform(0.1, 1)
                if k.startswith("sin"):
                    c = "cos" + k[3:]
                    an = rnd.uniform(-3, 3)
                    val[k] = math.sin(an)
                    if c in val:
                        val[c] = math.cos(an)
            try:
                a = fun(*[val[str(y)] for y in syms])
            except (ZeroDivisionError, OverflowError):
                continue
            if inside[pred](*a[:2]) and outside[want_pred](*a[2:]) or outside[pred](*a[:2]) and inside[want_pred](*a[2:]):
                return P.add(name, "refuted", "numeric model", time.time() - t0, f"{pred}{tuple(h)} is not {want_pred}{tuple(w)}: {val}")
        return P.add(name, "undecided", "", time.time() - t0, f"{pred}{h} for {want_pred}{w}")
    diff = pred != want_pred or not all(rat.zero(x - y) for x, y in zip(h, w))
    return P.add(name, "refuted" if diff else "undecided", "rational function identity", time.time() - t0, f"{pred}{h} for {want_pred}{w}")


import math
PARTS = [raster, helpers]
