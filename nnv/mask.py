"""Masks and shapes: the vocabulary of the geometry helpers.

A shape is a set of points of the plane, given by a membership predicate applied to affine functions of the
coordinates; a one-dimensional grid is a strictly increasing function of the index; a mask is a function of two indices."""
import math
import numpy as np
from .engine import *
from .load import AList, Unsupported, Stub
from . import ordr as O
from .ordr import Rz, zz, num
from .lin import lin_valid, Rat

OBL = []            # (name, goal, conditions) met during the execution


def reset():
    O.reset()
    OBL.clear()
    TRIG.clear()


def conds():
    return [c for c in CTX.cond if z3().is_expr(c)]


def oblige(name, goal):
    OBL.append((name, goal, conds()))


# ------------------------------------------------------------------ grids
class Seq1:
    """off, ..., off + n - 1 of a function of the index"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, f, n, off=None):
        s.f, s.n, s.off = f, n, off if off is not None else z3().IntVal(0)

    def nnv_len(s):
        return Rz(s.n)

    @property
    def shape(s):
        return (Rz(s.n),)

    size = property(lambda s: Rz(s.n))

    def at(s, j):
        return s.f(z3().simplify(s.off + j))

    def __getitem__(s, i):
        Z = z3()
        if isinstance(i, slice):
            a, b = bounds(i, s.n)
            return Seq1(s.f, Z.simplify(b - a), Z.simplify(s.off + a))
        if num(i):
            i = zz(i)
            if Z.is_int_value(i) and i.as_long() < 0:
                i = s.n + i
            oblige("index within the grid", Z.And(i >= 0, i < s.n))
            return Rz(s.at(i))
        raise Unsupported("index of a grid")

    def __iter__(s):
        raise Unsupported("iteration over a symbolic grid")


def bounds(sl, n):
    Z = z3()
    if sl.step not in (None, 1):
        raise Unsupported("step of a slice")

    def one(v, d):
        if v is None:
            return d
        v = zz(v)
        if lin_valid(Z.And(v >= 0, v <= n), conds()):
            return v
        if lin_valid(v < 0, conds()):
            v = v + n
        return Z.If(v < 0, Z.IntVal(0), Z.If(v > n, n, v))
    a, b = one(sl.start, Z.IntVal(0)), one(sl.stop, n)
    return Z.simplify(a), Z.simplify(b)


# ------------------------------------------------------------------ masks
class Base:
    def __init__(s, f):
        s.f = f


class Mask:
    _nnv_array = True
    __array_ufunc__ = None
    dtype = bool

    def __init__(s, base, nr, nc, r0=None, c0=None, tr=False):
        Z = z3()
        s.base, s.nr, s.nc, s.tr = base, nr, nc, tr
        s.r0, s.c0 = (Z.IntVal(0) if x is None else x for x in (r0, c0))

    @property
    def shape(s):
        a, b = Rz(s.nr), Rz(s.nc)
        return (b, a) if s.tr else (a, b)

    ndim = 2

    def nnv_len(s):
        return s.shape[0]

    def get(s, i, j):
        if s.tr:
            i, j = j, i
        return s.base.f(s.r0 + i, s.c0 + j)

    @property
    def T(s):
        return Mask(s.base, s.nr, s.nc, s.r0, s.c0, not s.tr)

    def transpose(s, *a):
        if a not in ((), (1, 0), ((1, 0),), (0, 1)):
            raise Unsupported("transposition")
        return s.T

    def copy(s):
        return Mask(Base(s.base.f), s.nr, s.nc, s.r0, s.c0, s.tr)

    clone = copy

    def region(s, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = idx + (slice(None),) * (2 - len(idx))
        if s.tr or len(idx) != 2:
            raise Unsupported("index of a mask")
        out = []
        for x, n in zip(idx, (s.nr, s.nc)):
            if isinstance(x, slice):
                out.append(bounds(x, n))
            else:
                raise Unsupported("index of a mask")
        return out

    def __getitem__(s, idx):
        Z = z3()
        if idx is Ellipsis:
            return s
        if isinstance(idx, tuple) and len(idx) == 2 and all(num(x) for x in idx):
            i, j = map(zz, idx)
            oblige("index within the mask", Z.And(i >= 0, i < zz(s.shape[0]), j >= 0, j < zz(s.shape[1])))
            return SBool(s.get(i, j))
        (a, b), (c, d) = s.region(idx)
        sm = Z.simplify
        return Mask(s.base, sm(b - a), sm(d - c), sm(s.r0 + a), sm(s.c0 + c))

    def write(s, f, idx, val):
        """the function f of (row, column) of the base with the region set"""
        Z = z3()
        if isinstance(idx, tuple) and len(idx) == 2 and all(num(x) for x in idx):
            i, j = map(zz, idx)
            oblige("index within the mask", Z.And(i >= 0, i < s.nr, j >= 0, j < s.nc))
            a, b, c, d = i, i + 1, j, j + 1
        elif idx is Ellipsis:
            a, b, c, d = Z.IntVal(0), s.nr, Z.IntVal(0), s.nc
        else:
            (a, b), (c, d) = s.region(idx)
        r0, c0 = s.r0, s.c0
        if isinstance(val, Mask):
            oblige("shapes agree in an assignment", Z.And(zz(val.shape[0]) == b - a, zz(val.shape[1]) == d - c))
            vf, vr, vc, vt = val.base.f, val.r0, val.c0, val.tr
            v = lambda i, j: vf(vr + j, vc + i) if vt else vf(vr + i, vc + j)
        elif isinstance(val, (bool, np.bool_)):
            v = lambda i, j: Z.BoolVal(bool(val))
        elif isinstance(val, SBool):
            v = lambda i, j: val.z
        else:
            raise Unsupported("value of a mask")
        return lambda i, j: Z.If(Z.And(i >= r0 + a, i < r0 + b, j >= c0 + c, j < c0 + d), v(i - r0 - a, j - c0 - c), f(i, j))

    def __setitem__(s, idx, val):
        from .symbk import INPLACE
        if not INPLACE[0]:
            raise TypeError("arrays are immutable")
        s.base.f = s.write(s.base.f, idx, val)

    def fill(s, v):
        s[:, :] = v

    @property
    def at(s):
        return At(s)

    def __iter__(s):
        raise Unsupported("iteration over a mask")

    def _bool(s, o, f):
        if isinstance(o, Mask):
            a, b = s, o
            sh = (a.shape[0].z, a.shape[1].z)
            oblige("shapes agree", z3().And(sh[0] == b.shape[0].z, sh[1] == b.shape[1].z))
            fa, fb = a.snap(), b.snap()
            return Mask(Base(lambda i, j: f(fa(i, j), fb(i, j))), *sh)
        raise Unsupported("operation on a mask")

    def snap(s):
        f, r, c, t = s.base.f, s.r0, s.c0, s.tr
        return lambda i, j: f(r + j, c + i) if t else f(r + i, c + j)

    def __or__(s, o): return s._bool(o, lambda a, b: z3().Or(a, b))
    def __and__(s, o): return s._bool(o, lambda a, b: z3().And(a, b))


class At:
    def __init__(s, m, idx=None):
        s.m, s.idx = m, idx

    def __getitem__(s, idx):
        return At(s.m, idx)

    def set(s, v):
        m = s.m
        return Mask(Base(m.write(m.base.f, s.idx, v)), m.nr, m.nc, m.r0, m.c0, m.tr)


# ------------------------------------------------------------------ shapes
TRIG = {}


def trig(angle, deg):
    """cosine and sine of an angle"""
    Z = z3()
    a = Z.simplify(zz(angle)) if num(angle) else None
    if a is None:
        raise Unsupported("angle")
    k = (a.sexpr(), deg)
    if k not in TRIG:
        m = Z.simplify(-a)
        if (m.sexpr(), deg) in TRIG:
            c, s = TRIG[m.sexpr(), deg]
            TRIG[k] = (c, -s)
        elif Z.is_rational_value(O.real(a)) and float(O.real(Z.simplify(a)).as_fraction() if not Z.is_int_value(a) else a.as_long()) == 0:
            TRIG[k] = (Rz(Z.RealVal(1)), Rz(Z.RealVal(0)))
        else:
            n = len(TRIG)
            TRIG[k] = (Rz(Z.Real(f"cos{n}")), Rz(Z.Real(f"sin{n}")))
    return TRIG[k]


class Shape:
    """points p such that `pred` holds at the arguments, affine functions of the coordinates of p"""

    def __init__(s, pred, fun, center=None, calls=None):
        s.pred, s.fun, s.center = pred, fun, center
        s.calls = calls

    def args(s, px, py):
        return [x if isinstance(x, Rz) else Rz(zz(x)) for x in s.fun(px, py)]

    def z(s, px, py):
        """membership as a z3 term"""
        Z = z3()
        if s.pred not in PREDS:
            PREDS[s.pred] = Z.Function(f"in_{len(PREDS)}", Z.RealSort(), Z.RealSort(), Z.BoolSort())
        a, b = s.args(px, py)
        return PREDS[s.pred](O.real(a.z), O.real(b.z))

    # affine maps: p -> A p + t
    def affine(s, A, t):
        (a, b), (c, d) = A
        det = a * d - b * c
        nz = det.z if isinstance(det, Rz) else None
        if nz is not None:
            oblige("the transformation is invertible", nz != 0)
        elif det == 0:
            raise Unsupported("transformation")
        f = s.fun

        def g(px, py):
            x, y = px - t[0], py - t[1]
            return f((d * x - b * y) / det, (a * y - c * x) / det)
        cen = s.center
        if cen is not None:
            cen = (a * cen[0] + b * cen[1] + t[0], c * cen[0] + d * cen[1] + t[1])
        return Shape(s.pred, g, cen)

    def about(s, A, o):
        (a, b), (c, d) = A
        return s.affine(A, (o[0] - a * o[0] - b * o[1], o[1] - c * o[0] - d * o[1]))

    def origin(s, o):
        if isinstance(o, Pt):
            return o.xy
        if isinstance(o, (tuple, list)) and len(o) in (2, 3):
            return (o[0], o[1])
        if o in ("center", "centroid") and s.center is not None:
            return s.center
        raise Unsupported("origin")

    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a shape")

    # predicates of shapely
    def intersects(s, r):
        return s.ask("intersects", r)

    def disjoint(s, r):
        return ~s.ask("intersects", r)

    def contains(s, r):
        if isinstance(r, Pt):
            return SBool(s.z(*r.xy))
        return s.ask("contains", r)

    covers = None

    def ask(s, what, r):
        Z = z3()
        if s.calls is None or not isinstance(r, Box):
            raise Unsupported(f"{what} of this shape")
        k = (what, tuple(Z.simplify(O.real(x.z)).sexpr() for x in r.bbox))
        for w in s.calls:
            if w[3] == k:
                return SBool(w[2])
        b = Z.Bool(f"{what}{len(s.calls)}")
        s.calls.append((what, r.bbox, b, k))
        return SBool(b)


PREDS = {}


class Pt(Shape):
    def __init__(s, x, y):
        s.xy = tuple(v if isinstance(v, Rz) else Rz(zz(v)) for v in (x, y))

    x = property(lambda s: s.xy[0])
    y = property(lambda s: s.xy[1])

    def within(s, shp):
        return shp.contains(s)

    def buffer(s, r, *a, **k):
        if a or k:
            raise Unsupported("options of buffer")
        cx, cy = s.xy
        r = r if isinstance(r, Rz) else Rz(zz(r))
        oblige("radius", r.z > 0)
        return Shape("disc", lambda px, py: ((px - cx) / r, (py - cy) / r), (cx, cy))

    def z(s, *a):
        raise Unsupported("membership in a point")


class Box(Shape):
    """rectangle with sides parallel to the axes: left, right, bottom, top"""

    def __init__(s, l, r, b, t):
        s.bbox = tuple(x if isinstance(x, Rz) else Rz(zz(x)) for x in (l, r, b, t))
        l, r, b, t = s.bbox
        super().__init__("square", lambda px, py: ((px - (l + r) / 2) / (r - l), (py - (b + t) / 2) / (t - b)), ((l + r) / 2, (b + t) / 2))


def eqv(a, b):
    Z = z3()
    return lin_valid(O.real(zz(a)) == O.real(zz(b)), [])


def polygon(vs, holes=None):
    if holes:
        raise Unsupported("holes")
    if isinstance(vs, Verts):
        return Shape("polygon", lambda x, y: (x, y))
    vs = [tuple(v.xy) if isinstance(v, Pt) else tuple(v) for v in list(vs)]
    if len(vs) == 5 and all(eqv(a, b) for a, b in zip(vs[0], vs[4])):
        vs = vs[:4]
    if len(vs) != 4:
        raise Unsupported("polygon")
    vs = [tuple(x if isinstance(x, Rz) else Rz(zz(x)) for x in v) for v in vs]
    # parallel to the axes
    for k in range(4):
        w = vs[k:] + vs[:k]
        for w in (w, [w[0]] + w[:0:-1]):
            if eqv(w[0][1], w[1][1]) and eqv(w[2][1], w[3][1]) and eqv(w[0][0], w[3][0]) and eqv(w[1][0], w[2][0]):
                if k in (0, 1):
                    return Box(w[0][0], w[1][0], w[0][1], w[3][1])
    # parallelogram
    if all(eqv(vs[0][i] + vs[2][i], vs[1][i] + vs[3][i]) for i in (0, 1)):
        c = [(vs[0][i] + vs[2][i]) / 2 for i in (0, 1)]
        e1 = [vs[1][i] - vs[0][i] for i in (0, 1)]
        e2 = [vs[3][i] - vs[0][i] for i in (0, 1)]
        det = e1[0] * e2[1] - e1[1] * e2[0]
        return Shape("square", lambda px, py: ((e2[1] * (px - c[0]) - e2[0] * (py - c[1])) / det, (e1[0] * (py - c[1]) - e1[1] * (px - c[0])) / det), tuple(c))
    raise Unsupported("polygon")


class Verts:
    """the user's list of vertices"""
    _nnv_array = True

    def __iter__(s):
        raise Unsupported("iteration over the vertices")


def point(*a):
    if len(a) == 1:
        a = a[0].xy if isinstance(a[0], Pt) else list(a[0])
    return Pt(a[0], a[1])


def rot(angle, deg):
    c, s = trig(angle, deg)
    return (c, -s), (s, c)


def affine_transform(g, m):
    m = list(m)
    if len(m) != 6:
        raise Unsupported("affine transformation")
    return g.affine(((m[0], m[1]), (m[2], m[3])), (m[4], m[5]))


def rotate(g, angle, origin="center", use_radians=False):
    return g.about(rot(angle, not use_radians), g.origin(origin))


def scale(g, xfact=1.0, yfact=1.0, zfact=1.0, origin="center"):
    z = Rz(z3().RealVal(0))
    return g.about(((Rz(O.real(zz(xfact))), z), (z, Rz(O.real(zz(yfact))))), g.origin(origin))


def translate(g, xoff=0.0, yoff=0.0, zoff=0.0):
    one, z = Rz(z3().RealVal(1)), Rz(z3().RealVal(0))
    return g.affine(((one, z), (z, one)), (xoff, yoff))


def box(minx, miny, maxx, maxy, ccw=True):
    return Box(minx, maxx, miny, maxy)


# ------------------------------------------------------------------ the numerical module
class Mesh:
    """coordinate k of the points of a product of grids"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, xs, k):
        s.xs, s.k = xs, k

    @property
    def shape(s):
        return tuple(Rz(x.n) for x in s.xs)

    def __getitem__(s, i):
        if isinstance(i, tuple) and len(i) == 2 and i[1 - s.k] == 0 and i[s.k] == slice(None):
            return s.xs[s.k]
        raise Unsupported("index of the grid")

    def __iter__(s):
        raise Unsupported("iteration over the grid")


class Pair(list):
    _nnv_array = True


class Bk(O.Bk):
    bool = bool_ = bool

    @staticmethod
    def zeros(shape, dtype=None, **k):
        if isinstance(shape, (tuple, list)) and len(shape) == 2 and dtype is bool:
            return Mask(Base(lambda i, j: z3().BoolVal(False)), *[zz(x) for x in shape])
        raise Unsupported("zeros")

    @staticmethod
    def ones(shape, dtype=None, **k):
        if isinstance(shape, (tuple, list)) and len(shape) == 2 and dtype is bool:
            return Mask(Base(lambda i, j: z3().BoolVal(True)), *[zz(x) for x in shape])
        raise Unsupported("ones")

    @staticmethod
    def full(shape, v, dtype=None, **k):
        return (Bk.ones if v is True else Bk.zeros)(shape, dtype=bool) if v in (True, False) else None

    @staticmethod
    def linspace(a, b, n, **k):
        Z = z3()
        if set(k) - {"dtype", "device"}:
            raise Unsupported("options of linspace")
        a, b, n = (x if isinstance(x, Rz) else Rz(zz(x)) for x in (a, b, n))
        a, b = O.real(a.z), O.real(b.z)
        return Seq1(lambda i: a + (b - a) * unit(i, n.z), n.z)

    @staticmethod
    def meshgrid(x, y, indexing="xy"):
        if not (isinstance(x, Seq1) and isinstance(y, Seq1) and indexing == "ij"):
            raise Unsupported("meshgrid")
        return Mesh((x, y), 0), Mesh((x, y), 1)

    @staticmethod
    def stack(xs, axis=0, dim=0):
        if axis or dim:
            raise Unsupported("stack")
        return Pair(xs)

    @staticmethod
    def array(x, dtype=None, **k):
        if isinstance(x, (Seq1, Mesh, Mask, Pair)):
            return x
        return O.Bk.array(x, dtype)
    asarray = array

    @staticmethod
    def logical_or(a, b): return a | b

    @staticmethod
    def logical_and(a, b): return a & b

    @staticmethod
    def transpose(m, *a): return m.transpose(*a)


def unit(i, n):
    """fraction i / (n - 1), by its properties: 0 at 0, 1 at n - 1, strictly increasing"""
    Z = z3()
    k = ("unit", n.sexpr())
    if k not in PREDS:
        PREDS[k] = Z.Function(f"unit{len(PREDS)}", Z.IntSort(), Z.RealSort())
    return PREDS[k](i)


def install(prog):
    bk = Bk()
    prog.ext("shapely.affinity", Stub("shapely.affinity", affine_transform=affine_transform, rotate=rotate, scale=scale, translate=translate))
    prog.ext("shapely.geometry", Stub("shapely.geometry", Polygon=polygon, Point=point, box=box))
    prog.ext("shapely", Stub("shapely", affinity=prog.external("shapely.affinity"), geometry=prog.external("shapely.geometry"),
                             Polygon=polygon, Point=point, box=box))
    geo = prog.load("nannos.geometry")
    lat = prog.load("nannos.lattice")
    for m in (geo, lat):
        O.install(prog, m, prog.bk)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, O.Bk):
                m.__dict__[k] = bk
    return geo, lat
