"""Symbolic numerical back end: the assumed contracts of the array library."""
import numpy as np
from .engine import *
from .load import Stub
import math


class DType:
    def __init__(s, name, kind):
        s.name, s.kind = name, kind

    def __repr__(s):
        return s.name

    def __call__(s, x):
        return cast(x, s)


F64, C128, F32, C64, I32, I64, BOOL = (DType(n, k) for n, k in
                                       (("float64", "f"), ("complex128", "c"), ("float32", "f"), ("complex64", "c"),
                                        ("int32", "i"), ("int64", "i"), ("bool", "b")))


def cast(x, dt):
    if dt is None:
        return x
    k = dt.kind if isinstance(dt, DType) else {int: "i", float: "f", complex: "c", bool: "b"}.get(dt)
    if k is None:
        k = {"_int": "i", "_float": "f", "_complex": "c"}.get(getattr(dt, "__name__", ""), None)
    if k in ("c", None) or k == "b":
        return x
    if k == "f":
        bad = False
        for p in polys(x):
            if not p.is_real():
                raise Unsupported(f"complex value stored in a real array: {p!r}")
        return x
    if k == "i":
        if isinstance(x, (int, SInt)):
            return x
        if isinstance(x, np.ndarray) and all(isinstance(v, (int, SInt)) for v in x.ravel()):
            return x
        raise Unsupported("conversion to integers")
    return x


def polys(x):
    if isinstance(x, Sc):
        return [x.p]
    if isinstance(x, Vec):
        return [p for p, _ in x.parts]
    if isinstance(x, TArr):
        return [p for c in x.data.ravel() for p in polys(c)]
    if isinstance(x, np.ndarray):
        return [p for c in x.ravel() for p in polys(c)]
    if isinstance(x, (int, float, complex, SInt, np.generic)):
        return [topoly(x)]
    return []


def wrap(v):
    if isinstance(v, Arr0):
        return v
    if isinstance(v, Sc):
        return v
    if isinstance(v, SInt):
        return v
    if isinstance(v, np.ndarray) and v.shape == ():
        return wrap(v.item())
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, complex, np.generic, Fr)):
        return Sc(topoly(v))
    return v


TAPE = None     # (record, list constructor cuts): see contracts/p24.py


def taped(kind, x):
    """x is about to be turned into a number or an array of its own, without its derivative"""
    if TAPE is not None:
        import sys
        f, where = sys._getframe(2), "?"
        while f is not None:
            n = f.f_code.co_filename
            if "/nannos/" in n and "/verif/" not in n:
                where = f"{n.split('/nannos/')[-1]}:{f.f_lineno} ({f.f_code.co_name})"
                break
            f = f.f_back
        TAPE(kind, where, x)


def array(x, dtype=None, **kw):
    if TAPE is not None and isinstance(x, (list, tuple)):
        taped("list", x)
    if kw:
        for k in kw:
            if k not in ("copy", "device", "requires_grad"):
                raise TypeError(f"unexpected keyword {k}")
    return cast(_array(x), dtype)


def _array(x):
    if isinstance(x, Arr0):
        return x
    if isinstance(x, (SInt, int, np.integer)) and not isinstance(x, bool):
        return x
    if isinstance(x, NUM + (Sc,)):
        return Arr0(topoly(x))
    if isinstance(x, TArr):
        return x.copy()
    if isinstance(x, (Vec, Mat)):
        return x.copy() if INPLACE[1] else x
    if getattr(x, "_nnv_array", False):
        return x
    if isinstance(x, np.ndarray):
        return oarr(x)
    if isinstance(x, range):
        x = list(x)
    if hasattr(x, "nnv_array"):
        return x.nnv_array()
    if isinstance(x, (list, tuple)):
        items = [_array(v) for v in x]
        return stack(items)
    if isinstance(x, bool):
        return x
    raise Unsupported(f"array of {type(x).__name__}")


def oarr(x):
    x = np.asarray(x)
    out = np.empty(x.shape, object)
    for i in np.ndindex(*x.shape):
        out[i] = wrap(x[i])
    return out.view(OArr)


def stack(items, axis=0):
    items = list(items)
    if axis not in (0,):
        items = [i for i in items]
        if all(isinstance(i, np.ndarray) for i in items):
            return np.stack(items, axis=axis).view(OArr)
        raise Unsupported("stack along another axis")
    if any(isinstance(i, Mat) for i in items):
        raise Unsupported("stack of matrices")
    if any(getattr(i, "_nnv_opaque", False) for i in items):
        o = next(i for i in items if getattr(i, "_nnv_opaque", False))
        sh = o.sh if o.sh is not None else (SInt.var(CTX.fresh("len")),)
        return type(o)((len(items),) + tuple(sh))
    if items and all(hasattr(i, "nnv_elem") for i in items):
        out = np.empty(len(items), object)
        for j, v in enumerate(items):
            out[j] = v
        return out.view(OArr)
    if all(isinstance(i, Vec) for i in items):
        d = np.empty(len(items), object)
        k = items[0].k
        for j, v in enumerate(items):
            if v.k != k:
                raise ShapeError("all input arrays must have the same shape")
            d[j] = v
        return TArr(d, k, type(items[0]))
    if all(isinstance(i, TArr) for i in items):
        return TArr(np.stack([i.data for i in items]), items[0].k, items[0].cls)
    if all(isinstance(i, np.ndarray) for i in items):
        if len({i.shape for i in items}) > 1:
            raise ValueError("all input arrays must have the same shape")
        out = np.empty((len(items),) + (items[0].shape if items else ()), object)
        for j, v in enumerate(items):
            out[j] = v
        return out.view(OArr)
    if all(isinstance(i, NUM + (Sc, SInt)) for i in items):
        out = np.empty(len(items), object)
        for j, v in enumerate(items):
            out[j] = wrap(v)
        return out.view(OArr)
    if any(isinstance(i, (Vec, TArr, Mat, np.ndarray)) for i in items) and any(isinstance(i, NUM + (Sc, SInt)) for i in items):
        raise ValueError("setting an array element with a sequence")
    raise Unsupported("array of " + ", ".join(type(i).__name__ for i in items[:3]))


def elem(x, f):
    """apply a function of one entry"""
    if hasattr(x, "nnv_elem"):
        return x.nnv_elem(f)
    if isinstance(x, TArr):
        return x.map(lambda v: elem(v, f))
    if isinstance(x, Vec):
        return x.map(f)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape):
            out[i] = elem(x[i], f)
        return out.view(OArr)
    if isinstance(x, NUM + (Sc, SInt)):
        return Sc(f(topoly(x)))
    if isinstance(x, list):
        return elem(array(x), f)
    raise Unsupported(f"element-wise function of {type(x).__name__}")


def conj(x):
    if isinstance(x, Mat):
        return x.conj()
    return elem(x, lambda p: p.conj())


def real(x):
    if isinstance(x, Mat):
        return x.real
    return elem(x, lambda p: p.re())


def imag(x):
    return elem(x, lambda p: p.im())


def dimsof(shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return tuple(shape)


def zeros(shape, dtype=None, **k):
    return full(shape, 0)


def ones_(shape, dtype=None, **k):
    return full(shape, 1)


def full(shape, v):
    sh = dimsof(shape)
    if sh and isinstance(sh[0], tuple):
        sh = sh[0]
    if all(isinstance(d, (int, np.integer)) for d in sh):
        out = np.empty(sh, object)
        out[...] = Sc(Poly.const(v))
        return out.view(OArr)
    if is_grid_shape(sh):
        return Grid([(Poly.const(v), GDIM)])
    if len(sh) == 2 and not v and all(isinstance(d, SInt) for d in sh) and not all(dimk_poly(d.p) for d in sh):
        from .load import ZeroND
        return ZeroND(sh)
    if len(sh) == 2 and all(isinstance(d, SInt) for d in sh):
        if v:
            raise Unsupported("constant matrix")
        return Mat(NC.zero(dimk(sh[0]), dimk(sh[1])))
    if isinstance(sh[-1], SInt) and all(isinstance(d, (int, np.integer)) for d in sh[:-1]):
        k = dimk(sh[-1])
        if len(sh) == 1:
            return Vec([(Poly.const(v), k)])
        d = np.empty(sh[:-1], object)
        for i in np.ndindex(*d.shape):
            d[i] = Vec([(Poly.const(v), k)])
        return TArr(d, k)
    if len(sh) >= 2 and isinstance(sh[0], SInt) and not v and isinstance(sh[-1], SInt) and dimk_poly(sh[-1].p):
        from .load import SymStack
        p = full(sh[1:], 0)
        if isinstance(p, TArr):
            return SymStack(sh[0], p)
    if not v and all(isinstance(d, (int, np.integer, SInt)) for d in sh):
        from .load import ZeroND
        return ZeroND(sh)
    raise Unsupported(f"array of shape {sh}")


def zeros_like(x, dtype=None, **k):
    if isinstance(x, Mat):
        return Mat(NC.zero(x.nc.rows, x.nc.cols))
    return elem(x, lambda p: Poly.const(0))


def ones_like(x, dtype=None, **k):
    return elem(x, lambda p: Poly.const(1))


def eye(n, m=None, dtype=None, **k):
    if m is not None:
        raise Unsupported("rectangular identity")
    if isinstance(n, SInt):
        return Mat(NC.eye(dimk(n)))
    return oarr(np.eye(int(n)))


def diag(x):
    if isinstance(x, Vec):
        return Mat(x.diag())
    if isinstance(x, Mat):
        return diagonal(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 2:
            return oarr(np.array([x[i, i] for i in range(min(x.shape))], dtype=object))
        out = np.empty((len(x), len(x)), object)
        out[...] = Sc(Poly.const(0))
        for i in range(len(x)):
            out[i, i] = x[i]
        return out.view(OArr)
    raise Unsupported("diag")


def diagonal(x):
    """diagonal of an explicitly diagonal matrix"""
    out = Poly({})
    if x.nc.rows != x.nc.cols:
        raise Unsupported("diagonal of a rectangular matrix")
    for w, c in x.nc.t.items():
        if not w:
            out = out + c
        elif len(w) == 1 and w[0].kind == "D":
            out = out + c * Poly({w[0].args: ONE})
        else:
            raise Unsupported("diagonal of a full matrix")
    return Vec([(out, x.nc.rows)])


def hstack(xs):
    xs = [array(x) for x in xs]
    if all(isinstance(x, Vec) for x in xs):
        return Vec(sum((x.parts for x in xs), []))
    if all(isinstance(x, Mat) for x in xs):
        if len(xs) == 1:
            return xs[0]
        if len(xs) == 2:
            a, b = xs
            if a.nc.rows != b.nc.rows:
                raise ShapeError("rows differ in hstack")
            if a.nc.cols != b.nc.cols:
                raise Unsupported("unequal blocks")
            k = a.nc.cols
            return Mat(a.nc * NC.letter(Psel(1, k)) + b.nc * NC.letter(Psel(2, k)))
        if len(xs) == 4:
            return hstack([hstack(xs[:2]), hstack(xs[2:])])
    if all(isinstance(x, np.ndarray) for x in xs):
        return np.hstack(xs).view(OArr)
    raise Unsupported("hstack of " + ", ".join(type(x).__name__ for x in xs))


def vstack(xs):
    xs = [array(x) for x in xs]
    if all(isinstance(x, Mat) for x in xs):
        if len(xs) == 1:
            return xs[0]
        if len(xs) == 2:
            a, b = xs
            if a.nc.cols != b.nc.cols:
                raise ShapeError("columns differ in vstack")
            if a.nc.rows != b.nc.rows:
                raise Unsupported("unequal blocks")
            k = a.nc.rows
            return Mat(NC.letter(Einj(1, k)) * a.nc + NC.letter(Einj(2, k)) * b.nc)
        if len(xs) == 4:
            return vstack([vstack(xs[:2]), vstack(xs[2:])])
    if all(isinstance(x, Vec) for x in xs):
        return stack(xs)
    if all(isinstance(x, np.ndarray) for x in xs):
        return np.vstack(xs).view(OArr)
    raise Unsupported("vstack of " + ", ".join(type(x).__name__ for x in xs))


def concatenate(xs, axis=0):
    xs = [array(x) for x in xs]
    if axis == 0 and all(isinstance(x, Mat) for x in xs):
        return vstack(xs)
    if axis in (0, 1, -1) and (all(isinstance(x, Vec) for x in xs) or all(isinstance(x, Mat) for x in xs)):
        return hstack(xs)
    if all(isinstance(x, np.ndarray) for x in xs):
        return np.concatenate(xs, axis=axis).view(OArr)
    raise Unsupported("concatenate")


def block_(a):
    return vstack([hstack(r) for r in a])


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ops = [array(o) for o in ops]
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    kinds = tuple(type(o).__name__ for o in ops)
    if len(ops) == 2:
        a, b = ops
        i, j = ins
        if isinstance(a, Mat) and isinstance(b, Vec):
            a, b, i, j = b, a, j, i
        if isinstance(a, Vec) and isinstance(b, Mat) and len(i) == 1 and len(j) == 2:
            if out == j and i == j[0]:
                return Mat(a.diag() * b.nc)
            if out == j and i == j[1]:
                return Mat(b.nc * a.diag())
            if out == j[::-1] and i == j[0]:
                return Mat(b.nc.T() * a.diag())
            if out == j[::-1] and i == j[1]:
                return Mat(a.diag() * b.nc.T())
            if out == j[0] and i == j[1]:
                return b @ a
            if out == j[1] and i == j[0]:
                return a @ b if False else Vec.fromcol(b.nc.T() * a.col())
        if isinstance(a, Mat) and isinstance(b, Mat) and len(i) == len(j) == 2:
            for x, ii in ((a.nc, i), (a.nc.T(), i[::-1])):
                for y, jj in ((b.nc, j), (b.nc.T(), j[::-1])):
                    if ii[1] == jj[0] and out == ii[0] + jj[1] and ii[0] != jj[1]:
                        return Mat(x * y)
                    if ii[1] == jj[0] and out == jj[1] + ii[0] and ii[0] != jj[1]:
                        return Mat((x * y).T())
        if isinstance(a, Vec) and isinstance(b, Vec) and i == j:
            if out == i:
                return a * b
            if out == "":
                return (a * b).sum()
    raise Unsupported(f"einsum {spec} of {kinds}")


def matmul(a, b):
    return array(a) @ array(b)


def dot(a, b):
    a, b = array(a), array(b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.ndim == 1 and b.ndim == 1:
        out = Sc(Poly.const(0))
        if len(a) != len(b):
            raise ShapeError("dot of different lengths")
        for x, y in zip(a, b):
            out = out + x * y
        return out
    return a @ b


def sum_(x, axis=None, dim=None, **k):
    if axis is None:
        axis = dim
    if isinstance(x, (list, tuple)):
        x = array(x)
    if isinstance(x, Mat):
        raise Unsupported("sum of a matrix")
    if isinstance(x, Vec):
        if axis in (None, 0, -1):
            return Sc(psum(x))
        raise ValueError("axis out of bounds")
    if isinstance(x, TArr):
        n = x.data.ndim
        if axis is None:
            out = Sc(Poly.const(0))
            for v in x.data.ravel():
                out = out + v.sum()
            return out
        if axis < 0:
            axis += n + 1
        if axis == n:
            out = np.empty(x.data.shape, object)
            for i in np.ndindex(*out.shape):
                out[i] = x.data[i].sum()
            return out.view(OArr)
        if not 0 <= axis < n:
            raise ValueError("axis out of bounds")
        d = x.data.sum(axis=axis)
        return d if isinstance(d, Vec) else TArr(d, x.k, x.cls)
    if isinstance(x, np.ndarray):
        r = np.ndarray.sum(x, axis=axis)
        return r.view(OArr) if isinstance(r, np.ndarray) else r
    if isinstance(x, (Sc, SInt) + NUM):
        return x
    raise Unsupported("sum")


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    a, b = array(a), array(b)
    if getattr(c, "_nnv_opaque", False):
        return c
    if isinstance(c, VCond):
        half = GQ(Fr(1, 2))
        like = c.like
        if isinstance(a, TArr):
            return a.map(lambda v: where(c, v, b))
        def one(x):
            if isinstance(x, Vec):
                if x.k != like.k:
                    raise ShapeError("where: lengths differ")
                return x.one()
            return topoly(x)
        pa, pb = one(a), one(b)
        return type(like)([((pa + pb).scale(half) + c.sg * (pa - pb).scale(half), like.k)])
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, SBool):
        return a if bool(c) else b
    raise Unsupported("where")


def solve(A, B):
    if isinstance(A, Mat):
        X = A.nc.inverse()
        if isinstance(B, Mat):
            return Mat(X * B.nc)
        return Vec.fromcol(X * B.col())
    if isinstance(A, np.ndarray):
        return inv(A) @ B
    raise Unsupported("solve")


def inv(A):
    if isinstance(A, Mat):
        return Mat(A.nc.inverse())
    if isinstance(A, np.ndarray) and A.ndim == 2:
        n, m = A.shape
        if n != m:
            raise ValueError("Last 2 dimensions of the array must be square")
        if n == 1:
            return oarr(np.array([[1 / A[0, 0]]], dtype=object))
        if n == 2:
            d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
            return oarr(np.array([[A[1, 1] / d, -A[0, 1] / d], [-A[1, 0] / d, A[0, 0] / d]], dtype=object))
    raise Unsupported("inverse")


def det(A):
    if isinstance(A, np.ndarray) and A.shape == (2, 2):
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    raise Unsupported("det")


EIGS = {}


def eig(A):
    """w, v with A v = v diag(w)"""
    if not isinstance(A, Mat):
        raise Unsupported("eig")
    k = A.nc.rows
    n = f"eig{len(EIGS)}"
    n = EIGS.setdefault(A.nc.key(), n)
    w = Vec([(NC.letter(C("w_" + n, k, "diag")).entry(), k)])
    V = Mat(NC.letter(L("V_" + n, k, k)))
    EIGFACTS[n] = (A.nc, w, V)
    return w, V


EIGFACTS = {}


def norm(x, *a, **k):
    if a or k:
        raise Unsupported("norm with options")
    if isinstance(x, np.ndarray) and x.ndim == 1:
        out = Sc(Poly.const(0))
        for v in x:
            out = out + Sc(abs2(topoly(v)))
        return out ** 0.5
    raise Unsupported("norm")


def abs2(p):
    return p * p.conj()


def arange(*a, **k):
    if any(isinstance(x, SInt) for x in a):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if lo == 0 and isinstance(hi, SInt) and dimk_poly(hi.p):
            kk = dimk(hi)
            return Index1(kk)
        raise Unsupported("arange")
    return oarr(np.arange(*[int(x) for x in a]))


class Index1:
    """0..kN-1"""
    _nnv_array = True

    def __init__(s, k):
        s.k = k


class Lin:
    """linspace: entry i = a + i (b - a)/(n - 1) (a when n = 1)"""
    _nnv_array = True

    def __init__(s, a, b, n):
        s.a, s.b, s.n = a, b, n


def linspace(a, b, n=50, **k):
    if set(k) - {"dtype", "device"}:
        raise Unsupported("linspace with options")
    if not isinstance(n, SInt):
        return oarr(np.linspace(float(a), float(b), int(n)))
    return Lin(topoly(a), topoly(b), n)


def meshgrid(a, b, indexing="xy"):
    if isinstance(a, Lin) and isinstance(b, Lin):
        gx, gy = gridshape()
        if indexing != "ij" or a.n.p != gx.p or b.n.p != gy.p:
            raise Unsupported("meshgrid of another shape")
        return [grid(f"lin({l.a.key()},{l.b.key()})@{i}", "real") for i, l in enumerate((a, b))]
    if isinstance(a, Index1) and isinstance(b, Index1):
        return MeshIdx(0 if indexing == "ij" else 1, a.k), MeshIdx(1 if indexing == "ij" else 0, a.k)
    raise Unsupported("meshgrid")


class MeshIdx:
    """matrix whose entry (i, j) is i (axis 0) or j (axis 1)"""
    _nnv_array = True

    def __init__(s, axis, k):
        s.axis, s.k = axis, k

    @property
    def T(s): return MeshIdx(1 - s.axis, s.k)


def tensordot_for(backend):
    def contract(A, B, ax):
        if isinstance(ax, int) and ax == 1:
            ax = (1, 0)
        if not (isinstance(ax, (tuple, list)) and len(ax) == 2):
            raise Unsupported("tensordot")
        a, b = [x[0] if isinstance(x, (tuple, list)) and len(x) == 1 else x for x in ax]
        if not all(isinstance(x, int) for x in (a, b)) or not (isinstance(A, np.ndarray) and A.ndim == 2):
            raise Unsupported("tensordot")
        rows = B.data if isinstance(B, TArr) else B
        if b % (B.ndim if hasattr(B, "ndim") else 1) != 0 or len(rows) != A.shape[a]:
            raise Unsupported("tensordot")
        M = A if a % 2 == 1 else A.T
        return stack([sum((rows[j] * M[i, j] for j in range(1, M.shape[1])), rows[0] * M[i, 0]) for i in range(M.shape[0])])

    def torch(A, B, dims=2):
        return contract(A, B, dims)

    def np_(A, B, axes=2):
        return contract(A, B, axes)
    return torch if backend == "torch" else np_


def finfo(dt):
    return Stub("finfo", eps=Sc(sym("eps_mach", "pos")))


def reshape(x, shape):
    one = lambda d: isinstance(d, int) and d == 1
    if isinstance(x, Vec) and len(shape) == 2 and one(shape[1]):
        return ColArr(x)
    if isinstance(x, Vec) and len(shape) == 2 and one(shape[0]) and topoly(shape[1]) == topoly(x.shape[0]):
        d = np.empty(1, object)
        d[0] = x
        return TArr(d, x.k, type(x))
    raise Unsupported("reshape")


class ColArr:
    _nnv_array = True

    def __init__(s, v):
        s.v = v

    @property
    def shape(s):
        return s.v.shape + (1,)


def trapz(*a):
    raise Unsupported("trapz")


def allfn(x):
    if hasattr(x, "nnv_all"):
        return x.nnv_all()
    if isinstance(x, (list, tuple, np.ndarray)):
        r = True
        for v in np.asarray(x, object).ravel():
            r = r and bool(v)
        return r
    if isinstance(x, (bool, SBool)):
        return x
    raise Unsupported("all")


def maxfn(x, *a, **k):
    if hasattr(x, "nnv_max"):
        return x.nnv_max()
    raise Unsupported("max")


def minfn(x, *a, **k):
    if hasattr(x, "nnv_min"):
        return x.nnv_min()
    raise Unsupported("min")


def absfn(x):
    return x.nnv_abs() if hasattr(x, "nnv_abs") else elem(x, pabs)


def isgrid(x):
    return isinstance(x, Grid)


def fft_for(shapekw, axeskw):
    """fft2, ifft2 with the keywords of one library"""
    def mk(inverse):
        def f(x, *a, **k):
            nrm = k.pop("norm", None)
            if a or set(k) - {shapekw, axeskw} or nrm not in (None, "backward", "forward"):
                raise Unsupported("fft options")
            if k.get(shapekw) is not None:
                raise Unsupported("padded fft")
            axes = k.get(axeskw, (-2, -1))
            if hasattr(x, "nnv_fft"):
                t = x.nnv_fft(tuple(axes), inverse)
                if nrm == "forward":
                    n = SInt(topoly(t.shape[axes[0]]) * topoly(t.shape[axes[1]]))
                    t = t * n if inverse else t / n
                return t
            raise Unsupported("fft2 of " + type(x).__name__)
        return f
    return dict(fft2=mk(False), ifft2=mk(True))


PI = None


class BK(Stub):
    """attribute access to an unknown function gives a stub refusing calls"""


def make(backend):
    m = BK("backend")
    pi = math.pi
    d = dict(
        float64=F64, complex128=C128, float32=F32, complex64=C64, int32=I32, int64=I64, bool=BOOL, bool_=BOOL,
        array=array, asarray=array, stack=stack, conj=conj, conjugate=conj, real=real, imag=imag, zeros=zeros, ones=ones_, zeros_like=zeros_like,
        ones_like=ones_like, eye=eye, identity=eye, diag=diag, diagonal=diagonal, hstack=hstack, vstack=vstack, concatenate=concatenate, block=block_, einsum=einsum,
        matmul=matmul, dot=dot, sum=sum_, where=where, exp=lambda x: elem(x, fexp), sqrt=lambda x: elem(x, fsqrt),
        sin=lambda x: elem(x, lambda p: fgen("sin", p)), cos=lambda x: elem(x, lambda p: fgen("cos", p)), tan=lambda x: elem(x, lambda p: fgen("tan", p)),
        tanh=lambda x: elem(x, lambda p: fgen("tanh", p)), abs=absfn, absolute=absfn,
        arctan2=None, pi=pi, arange=arange, meshgrid=meshgrid, finfo=finfo, reshape=reshape, all=allfn, max=maxfn, min=minfn,
        square=lambda x: x * x, ndarray=np.ndarray, Tensor=(Vec, Mat, TArr, Arr0, np.ndarray),
        multiply=lambda a, b: a * b, add=lambda a, b: a + b, subtract=lambda a, b: a - b, divide=lambda a, b: a / b,
        transpose=lambda a: a.T, negative=lambda a: -a,
    )
    d["linspace"] = linspace
    d["tensordot"] = tensordot_for(backend)
    d["linalg"] = Stub("linalg", solve=solve, inv=inv, eig=eig, norm=norm, det=det)
    d["fft"] = Stub("fft", **(fft_for("s", "dim") if backend == "torch" else fft_for("s", "axes")))
    d["fftpack"] = Stub("fftpack", **fft_for("shape", "axes"))
    d["torchfft"] = Stub("torch.fft", **fft_for("s", "dim"))
    d["errstate"] = None
    m.__dict__.update({k: v for k, v in d.items() if v is not None})
    if backend == "torch":
        m.__dict__["trapezoid"] = Stub("trapezoid")
    return m
