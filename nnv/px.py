"""Arrays by the value of a generic element (conditionals split paths), and opaque arrays."""
from .engine import *


class Px:
    """array known by its value at an arbitrary element; all operations on it are element-wise"""
    __array_ufunc__ = None
    _nnv_array = True

    def __init__(s, p, shape):
        s.p, s.sh = topoly(p), shape

    @property
    def shape(s):
        return s.sh

    @property
    def ndim(s):
        return len(s.sh)

    def nnv_elem(s, f):
        return Px(f(s.p), s.sh)

    def __len__(s):
        raise Unsupported("len of an array of symbolic shape through the builtin")

    def nnv_len(s):
        return s.sh[0]

    def nnv_max(s):
        m = sym(CTX.fresh("max"), "real")
        CTX.maxes = getattr(CTX, "maxes", []) + [(m, s.p)]
        return Sc(m)

    def copy(s):
        return Px(s.p, s.sh)

    def _bin(s, o, f):
        if isinstance(o, Opq):
            return o
        if isinstance(o, Px):
            if [topoly(a) for a in o.sh] != [topoly(a) for a in s.sh]:
                raise ShapeError("operands could not be broadcast together")
            return Px(f(s.p, o.p), s.sh)
        if isinstance(o, NUM + (Sc, SInt)):
            return Px(f(s.p, topoly(o)), s.sh)
        return NotImplemented

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._bin(o, lambda a, b: a * safeinv(b))
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: b * safeinv(a))
    def __neg__(s): return Px(-s.p, s.sh)
    def __pos__(s): return s
    def __pow__(s, n): return Px(ppow(s.p, n), s.sh)
    def __abs__(s): return Px(pabs(s.p), s.sh)

    @property
    def real(s): return Px(s.p.re(), s.sh)
    @property
    def imag(s): return Px(s.p.im(), s.sh)
    def conj(s): return Px(s.p.conj(), s.sh)

    def _cmp(s, o, op):
        if isinstance(o, Px):
            o = Sc(o.p)
        return Sc(s.p)._cmp(o, op)

    def __lt__(s, o): return s._cmp(o, "<")
    def __le__(s, o): return s._cmp(o, "<=")
    def __gt__(s, o): return s._cmp(o, ">")
    def __ge__(s, o): return s._cmp(o, ">=")
    def __eq__(s, o): return s._cmp(o, "==")
    def __ne__(s, o): return s._cmp(o, "!=")
    def __hash__(s): return hash(s.p)


def safeinv(p):
    """1/p as an atom (also of values that may vanish: the obligation is on the result)"""
    if p.isconst() and not p.constval():
        raise ZeroDivisionError
    return p.inverse() if hasattr(p, "inverse") else binv(p)


class Opq:
    """array nothing is assumed about"""
    __array_ufunc__ = None
    _nnv_array = True
    _nnv_opaque = True

    def __init__(s, shape=None):
        s.sh = shape

    @property
    def shape(s):
        if s.sh is None:
            raise Unsupported("shape of an intermediate array")
        return s.sh

    def nnv_elem(s, f):
        return Opq(s.sh)

    def nnv_max(s):
        return Opq(())

    def __len__(s):
        raise Unsupported("len of an array of symbolic shape through the builtin")

    def nnv_len(s):
        return s.shape[0]

    def copy(s):
        return s

    def _op(s, *a):
        return Opq(s.sh)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _op
    __lt__ = __le__ = __gt__ = __ge__ = _op
    __matmul__ = __rmatmul__ = lambda s, o: Opq()
    real = imag = property(lambda s: Opq(s.sh))

    @property
    def T(s):
        return Opq(s.sh[::-1] if s.sh else None)

    def __eq__(s, o):
        return Opq(s.sh)

    __hash__ = object.__hash__

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if s.sh and isinstance(i, int):
            return Opq(s.sh[1:])
        if s.sh and isinstance(i, tuple) and len(i) <= len(s.sh) and all(isinstance(x, slice) and x.step in (None, 1) and (x.start is None or isinstance(x.start, int) and x.start == 0) for x in i):
            return Opq(tuple(n if x.stop is None else x.stop for x, n in zip(i, s.sh)) + tuple(s.sh[len(i):]))
        return Opq()

    def __setitem__(s, i, v):
        pass


def opaque(*a, **k):
    return Opq()
