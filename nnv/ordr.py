"""Sorted sets of index pairs: the vocabulary of the truncation of the harmonics.

Scalars are terms of linear and non linear integer and real arithmetic; a square root or a
truncation introduces a fresh constant with its defining property.  `meshgrid` of two integer
ranges is the set of pairs (an arbitrary enumeration of it), `argsort` an arbitrary bijection
along which the keys do not decrease."""
import math
import numpy as np
from .engine import *
from .load import Loop, PathEnd, AList, Unsupported, LOOPS

DEFS = []           # defining properties of the constants introduced so far
CACHE = {}
PERMS = []
DEAD = []           # (label, conditions): paths that have to be shown contradictory
PI = None
WITNESS = [1]


def reset():
    global PI
    DEFS.clear(), CACHE.clear(), PERMS.clear(), FLAT.clear()
    Z = z3()
    PI = Z.Real("pi")
    DEFS.append(Z.And(PI > Z.RealVal("3.14159"), PI < Z.RealVal("3.1416")))


def zz(x):
    Z = z3()
    if isinstance(x, Rz):
        return x.z
    if isinstance(x, SInt):
        return zpoly(x.p)
    if isinstance(x, (bool, np.bool_)):
        raise Unsupported("truth value in arithmetic")
    if isinstance(x, (int, np.integer)):
        return Z.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == math.pi:
            return PI
        if x == 2 * math.pi:
            return 2 * PI
        if not math.isfinite(x):
            raise Unsupported("not finite")
        from fractions import Fraction
        return Z.RealVal(str(Fraction(repr(x)))) if x != int(x) else Z.RealVal(int(x))
    if isinstance(x, np.ndarray) and x.shape == ():
        return zz(x[()])
    raise TypeError(type(x))


NUMS = (int, float, np.integer, np.floating)


def real(z):
    return z3().ToReal(z) if z.is_int() else z


class Rz:
    """integer or real number"""
    __slots__ = ("z",)
    __array_priority__ = -1

    def __init__(s, z):
        s.z = z

    def _bin(s, o, f):
        if isinstance(o, Rz) or isinstance(o, NUMS + (SInt,)) and not isinstance(o, bool):
            a, b = s.z, zz(o)
            if a.is_int() != b.is_int():
                a, b = real(a), real(b)
            return Rz(f(a, b))
        return NotImplemented

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._bin(o, lambda a, b: real(a) / real(b))
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: real(b) / real(a))
    def __neg__(s): return Rz(-s.z)
    def __pos__(s): return s

    def __floordiv__(s, o):
        if isinstance(o, int) and o > 0 and s.z.is_int():
            return Rz(s.z / o)
        raise Unsupported("floor division")

    def __mod__(s, o):
        if isinstance(o, int) and o > 0 and s.z.is_int():
            return Rz(s.z % o)
        raise Unsupported("remainder")

    def __pow__(s, n):
        if isinstance(n, int) and 0 <= n <= 6:
            r = Rz(z3().IntVal(1) if s.z.is_int() else z3().RealVal(1))
            for _ in range(n):
                r = s if _ == 0 else r * s
            return r
        if n == 0.5:
            return sqrt(s)
        raise Unsupported("power")

    def __abs__(s):
        return Rz(z3().If(s.z >= 0, s.z, -s.z))

    def conj(s): return s
    conjugate = conj
    item = conj
    dtype = property(lambda s: None)
    shape = property(lambda s: ())

    def _cmp(s, o, f):
        if isinstance(o, Rz) or isinstance(o, NUMS + (SInt,)):
            a, b = s.z, zz(o)
            if a.is_int() != b.is_int():
                a, b = real(a), real(b)
            c = z3().simplify(f(a, b))
            if z3().is_true(c):
                return True
            if z3().is_false(c):
                return False
            return SBool(c)
        return NotImplemented

    def __lt__(s, o): return s._cmp(o, lambda a, b: a < b)
    def __le__(s, o): return s._cmp(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._cmp(o, lambda a, b: a > b)
    def __ge__(s, o): return s._cmp(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._cmp(o, lambda a, b: a == b)
    def __ne__(s, o): return s._cmp(o, lambda a, b: a != b)
    __hash__ = object.__hash__

    def _no(s, *a):
        raise Unsupported("value of a symbolic number")
    __int__ = __float__ = __index__ = __bool__ = __iter__ = _no

    def __repr__(s):
        return str(s.z)[:100]


def cached(name, x, sort, define):
    k = (name, x.sexpr())
    if k not in CACHE:
        Z = z3()
        y = (Z.Int if sort == "int" else Z.Real)(f"{name}{len(CACHE)}")
        CACHE[k] = (y, x)
        DEFS.append(define(y))
    return Rz(CACHE[k][0])


def sqrt(x):
    if isinstance(x, np.ndarray):
        return emap(sqrt, x)
    if not isinstance(x, Rz):
        x = Rz(zz(x))
    Z = z3()
    a = Z.simplify(real(x.z))
    return cached("sqrt", a, "real", lambda y: Z.Implies(a >= 0, Z.And(y >= 0, y * y == a)))


def trunc(x=0, *_):
    if isinstance(x, SInt):
        return x
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x[()]
    if isinstance(x, np.ndarray):
        return emap(trunc, x)
    if not isinstance(x, Rz):
        return int(x, *_)
    if x.z.is_int():
        return x
    Z = z3()
    a = Z.simplify(x.z)
    return cached("trunc", a, "int", lambda q: Z.And(Z.Implies(a >= 0, Z.And(Z.ToReal(q) <= a, a < Z.ToReal(q) + 1)),
                                                     Z.Implies(a < 0, Z.And(Z.ToReal(q) >= a, a > Z.ToReal(q) - 1))))


def floor(x):
    Z = z3()
    if not isinstance(x, Rz) or x.z.is_int():
        return x if isinstance(x, Rz) else math.floor(x)
    a = Z.simplify(x.z)
    r = cached("floor", a, "int", lambda q: Z.And(Z.ToReal(q) <= a, a < Z.ToReal(q) + 1))
    return r


def ceil(x):
    return -floor(-x) if isinstance(x, Rz) else math.ceil(x)


def emap(f, x):
    out = np.empty(x.shape, object)
    for i in np.ndindex(*x.shape):
        out[i] = f(x[i])
    return out


def num(x):
    return isinstance(x, (Rz, SInt) + NUMS)


class Rng:
    """integers lo, ..., hi - 1 (or hi + 1, ..., lo downwards with step -1)"""
    _nnv_array = True

    def __init__(s, start, stop, step=1):
        s.start, s.stop, s.step = (Rz(zz(x)) if num(x) else x for x in (start, stop, step))
        if step not in (1, -1):
            raise Unsupported("step")
        s.step = step

    def bounds(s):
        """smallest and largest element"""
        return (s.start, s.stop - 1) if s.step == 1 else (s.stop + 1, s.start)

    @property
    def shape(s):
        return (s.nnv_len(),)

    def nnv_len(s):
        a, b = s.bounds()
        n = b - a + 1
        return Rz(z3().If(n.z >= 0, n.z, z3().IntVal(0)))

    def nnv_iter(s):
        return RngIter(s)

    def __iter__(s):
        raise Unsupported("iteration over a symbolic range")


class RngIter:
    _nnv_iter = True
    rule = None
    witness = None

    def __init__(s, r):
        s.r = r

    def nnv_comp(s, f):
        raise Unsupported("comprehension over a range")


class Rule(Loop):
    """searches (the body only leaves the loop), and loops that only add elements to lists"""

    def next(s, loc):
        if not isinstance(s.it, RngIter) or s.attrs:
            raise Unsupported("loop over a symbolic collection")
        Z = z3()
        lo, hi = s.it.r.bounds()
        if s.brk:
            if len(s.names) != 1:
                raise Unsupported("search that changes variables")
            if s.it.r.step != -1:
                raise Unsupported("search upwards")
            v = s.names[0]
            if s.stage == 0:
                w = Z.IntVal(WITNESS[0])
                k = CTX.choose(3, f"search line {s.line}")
                s.mode = ("stops", "past", "short")[k]
                if k == 2:
                    DEAD.append((f"the search visits {WITNESS[0]}", list(CTX.cond) + [Z.Or(lo.z > w, hi.z < w)], facts(), list(PERMS), dict(CACHE)))
                    raise PathEnd()
                s.stage = 1
                if k == 0:
                    i = Z.Int(CTX.fresh("i"))
                    CTX.assume(Z.And(i >= lo.z, i <= hi.z, i >= w))
                    s.elem = Rz(i)
                else:
                    CTX.assume(Z.And(w >= lo.z, w <= hi.z))
                    s.elem = Rz(w)
                return True
            raise Unsupported("search")
        # additions to lists
        if s.stage == 0:
            s.lists = [(k, x, list(x)) for k, x in loc.items() if isinstance(x, list)]
            if set(s.names) - {n for n in s.names if n not in loc or n in loc and not isinstance(loc[n], list)}:
                raise Unsupported("list assigned in a loop")
            if any(n in loc for n in s.names):
                raise Unsupported("variable carried around a loop")
            s.index = Z.Int(CTX.fresh("i"))
            s.elem = Rz(s.index)
            s.mark = len(CTX.cond)
            CTX.assume(Z.And(s.index >= lo.z, s.index <= hi.z))
            s.stage = 1
            return True
        return False

    def end(s, loc):
        if s.brk:
            if s.mode == "past":
                DEAD.append((f"the search stops at {WITNESS[0]} at the latest", list(CTX.cond), facts(), list(PERMS), dict(CACHE)))
            raise PathEnd()
        for k, x, old in s.lists:
            if len(x) < len(old) or any(a is not b for a, b in zip(x, old)):
                raise Unsupported("list changed in a loop")
            new = list.__getitem__(x, slice(len(old), None))
            if new:
                FLAT[id(x)] = (x, old, s.it.r, s.index, new)
        s.after = [c for c in CTX.cond[s.mark:]]
        if len(s.after) > 1:
            raise Unsupported("conditions in a loop")
        del CTX.cond[s.mark:]

    def broke(s, loc):
        if s.mode == "past":
            raise PathEnd()


FLAT = {}


class Dom:
    """pairs (a, b) with lo_a <= a <= hi_a, lo_b <= b <= hi_b"""

    def __init__(s, ra, rb):
        Z = z3()
        s.ra, s.rb = ra, rb
        n = len(CACHE)
        CACHE[("dom", n)] = None
        s.a, s.b = Z.Int(f"a{n}"), Z.Int(f"b{n}")

    def card(s):
        return s.ra.nnv_len() * s.rb.nnv_len()

    def has(s, a, b):
        (l0, h0), (l1, h1) = s.ra.bounds(), s.rb.bounds()
        return z3().And(l0.z <= a, a <= h0.z, l1.z <= b, b <= h1.z)


class Fld:
    """a value for every pair of a set of pairs"""
    _nnv_array = True
    __array_priority__ = 1000

    def __init__(s, dom, v, flat=False):
        s.dom, s.v, s.flat = dom, v, flat

    def _bin(s, o, f):
        if isinstance(o, np.ndarray) and o.shape == ():
            o = o[()]
        if isinstance(o, Fld):
            if o.dom is not s.dom:
                raise Unsupported("arrays over different sets")
            return Fld(s.dom, f(s.v, o.v), s.flat)
        if num(o):
            return Fld(s.dom, f(s.v, o), s.flat)
        raise Unsupported("arithmetic")

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._bin(o, lambda a, b: a / b)
    def __pow__(s, n): return Fld(s.dom, s.v ** n, s.flat)
    def __neg__(s): return Fld(s.dom, -s.v, s.flat)
    def __abs__(s): return Fld(s.dom, abs(s.v), s.flat)
    __array_ufunc__ = None

    def flatten(s, *a):
        return Fld(s.dom, s.v, True)
    ravel = flatten

    def reshape(s, *a):
        if a in ((-1,), ((-1,),)):
            return s.flatten()
        raise Unsupported("reshape")

    @property
    def shape(s):
        return (s.dom.card(),) if s.flat else (s.dom.ra.nnv_len(), s.dom.rb.nnv_len())

    def nnv_len(s):
        return s.shape[0]

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if isinstance(i, Perm) and s.flat and i.dom is s.dom:
            return Srt(i, s.v)
        raise Unsupported("index of an array of pairs")


class Perm:
    """enumeration of a set of pairs by non decreasing key"""
    _nnv_array = True

    def __init__(s, dom, key):
        s.dom, s.key = dom, key
        s.idx = {}
        s.n = len(PERMS)
        PERMS.append(s)

    def subst(s, v, a, b):
        Z = z3()
        return Rz(Z.substitute(zz(v), (s.dom.a, a), (s.dom.b, b)))

    def at(s, e):
        """the pair at position e (a z3 integer)"""
        Z = z3()
        if z3().is_int_value(e) and e.as_long() >= 0:
            pass
        else:
            from .lin import lin_valid
            if not lin_valid(e >= 0, CTX.cond):
                e = Z.If(e < 0, e + s.dom.card().z, e)
        e = Z.simplify(e)
        k = e.sexpr()
        if k not in s.idx:
            n = len(s.idx)
            s.idx[k] = (e, Z.Int(f"s{s.n}a{n}"), Z.Int(f"s{s.n}b{n}"))
        return s.idx[k]

    def facts(s):
        Z = z3()
        out = []
        m = s.dom.card().z
        xs = list(s.idx.values())
        inr = lambda e: Z.And(e >= 0, e < m)
        for e, a, b in xs:
            out.append(Z.Implies(inr(e), s.dom.has(a, b)))
        for i, (e, a, b) in enumerate(xs):
            for f, c, d in xs[i + 1:]:
                ke, kf = s.subst(s.key, a, b).z, s.subst(s.key, c, d).z
                both = Z.And(inr(e), inr(f))
                out.append(Z.Implies(Z.And(both, e <= f), ke <= kf))
                out.append(Z.Implies(Z.And(both, f <= e), kf <= ke))
                out.append(Z.Implies(Z.And(both, e != f), Z.Or(a != c, b != d)))
                out.append(Z.Implies(Z.And(both, e == f), Z.And(a == c, b == d)))
        return out

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if isinstance(i, slice):
            return PermHead(s, head(i))
        raise Unsupported("index of a permutation")


class PermHead:
    _nnv_array = True

    def __init__(s, perm, cnt):
        s.perm, s.cnt = perm, cnt

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")


def head(i):
    if i.start in (None, 0) and i.step in (None, 1):
        return i.stop
    raise Unsupported("slice")


class Srt:
    """values along a sorted enumeration, the first cnt of them (None: all)"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, perm, v, cnt=None):
        s.perm, s.v, s.cnt = perm, v, cnt

    def nnv_len(s):
        return s.perm.dom.card() if s.cnt is None else s.cnt

    @property
    def shape(s):
        return (s.nnv_len(),)

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def _bin(s, o, f):
        if num(o):
            return Srt(s.perm, f(s.v, o), s.cnt)
        raise Unsupported("arithmetic")

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __neg__(s): return Srt(s.perm, -s.v, s.cnt)
    __radd__, __rmul__ = __add__, __mul__

    def __getitem__(s, i):
        if num(i) and s.cnt is None:
            e, a, b = s.perm.at(zz(i))
            return s.perm.subst(s.v, a, b)
        if isinstance(i, slice):
            if i == slice(None):
                return s
            if s.cnt is None:
                return Srt(s.perm, s.v, head(i))
        raise Unsupported("index of a sorted array")


class Pairs:
    """array of shape (2, count): two values along a sorted enumeration"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, rows, order=None):
        s.rows, s.order = rows, order

    @property
    def shape(s):
        return (len(s.rows), s.rows[0].nnv_len())

    def astype(s, *a):
        return s

    def __iter__(s):
        return iter(s.rows)

    def __getitem__(s, i):
        if isinstance(i, int) and s.order is None:
            return s.rows[i]
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None):
            if isinstance(i[1], slice) and s.order is None:
                return Pairs([r[i[1]] for r in s.rows])
            if isinstance(i[1], Order) and s.order is None:
                return Pairs(s.rows, i[1])
        raise Unsupported("index of the harmonics")


class Order:
    """argsort of values along an enumeration"""
    _nnv_array = True

    def __init__(s, srt):
        s.srt = srt

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")


class Listed:
    """prefix, then for every integer of a range the given elements"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, f, T=False):
        s.f, s.tr = f, T

    @property
    def T(s):
        return Listed(s.f, not s.tr)

    def count(s):
        _, old, r, i, new = s.f
        return r.nnv_len() * len(new) + len(old)

    @property
    def shape(s):
        return (2, s.count()) if s.tr else (s.count(), 2)

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if i == 0 and s.tr:
            return ListedRow(s)
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(i[1], Order) and s.tr:
            r = Listed(s.f, True)
            r.order = i[1]
            return r
        raise Unsupported("index of the harmonics")
    order = None


class ListedRow:
    _nnv_array = True

    def __init__(s, l):
        s.l = l

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")


class Given:
    """the user's own array of harmonics"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, m, order=None):
        s.m, s.order = m, order
        s.shape = (2, m)

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def nnv_len(s):
        return 2

    def __getitem__(s, i):
        if i == 0:
            return GivenRow(s)
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(i[1], Order):
            return Given(s.m, i[1])
        raise Unsupported("index of the harmonics")


class GivenRow:
    _nnv_array = True

    def __init__(s, g):
        s.g = g

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")


class Linalg:
    @staticmethod
    def norm(v, ord=None, axis=None):
        if axis is not None or ord not in (None, 2) or not isinstance(v, np.ndarray) or v.ndim != 1:
            raise Unsupported("norm")
        s = v[0] * v[0]
        for x in v[1:]:
            s = s + x * x
        return sqrt(s)

    @staticmethod
    def inv(m):
        if not (isinstance(m, np.ndarray) and m.shape == (2, 2)):
            raise Unsupported("inverse")
        d = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
        out = np.empty((2, 2), object)
        out[0, 0], out[0, 1], out[1, 0], out[1, 1] = m[1, 1] / d, -m[0, 1] / d, -m[1, 0] / d, m[0, 0] / d
        return out

    @staticmethod
    def det(m):
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]

    def __getattr__(s, n):
        raise Unsupported(f"linalg.{n}")


class Bk:
    linalg = Linalg()
    pi = math.pi
    float64 = float32 = complex128 = complex64 = staticmethod(lambda x: x)
    int32 = int64 = int_ = staticmethod(trunc)
    int = staticmethod(trunc)
    sqrt, floor, ceil = staticmethod(sqrt), staticmethod(floor), staticmethod(ceil)

    @staticmethod
    def array(x, dtype=None, **k):
        if isinstance(x, (Rng, Fld, Srt, Pairs, Given, Listed)) or num(x):
            return x
        if isinstance(x, np.ndarray):
            return x.copy()
        if isinstance(x, (list, tuple)):
            if id(x) in FLAT and FLAT[id(x)][0] is x:
                return Listed(FLAT[id(x)])
            x = list(x)
            if x and all(isinstance(v, Srt) for v in x):
                return Bk.vstack(x)
            if x and all(num(v) for v in x):
                out = np.empty(len(x), object)
                out[:] = [v if isinstance(v, Rz) else Rz(zz(v)) for v in x]
                return out
            if x and all(isinstance(v, (list, tuple, np.ndarray)) for v in x):
                rows = [Bk.array(v) for v in x]
                return np.array([list(r) for r in rows], dtype=object)
        raise Unsupported("array")
    asarray = array
    tensor = array

    @staticmethod
    def abs(x):
        return emap(abs, x) if isinstance(x, np.ndarray) else abs(x)
    absolute = abs

    @staticmethod
    def dot(a, b):
        if isinstance(a, np.ndarray) and a.ndim == 1:
            s = a[0] * b[0]
            for x, y in zip(a[1:], b[1:]):
                s = s + x * y
            return s
        raise Unsupported("dot")

    @staticmethod
    def arange(*a, **k):
        if len(a) == 1:
            a = (0,) + a
        if all(isinstance(x, int) for x in a):
            a = (Rz(z3().IntVal(a[0])),) + a[1:]
        return Rng(*a)

    @staticmethod
    def meshgrid(x, y, indexing="xy"):
        if not (isinstance(x, Rng) and isinstance(y, Rng)):
            raise Unsupported("meshgrid")
        d = Dom(x, y)
        return [Fld(d, Rz(d.a)), Fld(d, Rz(d.b))]

    @staticmethod
    def argsort(x, **k):
        if isinstance(x, Fld) and x.flat:
            return Perm(x.dom, x.v)
        if isinstance(x, (Srt, GivenRow, ListedRow)):
            return Order(x)
        raise Unsupported("argsort")

    @staticmethod
    def sort(x, **k):
        if isinstance(x, Fld) and x.flat:
            return Srt(Perm(x.dom, x.v), x.v)
        raise Unsupported("sort")

    @staticmethod
    def vstack(xs):
        xs = list(xs)
        if len(xs) == 2 and all(isinstance(v, Srt) for v in xs) and xs[0].perm is xs[1].perm and (xs[0].cnt is xs[1].cnt):
            return Pairs(xs)
        raise Unsupported("vstack")

    @staticmethod
    def stack(xs, axis=0, dim=0):
        if axis or dim:
            raise Unsupported("stack")
        return Bk.vstack(xs)

    @staticmethod
    def isclose(a, b, **k):
        raise Unsupported("isclose")

    def __getattr__(s, n):
        raise Unsupported(f"function {n}")


def _len(x):
    if isinstance(x, list) and id(x) in FLAT and FLAT[id(x)][0] is x:
        return Listed(FLAT[id(x)]).count()
    f = getattr(x, "nnv_len", None)
    return f() if f is not None else len(x)


def _range(*a):
    if any(isinstance(x, Rz) for x in a):
        return Bk.arange(*a)
    return range(*a)


def _max(*a):
    xs = list(a[0]) if len(a) == 1 else list(a)
    out = xs[0]
    for x in xs[1:]:
        if isinstance(x, Rz) or isinstance(out, Rz):
            p, q = zz(out), zz(x)
            if p.is_int() != q.is_int():
                p, q = real(p), real(q)
            out = Rz(z3().If(p >= q, p, q))
        else:
            out = max(out, x)
    return out


def _min(*a):
    return -_max(*[-x for x in (list(a[0]) if len(a) == 1 else a)])


def _float(x=0.0):
    return Rz(real(x.z)) if isinstance(x, Rz) else float(x)


SHADOW = dict(int=trunc, len=_len, range=_range, max=_max, min=_min, float=_float)


def install(prog, mod, symbk):
    """the module uses this vocabulary instead of the general one"""
    bk = Bk()
    for k, v in list(mod.__dict__.items()):
        if v is symbk:
            mod.__dict__[k] = bk
    mod.__dict__["__builtins__"].update(SHADOW)
    prog.loop_default = Rule
    CTX.feas = 500
    return bk


def facts():
    out = list(DEFS)
    for p in PERMS:
        out += p.facts()
    return out
