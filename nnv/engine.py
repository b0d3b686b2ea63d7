"""Symbolic values and path exploration by re-execution."""
import numpy as np, itertools
from .alg import *


class PathEnd(BaseException):
    """this path stops here (loop cut, infeasible)"""


class Ctx:
    feas = 5000         # time limit (ms) of the feasibility of a branch; unknown counts as feasible

    def __init__(s):
        s.reset([])
        s.fresh_n = 0

    def reset(s, prefix):
        s.prefix, s.pos, s.taken, s.cond, s.notes = prefix, 0, [], [], []
        s.obls = []
        s.fresh_n = 0
        s.zeros = {}
        s.known = {}
        s.prefix_labels = {}

    def choose(s, n, label):
        """non-deterministic choice among n alternatives"""
        if s.pos < len(s.prefix):
            k = s.prefix[s.pos]
        else:
            k = 0
        s.taken.append((k, n, label))
        s.pos += 1
        return k

    def fresh(s, base):
        s.fresh_n += 1
        return f"{base}#{s.fresh_n}"

    def assume(s, c):
        s.cond.append(c)


CTX = Ctx()


class PathResult:
    def __init__(s, value, exc, cond, notes, taken, obls):
        s.value, s.exc, s.cond, s.notes, s.taken, s.obls = value, exc, cond, notes, taken, obls

    def label(s):
        return ", ".join(f"{l}={k}" for k, n, l in s.taken)


def explore(fn, limit=400):
    from . import load
    """all paths of fn() ; fn is re-executed from scratch for each"""
    out, stack = [], [[]]
    while stack:
        pre = stack.pop()
        if len(out) > limit:
            raise Unsupported("too many paths")
        CTX.reset([t[0] for t in pre])
        CTX.prefix_labels = {j: t[1] for j, t in enumerate(pre)}
        del load.LOOPS[:]
        val = exc = None
        end = False
        try:
            val = fn()
        except PathEnd:
            end = True
        except Exception as e:
            exc = e
        taken = CTX.taken
        for i in range(len(pre), len(taken)):
            k, n, l = taken[i]
            for alt in range(k + 1, n):
                stack.append([(t[0], t[2]) for t in taken[:i]] + [(alt, l)])
        if not end or CTX.obls:
            r = PathResult(val, exc, list(CTX.cond), list(CTX.notes), list(taken), list(CTX.obls))
            r.ended = end
            out.append(r)
    return out


# ------------------------------------------------------------------ z3 side
_z3 = None


def z3():
    global _z3
    if _z3 is None:
        import z3 as m
        _z3 = m
    return _z3


_zcache = {}


def zatom(a, real):
    Z = z3()
    k = (a, real)
    if k not in _zcache:
        if a.kind == "sym" and a.args[0] in INTS:
            v = Z.Int(a.args[0])
        else:
            v = Z.Real("r!" + a.key)
        _zcache[k] = v
        if apos(a):
            ZFACTS[v.get_id()] = (v, v > 0)
    return _zcache[k]


INTS = set()


def zpoly(p):
    """real/integer z3 term of a Poly"""
    Z = z3()
    out = None
    for m, c in sorted(p.t.items(), key=lambda x: mono_key(x[0])):
        if c.im:
            raise Unsupported("complex value in a comparison")
        t = None
        den = None
        for a, e in m:
            v = zatom(a, True)
            for _ in range(abs(e)):
                if e > 0:
                    t = v if t is None else t * v
                else:
                    den = v if den is None else den * v
        cf = Fr(c.re)
        if t is None:
            t = Z.IntVal(cf.numerator) if cf.denominator == 1 and den is None else Z.RealVal(str(cf))
        elif cf != 1:
            t = (Z.IntVal(cf.numerator) if cf.denominator == 1 else Z.RealVal(str(cf))) * t
        if den is not None:
            t = (Z.ToReal(t) if t.is_int() else t) / den
        out = t if out is None else out + t
    return out if out is not None else Z.IntVal(0)


ZFACTS = {}


def zfacts(conds):
    """positivity of the declared symbols occurring in the conditions"""
    if not ZFACTS:
        return []
    Z = z3()
    seen, out, todo = set(), [], list(conds)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ZFACTS:
            out.append(ZFACTS[i][1])
        todo.extend(e.children())
    return out


def zsolve(conds, timeout=5000):
    Z = z3()
    s = Z.Solver()
    s.set("timeout", timeout)
    conds = list(conds)
    for c in conds + zfacts(conds):
        s.add(c)
    r = s.check()
    return str(r), (s.model() if str(r) == "sat" else None)


def zvalid(goal, conds, timeout=8000):
    """(status, detail)"""
    Z = z3()
    r, m = zsolve(list(conds) + [Z.Not(goal)], timeout)
    if r == "unsat":
        return "proved", "z3"
    if r == "sat":
        return "refuted", f"counter-model {m}"
    return "undecided", "z3 unknown"


class Ceq:
    """equality of complex expressions; forks, with the equality recorded as a fact"""

    def __init__(s, d, eq):
        s.d, s.eq = d, eq

    def __bool__(s):
        for p in CTX.zeros:
            if p == s.d or p == -s.d:
                return s.eq if CTX.zeros[p] else not s.eq
        k = CTX.choose(2, f"{s.d!r} == 0")
        CTX.zeros[s.d] = k == 1
        if k == 1:
            CTX.notes.append(("zero", s.d))
        return (k == 1) == s.eq


class SBool:
    """a z3 condition; its truth value forks the path"""
    __array_ufunc__ = None

    def __init__(s, z, label=None):
        if label is None:
            label = z.sexpr()
            label = str(z)[:80] if len(label) < 160 else label[:70] + f"~{hash(label) % 9973}"
        s.z, s.label = z, label

    def __bool__(s):
        Z = z3()
        i = s.z.get_id()
        if i in CTX.known:
            return CTX.known[i][1]
        c = CTX.cond
        zc = [x for x in c if Z.is_expr(x)]
        pre = CTX.pos < len(CTX.prefix) and CTX.prefix_labels.get(CTX.pos) == s.label
        if not pre:
            t = zsolve(zc + [s.z], CTX.feas)[0] != "unsat"
            f = not t or zsolve(zc + [Z.Not(s.z)], CTX.feas)[0] != "unsat"
            if t and not f:
                CTX.known[i] = (s.z, True)
                return True
            if f and not t:
                if zsolve(zc, CTX.feas)[0] == "unsat":
                    raise PathEnd()
                CTX.known[i] = (s.z, False)
                return False
        k = CTX.choose(2, s.label)
        CTX.assume(s.z if k == 0 else Z.Not(s.z))
        CTX.known[i] = (s.z, k == 0)
        return k == 0

    def __invert__(s):
        return SBool(z3().Not(s.z))

    def __and__(s, o):
        return SBool(z3().And(s.z, tobool(o)))

    __rand__ = __and__

    def __or__(s, o):
        return SBool(z3().Or(s.z, tobool(o)))

    __ror__ = __or__


def tobool(x):
    if isinstance(x, SBool):
        return x.z
    return z3().BoolVal(bool(x))


# ------------------------------------------------------------------ numbers
def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (Sc, SInt)):
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return Poly.const(int(x))
    if isinstance(x, (int, float, complex, Fr)):
        return Poly.const(x)
    if isinstance(x, np.generic):
        return Poly.const(x.item())
    if isinstance(x, np.ndarray) and x.shape == ():
        return topoly(x.item())
    raise Unsupported(f"not a number: {type(x).__name__}")


NUM = (int, float, complex, Fr, np.generic)


class SInt:
    """integer expression"""
    __array_ufunc__ = None
    __slots__ = ("p",)

    def __init__(s, p):
        s.p = p if isinstance(p, Poly) else Poly.const(p)

    @staticmethod
    def var(name, *assume):
        INTS.add(name)
        v = SInt(sym(name, "real"))
        return v

    def mk(p):
        if p.isconst():
            c = p.constval()
            if not c.im and Fr(c.re).denominator == 1:
                return int(c.re)
        return SInt(p)

    def _bin(s, o, f, intok=True):
        if isinstance(o, (bool, int, np.integer, SInt)):
            return SInt.mk(f(s.p, topoly(o)))
        if isinstance(o, (float, complex, Sc, Fr, np.floating, np.complexfloating)):
            return Sc(f(s.p, topoly(o)))
        return NotImplemented

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __neg__(s): return SInt.mk(-s.p)
    def __pos__(s): return s
    def __abs__(s): return -s if s < 0 else s

    def __truediv__(s, o):
        return Sc(s.p) / o

    def __rtruediv__(s, o):
        return Sc(topoly(o)) / s

    def __floordiv__(s, o):
        if isinstance(o, int) and o > 0:
            if all(Fr(c.re).denominator == 1 and Fr(c.re).numerator % o == 0 for c in s.p.t.values()):
                return SInt.mk(s.p.scale(GQ(Fr(1, o))))
            q = SInt.var(CTX.fresh("div"))
            z = zpoly(s.p)
            CTX.assume(z3().And(o * zpoly(q.p) <= z, z < o * zpoly(q.p) + o))
            return q
        return NotImplemented

    def __mod__(s, o):
        return s - (s // o) * o

    def __pow__(s, n):
        if isinstance(n, int) and n >= 0:
            return SInt.mk(s.p.ipow(n))
        return Sc(s.p) ** n

    def _cmp(s, o, op):
        if not isinstance(o, NUM + (SInt, Sc)):
            return NotImplemented
        d = s.p - topoly(o)
        if d.isconst():
            c = d.constval().re
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        if strictpos(d) or strictpos(-d):
            c = 1 if strictpos(d) else -1
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        if not d.is_real():
            if op in ("==", "!="):
                return Ceq(d, op == "==")
            raise TypeError("order comparison of complex values")
        z = zpoly(d)
        return SBool({"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[op])

    def __lt__(s, o): return s._cmp(o, "<")
    def __le__(s, o): return s._cmp(o, "<=")
    def __gt__(s, o): return s._cmp(o, ">")
    def __ge__(s, o): return s._cmp(o, ">=")
    def __eq__(s, o): return s._cmp(o, "==")
    def __ne__(s, o): return s._cmp(o, "!=")
    def __hash__(s): return hash(s.p)
    def __bool__(s): return bool(s._cmp(0, "!="))
    def __repr__(s): return f"int({s.p!r})"
    def __format__(s, f): return repr(s)
    def __index__(s):
        raise Unsupported("symbolic integer used as a concrete index")
    __int__ = __index__
    def __float__(s):
        raise Unsupported("symbolic integer converted to a machine float")
    shape = ()
    def item(s): return s
    def tolist(s): return s


def dimk(x):
    """N-multiple k of an integer expression k*N"""
    if isinstance(x, SInt):
        k = dimk_poly(x.p)
        if k is not None:
            return k
    raise Unsupported(f"dimension {x!r}")


def dimk_poly(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].args[0] == "N" and Fr(c.re).denominator == 1:
            return int(c.re)
    return None


NH = None


def nh():
    """the symbolic number of harmonics"""
    global NH
    if NH is None:
        NH = SInt.var("N")
    return NH


class Sc:
    """scalar expression"""
    __array_ufunc__ = None
    __slots__ = ("p",)
    shape = ()
    ndim = 0

    def __init__(s, p):
        s.p = p if isinstance(p, Poly) else topoly(p)

    @staticmethod
    def of(x):
        return x if isinstance(x, Sc) else Sc(topoly(x))

    def _bin(s, o, f):
        if isinstance(o, np.ndarray):
            if o.shape == ():
                return s._bin(o.item(), f)
            out = np.empty(o.shape, object)
            for i in np.ndindex(*o.shape):
                out[i] = s._bin(o[i], f)
            return out
        if isinstance(o, (Vec, Mat, TArr)) or getattr(o, "_nnv_array", False):
            return NotImplemented
        if isinstance(o, NUM + (SInt, Sc)):
            return Sc(f(s.p, topoly(o)))
        return NotImplemented

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._bin(o, lambda a, b: a * binv(b))
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: b * binv(a))
    def __neg__(s): return Sc(-s.p)
    def __pos__(s): return s
    def __pow__(s, n): return Sc(ppow(s.p, n))
    def __abs__(s): return Sc(pabs(s.p))

    @property
    def real(s): return Sc(s.p.re())
    @property
    def imag(s): return Sc(s.p.im())
    @property
    def T(s): return s
    def conj(s): return Sc(s.p.conj())
    def conjugate(s): return s.conj()
    def item(s): return s
    def tolist(s): return s
    def flatten(s): return np.array([s], dtype=object)
    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, k):
        if k is Ellipsis or k == ():
            return s
        raise IndexError("scalar indexed")

    _cmp = SInt._cmp
    def __lt__(s, o): return s._cmp(o, "<")
    def __le__(s, o): return s._cmp(o, "<=")
    def __gt__(s, o): return s._cmp(o, ">")
    def __ge__(s, o): return s._cmp(o, ">=")
    def __eq__(s, o): return s._cmp(o, "==")
    def __ne__(s, o): return s._cmp(o, "!=")
    def __hash__(s): return hash(s.p)
    def __repr__(s): return f"<{s.p!r}>"
    def __format__(s, f): return repr(s)

    def __bool__(s):
        if s.p.isconst():
            return bool(s.p.constval())
        if strictpos(s.p) or strictpos(-s.p):
            return True
        k = CTX.choose(2, f"{s.p!r} != 0")
        if k == 1:
            CTX.notes.append(("zero", s.p))
            try:
                CTX.assume(zpoly(s.p) == 0)
            except Unsupported:
                pass
            CTX.zeros[s.p] = True
        return k == 0

    def __float__(s):
        if s.p.isconst() and not s.p.constval().im:
            return float(s.p.constval().re)
        raise Unsupported("symbolic value converted to a machine float")

    def __complex__(s):
        if s.p.isconst():
            return complex(s.p.constval())
        raise Unsupported("symbolic value converted to a machine number")


class Arr0(Sc):
    """0-d array"""
    __slots__ = ()

    def __len__(s):
        raise TypeError("len() of unsized object")


class OArr(np.ndarray):
    """array of concrete shape with symbolic entries"""
    @property
    def real(s):
        return _each(s, lambda v: v.real)

    @property
    def imag(s):
        return _each(s, lambda v: v.imag)

    def conj(s):
        return _each(s, lambda v: v.conj() if isinstance(v, Sc) else v)

    conjugate = conj

    def to(s, *a):
        return s


def _each(a, f):
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out.view(OArr)


def binv(p):
    if not p.t:
        raise ZeroDivisionError("division by zero")
    return p.inverse()




def ppow(p, n):
    if isinstance(n, (SInt, Sc)):
        n = topoly(n)
        if n.isconst():
            n = n.constval().re
        else:
            return symbolic_power(p, n)
    f = Fr(n) if not isinstance(n, complex) else None
    if f is None:
        raise Unsupported("complex exponent")
    if f.denominator == 1:
        return p.ipow(int(f))
    if f.denominator == 2:
        return fsqrt(p).ipow(int(f.numerator))
    raise Unsupported(f"power {n}")


def symbolic_power(p, n):
    """p ** n, n = k q with an integer k: (p ** q) ** k, for p >= 0"""
    if len(n.t) != 1:
        raise Unsupported("symbolic exponent")
    (m, c), = n.t.items()
    if c.im:
        raise Unsupported("symbolic exponent")
    if Fr(c.re).denominator != 1 or not all(apos(a) for a, e in m):
        # exponent of unknown sign (possibly zero): the opaque value of the power
        if not isnonneg(p):
            raise Unsupported("power of a base of unknown sign")
        name = f"pow[{n.key()}]"
        POWERS[name] = n
        return Poly.atom(fnatom(name, p))
    k = int(Fr(c.re))
    if p.isconst() and not p.constval().im and p.constval().re in (0, 1):
        if not p.t and k < 0:
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return p
    if not isnonneg(p):
        raise Unsupported("power of a base of unknown sign")
    q = Poly({m: ONE})
    name = f"pow[{q.key()}]"
    POWERS[name] = q
    return Poly.atom(fnatom(name, p), k)


def pabs(p):
    if p.isconst() and not p.constval().im:
        return Poly.const(abs(p.constval().re))
    if isnonneg(p):
        return p
    if isnonneg(-p):
        return -p
    return Poly.atom(fnatom("abs", p))


class VCond:
    """element-wise comparison lhs < rhs or lhs <= rhs, as the sign atom of its entries"""
    __array_ufunc__ = None
    _nnv_array = True

    def __init__(s, sg, like):
        s.sg, s.like = sg, like          # Poly: +1 where true, -1 where false

    def __invert__(s):
        return VCond(-s.sg, s.like)

    def __and__(s, o):
        a, b = (s.sg + ONEP).scale(GQ(Fr(1, 2))), (o.sg + ONEP).scale(GQ(Fr(1, 2)))
        return VCond((a * b).scale(gq(2)) - ONEP, s.like)

    def __or__(s, o):
        return ~(~s & ~o)

    def __mul__(s, o):
        return s.like.map(lambda p: (s.sg + ONEP).scale(GQ(Fr(1, 2)))) * o

    __rmul__ = __mul__

    @property
    def shape(s):
        return s.like.shape


ONEP = Poly.const(1)


def vcond(a, b, op):
    """a op b for vectors / scalars"""
    like = a if isinstance(a, Vec) else b
    pa = a.one() if isinstance(a, Vec) else topoly(a)
    pb = b.one() if isinstance(b, Vec) else topoly(b)
    if isinstance(a, Vec) and isinstance(b, Vec) and a.k != b.k:
        raise ShapeError("comparison of vectors of different lengths")
    if op in ("==", "!="):
        d = pa - pb
        sg = (sgnatom("sgn<=", d) * sgnatom("sgn<=", -d) + ONEP + 0 * ONEP if False else None)
        # d == 0  <=>  d <= 0 and -d <= 0
        x, y = (sgnatom("sgn<=", d) + ONEP).scale(GQ(Fr(1, 2))), (sgnatom("sgn<=", -d) + ONEP).scale(GQ(Fr(1, 2)))
        sg = (x * y).scale(gq(2)) - ONEP
        return VCond(sg if op == "==" else -sg, like)
    if op in (">", ">="):
        pa, pb = pb, pa
        op = {">": "<", ">=": "<="}[op]
    return VCond(sgnatom("sgn" + op, pa - pb), like)


def sgnatom(name, d):
    if not d.is_real():
        raise Unsupported("order comparison of complex values")
    if d.isconst():
        c = d.constval().re
        return Poly.const(1 if (c < 0 or (c == 0 and name == "sgn<=")) else -1)
    return Poly.atom(fnatom(name, d))


# ------------------------------------------------------------------ vectors
class Vec:
    """1-D array of symbolic length: consecutive parts [(generic entry, k)]"""
    __array_ufunc__ = None
    _nnv_array = True
    ndim = 1

    def __init__(s, parts):
        s.parts = parts

    @staticmethod
    def gen(p, k):
        return Vec([(p, k)])

    @property
    def k(s):
        return sum(k for _, k in s.parts)

    @property
    def shape(s):
        return (SInt.mk(nh().p.scale(gq(s.k))),)

    def __len__(s):
        raise Unsupported("len of a symbolic vector through the builtin")

    def one(s):
        if len(s.parts) != 1:
            raise Unsupported("concatenated vector")
        return s.parts[0][0]

    def split(s, ks):
        """parts refined to the dimensions ks"""
        out = []
        todo = list(s.parts)
        for k in ks:
            p, kk = todo.pop(0)
            while kk > k:
                if kk % 2:
                    raise Unsupported("odd block")
                h = kk // 2
                todo.insert(0, (slice_poly(p, 2, h), h))
                p, kk = slice_poly(p, 1, h), h
            if kk != k:
                raise ShapeError("incompatible blocks")
            out.append((p, k))
        if todo:
            raise ShapeError("vector lengths differ")
        return out

    @staticmethod
    def align(a, b):
        if a.k != b.k:
            raise ShapeError(f"operands could not be broadcast: lengths {a.k}N and {b.k}N")
        ka, kb = [k for _, k in a.parts], [k for _, k in b.parts]
        if ka == kb:
            return a.parts, b.parts
        ks, i, j = [], 0, 0
        ka, kb = list(ka), list(kb)
        while ka and kb:
            x, y = ka[0], kb[0]
            m = min(x, y)
            ks.append(m)
            ka[0] -= m
            kb[0] -= m
            if not ka[0]:
                ka.pop(0)
            if not kb[0]:
                kb.pop(0)
        return a.split(ks), b.split(ks)

    def map(s, f):
        return type(s)([(f(p), k) for p, k in s.parts])

    def _bin(s, o, f):
        if isinstance(o, Vec):
            a, b = Vec.align(s, o)
            return type(s)([(f(p, q), k) for (p, k), (q, _) in zip(a, b)])
        if isinstance(o, NUM + (SInt, Sc)):
            q = topoly(o)
            return type(s)([(f(p, q), k) for p, k in s.parts])
        if isinstance(o, np.ndarray) and o.shape == ():
            return s._bin(o.item(), f)
        return NotImplemented

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._bin(o, lambda a, b: a * binv(b))
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: b * binv(a))
    def __neg__(s): return s.map(lambda p: -p)
    def __pos__(s): return s
    def __pow__(s, n): return s.map(lambda p: ppow(p, n))
    def __abs__(s): return s.map(pabs)

    def __lt__(s, o): return vcond(s, o, "<")
    def __le__(s, o): return vcond(s, o, "<=")
    def __gt__(s, o): return vcond(s, o, ">")
    def __ge__(s, o): return vcond(s, o, ">=")
    def __eq__(s, o): return vcond(s, o, "==") if isinstance(o, NUM + (Sc, SInt, Vec)) else NotImplemented
    def __ne__(s, o): return vcond(s, o, "!=") if isinstance(o, NUM + (Sc, SInt, Vec)) else NotImplemented
    __hash__ = object.__hash__

    def __matmul__(s, o):
        if isinstance(o, Vec):
            return Sc(psum(Vec._bin(s, o, lambda a, b: a * b)))
        return NotImplemented

    @property
    def real(s): return _shares(s.map(lambda p: p.re()), s)
    @property
    def imag(s): return _shares(s.map(lambda p: p.im()), s)
    @property
    def T(s): return s
    def conj(s): return s.map(lambda p: p.conj())

    def sum(s, axis=None):
        return Sc(psum(s))

    def flatten(s): return s.copy()
    def ravel(s): return s
    def copy(s): return type(s)(list(s.parts))
    def to(s, *a): return s

    def col(s):
        r = None
        off = 0
        parts = s.parts
        if len(parts) == 1:
            return column_nc(*parts[0])
        if len(parts) == 2 and parts[0][1] == parts[1][1]:
            k = parts[0][1]
            return NC.letter(Einj(1, k)) * column_nc(*parts[0]) + NC.letter(Einj(2, k)) * column_nc(*parts[1])
        if len(parts) == 4 and len({k for _, k in parts}) == 1:
            k = parts[0][1]
            a, b = Vec(parts[:2]).col(), Vec(parts[2:]).col()
            return NC.letter(Einj(1, 2 * k)) * a + NC.letter(Einj(2, 2 * k)) * b
        raise Unsupported("concatenated vector in a product")

    def diag(s):
        parts = s.parts
        if len(parts) == 1:
            return diag_nc(*parts[0])
        if len(parts) == 2 and parts[0][1] == parts[1][1]:
            k = parts[0][1]
            e = [NC.letter(Einj(i, k)) for i in (1, 2)]
            return e[0] * diag_nc(*parts[0]) * e[0].T() + e[1] * diag_nc(*parts[1]) * e[1].T()
        raise Unsupported("concatenated diagonal")

    @staticmethod
    def fromcol(nc):
        """column -> vector (split in halves when it is explicitly made of blocks)"""
        k = nc.rows
        if any(w and w[0].kind == "E" for w in nc.t):
            h = k // 2
            return Vec(Vec.fromcol(nc.block(0 + 1, None, h, h)).parts + Vec.fromcol(nc.block(2, None, h, h)).parts)
        return Vec([(nc.entry(), k)])

    def __getitem__(s, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if i is Ellipsis:
            return s
        if isinstance(i, tuple) and i and i[0] is Ellipsis and len(i) == 2:
            i = i[1]
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided slice")
            tot = s.k
            a = 0 if i.start is None else dim0(i.start, tot)
            b = tot if i.stop is None else dim0(i.stop, tot)
            if a == 0 and b == tot:
                return s
            # cut
            ks, cuts = [], sorted({a, b, tot} - {0})
            prev = 0
            for c in cuts:
                ks.append(c - prev)
                prev = c
            bounds, acc = [], 0
            for _, k in s.parts:
                acc += k
                bounds.append(acc)
            allb = sorted(set(cuts) | set(bounds))
            ks = [y - x for x, y in zip([0] + allb, allb)]
            parts = s.split(ks)
            out, acc = [], 0
            for p, k in parts:
                if a <= acc and acc + k <= b:
                    out.append((p, k))
                acc += k
            return _shares(Vec(out), s)
        if isinstance(i, (SInt, int, np.integer)):
            return Sc(at_index(s, i))
        raise Unsupported(f"index {i!r} of a vector")

    def __setitem__(s, i, v):
        i = tuple(x for x in (i if isinstance(i, tuple) else (i,)) if x is not None)
        if len(i) != 1 or not isinstance(i[0], (SInt, int)) or isinstance(v, Vec):
            raise Unsupported("assignment of an entry")
        if not INPLACE[0]:
            raise TypeError("arrays are immutable")
        s.parts[:] = s._with(i[0], v).parts

    def _with(s, i, v):
        parts = s.parts if all(k == 1 for _, k in s.parts) else s.split([1] * s.k)
        h = 0
        if len(parts) > 1:
            # the block of N entries the index lies in
            i = SInt(topoly(i))
            N = nh()
            if i < 0:
                i = i + N * len(parts)
            for h in range(len(parts)):
                if h + 1 == len(parts) or i < N * (h + 1):
                    break
            i = i - N * h
        p, k = parts[h]
        d = onehot(i)
        return Vec(parts[:h] + [(p + d * (topoly(v) - p), k)] + parts[h + 1:])

    @property
    def at(s):
        return At(s)

    def __iter__(s):
        raise Unsupported("iteration over a symbolic vector")

    def __repr__(s):
        return "Vec[" + " | ".join(f"{p!r}:{k}N" for p, k in s.parts) + "]"


GDIM = 10 ** 6      # dimension code of the pixels of the unit cell


def onehot(i):
    """entry of the vector that is 1 at index i and 0 elsewhere"""
    return NC.letter(C(f"delta[{topoly(i).key()}]", 1, "real")).entry()


class Grid(Vec):
    """array over the pixels of the unit cell, by its generic entry"""
    ndim = 2

    @property
    def shape(s):
        return gridshape()

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if i is Ellipsis:
            return s
        raise Unsupported("indexing an array of pixels")

    def _bin(s, o, f):
        if isinstance(o, Vec) and not isinstance(o, Grid):
            raise Unsupported("pixels combined with harmonics")
        return Vec._bin(s, o, f)

    @property
    def T(s):
        raise Unsupported("transpose of an array of pixels")

    def copy(s):
        return Grid(list(s.parts))

    def nnv_fft(s, axes, inverse):
        from .load import Transformed
        return Transformed(s, axes, inverse)


def gridshape():
    for n in ("Nx", "Ny"):
        INTS.add(n)
    return SInt(sym("Nx", "real")), SInt(sym("Ny", "real"))


def is_grid_shape(sh):
    g = gridshape()
    return len(sh) == 2 and all(isinstance(a, SInt) and a.p == b.p for a, b in zip(sh, g))


def grid(name, *props):
    return Grid([(NC.letter(C(name, GDIM, *props)).entry(), GDIM)])


def dim0(x, tot):
    if isinstance(x, (int, np.integer)):
        if x == 0:
            return 0
        raise Unsupported("concrete slice of a symbolic dimension")
    k = dimk(x)
    if k < 0:
        k += tot
    if not 0 <= k <= tot:
        raise Unsupported("slice out of range")
    return k


def at_index(v, i):
    """entry at a (symbolic) index: kept as an indexed atom"""
    if len(v.parts) != 1:
        raise Unsupported("indexing a concatenated vector")
    p, k = v.parts[0]
    ip = topoly(i)
    def f(a):
        if a.dim == 0:
            return None
        if a.kind == "ent":
            nm = f"{a.key}[{ip.key()}]"
            pr = a.args[0][-1].props if len(a.args[0]) == 1 else ()
            pr = [x for x in ("real", "pos", "imag") if x in pr]
            return sym(nm, *pr)
        if a.kind == "fn":
            name, q, c = a.args
            q = q.subs_atoms(f)
            return fexp(q) if name == "exp" else Poly.atom(fnatom("sqrt", q, c)) if name == "sqrt" else q.inverse() if name == "inv" else fgen(name, q)
    return p.subs_atoms(f)


def psum(v):
    out = Poly({})
    for p, k in v.parts:
        out = out + psum_poly(p, k)
    return out


# ------------------------------------------------------------------ matrices
class Mat:
    __array_ufunc__ = None
    _nnv_array = True
    ndim = 2

    def __init__(s, nc):
        s.nc = nc

    @property
    def shape(s):
        return (SInt.mk(nh().p.scale(gq(s.nc.rows))), SInt.mk(nh().p.scale(gq(s.nc.cols))))

    def __add__(s, o):
        if isinstance(o, Mat):
            return Mat(s.nc + o.nc)
        if isinstance(o, NUM + (Sc,)) and not topoly(o).t:
            return s
        return unsup("matrix plus scalar", o)

    __radd__ = __add__

    def __sub__(s, o):
        if isinstance(o, Mat):
            return Mat(s.nc - o.nc)
        return unsup("matrix minus", o)

    def __neg__(s): return Mat(-s.nc)
    def __pos__(s): return s

    def __mul__(s, o):
        if isinstance(o, NUM + (SInt, Sc)):
            return Mat(s.nc.scale(topoly(o)))
        if isinstance(o, np.ndarray) and o.shape == ():
            return s * o.item()
        if isinstance(o, Vec):       # broadcasting along the last axis: columns scaled
            return Mat(s.nc * o.diag())
        return unsup("element-wise product of matrices", o)

    def __rmul__(s, o):
        if isinstance(o, Vec):
            return Mat(s.nc * o.diag())
        return s.__mul__(o)

    def __truediv__(s, o):
        if isinstance(o, NUM + (SInt, Sc)):
            return Mat(s.nc.scale(binv(topoly(o))))
        if isinstance(o, Vec):
            return Mat(s.nc * (1 / o).diag())
        return unsup("element-wise quotient of matrices", o)

    def __matmul__(s, o):
        if isinstance(o, Mat):
            return Mat(s.nc * o.nc)
        if isinstance(o, Vec):
            return Vec.fromcol(s.nc * o.col())
        return unsup("matrix product", o)

    def __rmatmul__(s, o):
        if isinstance(o, Vec):
            return Vec.fromcol(s.nc.T() * o.col())
        return unsup("matrix product", o)

    @property
    def T(s): return _shares(Mat(s.nc.T()), s)
    def transpose(s): return s.T
    def conj(s): return Mat(s.nc.conj())
    @property
    def real(s): return _shares(Mat((s.nc + s.nc.conj()).scale(Poly.const(Fr(1, 2)))), s)
    def copy(s): return Mat(s.nc)
    def to(s, *a): return s

    def __getitem__(s, i):
        if isinstance(i, slice):
            i = (i, slice(None))
        if isinstance(i, tuple) and len(i) == 2:
            if all(isinstance(x, slice) for x in i):
                r = rng(i[0], s.nc.rows)
                c = rng(i[1], s.nc.cols)
                return _shares(Mat(cut(cut(s.nc, r, 0), c, 1)), s)
            if isinstance(i[0], slice) and i[0] == slice(None) and isinstance(i[1], (SInt, int)):
                return Vec.fromcol(s.nc * unit_col(i[1], s.nc.cols))
            if isinstance(i[1], slice) and i[1] == slice(None) and isinstance(i[0], (SInt, int)):
                return Vec.fromcol(s.nc.T() * unit_col(i[0], s.nc.rows))
            if isinstance(i[0], slice) and i[0] == slice(None) and i[1] is None:
                pass
        raise Unsupported(f"index {i!r} of a matrix")

    def __iter__(s):
        raise Unsupported("iteration over a symbolic matrix")

    def __repr__(s):
        return f"Mat[{s.nc!r}]"


def unit_col(i, k):
    return NC.letter(C(f"unit[{topoly(i).key()}]", k, "real"))


def unsup(what, o):
    raise Unsupported(f"{what} ({type(o).__name__})")


def rng(sl, tot):
    if sl.step not in (None, 1):
        raise Unsupported("strided slice")
    a = 0 if sl.start is None else dim0(sl.start, tot)
    b = tot if sl.stop is None else dim0(sl.stop, tot)
    return a, b


def cut(nc, r, axis):
    tot = nc.rows if axis == 0 else nc.cols
    a, b = r
    if (a, b) == (0, tot):
        return nc
    if tot % 2:
        raise Unsupported("block of an odd partition")
    h = tot // 2
    if b <= h:
        i, r2 = 1, (a, b)
    elif a >= h:
        i, r2 = 2, (a - h, b - h)
    else:
        raise Unsupported("block across halves")
    nc = NC.letter(Psel(i, h)) * nc if axis == 0 else nc * NC.letter(Einj(i, h))
    return cut(nc, r2, axis)


class TArr:
    """concrete leading axes, one symbolic trailing axis; cells are Vec (or Sc)"""
    __array_ufunc__ = None
    _nnv_array = True

    def __init__(s, data, k, cls=None):
        s.data, s.k, s.cls = data, k, cls or Vec

    @property
    def shape(s):
        if s.cls is Grid:
            return s.data.shape + gridshape()
        return s.data.shape + (SInt.mk(nh().p.scale(gq(s.k))),)

    @property
    def ndim(s):
        return s.data.ndim + 1

    def _idx(s, i):
        if not isinstance(i, tuple):
            i = (i,)
        return i

    def __getitem__(s, i):
        i = s._idx(i)
        n = s.data.ndim
        if Ellipsis in i:
            j = i.index(Ellipsis)
            rest = len(i) - 1
            i = i[:j] + (slice(None),) * (n + 1 - rest) + i[j + 1:]
        lead, last = i[:n], i[n:]
        d = s.data[tuple(lead)]
        if last:
            l = last[0]
            if isinstance(l, slice) and l == slice(None):
                pass
            else:
                f = lambda v: v[l]
                if isinstance(d, np.ndarray):
                    out = np.empty(d.shape, object)
                    for q in np.ndindex(*d.shape):
                        out[q] = f(d[q])
                    return out
                return f(d)
        if isinstance(d, np.ndarray):
            return TArr(d, s.k, s.cls)
        return d

    def __setitem__(s, i, v):
        i = tuple(x for x in s._idx(i) if x is not None)
        if len(i) != s.data.ndim:
            if len(i) == s.data.ndim + 1 and i[-1] == slice(None):
                i = i[:-1]
            else:
                raise Unsupported("partial assignment")
        if isinstance(v, Vec):
            if v.k != s.k:
                raise ShapeError("assignment of a vector of another length")
            v = v.copy()
        s.data[i] = v

    @property
    def at(s):
        return At(s)

    def map(s, f):
        out = np.empty(s.data.shape, object)
        for q in np.ndindex(*s.data.shape):
            out[q] = f(s.data[q])
        return TArr(out, s.k, s.cls)

    def _bin(s, o, f):
        if isinstance(o, TArr):
            if o.data.shape != s.data.shape:
                raise Unsupported("broadcast of stacked vectors")
            out = np.empty(s.data.shape, object)
            for q in np.ndindex(*s.data.shape):
                out[q] = f(s.data[q], o.data[q])
            return TArr(out, s.k, s.cls)
        if isinstance(o, (Vec, Sc, SInt) + NUM):
            return s.map(lambda v: f(v, o))
        return NotImplemented

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._bin(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._bin(o, lambda a, b: a / b)
    def __neg__(s): return s.map(lambda v: -v)
    def conj(s): return s.map(lambda v: v.conj())
    @property
    def real(s): return s.map(lambda v: v.real)
    def copy(s): return s.map(lambda v: v.copy() if isinstance(v, Vec) else v)
    def double(s): return s

    def __len__(s):
        if s.data.ndim == 0:
            raise TypeError("len() of unsized object")
        return s.data.shape[0]

    def __iter__(s):
        for i in range(s.data.shape[0]):
            yield s[i]

    def __repr__(s):
        return f"TArr{s.data.tolist()!r}"


class At:
    def __init__(s, a, i=None):
        s.a, s.i = a, i

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        return At(s.a, i)

    def set(s, v):
        if isinstance(s.a, Vec) and not isinstance(s.a, Grid):
            i = tuple(x for x in (s.i if isinstance(s.i, tuple) else (s.i,)) if x is not None)
            if len(i) == 1:
                return s.a._with(i[0], v)
        c = s.a.copy()
        c[s.i] = v
        return c


# ------------------------------------------------------------------ equality of values
def eq_goals(a, b):
    """list of Poly (must be zero) / NC (must be zero) goals for a == b"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, object), np.asarray(b, object)
        if a.shape != b.shape:
            raise ShapeError(f"shapes {a.shape} and {b.shape}")
        return sum((eq_goals(x, y) for x, y in zip(a.ravel(), b.ravel())), [])
    if isinstance(a, TArr) and isinstance(b, TArr):
        return eq_goals(a.data, b.data)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise ShapeError("lengths differ")
        return sum((eq_goals(x, y) for x, y in zip(a, b)), [])
    if isinstance(a, Mat) and isinstance(b, Mat):
        return [a.nc - b.nc]
    if isinstance(a, Vec) and isinstance(b, Vec):
        pa, pb = Vec.align(a, b)
        return [p - q for (p, k), (q, _) in zip(pa, pb)]
    return [topoly(a) - topoly(b)]


# ------------------------------------------------------------------ in-place operators
INPLACE = [True, True]        # False for immutable arrays (jax): rebinding, as without the special method; second: array() copies


def _shares(*xs):
    """memory shared between these arrays: their in-place modification is not followed"""
    for x in xs:
        if isinstance(x, (Vec, Mat, TArr)):
            x.shared = True
    return xs[0]


def _install_inplace():
    import operator

    def mk(nm, op):
        def f(s, o):
            r = op(s, o)
            if not INPLACE[0]:
                return r
            if type(r) is not type(s) or getattr(r, "k", None) != getattr(s, "k", None):
                raise Unsupported("in-place operation changing the kind of array")
            if s.shared:
                raise Unsupported("in-place operation on an array that shares memory")
            if isinstance(s, Vec):
                s.parts = list(r.parts)
            elif isinstance(s, Mat):
                if (s.nc.rows, s.nc.cols) != (r.nc.rows, r.nc.cols):
                    raise ShapeError("in-place operation changing the shape")
                s.nc = r.nc
            elif isinstance(s, TArr):
                s.data = r.data.copy()
            elif isinstance(s, Arr0):
                s.p = r.p
            return s
        f.__name__ = nm
        return f
    for cls in (Vec, Mat, TArr, Arr0):
        if cls is not Arr0:
            cls.shared = False
        for nm in ("add", "sub", "mul", "truediv", "pow", "matmul"):
            if hasattr(cls, f"__{nm}__"):
                f = mk(f"__i{nm}__", getattr(operator, nm))
                if cls is Arr0:
                    def g(s, o, op=getattr(operator, nm)):
                        r = op(s, o)
                        if INPLACE[0] and isinstance(r, Sc):
                            s.p = r.p
                            return s
                        return r
                    f = g
                setattr(cls, f"__i{nm}__", f)


_install_inplace()
