"""Algebra used by the verifier.

Poly : commutative Laurent polynomials over Gaussian rationals; atoms are scalar
       symbols, generic entries of vectors, and functions (exp, sqrt, ...) of them.
NC   : non-commutative polynomials of matrix letters of symbolic size (dimensions
       are multiples of one unknown N), with conjugation, transposition, diagonal
       matrices, injections/selections of blocks and inverses.
"""
from fractions import Fraction as Fr
from functools import lru_cache
import math


class Unsupported(BaseException):
    """a construct the engine has no rule for (never means a violation)"""


# ------------------------------------------------------------------ Gaussian rationals
class GQ:
    __slots__ = ("re", "im")

    def __init__(s, re, im=0):
        s.re, s.im = re, im

    def __add__(s, o):
        return GQ(s.re + o.re, s.im + o.im)

    def __neg__(s):
        return GQ(-s.re, -s.im)

    def __sub__(s, o):
        return GQ(s.re - o.re, s.im - o.im)

    def __mul__(s, o):
        if not s.im and not o.im:
            return GQ(s.re * o.re, 0)
        return GQ(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def inv(s):
        d = s.re * s.re + s.im * s.im
        return GQ(Fr(s.re) / d, -Fr(s.im) / d)

    def conj(s):
        return GQ(s.re, -s.im)

    def __bool__(s):
        return bool(s.re or s.im)

    def __eq__(s, o):
        return s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def __complex__(s):
        return complex(float(s.re), float(s.im))

    def __repr__(s):
        if not s.im:
            return str(s.re)
        return f"({s.re}+{s.im}j)" if s.re else f"{s.im}j"


ONE, ZERO, IU = GQ(Fr(1)), GQ(Fr(0)), GQ(Fr(0), Fr(1))


def gq(x):
    if isinstance(x, GQ):
        return x
    if isinstance(x, complex):
        return GQ(_fr(x.real), _fr(x.imag))
    return GQ(_fr(x))


def _fr(x):
    if isinstance(x, (int, Fr)):
        return Fr(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported(f"non finite number {x}")
    return Fr(x)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("kind", "args", "dim", "key", "_h")
    table = {}

    def __new__(cls, kind, args, dim, key):
        k = (kind, args)
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.dim, a.key, a._h = kind, args, dim, key, hash(k)
            cls.table[k] = a
        return a

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return s is o

    def __lt__(s, o):
        return s.key < o.key

    def __repr__(s):
        return s.key


SYMPROPS = {}          # name -> set of 'real','pos','imag'


def sym(name, *props):
    """scalar symbol"""
    if name in SYMPROPS and SYMPROPS[name] != frozenset(props):
        raise RuntimeError("symbol redeclared " + name)
    SYMPROPS[name] = frozenset(props)
    return Poly.atom(Atom("sym", (name, False), 0, name))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(s, t):
        s.t = t
        s._h = None

    @staticmethod
    def const(c):
        c = gq(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a, e),): ONE})

    # -- structure
    @property
    def dim(s):
        d = 0
        for m in s.t:
            for a, e in m:
                if a.dim > d:
                    d = a.dim
        return d

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.t.items()))
        return s._h

    def __eq__(s, o):
        return isinstance(o, Poly) and s.t == o.t

    def __bool__(s):
        return bool(s.t)

    def isconst(s):
        return not s.t or (len(s.t) == 1 and () in s.t)

    def constval(s):
        return s.t.get((), ZERO)

    def atoms(s):
        out = set()
        for m in s.t:
            for a, e in m:
                out.add(a)
        return out

    def key(s):
        return "+".join(sorted(f"{c!r}*" + ".".join(f"{a.key}^{e}" for a, e in m) for m, c in s.t.items())) or "0"

    def __repr__(s):
        k = s.key()
        return k if len(k) < 400 else k[:400] + "..."

    # -- ring
    def __add__(s, o):
        if not o.t:
            return s
        if not s.t:
            return o
        a, b = (s.t, o.t) if len(s.t) >= len(o.t) else (o.t, s.t)
        t = dict(a)
        for m, c in b.items():
            x = t.get(m)
            if x is None:
                t[m] = c
            else:
                x = x + c
                if x:
                    t[m] = x
                else:
                    del t[m]
        return Poly(t)

    def __neg__(s):
        return Poly({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        return s + (-o)

    def scale(s, c):
        if not c:
            return Poly({})
        return Poly({m: x * c for m, x in s.t.items()})

    def __mul__(s, o):
        if len(s.t) == 1 and () in s.t:
            return o.scale(s.t[()])
        if len(o.t) == 1 and () in o.t:
            return s.scale(o.t[()])
        out = {}
        extra = []
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m, red = mono_mul(m1, m2)
                c = c1 * c2
                if red:
                    extra.append(reduce_mono(m).scale(c))
                    continue
                x = out.get(m)
                x = c if x is None else x + c
                if x:
                    out[m] = x
                else:
                    out.pop(m, None)
        r = Poly(out)
        for e in extra:
            r = r + e
        return r

    def ipow(s, n):
        if n == 0:
            return Poly.const(1)
        if n < 0:
            return s.inverse().ipow(-n)
        r = s
        for _ in range(n - 1):
            r = r * s
        return r

    def inverse(s):
        if not s.t:
            raise ZeroDivisionError("division by a zero expression")
        if len(s.t) == 1:
            (m, c), = s.t.items()
            return Poly({tuple((a, -e) for a, e in m): c.inv()})
        # factor out the common monomial and leading coefficient
        cm = common_mono(s)
        p = s
        pre = Poly.const(1)
        if cm:
            pre = Poly({tuple((a, -e) for a, e in cm): ONE})
            p = s * pre
        lead = p.t[max(p.t, key=mono_key)]
        p = p.scale(lead.inv())
        pre = pre.scale(lead.inv())
        return pre * Poly.atom(fnatom("inv", p))

    def conj(s):
        out = Poly({})
        for m, c in s.t.items():
            r = Poly.const(c.conj())
            for a, e in m:
                r = r * conj_atom(a).ipow(e)
            out = out + r
        return out

    def re(s):
        return (s + s.conj()).scale(GQ(Fr(1, 2)))

    def im(s):
        return (s - s.conj()).scale(GQ(Fr(0), Fr(-1, 2)))

    def is_real(s):
        return is_zero(s - s.conj())

    def subs_atoms(s, f):
        """f(atom) -> Poly or None"""
        out = Poly({})
        for m, c in s.t.items():
            r = Poly.const(c)
            for a, e in m:
                v = f(a)
                r = r * (Poly.atom(a, e) if v is None else v.ipow(e))
            out = out + r
        return out


def common_mono(p):
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a not in d or (d[a] > 0) != (first[a] > 0):
                e = d.get(a, 0)
                # negative exponents are always factored out
                if first[a] < 0:
                    first[a] = min(first[a], e)
                else:
                    del first[a]
            else:
                first[a] = min(first[a], d[a])
        for a, e in d.items():
            if e < 0 and a not in first:
                first[a] = e
    return tuple(sorted((a, e) for a, e in first.items() if e))


def mono_key(m):
    return (sum(abs(e) for a, e in m), tuple((a.key, e) for a, e in m))


_SQ = {"sqrt", "sgn<", "sgn<="}


def mono_mul(m1, m2):
    """product of monomials; second value: needs reduction"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    red = False
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            g = e + f
            if g:
                out.append((a, g))
                if a.kind == "fn" and a.args[0] in _SQ and (not -1 <= g <= 1 or g < 0 and a.args[0] != "sqrt"):
                    red = True
            i += 1
            j += 1
        elif a.key < b.key:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), red


def reduce_mono(m):
    """s^2 -> p for s = sqrt(p)"""
    r = Poly({(): ONE})
    for a, e in m:
        if a.kind == "fn" and a.args[0] in ("sgn<", "sgn<="):
            if e % 2:
                r = r * Poly.atom(a)
        elif a.kind == "fn" and a.args[0] in _SQ and not -1 <= e <= 1:
            q, rem = divmod(abs(e), 2)
            sg = 1 if e > 0 else -1
            base = a.args[1].conj() if a.args[2] else a.args[1]
            r = r * base.ipow(q * sg)
            if rem:
                r = r * Poly.atom(a, sg)
        else:
            r = r * Poly({((a, e),): ONE})
    return r


# ------------------------------------------------------------------ functions
def fnatom(name, p, conj=False):
    k = f"{name}{'~' if conj else ''}[{p.key()}]"
    return Atom("fn", (name, p, conj), p.dim, k)


def ispos(p):
    """syntactically positive: single monomial of positive symbols with positive coefficient"""
    if len(p.t) != 1:
        return all(ispos(Poly({m: c})) for m, c in p.t.items()) if p.t else False
    (m, c), = p.t.items()
    if c.im or c.re <= 0:
        return False
    return all(apos(a) or (e % 2 == 0 and areal(a)) for a, e in m)


def apos(a):
    if a.kind == "sym":
        return "pos" in SYMPROPS[a.args[0]]
    if a.kind == "ent":
        return len(a.args[0]) == 1 and "pos" in a.args[0][0].props
    if a.kind == "fn":
        if a.args[0] == "sqrt":
            return ispos(a.args[1])
        if a.args[0] == "exp":
            return areal(a)
        if a.args[0] == "inv":
            return ispos(a.args[1])
        if a.args[0] == "abs":
            return True
    return False


def strictpos(p):
    """positive and never zero (absolute values and squares excluded)"""
    def at(a):
        if a.kind == "sym":
            return "pos" in SYMPROPS[a.args[0]]
        if a.kind == "ent":
            return len(a.args[0]) == 1 and "pos" in a.args[0][0].props
        if a.kind == "fn":
            if a.args[0] in ("sqrt", "inv"):
                return strictpos(a.args[1])
            return a.args[0] == "exp" and areal(a)
        return False
    return bool(p.t) and all(not c.im and c.re > 0 and all(at(a) for a, e in m) for m, c in p.t.items())


def isnonneg(p):
    """syntactically >= 0: sums of products of positive symbols, even powers of real ones and
    pairs of conjugates"""
    if not p.t:
        return True
    if len(p.t) != 1:
        return all(isnonneg(Poly({m: c})) for m, c in p.t.items())
    (m, c), = p.t.items()
    if c.im or c.re < 0:
        return False
    todo = dict(m)
    for a, e in m:
        if a not in todo:
            continue
        if apos(a) or (a.kind == "fn" and a.args[0] in ("sqrt", "inv") and isnonneg(a.args[1])):
            del todo[a]
            continue
        if e % 2 == 0 and areal(a):
            del todo[a]
            continue
        q = conj_atom(a)
        if len(q.t) == 1:
            (qm, qc), = q.t.items()
            if qc == ONE and len(qm) == 1 and qm[0][1] == 1 and todo.get(qm[0][0]) == e and qm[0][0] is not a:
                del todo[a], todo[qm[0][0]]
                continue
        return False
    return True


def areal(a):
    if a.kind == "fn" and a.args[0] in ("abs", "sgn<", "sgn<="):
        return True
    p = conj_atom(a)
    return len(p.t) == 1 and p == Poly.atom(a)


def fexp(p):
    out = Poly.const(1)
    for m, c in p.t.items():
        neg = (c.re < 0) if c.re else (c.im < 0)
        cc = -c if neg else c
        out = out * Poly.atom(fnatom("exp", Poly({m: cc})), -1 if neg else 1)
    return out


def fsqrt(p):
    if not p.t:
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Poly.const(1)
        rest = []
        for a, e in m:
            if apos(a):
                q, r = divmod(e, 2)
                if q:
                    out = out * Poly.atom(a, q)
                if r:
                    rest.append((a, r))
            else:
                rest.append((a, e))
        if not c.im and c.re > 0:
            n, d = Fr(c.re).numerator, Fr(c.re).denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                out = out.scale(GQ(Fr(rn, rd)))
                c = ONE
        core = Poly({tuple(rest): c})
        if core == Poly.const(1):
            return out
        return out * Poly.atom(fnatom("sqrt", core))
    return Poly.atom(fnatom("sqrt", p))


def fgen(name, p):
    if name in ("sin", "tan", "tanh", "arcsin") and not p.t:
        return p
    if name == "cos" and not p.t:
        return Poly.const(1)
    if name in ("cos", "sin", "tanh"):
        # parity
        lead = p.t[max(p.t, key=mono_key)]
        if lead.re < 0 or (not lead.re and lead.im < 0):
            r = Poly.atom(fnatom(name, -p))
            return r if name == "cos" else -r
    return Poly.atom(fnatom(name, p))


POWERS = {}        # name of a power function -> exponent
SUMS = {}          # sums over the index of a vector: name -> (monomial, dimension)


def psum_poly(p, k):
    """sum over the k N entries of p: a scalar symbol per generic-entry expression (linear over scalars)"""
    out = Poly({})
    for m, c in p.t.items():
        sc = tuple(x for x in m if x[0].dim == 0)
        ve = tuple(x for x in m if x[0].dim != 0)
        if not ve:
            out = out + Poly({sc: c}) * _nh().scale(gq(k))
            continue
        out = out + Poly({sc: c}) * Poly.atom(sumatom(ve, k))
    return out


def _nh():
    from .engine import nh
    return nh().p


def sumatom(ve, k):
    name = "SUM" + str(k) + "{" + ".".join(f"{a.key}^{e}" for a, e in ve) + "}"
    SUMS[name] = (ve, k)
    if name not in SYMPROPS:
        SYMPROPS[name] = frozenset(["sum"])
    return Atom("sym", (name, False), 0, name)


def conj_atom(a):
    if a.kind == "sym":
        n, c = a.args
        pr = SYMPROPS[n]
        if "real" in pr or "pos" in pr:
            return Poly.atom(a)
        if n in SUMS:
            ve, k = SUMS[n]
            return psum_poly(Poly({ve: ONE}).conj(), k)
        if "imag" in pr:
            return -Poly.atom(a)
        return Poly.atom(Atom("sym", (n, not c), 0, n if c else n + "~"))
    if a.kind == "ent":
        return ent_word(conj_word(a.args[0]))
    name, p, c = a.args
    if name in ("abs", "sgn<", "sgn<="):
        return Poly.atom(a)
    if name == "sqrt":
        if isnonneg(p):
            return Poly.atom(a)
        return Poly.atom(fnatom("sqrt", p, not c))
    pc = p.conj()
    if name == "exp":
        return fexp(pc)
    if name == "inv":
        return pc.inverse()
    return fgen(name, pc)


def is_zero(p, depth=0):
    """complete clearing of denominators and relations; True means proved zero as an element
    of the field generated by the atoms (with declared-nonzero denominators)."""
    if not p.t:
        return True
    if depth > 60:
        return False
    # clear negative exponents
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if neg:
        return is_zero(p * Poly({tuple(sorted(neg.items())): ONE}), depth + 1)
    # clear inverses
    invs = {}
    for m in p.t:
        for a, e in m:
            if a.kind == "fn" and a.args[0] == "inv":
                invs[a] = max(invs.get(a, 0), e)
    if invs:
        # nested ones last
        a = max(invs, key=lambda x: len(x.key))
        den, k = a.args[1], invs[a]
        out = Poly({})
        pw = [Poly.const(1)]
        for _ in range(k):
            pw.append(pw[-1] * den)
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] is not a)
            out = out + Poly({rest: c}) * pw[k - e]
        return is_zero(out, depth + 1)
    # abs(x)^2 = x conj(x); sin^2 = 1 - cos^2
    for m in p.t:
        for a, e in m:
            if e >= 2 and a.kind == "fn" and a.args[0] in ("sin", "abs", "sqrt"):
                def rep(m):
                    d = dict(m)
                    k = d.get(a, 0)
                    rest = tuple(x for x in m if x[0] is not a)
                    if a.args[0] == "sin":
                        base = Poly.const(1) - Poly.atom(fnatom("cos", a.args[1]), 2)
                    elif a.args[0] == "abs":
                        base = a.args[1] * a.args[1].conj()
                    else:
                        base = a.args[1].conj() if a.args[2] else a.args[1]
                    r = Poly({rest: ONE}) * base.ipow(k // 2)
                    return r * Poly.atom(a) if k % 2 else r
                out = Poly({})
                for m2, c2 in p.t.items():
                    out = out + rep(m2).scale(c2)
                return is_zero(out, depth + 1)
    return False


# ------------------------------------------------------------------ matrix letters
class Letter:
    """kind: L generic matrix, C column vector, D diagonal (args = monomial), E injection of
    half i of a space of dimension cols, P = E^T, X inverse (args = NC)"""
    __slots__ = ("kind", "name", "rows", "cols", "props", "conj", "trans", "args", "key", "_h")
    table = {}

    def __new__(cls, kind, name, rows, cols, props=frozenset(), conj=False, trans=False, args=None):
        k = (kind, name, rows, cols, props, conj, trans, args)
        l = cls.table.get(k)
        if l is None:
            l = object.__new__(cls)
            l.kind, l.name, l.rows, l.cols, l.props, l.conj, l.trans, l.args = k
            l.key = f"{kind}:{name}{'~' if conj else ''}{chr(39) if trans else ''}"
            l._h = hash(k)
            cls.table[k] = l
        return l

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return s is o

    def __repr__(s):
        return s.name + ("~" if s.conj else "") + ("'" if s.trans else "")

    @property
    def nrows(s):
        return s.cols if s.trans else s.rows

    @property
    def ncols(s):
        return s.rows if s.trans else s.cols


def L(name, rows, cols, *props):
    return Letter("L", name, rows, cols, frozenset(props))


def C(name, rows, *props):
    return Letter("C", name, rows, 0, frozenset(props))


ONES = {}


def ones(k):
    return Letter("C", "1", k, 0, frozenset(["real", "pos"]))


def Einj(i, k):
    return Letter("E", f"E{i}_{k}", 2 * k, k, frozenset(["real"]), False, False, i)


def Psel(i, k):
    return Letter("P", f"P{i}_{k}", k, 2 * k, frozenset(["real"]), False, False, i)


def Dlet(mono, k):
    name = "D(" + ".".join(f"{a.key}^{e}" for a, e in mono) + ")"
    return Letter("D", name, k, k, frozenset(), False, False, mono)


def conj_letter(l):
    """-> (coef, letter)"""
    if l.kind in "EP":
        return l
    if "real" in l.props:
        return l
    if l.kind == "L" and "herm" in l.props:      # conj = transpose; canonical flag: trans only
        return Letter(l.kind, l.name, l.rows, l.cols, l.props, False, not l.trans, l.args)
    if l.kind == "X":
        return Xlet(l.args.conj())
    return Letter(l.kind, l.name, l.rows, l.cols, l.props, not l.conj, l.trans, l.args)


def trans_letter(l):
    if l.kind == "E":
        return Psel(l.args, l.cols)
    if l.kind == "P":
        return Einj(l.args, l.rows)
    if l.kind == "D" or "sym" in l.props:
        return l
    if l.kind == "X":
        return Xlet(l.args.T())
    if l.kind == "L" and "herm" in l.props:
        if "real" in l.props:
            return l
        return Letter(l.kind, l.name, l.rows, l.cols, l.props, False, not l.trans, l.args)
    return Letter(l.kind, l.name, l.rows, l.cols, l.props, l.conj, not l.trans, l.args)


def Xlet(nc):
    return Letter("X", f"X[{nc.key()}]", nc.cols, nc.rows, frozenset(), False, False, nc)


def conj_word(w):
    """conjugate of a word as a list (single word; D letters may give factors) -> NC-like (coef Poly, word)"""
    c = Poly.const(1)
    out = []
    for l in w:
        if l.kind == "D":
            p = Poly({l.args: ONE}).conj()
            cc, d = diag_split(p, l.rows)
            c = c * cc
            if d is not None:
                out.append(d)
        elif l.kind == "C" and "imag" in l.props:
            c = -c
            out.append(l)
        else:
            out.append(conj_letter(l))
    return c, tuple(out)


def diag_split(p, k):
    """single-term Poly -> (scalar coefficient Poly, D letter or None)"""
    if len(p.t) != 1:
        raise Unsupported("diagonal of a sum in a single word")
    (m, c), = p.t.items()
    sc = tuple(x for x in m if x[0].dim == 0)
    ve = tuple(x for x in m if x[0].dim != 0)
    return Poly({sc: c}), (Dlet(ve, k) if ve else None)


def ent_word(cw):
    c, w = cw if isinstance(cw[0], Poly) else (Poly.const(1), cw)
    p = c
    w = list(w)
    while w and w[0].kind == "D":
        p = p * Poly({w[0].args: ONE})
        w.pop(0)
    if len(w) == 1 and w[0].kind == "C" and w[0].name == "1":
        return p
    if not w:
        raise Unsupported("entry of an empty word")
    w = tuple(w)
    k = "<" + " ".join(repr(l) for l in w) + ">"
    dim = w[0].nrows
    if dim == 0:      # row . matrix . column: a scalar
        raise Unsupported("scalar product word")
    return p * Poly.atom(Atom("ent", (w,), dim, k))


def slice_poly(p, i, k):
    """entries of half i (blocks of dimension k) of a vector expression of dimension 2k"""
    def f(a):
        if a.dim == 0:
            return None
        if a.kind == "ent":
            nc = NC.word((Psel(i, k),) + a.args[0])
            return nc.entry()
        if a.kind == "fn":
            name, q, c = a.args
            q = slice_poly(q, i, k)
            if name == "exp":
                return fexp(q)
            if name == "sqrt":
                return Poly.atom(fnatom("sqrt", q, c))
            if name == "inv":
                return q.inverse()
            return fgen(name, q)
    return p.subs_atoms(f)


class NC:
    """non-commutative polynomial: {word: scalar Poly}; rows/cols in units of N (0 = one)"""
    __slots__ = ("t", "rows", "cols", "_k")

    def __init__(s, t, rows, cols):
        s.t = {w: c for w, c in t.items() if c.t}
        s.rows, s.cols = rows, cols
        s._k = None

    @staticmethod
    def zero(r, c):
        return NC({}, r, c)

    @staticmethod
    def eye(k):
        return NC({(): Poly.const(1)}, k, k)

    @staticmethod
    def letter(l):
        return NC({(l,): Poly.const(1)}, l.nrows, l.ncols)

    @staticmethod
    def word(w, c=None):
        r = NC({(): c or Poly.const(1)}, w[0].nrows, w[0].nrows)
        for l in w:
            r = r * NC.letter(l)
        return r

    def key(s):
        if s._k is None:
            s._k = "+".join(sorted(f"({c.key()})" + " ".join(repr(l) for l in w) for w, c in s.t.items())) + f"|{s.rows}x{s.cols}"
        return s._k

    def __hash__(s):
        return hash(s.key())

    def __eq__(s, o):
        return isinstance(o, NC) and s.key() == o.key()

    def __repr__(s):
        k = s.key()
        return k if len(k) < 500 else k[:500] + "..."

    def __add__(s, o):
        if (s.rows, s.cols) != (o.rows, o.cols):
            raise ShapeError(f"shapes {(s.rows, s.cols)} and {(o.rows, o.cols)}")
        t = dict(s.t)
        for w, c in o.t.items():
            t[w] = t[w] + c if w in t else c
        return NC(t, s.rows, s.cols)

    def __neg__(s):
        return NC({w: -c for w, c in s.t.items()}, s.rows, s.cols)

    def __sub__(s, o):
        return s + (-o)

    def scale(s, p):
        return NC({w: c * p for w, c in s.t.items()}, s.rows, s.cols)

    def __mul__(s, o):
        if s.cols != o.rows:
            raise ShapeError(f"product of shapes {(s.rows, s.cols)} and {(o.rows, o.cols)}")
        t = {}
        for w1, c1 in s.t.items():
            for w2, c2 in o.t.items():
                c = c1 * c2
                for cc, w in concat(w1, w2):
                    x = c * cc
                    t[w] = t[w] + x if w in t else x
        return NC(t, s.rows, o.cols)

    def conj(s):
        t = {}
        for w, c in s.t.items():
            cc, w2 = conj_word(w)
            x = c.conj() * cc
            t[w2] = t[w2] + x if w2 in t else x
        return NC(t, s.rows, s.cols)

    def T(s):
        r = NC({}, s.cols, s.rows)
        for w, c in s.t.items():
            x = NC({(): c}, s.cols, s.cols)
            for l in reversed(w):
                x = x * NC.letter(trans_letter(l))
            r = r + NC(x.t, s.cols, s.rows)
        return r

    def H(s):
        return s.conj().T()

    def inverse(s):
        if s.rows != s.cols:
            raise ShapeError("inverse of a rectangular matrix")
        if len(s.t) == 1:
            (w, c), = s.t.items()
            if all(l.kind == "D" for l in w):
                r = NC({(): c.inverse()}, s.rows, s.cols)
                for l in w:
                    r = r * diag_nc(Poly({l.args: ONE}).inverse(), l.rows)
                return r
        return NC.letter(Xlet(s))

    def block(s, i, j, kr, kc):
        r = s
        if s.rows == 2 * kr and i is not None:
            r = NC.letter(Psel(i, kr)) * r
        if s.cols == 2 * kc and j is not None:
            r = r * NC.letter(Einj(j, kc))
        return r

    def entry(s):
        """generic entry of a column"""
        if s.cols != 0:
            raise Unsupported("entry of a matrix")
        out = Poly({})
        for w, c in s.t.items():
            out = out + c * ent_word(w)
        return out

    def is_zero(s):
        if all(is_zero(c) for c in s.t.values()):
            return True
        # group the words differing by their first diagonal
        if not any(l.kind == "D" for w in s.t for l in w):
            return False
        groups = {}
        for w, c in s.t.items():
            j = next((j for j, l in enumerate(w) if l.kind == "D"), None)
            if j is None:
                k, p = (w, None), c
                # a bare word matches the same word with a diagonal at its first possible place
                groups.setdefault((), []).append((w, c))
                continue
            k = (w[:j], w[j + 1:], w[j].rows)
            groups.setdefault(k, []).append((None, c * Poly({w[j].args: ONE})))
        for w, c in groups.pop((), []):
            hit = [k for k in groups if len(k) == 3 and k[0] + k[1] == w]
            if hit:
                groups[hit[0]].append((None, c))
            else:
                groups[(w,)] = groups.get((w,), []) + [(None, c)]
        for k, l in groups.items():
            t = Poly({})
            for _, p in l:
                t = t + p
            if not is_zero(t):
                return False
        return True

    def letters(s):
        out = set()
        for w in s.t:
            for l in w:
                out.add(l)
                if l.kind == "X":
                    out |= l.args.letters()
        return out


class ShapeError(Exception):
    """an operation on incompatible shapes: raised by the real libraries as well"""


def concat(w1, w2):
    """normalized product of two normalized words: [(Poly coef, word)]"""
    if not w1 or not w2:
        return [(Poly.const(1), w1 + w2)]
    a, b = w1[-1], w2[0]
    ka, kb = a.kind, b.kind
    if ka == "D" and kb == "D":
        m, red = mono_mul(a.args, b.args)
        if red:
            p = reduce_mono(m)
        else:
            p = Poly({m: ONE})
        return _fold(w1[:-1], diag_nc(p, a.rows), w2[1:])
    if ka == "P" and kb == "E":
        if a.rows == b.cols:
            if a.args != b.args:
                return []
            return concat(w1[:-1], w2[1:])
    if ka == "E" and kb == "P" and a.cols == b.rows and a.args == 2 and b.args == 2:
        out = list(concat(w1[:-1], w2[1:]))
        k = a.cols
        for c, w in concat(w1[:-1], (Einj(1, k), Psel(1, k))):
            for c2, w_ in concat(w, w2[1:]):
                out.append((-(c * c2), w_))
        return out
    if ka == "P" and kb == "D" and b.rows == 2 * a.rows:
        p = slice_poly(Poly({b.args: ONE}), a.args, a.rows)
        return _fold(w1[:-1], diag_nc(p, a.rows), (a,) + w2[1:])
    if ka == "D" and kb == "E":
        p = slice_poly(Poly({a.args: ONE}), b.args, b.cols)
        return _fold(w1[:-1] + (b,), diag_nc(p, b.cols), w2[1:])
    return [(Poly.const(1), w1 + w2)]


def _fold(w1, nc, w2):
    out = []
    for w, c in nc.t.items():
        for c1, x in concat(w1, w):
            for c2, y in concat(x, w2):
                out.append((c * c1 * c2, y))
    return out


def diag_nc(p, k):
    """diagonal matrix with generic entry p"""
    t = {}
    for m, c in p.t.items():
        sc = tuple(x for x in m if x[0].dim == 0)
        ve = tuple(x for x in m if x[0].dim != 0)
        for a, _ in ve:
            if a.dim != k:
                raise ShapeError(f"vector of dimension {a.dim}N among vectors of dimension {k}N")
        w = (Dlet(ve, k),) if ve else ()
        x = Poly({sc: c})
        t[w] = t[w] + x if w in t else x
    return NC(t, k, k)


def column_nc(p, k):
    """column with generic entry p (dimension k)"""
    t = NC({}, k, 0)
    for m, c in p.t.items():
        sc = tuple(x for x in m if x[0].dim == 0)
        ve = [x for x in m if x[0].dim != 0]
        for a, _ in ve:
            if a.dim != k:
                raise ShapeError(f"vector of dimension {a.dim}N among vectors of dimension {k}N")
        # base: the last entry atom with a positive exponent
        base = None
        for j in range(len(ve) - 1, -1, -1):
            if ve[j][0].kind == "ent" and ve[j][1] >= 1 and len(ve[j][0].args[0]) and not _diaglike(ve[j][0]):
                base = j
                break
        if base is None:
            word = NC.letter(ones(k))
        else:
            word = NC.word(ve[base][0].args[0])
            e = ve[base][1] - 1
            ve[base:base + 1] = [(ve[base][0], e)] if e else []
        x = word
        if ve:
            x = diag_nc(Poly({tuple(ve): ONE}), k) * x
        t = t + x.scale(Poly({sc: c}))
    return t


def _diaglike(a):
    w = a.args[0]
    return "diag" in w[-1].props


# ------------------------------------------------------------------ derivative
def dpoly(p, name):
    """derivative with respect to the real scalar symbol `name` (through exp)"""
    out = Poly({})
    for m, c in p.t.items():
        for j, (a, e) in enumerate(m):
            d = datom(a, name)
            if d is None or not d.t:
                continue
            rest = list(m)
            rest[j] = (a, e - 1)
            rest = tuple(x for x in rest if x[1])
            out = out + Poly({rest: c}).scale(gq(e)) * d
    return out


def datom(a, name):
    if a.kind == "sym":
        return Poly.const(1) if a.args[0] == name else None
    if a.kind == "fn":
        if a.args[0] == "exp":
            return dpoly(a.args[1], name) * Poly.atom(a)
        if any_sym(a.args[1], name):
            raise Unsupported("derivative of " + a.key)
        return None
    if a.kind == "ent":
        nc = NC.word(a.args[0])
        d = dnc(nc, name)
        return d.entry() if d.t else None
    return None


def any_sym(p, name):
    for a in p.atoms():
        if a.kind == "sym" and a.args[0] == name:
            return True
        if a.kind == "fn" and any_sym(a.args[1], name):
            return True
        if a.kind == "ent" and any(l.kind == "D" and any_sym(Poly({l.args: ONE}), name) for l in a.args[0]):
            return True
    return False


def dnc(nc, name):
    out = NC({}, nc.rows, nc.cols)
    for w, c in nc.t.items():
        dc = dpoly(c, name)
        if dc.t:
            out = out + NC({w: dc}, nc.rows, nc.cols)
        for j, l in enumerate(w):
            if l.kind == "D":
                dp = dpoly(Poly({l.args: ONE}), name)
                if dp.t:
                    x = NC({(): c}, nc.rows, nc.rows)
                    for i, l2 in enumerate(w):
                        x = x * (diag_nc(dp, l.rows) if i == j else NC.letter(l2))
                    out = out + x
            elif l.kind == "X":
                if dnc(l.args, name).t:
                    raise Unsupported("derivative of an inverse")
    return out
