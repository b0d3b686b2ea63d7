"""Linearization: every monomial of degree two or more becomes a variable (an abstraction: what is proved of it holds),
and rational identities between terms containing square roots and absolute values."""
from fractions import Fraction
from .engine import *


class Lin:
    def __init__(s):
        s.atoms = {}        # key -> z3 variable
        s.vars = {}         # monomial -> z3 variable
        s.side = []
        s.seen = {}

    # ---- polynomials over atoms: {(atom keys sorted): coefficient}
    def atom(s, k, is_int, make=None):
        if k not in s.atoms:
            Z = z3()
            s.atoms[k] = make if make is not None else (Z.Int if is_int else Z.Real)(f"at{len(s.atoms)}")
        return {(k,): Fraction(1)}

    @staticmethod
    def add(p, q, c=1):
        out = dict(p)
        for m, v in q.items():
            out[m] = out.get(m, 0) + c * v
            if out[m] == 0:
                del out[m]
        return out

    @staticmethod
    def mul(p, q):
        out = {}
        for m, a in p.items():
            for n, b in q.items():
                k = tuple(sorted(m + n))
                out[k] = out.get(k, 0) + a * b
        return {k: v for k, v in out.items() if v}

    def poly(s, e):
        i = e.get_id()
        if i in s.seen:
            return s.seen[i][1]
        r = s._poly(e)
        s.seen[i] = (e, r)
        return r

    def _poly(s, e):
        Z = z3()
        if Z.is_int_value(e):
            v = e.as_long()
            return {(): Fraction(v)} if v else {}
        if Z.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): v} if v else {}
        k = e.decl().kind()
        c = e.children()
        if k == Z.Z3_OP_TO_REAL:
            return s.poly(c[0])
        if k == Z.Z3_OP_ADD:
            out = {}
            for x in c:
                out = s.add(out, s.poly(x))
            return out
        if k == Z.Z3_OP_SUB:
            out = s.poly(c[0])
            for x in c[1:]:
                out = s.add(out, s.poly(x), -1)
            return out
        if k == Z.Z3_OP_UMINUS:
            return s.add({}, s.poly(c[0]), -1)
        if k == Z.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for x in c:
                out = s.mul(out, s.poly(x))
            return out
        if k == Z.Z3_OP_POWER and Z.is_rational_value(c[1]) | Z.is_int_value(c[1]):
            n = Fraction(str(c[1]))
            if n.denominator == 1 and 0 <= n <= 8:
                out, b = {(): Fraction(1)}, s.poly(c[0])
                for _ in range(int(n)):
                    out = s.mul(out, b)
                return out
        if k == Z.Z3_OP_DIV:
            q = s.poly(c[1])
            if set(q) <= {()} and q:
                return s.mul(s.poly(c[0]), {(): 1 / q[()]})
            p = s.poly(c[0])
            return s.atom(("div", s.key(p), s.key(q)), False)
        if k == Z.Z3_OP_ITE:
            cond = s.form(c[0])
            p, q = s.poly(c[1]), s.poly(c[2])
            key = ("ite", cond.sexpr(), s.key(p), s.key(q))
            new = key not in s.atoms
            r = s.atom(key, e.is_int())
            if new:
                v = s.atoms[key]
                tr = lambda x: x if x.is_real() == v.is_real() else (Z.ToReal(x) if x.is_int() else x)
                vv = Z.ToReal(v) if v.is_int() else v
                s.side.append(Z.If(cond, vv == s.term(p, True), vv == s.term(q, True)))
            return r
        if k in (Z.Z3_OP_IDIV, Z.Z3_OP_MOD) and Z.is_int_value(c[1]) and c[1].as_long() > 0:
            p = s.poly(c[0])
            key = ("div" if k == Z.Z3_OP_IDIV else "mod", s.key(p), c[1].as_long())
            t = s.term(p, False)
            return s.atom(key, True, (t / c[1]) if k == Z.Z3_OP_IDIV else (t % c[1]))
        if Z.is_const(e):
            return s.atom(("v", str(e), e.is_int()), e.is_int(), e)
        return s.atom(("t", Z.simplify(e).sexpr()), e.is_int())

    @staticmethod
    def key(p):
        return tuple(sorted((tuple(map(repr, m)), v) for m, v in p.items()))

    def monomial(s, m):
        Z = z3()
        if len(m) == 1:
            return s.atoms[m[0]]
        if m not in s.vars:
            ints = all(s.atoms[k].is_int() for k in m)
            s.vars[m] = (Z.Int if ints else Z.Real)(f"mon{len(s.vars)}")
        return s.vars[m]

    def term(s, p, real):
        Z = z3()
        p = {tuple(sorted(m, key=repr)): v for m, v in p.items()}
        ints = all(v.denominator == 1 for v in p.values()) and all(s.monomial(m).is_int() for m in p if m)
        if real is False and not ints:
            raise Unsupported("integer term")
        out = []
        for m, v in p.items():
            if not m:
                out.append(Z.IntVal(int(v)) if ints and not real else Z.RealVal(str(v)))
                continue
            x = s.monomial(m)
            if x.is_int() and (real or not ints):
                x = Z.ToReal(x)
            c = Z.IntVal(int(v)) if ints and not real else Z.RealVal(str(v))
            out.append(c * x)
        if not out:
            return Z.RealVal(0) if real or not ints else Z.IntVal(0)
        return Z.Sum(out) if len(out) > 1 else out[0]

    # ---- formulas
    def form(s, e):
        Z = z3()
        k = e.decl().kind()
        c = e.children()
        if k in (Z.Z3_OP_LE, Z.Z3_OP_LT, Z.Z3_OP_GE, Z.Z3_OP_GT) or (k in (Z.Z3_OP_EQ, Z.Z3_OP_DISTINCT) and not Z.is_bool(c[0])):
            d = s.add(s.poly(c[0]), s.poly(c[1]), -1)
            ints = all(v.denominator == 1 for v in d.values()) and all(s.monomial(tuple(sorted(m, key=repr))).is_int() for m in d if m)
            t = s.term(d, not ints)
            z = Z.IntVal(0) if t.is_int() else Z.RealVal(0)
            return {Z.Z3_OP_LE: t <= z, Z.Z3_OP_LT: t < z, Z.Z3_OP_GE: t >= z, Z.Z3_OP_GT: t > z, Z.Z3_OP_EQ: t == z, Z.Z3_OP_DISTINCT: t != z}[k]
        if c and Z.is_bool(e):
            return e.decl()(*[s.form(x) for x in c])
        return e


def lin_valid(goal, conds, timeout=8000):
    """the goal follows from the conditions in linear arithmetic over the monomials"""
    Z = z3()
    L = Lin()
    try:
        cs = [L.form(c) for c in conds if Z.is_expr(c)]
        g = L.form(goal)
    except Unsupported:
        return False
    s = Z.Solver()
    s.set("timeout", timeout)
    s.add(*cs, *L.side, Z.Not(g))
    return str(s.check()) == "unsat"


# ------------------------------------------------------------------ rational identities
class Rat:
    """z3 terms as rational functions; square roots and absolute values as symbols y with y^2 known"""

    def __init__(s, cache):
        import sympy
        s.S = sympy
        s.sq = {}
        s.known = {}
        for (kind, *_), v in cache.items():
            if v is not None:
                s.known[str(v[0])] = (kind, v[1])

    def sym(s, n):
        return s.S.Symbol(n)

    def conv(s, e):
        Z, S = z3(), s.S
        if Z.is_int_value(e):
            return S.Integer(e.as_long())
        if Z.is_rational_value(e):
            return S.Rational(e.numerator_as_long(), e.denominator_as_long())
        k = e.decl().kind()
        c = e.children()
        if k == Z.Z3_OP_TO_REAL:
            return s.conv(c[0])
        if k == Z.Z3_OP_ADD:
            return S.Add(*[s.conv(x) for x in c])
        if k == Z.Z3_OP_SUB:
            return s.conv(c[0]) - S.Add(*[s.conv(x) for x in c[1:]])
        if k == Z.Z3_OP_UMINUS:
            return -s.conv(c[0])
        if k == Z.Z3_OP_MUL:
            return S.Mul(*[s.conv(x) for x in c])
        if k == Z.Z3_OP_DIV:
            return s.conv(c[0]) / s.conv(c[1])
        if k == Z.Z3_OP_POWER and Z.is_int_value(Z.simplify(c[1])) | Z.is_rational_value(Z.simplify(c[1])):
            return s.conv(c[0]) ** s.conv(Z.simplify(c[1]))
        if k == Z.Z3_OP_ITE:
            p, q = s.conv(c[1]), s.conv(c[2])
            if S.expand(p + q) == 0 and Z.is_arith(c[0].children()[0] if c[0].children() else c[0]):
                # |p|: the condition is p >= 0 (or -p <= 0, ...), decided by the solver
                x = c[1]
                if lin_valid(c[0] == (x >= 0), []) or lin_valid(z3().Or(x == 0, c[0] == (x > 0)), []):
                    pp = S.expand(p)
                    n = pp if S.default_sort_key(pp) <= S.default_sort_key(S.expand(-p)) else S.expand(-p)
                    y = s.sym(f"abs[{n}]")
                    s.sq[y] = n ** 2
                    return y
            raise Unsupported("conditional term")
        if Z.is_const(e):
            n = str(e)
            y = s.sym(n)
            if n in s.known and s.known[n][0] == "sqrt" and y not in s.sq:
                s.sq[y] = None
                s.sq[y] = s.conv(s.known[n][1])
            return y
        raise Unsupported("term")

    def zero(s, e):
        S = s.S
        for _ in range(60):
            num = S.expand(S.fraction(S.together(e))[0])
            if num == 0:
                return True
            for y, a in reversed(list(s.sq.items())):
                if a is None:
                    continue
                p = S.Poly(num, y)
                if p.degree() >= 2:
                    e = sum(c * a ** (m[0] // 2) * y ** (m[0] % 2) for m, c in p.terms())
                    break
            else:
                return False
        return False

    nonzero = ()

    def reduce(s, e):
        """numerator and denominator, with even powers of the square roots replaced"""
        S = s.S
        num, den = S.fraction(S.together(e))
        for _ in range(60):
            done = True
            for y, a in reversed(list(s.sq.items())):
                if a is None:
                    continue
                out = []
                for f in (num, den):
                    f = S.expand(f)
                    if f.has(y):
                        p = S.Poly(f, y)
                        if p.degree() >= 2:
                            f = S.together(sum(c * a ** (m[0] // 2) * y ** (m[0] % 2) for m, c in p.terms()))
                            done = False
                    out.append(f)
                (n1, d1), (n2, d2) = map(S.fraction, out)
                num, den = n1 * d2, d1 * n2
            if done:
                return S.factor(num), S.factor(den)
        raise Unsupported("reduction")

    def nonvanishing(s, t):
        """no denominator of the z3 term vanishes: each is a product of factors known not to vanish"""
        Z = z3()
        todo, seen = [t], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            c = e.children()
            todo += c
            if Z.is_const(e) and str(e) in s.known and s.known[str(e)][0] == "sqrt":
                todo.append(s.known[str(e)][1])
            if e.decl().kind() == Z.Z3_OP_DIV:
                num, _ = s.reduce(s.conv(c[1]) ** 2)
                ok = [s.reduce(x ** 2)[0] for x in s.nonzero]
                fac = s.S.factor_list(num)[1]
                for f, _ in fac:
                    if not any(s.S.rem(s.S.expand(k), s.S.expand(f), *sorted(f.free_symbols, key=str)) == 0 for k in ok if f.free_symbols <= k.free_symbols):
                        return False
        return True

    def sign(s, e):
        """e >= 0"""
        try:
            return s.nonneg(e)
        except Unsupported:
            return False

    def nonneg(s, e, again=True):
        """sign by the form of the expression: sums and products of terms known to be >= 0 (or > 0)"""
        S = s.S
        if e.is_Number:
            return e >= 0
        if e.is_Symbol and (e in s.sq or str(e) in ("pi", "nh")):
            return True
        if (e.is_Add or e.is_Mul) and all(s.nonneg(a, False) for a in e.args):
            return True
        if e.is_Pow and e.exp.is_Integer and int(e.exp) % 2 == 0:
            return True
        if e.is_Pow and s.nonneg(e.base, False):
            return True
        if again:
            num, den = s.reduce(e)
            return s.nonneg(num, False) and s.nonneg(den, False)
        return False
