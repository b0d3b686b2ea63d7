"""P10: the truncation of the harmonics."""
from .common import *
from nnv import ordr as O
from nnv.ordr import Rz, zz
from nnv.lin import lin_valid, Rat


def lattice(be):
    prog = Program(be)
    m = prog.load("nannos.lattice")
    O.install(prog, m, prog.bk)
    return prog, m


def reals(names):
    return [Rz(z3().Real(n)) for n in names.split()]


def make_lattice(m, truncation, K=None, given=None):
    class Lat(m.Lattice):
        def __init__(self):
            pass
    if K is not None:
        Lat.reciprocal = property(lambda self: K.copy())
    l = Lat()
    l.is_1D = truncation == "1D"
    l.truncation, l.harmonics_array = truncation, given
    l.basis_vectors = None
    l.discretization = (64, 64)
    return l


def recip():
    """arbitrary reciprocal vectors (the columns), linearly independent"""
    k1x, k1y, k2x, k2y = reals("k1x k1y k2x k2y")
    K = np.empty((2, 2), object)
    K[0, 0], K[1, 0], K[0, 1], K[1, 1] = k1x, k1y, k2x, k2y
    return K


def cross(K):
    return K[0, 0] * K[1, 1] - K[1, 0] * K[0, 1]


def norm2(K, a, b):
    """squared length of a K1 + b K2"""
    a, b = Rz(a), Rz(b)
    vx, vy = a * K[0, 0] + b * K[0, 1], a * K[1, 0] + b * K[1, 1]
    return vx * vx + vy * vy


def requested():
    Z = z3()
    n = Rz(Z.Int("nh"))
    CTX.assume(n.z >= 2)
    return n


def conds(r):
    return [c for c in r.cond if z3().is_expr(c)]


def shape(P, nm, v, kinds):
    """(harmonics, count), or None"""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], kinds) and O.num(v[1]):
        return v
    P.add(nm + ": result", "undecided", "", 0, f"form of the result: {v!r}"[:200])
    return None


def rows_ok(P, nm, h):
    d = h.rows[0].perm.dom
    P.z(nm + ": the rows hold the two indices", z3().And(zz(h.rows[0].v) == d.a, zz(h.rows[1].v) == d.b))
    return d


def circular(P):
    P.fn("Lattice.get_harmonics", "Lattice._get_harmonics", "lattice._circular_truncation")
    P.trust("numpy / torch: arange, meshgrid(indexing='ij') with flatten enumerates the pairs of indices once each; argsort: a permutation "
            "along which the keys do not decrease; int: truncation towards zero; linalg.norm, dot, sqrt, abs as documented")
    P.assume("exact arithmetic (keys closer than the relative tolerance 1e-10 of the code are taken to be equal); "
             "no non zero vector of the reciprocal lattice is shorter than 1e-5 times the longest of the two basis vectors; nh >= 2")
    P.lean("Harm.lean", ["nth_le", "gauss", "cell", "vec_neg", "enough", "harmonics", "cross_le", "outside", "consecutive"])
    Z = z3()
    for be in bks(P, "numpy", "torch"):
        for srt in (False, True):
            prog, m = lattice(be)
            nm = f"[{be}] circular{', sorted' if srt else ''}"
            O.DEAD.clear()

            def run():
                O.reset()
                K = recip()
                CTX.assume(cross(K).z != 0)
                n = requested()
                v = make_lattice(m, "circular", K).get_harmonics(n, sort=srt)
                return v, K, n, O.facts(), dict(O.CACHE)
            rs = P.paths(nm, run)
            P.soft(nm + ": paths", len(rs) >= 1)
            for r in rs:
                v, K, n, facts, cache = r.value
                v = shape(P, nm, v, O.Pairs)
                if v is None:
                    continue
                h, c = v
                order_ok(P, nm, h, srt)
                d = rows_ok(P, nm, h)
                perm = h.rows[0].perm
                cs = conds(r)
                cnt = h.rows[0].cnt
                if cnt is None:
                    cnt = d.card()
                cz, kz = zz(c), zz(cnt)
                facts, X, u, R = analysis(P, nm, K, n, facts, cache)
                facts = list(facts)
                facts += card_facts(d, cs + facts)
                prove(P, nm + ": the count is the number of columns", cz == kz, cs + facts)
                prove(P, nm + ": at least one, at most the number asked for", Z.And(cz >= 1, cz <= n.z), cs + facts)
                prove(P, nm + ": the truncation is inside of the window", cz < d.card().z, cs + facts, sufficient=True)
                key_ok(P, nm, perm, K, facts, cache)
                gap(P, nm, perm, cz, cs, facts)
                window(P, nm, d, K, n, cs, facts, X, u, R)
            P.soft(nm + ": the search is understood", bool(O.DEAD) or not rs)
            for label, c, f, perms, cache in O.DEAD:
                K = recip()
                facts, X, u, R = analysis(P, nm, K, Rz(Z.Int("nh")), f, cache)
                facts = list(facts)
                for p in perms:
                    facts += card_facts(p.dom, c + facts)
                    facts += lattice_facts(p, K)
                prove(P, nm + f": {label}", z3().BoolVal(False), [x for x in c if Z.is_expr(x)] + facts, sufficient=True)
            P.files |= prog.files


def order_ok(P, nm, h, srt):
    if srt:
        o = getattr(h, "order", None)
        P.soft(nm + ": the columns permuted by increasing first index", o is not None and order_of(o, h), repr(o))
    else:
        P.soft(nm + ": the columns in their order", getattr(h, "order", None) is None)


def order_of(o, h):
    s = o.srt
    if isinstance(h, O.Pairs):
        r = h.rows[0]
        return isinstance(s, O.Srt) and s.perm is r.perm and s.cnt is r.cnt and z3().eq(zz(s.v), zz(r.v))
    if isinstance(h, O.Listed):
        return isinstance(s, O.ListedRow) and s.l.f is h.f and s.l.tr == h.tr
    if isinstance(h, O.Given):
        return isinstance(s, O.GivenRow)
    return False


def key_ok(P, nm, perm, K, facts, cache):
    """the keys order the pairs by the length of their vector"""
    Z = z3()
    a, b, c, d = Z.Ints("pa pb qa qb")
    kp, kq = perm.subst(perm.key, a, b).z, perm.subst(perm.key, c, d).z
    if lin_valid(real(kp) == norm2(K, a, b).z, facts) or ratzero(kp, norm2(K, a, b).z, cache):
        return P.add(nm + ": the keys are the squared lengths", "proved", "z3", 0, "")
    prove(P, nm + ": the keys order the pairs by length", Z.And(Z.Implies(kp <= kq, norm2(K, a, b).z <= norm2(K, c, d).z), Z.Implies(kp < kq, norm2(K, a, b).z < norm2(K, c, d).z)), facts, sufficient=True)


def ratzero(a, b, cache):
    r = Rat(cache)
    try:
        return r.zero(r.conv(a) - r.conv(b))
    except Unsupported:
        return False


def lattice_facts(perm, K):
    """the zero pair is in the enumeration when it is in the window; a non zero pair is not short"""
    Z = z3()
    out = []
    e0 = Z.Int(f"zero{perm.n}")
    xs = list(perm.idx.values())
    has0 = perm.dom.has(Z.IntVal(0), Z.IntVal(0))
    out.append(Z.Implies(has0, Z.And(e0 >= 0, e0 < perm.dom.card().z)))
    k0 = perm.subst(perm.key, Z.IntVal(0), Z.IntVal(0)).z
    tol = Rz(Z.RealVal("1/10000000000")) * O._max(norm2(K, Z.IntVal(1), Z.IntVal(0)), norm2(K, Z.IntVal(0), Z.IntVal(1)))
    for e, a, b in xs:
        k = perm.subst(perm.key, a, b).z
        out.append(Z.Implies(Z.And(has0, e >= 0, e <= e0), k <= k0))
        out.append(Z.Or(Z.And(a == 0, b == 0), k > tol.z))
    return out


def gap(P, nm, perm, c, cs, facts):
    Z = z3()
    CTX.cond[:] = cs
    e, a, b = perm.at(Z.simplify(c))
    e1, a1, b1 = perm.at(Z.simplify(c - 1))
    prove(P, nm + ": the first pair left out is longer than the last one kept", perm.subst(perm.key, a1, b1).z < perm.subst(perm.key, a, b).z, cs + facts + perm.facts(), sufficient=True)


def prove(P, name, goal, conds, timeout=6000, sufficient=False):
    """linear arithmetic first; otherwise the general solvers, once for obligations differing only by the path.
    A sufficient condition that fails is no violation: its counter-model is replayed on the real code"""
    t0 = time.time()
    if lin_valid(goal, conds, timeout):
        return P.add(name, "proved", "z3 (linear arithmetic over monomials)", time.time() - t0)
    base = name.split("]", 1)[-1]
    if base in FAILED:
        return P.add(name, "undecided", "", time.time() - t0, FAILED[base])
    ok = P.z(name, goal, conds, timeout=timeout)
    o = P.obls[-1]
    if not ok:
        replay(P, goal, conds, "parallelogrammic" if "parallelogrammic" in name else "1D" if "mono" in name else "circular")
        if sufficient and o["status"] == "refuted":
            o["status"] = "undecided"
        if o["status"] == "undecided":
            FAILED[base] = o["detail"]
    return ok


FAILED = {}


def replay(P, goal, conds, trunc):
    """cases for the companion, from the counter-model"""
    Z = z3()
    st, m = zsolve(list(conds) + [Z.Not(goal)], 6000)
    if m is None:
        return

    def val(n, d):
        for x in m.decls():
            if x.name() == n:
                v = m[x]
                return float(v.as_fraction()) if Z.is_rational_value(v) else v.as_long() if Z.is_int_value(v) else float(v.approx(20).as_fraction())
        return d
    n = min(int(val("nh", 5)), 2000)
    K = np.array([[val("k1x", 1.0), val("k2x", 0.0)], [val("k1y", 0.0), val("k2y", 1.0)]], float)
    if trunc == "1D":
        lat = dict(kind="1D", bv=1.0, disc=[64, 1], trunc="circular")
    else:
        if np.linalg.cond(K) > 1e4:
            return
        lat = dict(kind="oblique", bv=(2 * np.pi * np.linalg.inv(K)).tolist(), disc=[64, 64], trunc=trunc)
    for d in (0, 1, 2, 5, 20):
        for srt in (False, True):
            P.case(dict(lat=lat, n=max(2, n + d), sort=srt))


def analysis(P, nm, K, n, facts, cache, quiet=False):
    """consequences of the definitions of the square roots and truncations: squares are not negative, the
    truncated numbers are not negative and large enough; established by rational function identities"""
    Z = z3()
    memo = tuple(sorted(f"{k} {v and v[0]}" for k, v in cache.items())) + tuple(f.sexpr() for f in facts)
    if memo in MEMO:
        return MEMO[memo]
    keep = list(O.DEFS), dict(O.CACHE)
    O.DEFS[:] = list(facts)
    O.CACHE.clear()
    O.CACHE.update(cache)
    X = abs(cross(K))
    u = [O.sqrt(norm2(K, Z.IntVal(1), Z.IntVal(0))), O.sqrt(norm2(K, Z.IntVal(0), Z.IntVal(1)))]
    R = O.sqrt(n * X / Rz(O.PI)) + u[0] + u[1]
    out = []
    rat = Rat(O.CACHE)
    rat.nonzero = [rat.conv(x.z) for x in (cross(K), u[0], u[1], n, Rz(O.PI))]
    for x in u:
        out.append((x * x).z >= 0)
    out.append(X.z > 0)
    out.append(n.z >= 2)
    qs = []
    for (kind, *_), v in list(O.CACHE.items()):
        if v is None:
            continue
        if kind == "sqrt" and rat.sign(rat.conv(v[1])):
            out += [v[1] >= 0, v[0] >= 0]
    for (kind, *_), v in list(O.CACHE.items()):
        if kind != "trunc":
            continue
        q, t = v
        if rat.sign(rat.conv(t)):
            out.append(t >= 0)
            qs.append(q)
            out.append(((Rz(q) + 1 - Rz(t)) * X).z > 0)
            T = rat.conv(t)
            if not rat.nonvanishing(t):
                P.add(nm + ": denominators do not vanish", "undecided", "", 0, str(t)[:200])
                continue
            for j in (0, 1):
                w = rat.conv((R * u[j]).z)
                if rat.zero(T ** 2 * rat.conv(X.z) ** 2 - w ** 2) or rat.zero(T * rat.conv(X.z) - w):
                    out.append((Rz(t) * X).z == (R * u[j]).z)
    out += integer_parts(O.CACHE)
    for i, q in enumerate(qs):
        for p in qs[:i + 1]:
            out.append(q * p >= 0)
    defs = list(O.DEFS)
    O.DEFS[:] = keep[0]
    O.CACHE.clear()
    O.CACHE.update(keep[1])
    MEMO[memo] = tuple(defs + out), X, u, R
    return MEMO[memo]


MEMO = {}


def integer_parts(cache):
    """products of the inequalities defining the integer part q of a number t >= 0"""
    Z = z3()
    out = []
    for (kind, *_), v in cache.items():
        if kind == "trunc":
            q, t = Rz(v[0]), Rz(v[1])
            out.append(Z.Implies(t.z >= 0, Z.And(((t - q) * (t + q)).z >= 0, ((q + 1 - t) * (q + 1 + t)).z > 0)))
            out.append(Z.And((q * q).z >= q.z, Z.Or(q.z != 0, (q * q).z == 0)))
    return out


def card_facts(d, cs):
    Z = z3()
    (l0, h0), (l1, h1) = d.ra.bounds(), d.rb.bounds()
    if lin_valid(Z.And(h0.z >= l0.z, h1.z >= l1.z), cs):
        return [d.card().z == ((h0 - l0 + 1) * (h1 - l1 + 1)).z]
    return []


def window(P, nm, d, K, n, cs, facts, X, u, R):
    Z = z3()
    (l0, h0), (l1, h1) = d.ra.bounds(), d.rb.bounds()
    prove(P, nm + ": the window is symmetric", Z.And(l0.z == -h0.z, l1.z == -h1.z), cs + facts, sufficient=True)
    prove(P, nm + ": the window holds the zero pair", Z.And(h0.z >= 0, h1.z >= 0), cs + facts, sufficient=True)
    for k, (h, w) in enumerate(((h0, u[1]), (h1, u[0]))):
        prove(P, nm + f": window, extent {k}: every pair outside of it is longer than the longest needed", (R * w).z < ((h + 1) * X).z, cs + facts, sufficient=True)


def real(z):
    return z3().ToReal(z) if z.is_int() else z


def parallelogrammic(P):
    P.fn("lattice._parallelogramic_truncation")
    Z = z3()
    for be in bks(P, "numpy", "torch"):
        for srt in (False, True):
            prog, m = lattice(be)
            nm = f"[{be}] parallelogrammic{', sorted' if srt else ''}"

            def run():
                O.reset()
                K = recip()
                CTX.assume(cross(K).z != 0)
                n = requested()
                v = make_lattice(m, "parallelogrammic", K).get_harmonics(n, sort=srt)
                return v, n, O.facts(), dict(O.CACHE)
            for r in P.paths(nm, run):
                v, n, facts, cache = r.value
                v = shape(P, nm, v, O.Pairs)
                if v is None:
                    continue
                h, c = v
                order_ok(P, nm, h, srt)
                d = rows_ok(P, nm, h)
                cs = conds(r) + facts + integer_parts(cache)
                cs += card_facts(d, cs)
                cnt = h.rows[0].cnt
                cz = zz(c)
                if cnt is not None:
                    prove(P, nm + ": the count is the number of columns", cz == zz(cnt), cs)
                (l0, h0), (l1, h1) = d.ra.bounds(), d.rb.bounds()
                M = h0.z
                prove(P, nm + ": centered square", Z.And(l0.z == -M, l1.z == -M, h1.z == M, M >= 0), cs)
                for (kind, *_), w in cache.items():
                    if kind == "trunc":
                        cs += [Z.And(w[0] == 2 * M + k, w[0] * w[0] == (2 * M + k) * (2 * M + k)) for k in (0, 1, 2) if lin_valid(w[0] == 2 * M + k, cs)]
                prove(P, nm + ": every pair is kept", cz == d.card().z, cs)
                side = Rz(2 * M + 1)
                prove(P, nm + ": as many as the square of the odd side", cz == (side * side).z, cs)
                prove(P, nm + ": at most the number asked for", (side * side).z <= n.z, cs)
                prove(P, nm + ": the next odd side is too large", ((side + 2) * (side + 2)).z > n.z, cs)
                prove_not(P, nm + ": reachable", cs)
            P.files |= prog.files


def prove_not(P, name, cs):
    P.soft(name, not lin_valid(z3().BoolVal(False), cs))


def onedim(P):
    P.fn("lattice._one_dim_truncation")
    Z = z3()
    for be in bks(P, "numpy", "torch"):
        for srt in (False, True):
            prog, m = lattice(be)
            nm = f"[{be}] mono-periodic{', sorted' if srt else ''}"

            def run():
                O.reset()
                n = requested()
                v = make_lattice(m, "1D").get_harmonics(n, sort=srt)
                return v, n, O.facts(), dict(O.CACHE)
            for r in P.paths(nm, run):
                v, n, facts, cache = r.value
                v = shape(P, nm, v, O.Listed)
                if v is None:
                    continue
                h, c = v
                if not h.tr:
                    P.add(nm + ": shape (2, count)", "undecided")
                    continue
                order_ok(P, nm, h, srt)
                cs = conds(r) + facts + integer_parts(cache)
                _, old, rg, i, new = h.f
                lo, hi = rg.bounds()
                ok = lambda x: isinstance(x, (tuple, list)) and len(x) == 2 and all(O.num(y) for y in x)
                if not all(ok(x) for x in old + new):
                    P.add(nm + ": pairs", "undecided", "", 0, repr((old, new)))
                    continue
                # first indices: exactly the integers from -top to top, once each (the second index is 0)
                top, j = Z.Int("top"), Z.Int("j")
                P.true(nm + ": the second index is zero", all(zvalid(zz(x[1]) == 0, cs)[0] == "proved" for x in old + new))
                fixed = [zz(x[0]) for x in old]
                steps = [Z.simplify(zz(x[0])) for x in new]
                prove(P, nm + ": the count is the number of columns", zz(c) == h.count().z, cs)
                prove(P, nm + ": at most the number asked for, at most one less", Z.And(zz(c) <= n.z, zz(c) >= n.z - 1), cs)
                at = lambda s, k: Z.substitute(s, (i, k))
                inr = lambda k: Z.And(lo.z <= k, k <= hi.z)
                k1, k2 = Z.Ints("i1 i2")
                topdef = [2 * top + 1 == zz(c)]
                for a, s in enumerate(steps):
                    prove(P, nm + f": element {a} of step i lies within -top ... top", Z.And(at(s, k1) >= -top, at(s, k1) <= top), cs + topdef + [inr(k1)])
                    prove(P, nm + f": element {a} of different steps differ", at(s, k1) != at(s, k2), cs + [inr(k1), inr(k2), k1 != k2])
                    for f in fixed:
                        prove(P, nm + f": element {a} of a step is not one of the first", at(s, k1) != f, cs + [inr(k1)])
                    for b, t in enumerate(steps[:a]):
                        prove(P, nm + f": elements {b} and {a} differ", at(s, k1) != at(t, k2), cs + [inr(k1), inr(k2)])
                prove(P, nm + ": the first elements are distinct, within -top ... top", Z.And(Z.Distinct(*fixed) if len(fixed) > 1 else Z.BoolVal(True), *[Z.And(f >= -top, f <= top) for f in fixed]), cs + topdef)
                # 2 top + 1 distinct integers of an interval of 2 top + 1: all of them
                prove_not(P, nm + ": reachable", cs)
            P.files |= prog.files


def others(P):
    Z = z3()
    for be in bks(P, "numpy", "torch"):
        for srt in (False, True):
            prog, m = lattice(be)
            nm = f"[{be}] user defined harmonics{', sorted' if srt else ''}"
            for tr in ("circular", "parallelogrammic", "1D"):
                def run():
                    O.reset()
                    k = Rz(Z.Int("m"))
                    CTX.assume(k.z >= 1)
                    g = O.Given(k)
                    v = make_lattice(m, tr, recip(), given=g).get_harmonics(requested(), sort=srt)
                    return v, k
                for r in P.paths(nm, run):
                    v, k = r.value
                    v = shape(P, nm, v, O.Given)
                    if v is None:
                        continue
                    order_ok(P, nm + f" ({tr})", v[0], srt)
                    P.z(nm + f" ({tr}): their number", zz(v[1]) == k.z)
        for tr in ("circular", "parallelogrammic", "1D"):
            def bad():
                O.reset()
                x = Rz(Z.Real("x"))
                CTX.assume(Z.And(Z.ToReal(Z.ToInt(x.z)) != x.z, x.z >= 1))
                return make_lattice(m, tr, recip()).get_harmonics(x)
            nm = f"[{be}] a number that is not an integer ({tr})"
            n = 0
            for r in P.paths(nm, bad, allow=(ValueError,)):
                if isinstance(r.exc, ValueError) or zsolve(conds(r) + O.facts())[0] == "unsat":
                    n += 1
                    continue
                P.add(nm + " is refused", "undecided", "", 0, "a path does not raise")
            P.soft(nm + " is refused", n > 0)
        P.files |= prog.files


PARTS = [circular, parallelogrammic, onedim, others]
