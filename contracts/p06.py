"""P06: per-order efficiencies, totals, amplitudes and dictionaries."""
from .common import *
from . import layers as ly, construct
from nnv.load import ADict
from nnv.symbk import EIGFACTS


class HarmDict:
    """contract of harmidx_dict (proved of the constructor): D[m_i][n_i] = i, nothing else"""

    def __init__(s, h):
        s.h = h

    def find(s, k1, k2):
        """the index of the order (k1, k2), assumed to be among the orders"""
        for i, m, n in s.h.seen:
            if topoly(m) == topoly(k1) and topoly(n) == topoly(k2):
                return i
        j = SInt.var(CTX.fresh("ord"))
        m, n = s.h.pair(j)
        Z = z3()
        CTX.assume(Z.And(zpoly(topoly(m)) == zpoly(topoly(k1)), zpoly(topoly(n)) == zpoly(topoly(k2)), zpoly(j.p) >= 0, zpoly(j.p) < zpoly(nh().p)))
        return j

    def row(s, K1, i):
        class Row:
            def __getitem__(_, k2):
                return s.find(K1, k2)

            def items(_):
                j = SInt.var(CTX.fresh("ord"))
                m, n = s.h.pair(j)
                CTX.assume(z3().And(zpoly(topoly(m)) == zpoly(topoly(K1)), zpoly(j.p) >= 0, zpoly(j.p) < zpoly(nh().p)))
                it = SymIter(SInt.var(CTX.fresh("rowlen")), lambda q: (n, j), "row")
                it.dictkey = lambda e: e[0]
                it.order = j
                return it

            def keys(_):
                raise Unsupported("keys")
        R = Row()
        if i is None:
            Row.items = Row.keys
        return R

    def __getitem__(s, k1):
        for i, m, n in s.h.seen:
            if topoly(m) == topoly(k1):
                return s.row(m, i)
        return s.row(k1, None)

    def items(s):
        i = SInt.var(CTX.fresh("ord"))
        m, n = s.h.pair(i)
        it = SymIter(SInt.var(CTX.fresh("nrows")), lambda q: (m, s.row(m, i)), "dict")
        it.dictkey = lambda e: e[0]
        return it


def simulation(W, outer="uniform"):
    sim = make(W)
    h = construct.Harm()
    sim.harmonics = h
    sim.harmidx_dict = HarmDict(h)
    sim.index_zeroth_order = h.zero
    sim.lattice = ly.Lat()
    sim.S = [[mat(f"S{i}{j}", 2) for j in range(2)] for i in range(2)]
    sim._ok = True
    aN, b0 = vec("aN", 2), vec("b0", 2)
    sim._solve_ext = lambda: (aN, b0)
    n1 = SInt(topoly(W.n) - Poly.const(1))

    def amplitudes(i, z=0, translate=True):
        """contract of _get_amplitudes (P04)"""
        li = sim.layers[i]
        if topoly(i) == Poly.const(0):
            a, b = sim.a0, b0
        elif zvalid(zpoly(topoly(i)) == zpoly(n1.p), [c for c in CTX.cond if z3().is_expr(c)])[0] == "proved":
            a, b = aN, sim.bN
        else:
            raise Unsupported("amplitudes of an inner layer")
        if translate:
            return W.simmod._translate_amplitudes(li, z, a, b)
        return a, b
    sim._get_amplitudes = amplitudes
    sim.bN = Vec([(Poly({}), 2)])
    e = construct.Lay()
    sim.excitation = e
    th, ph, ps = (Sc(sym(x, "real")) for x in ("theta", "phi", "psi"))
    e.theta, e.phi, e.psi = th, ph, ps
    sp, cp = lambda x: Sc(fgen("sin", topoly(x))), lambda x: Sc(fgen("cos", topoly(x)))
    u = [sp(th) * cp(ph), sp(th) * sp(ph), cp(th)]
    et = [cp(th) * cp(ph), cp(th) * sp(ph), -sp(th)]
    ep = [-sp(ph), cp(ph), Sc(Poly({}))]
    E = [cp(ps) * a + sp(ps) * b for a, b in zip(et, ep)]
    H = [u[1] * E[2] - u[2] * E[1], u[2] * E[0] - u[0] * E[2], u[0] * E[1] - u[1] * E[0]]
    e.amplitude = np.array(E, dtype=object).view(OArr)
    sim.exc_h = H
    nin = (sim.layers[0].epsilon * sim.layers[0].mu) ** 0.5
    sim.k0para = np.array([W.omega * nin * u[0], W.omega * nin * u[1]], dtype=object).view(OArr)
    sim.incident_flux = cp(th) / nin
    sim.aN, sim.b0 = aN, b0
    return sim


def resolve(p, leaf, squares):
    """substitute atoms (also inside functions) and replace sqrt(x) by r for the (x, r) of squares"""
    memo = {}

    def sub(p):
        def f(a):
            if a in memo:
                return memo[a]
            r = leaf(a)
            if r is None and a.kind == "fn":
                name, arg, conj = a.args
                if name == "inv":
                    r = sub(arg).inverse()
                elif name == "sqrt":
                    x = sub(arg)
                    for y, v in squares:
                        if is_zero(x - y):
                            r = v.conj() if conj else v
                            break
                    else:
                        r = fsqrt(x)
                        r = r.conj() if conj else r
                elif name == "exp":
                    r = fexp(sub(arg))
                elif name in ("abs",):
                    r = pabs(sub(arg))
            memo[a] = r
            return r
        return p.subs_atoms(f)
    return sub(p)


def entries(P, be):
    """one order at a time: |amplitude|^2 summed over the components = efficiency"""
    W = World(be)
    ly.structured(W, ("uniform",))
    W.lazy["epsilon"] = lambda l: Arr0(sym(f"epsr[{l.tag}]", "pos"))
    P.fn("Simulation.diffraction_efficiencies", "Simulation._get_complex_orders", "Simulation.get_z_poynting_flux", "Simulation.get_field_fourier")
    P.trust("principal square roots: sqrt(x^2) = x for x > 0, sqrt(-x^2) = i x")

    def run():
        sim = simulation(W)
        R, T = sim.diffraction_efficiencies(orders=True)
        r, t = sim.diffraction_efficiencies(orders=True, complex=True)
        return sim, R, T, r, t, sim.layers[0], sim.layers[W.n - 1]
    for x in P.paths(f"[{be}] efficiencies", run):
        sim, R, T, r, t, l0, lN = x.value
        s2 = lambda v: sum((Sc(topoly(0)),) * 0, Vec([(abs2_(v[0]) + abs2_(v[1]) + abs2_(v[2]), 1)]))
        sumsq = lambda v: abs2_(v[0]) + abs2_(v[1]) + abs2_(v[2])
        om = W.omega.p
        kx, ky = W.kx.parts[0][0], W.ky.parts[0][0]
        n0, n1, kap = sym("n_in", "pos"), sym("n_out", "pos"), sym("kappai", "pos")
        oneent = lambda v: v.parts[0][0] if isinstance(v, Vec) and len(v.parts) == 1 else topoly(v)
        e0, eN = topoly(l0.epsilon), topoly(lN.epsilon)
        th, ph = topoly(sim.excitation.theta), topoly(sim.excitation.phi)
        ct = fgen("cos", th)
        al, be_ = sym("tan_alpha_i", "real"), sym("beta_i", "real")
        sb, cb = fgen("sin", be_), fgen("cos", be_)
        # polar angles of propagating waves (cos > 0) by their tangent
        (ca, sa), (c0, s0) = [(fsqrt(Poly.const(1) + x * x).inverse(), x * fsqrt(Poly.const(1) + x * x).inverse()) for x in (al, sym("tan_theta", "real"))]

        def leafs(z, kx_, ky_, a0):
            m = {ct: c0, fgen("sin", th): s0, kx: kx_, ky: ky_, construct_onehot(sim.index_zeroth_order): Poly.const(1 if z else 0), e0: n0 * n0, eN: n1 * n1}
            for (p, k), v in zip(sim.a0.split([1, 1]), a0):
                m[p] = v
            at = {}
            for k, v in m.items():
                for k2, v2 in ((k, v), (k.conj(), v.conj())):
                    (mo, c), = k2.t.items()
                    (a, e), = mo
                    at[a] = v2
            return lambda a: at.get(a)
        zero = [Poly({}), Poly({})]
        inc = (om * om * n0 * n0 * c0 * c0, om * n0 * c0)
        for side, eff, amp, n_ in (("transmission", T, t, n1), ("reflection", R, r, n0)):
            which = "every order" if side == "transmission" else "order other than the zeroth"
            a0 = [p for p, k in sim.a0.split([1, 1])] if side == "transmission" else zero
            for kind in ("propagating", "evanescent"):
                nm = f"[{be}] {side}, {kind}, {which}: "
                if kind == "propagating":       # direction (alpha, beta), cos(alpha) > 0
                    rho, q = om * n_ * sa, om * n_ * ca
                else:
                    rho, q = fsqrt(om * om * n_ * n_ + kap * kap), kap * Poly.const(GQ(0, 1))
                lf = leafs(False, rho * cb, rho * sb, a0)
                sq = [(q * q, q), inc]
                ef, am = resolve(oneent(eff), lf, sq), resolve(oneent(sumsq(amp)), lf, sq)
                P.goal(nm + "|amplitude|^2 = efficiency", [ef - am])
                if kind == "evanescent":
                    P.goal(nm + "no efficiency", [ef])
            if side == "reflection":
                lf = leafs(True, om * n0 * s0 * fgen("cos", ph), om * n0 * s0 * fgen("sin", ph), [resolve(topoly(v), lambda a: {next(iter(ct.atoms())): c0, next(iter(fgen("sin", th).atoms())): s0}.get(a), []) for v in sim.exc_h[:2]])
                ef, am = resolve(oneent(eff), lf, [inc]), resolve(oneent(sumsq(amp)), lf, [inc])
                P.goal(f"[{be}] {side}, zeroth order: |amplitude|^2 = efficiency", [ef - am])
    P.files |= W.prog.files


def construct_onehot(i):
    from nnv.engine import onehot
    return onehot(i)


def abs2_(v):
    p = v.parts[0][0] if isinstance(v, Vec) else topoly(v)
    return p * p.conj()


def perorder(P):
    for be in bks(P, "numpy", "jax"):
        entries(P, be)


def totals(P):
    """totals are sums; dictionaries and accessors give the entry of the order"""
    for be in bks(P, "numpy", "torch"):
        W = World(be)
        P.fn("Simulation.get_order", "Simulation.get_order_index")

        W.kinds = ("uniform",)
        W.lazy["epsilon"] = lambda l: Arr0(sym(f"epsr[{l.tag}]", "pos"))

        def run():
            sim = simulation(W)
            # the outer layers: arbitrary amplitudes; per-order results of the contracts above
            cx = CTX.choose(2, "complex") == 1
            if CTX.choose(2, "solved") == 1:
                sim._ok = False
                del sim.S
                S0 = [[mat(f"S{i}{j}", 2) for j in range(2)] for i in range(2)]

                def get_S_matrix(indices=None):
                    sim._ok = True
                    sim.S = S0
                    return S0
                sim.get_S_matrix = get_S_matrix
            f = [vec(f"flux{i}", 1, "real") for i in range(4)]
            amps = [TArr(np.array([vec(f"{c}{i}", 1) for i in range(3)], dtype=object), 1) for c in "rt"]

            def flux(layer, a, b):
                if layer is sim.layers[0] and a is sim.a0 and b is sim.b0:
                    return f[0], f[1]
                if layer is sim.layers[W.n - 1] and a is sim.aN and b is sim.bN:
                    return f[2], f[3]
                raise Unsupported("flux of other amplitudes")
            sim.get_z_poynting_flux = flux
            sim._get_complex_orders = lambda: tuple(amps)
            full = sim.diffraction_efficiencies(orders=True, complex=cx)
            tot = sim.diffraction_efficiencies(complex=cx)
            dic = sim.diffraction_efficiencies(orders=True, complex=cx, return_dict=True)
            i = SInt.var("some order")
            CTX.assume(z3().And(zpoly(i.p) >= 0, zpoly(i.p) < zpoly(nh().p)))
            m, n = sim.harmonics.pair(i)
            if CTX.choose(2, "mono-periodic") == 1:
                sim.lattice._1d = True
                CTX.assume(zpoly(n.p) == 0)
                one = sim.get_order_index(m), sim.get_order(full[0] if not cx else full[0][0], m)
            else:
                sim.lattice._1d, one = False, None
            k = sim.get_order_index((m, n))
            acc = sim.get_order(full[0] if not cx else full[0][0], (m, n))
            want = sim.incident_flux, f, amps
            return sim, cx, full, tot, dic, i, k, acc, one, want
        for r in P.paths(f"[{be}] totals", run):
            sim, cx, full, tot, dic, i, k, acc, one, (flux, f, amps) = r.value
            n = f"[{be}] {'complex ' if cx else ''}({'solved' if not r.label().count('solved=1') else 'not solved'})"
            if not cx:
                P.eq(n + ": R = -backward flux / incident flux", full[0], -f[1] / flux)
                P.eq(n + ": T = forward flux / incident flux", full[1], f[2] / flux)
                P.eq(n + ": totals are the sums over the orders", list(tot), [x.sum() for x in full])
            else:
                P.eq(n + ": amplitudes", list(full), amps)
                P.eq(n + ": totals are the sums over the orders", [np.asarray(t, object).view(OArr) for t in tot],
                     [np.array([full[q][j].sum() for j in range(3)], dtype=object).view(OArr) for q in range(2)])
            P.z(n + ": get_order_index gives the index of the order", zpoly(topoly(k)) == zpoly(i.p), [c for c in r.cond if z3().is_expr(c)])
            P.eq(n + ": get_order gives the entry of the order", acc, (full[0] if not cx else full[0][0])[i])
            if one is not None:
                P.z(n + ": get_order_index of an integer, mono-periodic", zpoly(topoly(one[0])) == zpoly(i.p), [c for c in r.cond if z3().is_expr(c)])
            for q, (d, A) in enumerate(zip(dic, full)):
                nm = n + f": dictionary of {'RT'[q]} holds the entry of the order"
                ok = isinstance(d, ADict) and d.sym is not None and isinstance(d.sym[1], ADict) and d.sym[1].sym is not None
                if not ok:
                    P.add(nm, "unsupported", "", 0, "dictionary not built by loops over the index dictionary")
                    continue
                k1, row = d.sym
                k2, v = row.sym
                # the order with these integers
                o = next((j for j, a, b in sim.harmonics.seen if topoly(b) == topoly(k2)), None)
                zc = [c for c in r.cond if z3().is_expr(c)]
                if o is None:
                    P.add(nm, "undecided", "", 0, "key")
                    continue
                mm, nn = sim.harmonics.pair(o)
                P.z(nm + " (keys)", z3().And(zpoly(topoly(mm)) == zpoly(topoly(k1)), zpoly(topoly(nn)) == zpoly(topoly(k2))), zc)
                P.eq(nm, v, A[o] if isinstance(A, Vec) else A[..., o])
        P.files |= W.prog.files


def indices(P):
    construct.build(P, ("dict",))


PARTS = [indices, totals, perorder]
