"""Contracts of the interface matrices and of the amplitudes of each layer."""
from .common import *
from . import smat, layers as ly
from .smat import col, iblk, phasor


def st2(a, b):
    """column of two stacked columns"""
    return NC.letter(Einj(1, 2)) * a + NC.letter(Einj(2, 2)) * b


def mmatrix(l):
    """[[Q phi /q, -Q phi /q], [phi, phi]] : tangential fields (up to omega) from the amplitudes at a face"""
    phi, q = l.eigenvectors.nc, l.eigenvalues
    a = l.Qeps.nc * phi * (1 / q).diag()
    e = [NC.letter(Einj(i, 2)) for i in (1, 2)]
    return e[0] * a * e[0].T() - e[0] * a * e[1].T() + e[1] * phi * e[0].T() + e[1] * phi * e[1].T()


def imatrix(P, be="numpy"):
    """M(l1) _build_Imatrix(l1, l2) = M(l2)"""
    P.fn("_build_Imatrix", "_build_Mmatrix")
    W = World(be)
    W.kinds = ("uniform", "patterned")
    ly.structured(W)

    def run():
        make(W)
        l1, l2 = W.layer("1"), W.layer("2")
        return l1, l2, W.simmod._build_Mmatrix(l1), W.simmod._build_Imatrix(l1, l2)
    if not hasattr(W.simmod, "_build_Imatrix"):
        P.add("_build_Imatrix: contract", "unsupported", "", 0, "function not found")
        return
    for r in P.paths(f"[{be}] _build_Imatrix", run):
        l1, l2, M, I = r.value
        n = f"[{be}] {l1.kind}/{l2.kind}: "
        P.goal(n + "_build_Mmatrix = [[Q phi/q, -Q phi/q], [phi, phi]]", [M.nc - mmatrix(l1)])
        P.goal(n + "M(l1) _build_Imatrix(l1, l2) = M(l2)", [mmatrix(l1) * I.nc - mmatrix(l2)])
    P.files |= W.prog.files


def translate(P, be="numpy"):
    P.fn("_translate_amplitudes", "phasor")
    W = World(be)
    W.kinds = ("patterned",)

    def run():
        make(W)
        l = W.layer("1")
        a, b, z = vec("a", 2), vec("b", 2), scal("z", "real")
        za, zb = W.simmod._translate_amplitudes(l, z, a, b)
        return l, a, b, z, za, zb, (vec("a", 2), vec("b", 2))
    for r in P.paths(f"[{be}] _translate_amplitudes", run):
        l, a, b, z, za, zb, ab0 = r.value
        from nnv.symbk import elem
        P.eq(f"[{be}] _translate_amplitudes: forward = a exp(i q z)", za, ab0[0] * elem(1j * l.eigenvalues * z, fexp))
        P.eq(f"[{be}] _translate_amplitudes: backward = b exp(i q (d - z))", zb, ab0[1] * elem(1j * l.eigenvalues * (l.thickness - z), fexp))
        P.eq(f"[{be}] _translate_amplitudes: leaves its arguments unchanged", [a, b], list(ab0))
    P.files |= W.prog.files


def sletters(k, l):
    t = f"{topoly(k).key()},{topoly(l).key()}"
    return [[NC.letter(L(f"S[{t}]{i}{j}", 2, 2)) for j in (1, 2)] for i in (1, 2)]


def with_S(W, P, name):
    """simulation with get_S_matrix replaced by its contract"""
    sim = make(W)
    sim.bN = Vec([(Poly({}), 2)])
    n1 = SInt(topoly(W.n) - Poly.const(1))
    if CTX.choose(2, "total matrix known") == 0:
        sim._ok = True
        sim.S = [[Mat(x) for x in r] for r in sletters(0, n1)]
    elif CTX.choose(2, "stale total matrix") == 0:
        sim._ok = False
        sim.S = [[Mat(NC.letter(L(f"stale{i}{j}", 2, 2))) for j in range(2)] for i in range(2)]
    else:
        sim._ok = CTX.choose(2, "solved") == 0

    def get_S_matrix(indices=None):
        sim._ok = True
        if indices is None:
            k, l = 0, n1
        else:
            k, l = indices[0], indices[1]
            Z = z3()
            CTX.obls.append(("pre", Z.And(zpoly(topoly(k)) >= 0, zpoly(topoly(k)) < zpoly(topoly(l)), zpoly(topoly(l)) <= zpoly(topoly(n1))), list(CTX.cond)))
        S = [[Mat(x) for x in r] for r in sletters(k, l)]
        if indices is None:
            sim.S = S
        return S
    sim.get_S_matrix = get_S_matrix
    return sim, n1


def amplitudes(P, be="numpy"):
    """_solve_ext, _solve_int, _get_amplitudes"""
    P.fn("Simulation._solve_ext", "Simulation._solve_int", "Simulation._get_amplitudes", "Simulation.get_layer", "layers._get_layer")
    W = World(be)
    W.kinds = ("patterned",)
    names = ("ext", "get", "translate")
    for what in names:
        def run():
            sim, n1 = with_S(W, P, what)
            a0 = sim.a0.copy()
            snap = smat.snapshot(sim)
            if what == "ext":
                out = sim._solve_ext()
                j = None
            else:
                j = SInt.var("idx")
                CTX.assume(z3().And(zpoly(j.p) >= 0, zpoly(j.p) < zpoly(topoly(W.n))))
                if CTX.choose(2, "negative index") == 0:
                    arg = j
                else:
                    arg = j - W.n
                if what == "get":
                    out = sim._get_amplitudes(arg, translate=False)
                else:
                    z = scal("z", "real")
                    out = (sim._get_amplitudes(arg, z), sim._get_amplitudes(arg, translate=False), W.simmod._translate_amplitudes(sim.layers.at(j), z, *sim._get_amplitudes(arg, translate=False)))
            return sim, out, j, n1, a0, smat.snapdiff(snap, sim, ("_ok", "S"))
        for r in P.paths(f"[{be}] amplitudes ({what})", run):
            n = f"[{be}] {what} [{r.label()}]"
            sim, out, j, n1, a0, diff = r.value
            zc = [c for c in r.cond if z3().is_expr(c)]
            for q, o in enumerate(r.obls):
                P.z(n + f": get_S_matrix called with 0 <= first < last <= n - 1 (#{q})", o[1], [c for c in o[2] if z3().is_expr(c)])
            P.true(n + ": changes nothing else", not diff, f"modified: {diff}")
            A0 = a0.col()
            T = sletters(0, n1)
            if what == "ext":
                P.eq(n + ": a_N = S11 a_0", out[0], Vec.fromcol(T[0][0] * A0))
                P.eq(n + ": b_0 = S21 a_0", out[1], Vec.fromcol(T[1][0] * A0))
                continue
            if what == "translate":
                P.eq(n + ": translate=True gives the amplitudes at height z", list(out[0]), list(out[2]))
                continue
            first = zvalid_(zpoly(j.p) == 0, zc)
            last = zvalid_(zpoly(j.p) == zpoly(topoly(n1)), zc)
            if first:
                P.eq(n + ": first layer: a = a_0", out[0], a0)
                P.eq(n + ": first layer: b = S21 a_0", out[1], Vec.fromcol(T[1][0] * A0))
            elif last:
                P.eq(n + ": last layer: a = S11 a_0", out[0], Vec.fromcol(T[0][0] * A0))
                P.eq(n + ": last layer: b = 0", out[1], Vec([(Poly({}), 2)]))
            else:
                # inner: the only solution of the two equations
                P.z(n + ": inner layer", z3().And(zpoly(j.p) > 0, zpoly(j.p) < zpoly(topoly(n1))), zc)
                S, Q = sletters(0, j), sletters(j, n1)
                x, y = out[0].col(), out[1].col()
                P.goal(n + ": a = S11(0,j) a_0 + S12(0,j) b", [x - S[0][0] * A0 - S[0][1] * y])
                P.goal(n + ": b = S21(j,N) a", [y - Q[1][0] * x])
                X, Y = col("xs"), col("ys")

                def setup(m):
                    s = lambda e: m.nc(e)
                    xx = np.linalg.solve(np.eye(len(s(X))) - s(S[0][1]) @ s(Q[1][0]), s(S[0][0]) @ s(A0))
                    m.val[("C", "xs")] = xx[:, 0]
                    m.val[("C", "ys")] = (s(Q[1][0]) @ xx)[:, 0]
                P.goal(n + ": no other solution of these equations", [X - x, Y - y], [X - S[0][0] * A0 - S[0][1] * Y, Y - Q[1][0] * X], setup=setup)
    P.files |= W.prog.files


def zvalid_(g, conds):
    return zvalid(g, conds)[0] == "proved"


def continuity(P, be="numpy"):
    """tangential fields reported at the two sides of an interface, from the interface equation"""
    P.fn("Simulation.get_field_fourier", "_translate_amplitudes")
    W = World(be)
    W.kinds = ("uniform", "patterned")

    def run():
        sim = make(W)
        sim._ok = True
        i = SInt.var("i")
        CTX.assume(z3().And(zpoly(i.p) >= 0, zpoly(i.p) + 1 < zpoly(topoly(W.n))))
        l1, l2 = sim.layers.at(i), sim.layers.at(i + 1)
        amp = {i.p: (vec("a1", 2), vec("b1", 2)), (i + 1).p: (vec("a2", 2), vec("b2", 2))}
        sim._get_amplitudes = lambda li, z=0, translate=True: amp[topoly(li)] if not translate else W.simmod._translate_amplitudes(sim.layers.at(li), z, *amp[topoly(li)])
        F1 = sim.get_field_fourier(i, l1.thickness)
        F2 = sim.get_field_fourier(i + 1, 0)
        return l1, l2, F1, F2
    for r in P.paths(f"[{be}] continuity", run):
        l1, l2, F1, F2 = r.value
        n = f"[{be}] {l1.kind}/{l2.kind}: "
        f1, f2 = phasor(l1), phasor(l2)
        a1, b1, a2, b2 = map(col, ("a1", "b1", "a2", "b2"))
        h = mmatrix(l1) * st2(f1 * a1, b1) - mmatrix(l2) * st2(a2, f2 * b2)
        hy = [NC.letter(Psel(c, 1)) * NC.letter(Psel(j, 2)) * h for j in (1, 2) for c in (1, 2)]

        def setup(m):
            g = lambda e: m.nc(e)
            x = np.linalg.solve(g(mmatrix(l1)), g(mmatrix(l2)) @ g(st2(a2, f2 * b2)))
            k = len(x) // 2
            m.val[("C", "a1")] = np.linalg.solve(g(f1), x[:k])[:, 0]
            m.val[("C", "b1")] = x[k:, 0]
        for q, nm in ((0, "E"), (1, "H")):
            for c in range(2):
                u, v = F1[0, q, c], F2[0, q, c]
                P.goal(n + f"{nm}{'xy'[c]} is the same on both sides of the interface", [(u - v).col()], hy, setup=setup)
    P.files |= W.prog.files


def cut(P, be="numpy"):
    """a layer cut in two layers of the same material"""
    W = World(be)
    W.kinds = ("uniform", "patterned")
    ly.structured(W)

    def run():
        make(W)
        l = W.layer("1")
        l.kind
        d1, d2 = scal("d1", "pos"), scal("d2", "pos")
        ph = W.simmod.phasor
        q = l.eigenvalues
        l2 = W.layer("1c")
        for a in ("kind", "eigenvalues", "eigenvectors", "Qeps"):
            object.__setattr__(l2, a, getattr(l, a))
        I = W.simmod._build_Imatrix(l, l2)
        return ph(q, d1), ph(q, d2), ph(q, d1 + d2), I, l
    for r in P.paths(f"[{be}] cut", run):
        f1, f2, f, I, l = r.value
        P.eq(f"[{be}] {l.kind}: phasor(d1 + d2) = phasor(d2) phasor(d1)", f, f2 * f1)
        P.goal(f"[{be}] {l.kind}: the interface matrix between two layers of the same material is the identity", [I.nc - NC.eye(4)])
    P.files |= W.prog.files
