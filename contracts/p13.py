"""P13: the factorizations agree where they must."""
from .common import *
from . import layers as ly, p12
from .layers import toep, blk, Kmat, om2


def scalars(nc, f):
    """apply f to the scalar coefficients"""
    return NC({w: f(p) for w, p in nc.t.items()}, nc.rows, nc.cols)


def noeps(nc):
    """machine epsilon regularizing the norm of a field is neglected"""
    def f(p):
        def sub(a):
            if a.kind == "sym" and a.args[0] == "eps_mach":
                return Poly({})
            if a.kind == "fn" and a.args[0] == "inv":
                return p_sub(a.args[1]).inverse()
            if a.kind == "fn" and a.args[0] == "sqrt" and not a.args[2]:
                return fsqrt(p_sub(a.args[1]))
            return None

        def p_sub(q):
            return q.subs_atoms(sub)
        return p_sub(p)
    return scalars(nc, f)


def operator(W, form, mono, eps, fields=None, kind="patterned"):
    """build_matrix of one patterned layer"""
    sim = make(W)
    sim._ok = False
    sim.lattice = ly.Lat()
    sim.lattice._1d = mono
    sim.formulation = form
    sim._get_toeplitz_matrix = lambda u, transverse=False: ly.toep_contract(None, u, transverse)
    i0 = SInt.var("idx")
    CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
    layer = sim.layers.at(i0)
    object.__setattr__(layer, "kind", kind)
    layer.epsilon = eps
    t, j = fields if fields is not None else ([grid("t0", "real"), grid("t1", "real")], [grid("j0"), grid("j1")])
    layer.get_tangent_field = lambda *a, **k: t
    layer.get_jones_field = lambda t: j
    sim.get_layer = lambda l: (layer, i0)
    for a in ("Qeps", "Peps", "eps_hat", "eps_hat_inv"):
        W.lazy.pop(a, None)
    sim.build_matrix(layer)
    return sim, layer


def const(p):
    return Grid([(p, GDIM)])


CASES = [("original", False), ("original", True), ("tangent", True), ("tangent", False), ("jones", False), ("pol", False)]


def constant(P):
    """constant arrays: the operators are those of the uniform layer, in every formulation, for any tangent field"""
    P.fn("Simulation.build_matrix", "Simulation._get_Peps", "Simulation._get_nu_hat_inv", "_build_Kmatrix", "_to_para_basis")
    P.assume("profiles are not given on a 3 x 3 grid (shape of a tensor)",
             "Simulation._get_toeplitz_matrix is used through its contract (linear, T(1)=1, T(conj u)=T(u)^H), proved under P12")
    W = World("numpy")
    for form, mono in CASES:
        for kind in ("patterned", "anisotropic"):
            if kind == "anisotropic" and form == "tangent" and mono:
                continue      # not supported by the code (documented limitation)
            c = sym("c")

            def run():
                if kind == "patterned":
                    eps = const(c)
                else:
                    d = np.empty((3, 3), object)
                    for a in range(3):
                        for b in range(3):
                            d[a, b] = const(c if a == b else Poly({}))
                    eps = TArr(d, GDIM, Grid)
                S, l = operator(W, form, mono, eps, kind=kind)
                S, u = operator(W, form, mono, Arr0(c), kind="uniform")
                qu, phi = u.solve_uniform(W.omega, W.kx, W.ky, nh())
                return l, u, qu, phi
            for r in P.paths(f"constant {kind} array, {form}", run):
                l, u, qu, phi = r.value
                n = f"constant {'tensor ' if kind != 'patterned' else ''}array, {form}{' (mono-periodic)' if mono else ''}"
                Kx, Ky = W.kx.diag(), W.ky.diag()
                P.goal(n + ": Qeps is that of the uniform layer", [l.Qeps.nc - u.Qeps.nc])
                P.goal(n + ": eps_hat = c", [l.eps_hat.nc - NC.eye(1).scale(c)])
                P.goal(n + ": Peps = c", [l.Peps.nc - NC.eye(2).scale(c)])
                P.goal(n + ": the operator has the modes of the uniform layer", [l.matrix.nc * phi.nc - phi.nc * (qu * qu).diag()])
                P.eq(n + ": these are the plane waves", phi, Mat(NC.eye(2)))
    P.files |= W.prog.files


def sameFields(P):
    """modes of the same operator give the same fields, with amplitudes D a"""
    P.fn("Simulation.get_field_fourier", "_translate_amplitudes")
    P.assume("the amplitudes in a stack are determined by the continuity of the fields at the interfaces (the matrices inverted by the solver are invertible)")
    W = World("numpy")
    z = scal("z", "real")
    c = Arr0(sym("c"))
    from nnv.symbk import elem

    def fields(l, a, b):
        sim = make(W)
        sim._ok = True
        i0 = SInt.var("idx")
        sim.get_layer = lambda q: (l, i0)
        sim._get_amplitudes = lambda li, z=0, translate=True: (a, b) if not translate else W.simmod._translate_amplitudes(l, z, a, b)
        F = sim.get_field_fourier(i0, z)
        return F[0]

    def run():
        Kx, Ky = W.kx.diag(), W.ky.diag()
        k2 = (W.kx * W.kx + W.ky * W.ky).parts[0][0]
        d = scal("d", "pos")
        qu = Vec([(NC.letter(C("qu", 1, "diag")).entry(), 1)] * 2)
        Q = Mat(NC.eye(2).scale(om2(W)) - Kmat(NC.eye(1).scale(c.p.inverse()), Ky, -Kx))
        u, v = W.layer("u"), W.layer("v")
        for l, q, phi, e in ((u, qu, Mat(NC.eye(2)), "uniform"), (v, vec("q", 2, "diag"), mat("phi", 2), "patterned")):
            for k, x in dict(kind=e, eigenvalues=q, eigenvectors=phi, Qeps=Q, thickness=d, eps_hat=Mat(NC.eye(1).scale(c.p)),
                             epsilon=c if e == "uniform" else const(c.p)).items():
                object.__setattr__(l, k, x)
        a, b = vec("a", 2), vec("b", 2)
        return u, v, fields(u, v.eigenvectors @ a, v.eigenvectors @ b), fields(v, a, b)

    def sym_(n, k):
        return NC.letter(C(n, k, "diag")).entry()
    for r in P.paths("fields of the modes of a constant array", run):
        u, v, F, G = r.value
        q, qu, phi, d = v.eigenvalues, u.eigenvalues, v.eigenvectors.nc, v.thickness
        # function_of_eigenvalues, for the four functions needed and the two halves of phi
        pr = [NC.letter(Einj(p, 1)).T() for p in (1, 2)]
        first = lambda v: Vec([v.parts[0]]).diag()
        e1, e2 = (lambda x: elem(1j * x * z, fexp)), (lambda x: elem(1j * x * (d - z), fexp))
        hyps = [p * phi * g(q).diag() - first(g(qu)) * p * phi for p in pr for g in (e1, e2, lambda x: e1(x) / x, lambda x: e2(x) / x)]

        def setup(m):
            # phi mixes the two modes of each order
            w = m.poly(qu.parts[0][0])
            g = np.random.default_rng(m.N)
            D = lambda: np.diag(g.normal(size=m.N) + 1j * g.normal(size=m.N))
            m.val[("C", "q")] = np.concatenate([w, w])
            m.val[("L", "phi")] = np.block([[D(), D()], [D(), D()]])
        for i, nm in enumerate("EH"):
            for j, cm in enumerate("xyz"):
                P.goal(f"modes of a constant array: {nm}{cm} of the amplitudes a, b = that of the uniform layer with amplitudes phi a, phi b",
                       [F[i, j].col() - G[i, j].col()], hyps, setup=setup)
    # either sign of a root
    x, a, b, om = sym("x"), sym("a"), sym("b"), sym("omega", "pos")
    dd, zz = sym("d", "pos"), sym("z", "real")
    I = Poly.const(GQ(0, 1))

    def hb(q, a, b):
        e1, e2 = fexp(I * q * zz), fexp(I * q * (dd - zz))
        return a * e1 + b * e2, (a * e1 - b * e2) * (om * q).inverse()
    h1 = hb(x, a, b)
    h2 = hb(-x, b * fexp(I * x * dd), a * fexp(I * x * dd))
    P.goal("the sign of a root only exchanges the two amplitudes of the mode", [p - q for p, q in zip(h1, h2)])
    P.lean("Modes.lean", ["function_of_eigenvalues"])
    P.files |= W.prog.files


def stripes(P):
    """mono-periodic profiles described in two dimensions; direct rule for the tangent component, inverse for the normal one"""
    P.assume("the machine epsilon regularizing the norm of a tangent field is neglected")
    W = World("numpy")
    u = sym("u")
    zero, one = Poly({}), Poly.const(1)

    def run():
        eps = grid("eps")
        out = {}
        out["1D"] = operator(W, "tangent", True, eps)
        for d, t in (("y", [const(zero), const(one)]), ("x", [const(one), const(zero)]), ("-y", [const(zero), const(-one)])):
            for form in ("tangent", "pol", "jones"):
                out[form, d] = operator(W, form, False, eps, (t, t))
        J = [const(zero), const(u)]
        out["jones", "any phase"] = operator(W, "jones", False, eps, ([const(zero), const(one)], J))
        for m in (False, True):
            out["original", m] = operator(W, "original", m, eps)
        return eps, out
    for r in P.paths("stripes", run):
        eps, out = r.value
        T, N = toep(eps).nc, toep(1 / eps).nc.inverse()
        Z = NC.zero(1, 1)
        S, l1 = out["1D"]
        want = {"y": blk([[T, Z], [Z, N]]), "x": blk([[N, Z], [Z, T]])}
        want["-y"] = want["any phase"] = want["y"]
        P.goal("mono-periodic, tangent: (Ey, Ex): direct rule for Ey (tangent), inverse for Ex (normal)", [noeps(l1.Peps.nc) - want["y"]])
        for k, (S, l) in out.items():
            if k == "1D" or k[0] == "original":
                continue
            P.goal(f"{k[0]}, tangent along {k[1]}: direct rule for the tangent component, inverse for the normal one", [noeps(l.Peps.nc) - want[k[1]]])
            P.goal(f"{k[0]}, tangent along {k[1]}: same Qeps as the mono-periodic description", [l.Qeps.nc - l1.Qeps.nc])
        P.goal("original: mono-periodic and bi-periodic operators are the same", [out["original", True][1].matrix.nc - out["original", False][1].matrix.nc])
    P.lean("Dft.lean", ["dft_stripe", "dft_const"])
    P.files |= W.prog.files


def transforms(P):
    p12.transforms(P)
    p12.toeplitz(P)


def modes(P):
    ly.modes(P)


PARTS = [constant, modes, sameFields, stripes, transforms]
