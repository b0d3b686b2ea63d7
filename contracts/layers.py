"""Contracts of the layer operators and modes (build_matrix, solve_uniform, solve_eigenproblem)
and the facts they give to the callers."""
from .common import *

FORMS = ("original", "tangent", "jones", "pol")


# ------------------------------------------------------------------ Toeplitz contract
def tletter(mono):
    """convolution operator of a product of pixel arrays; T(conj u) = T(u)^H"""
    m = Poly({mono: ONE})
    mc = m.conj()
    if len(mc.t) != 1:
        raise Unsupported("conjugate of a profile")
    (cm, cc), = mc.t.items()
    if cc != ONE:
        raise Unsupported("conjugate of a profile")
    name = lambda q: "T{" + ".".join(f"{a.key}^{e}" for a, e in q) + "}"
    if cm == mono:
        return NC.letter(L(name(mono), 1, 1, "herm"))
    if name(cm) < name(mono):
        return NC.letter(L(name(cm), 1, 1)).H()
    return NC.letter(L(name(mono), 1, 1))


def toep(u):
    """contract of Simulation._get_toeplitz_matrix (proved under P12)"""
    if isinstance(u, Grid):
        out = NC.zero(1, 1)
        for m, c in u.parts[0][0].t.items():
            sc = tuple(x for x in m if x[0].dim == 0)
            ve = tuple(x for x in m if x[0].dim != 0)
            t = tletter(ve) if ve else NC.eye(1)
            out = out + t.scale(Poly({sc: c}))
        return Mat(out)
    raise Unsupported(f"convolution matrix of {type(u).__name__}")


def toep_contract(self, u, transverse=False):
    if transverse:
        return [[toep(u[i, j]) for j in range(2)] for i in range(2)]
    return toep(u)


def Kmat(u, Kx, Ky):
    """[[Kx u Kx, Kx u Ky], [Ky u Kx, Ky u Ky]]"""
    return blk([[Kx * u * Kx, Kx * u * Ky], [Ky * u * Kx, Ky * u * Ky]])


def blk(b):
    e = [NC.letter(Einj(i, 1)) for i in (1, 2)]
    out = NC.zero(2, 2)
    for i in range(2):
        for j in range(2):
            out = out + e[i] * b[i][j] * e[j].T()
    return out


def om2(W):
    return W.omega.p * W.omega.p


class Lat:
    def __init__(s):
        s._1d = None

    @property
    def is_1D(s):
        if s._1d is None:
            s._1d = CTX.choose(2, "mono-periodic") == 0
        return s._1d

    def get_harmonics(s, nh_, sort=False):
        return Stub("harmonics"), nh_


def Peps_expected(W, sim, layer, t):
    """in-plane operator in the basis (-Ey, Ex), per formulation"""
    aniso_ = layer.kind == "anisotropic"
    eps = layer.epsilon
    I, Z = NC.eye(1), NC.zero(1, 1)
    if aniso_:
        e = [[toep(eps[i, j]).nc for j in range(2)] for i in range(2)]
        para = [[e[1][1], -e[1][0]], [-e[0][1], e[0][0]]]
    else:
        T = toep(eps).nc
        para = [[T, Z], [Z, T]]
    if sim.formulation == "original":
        return blk(para)
    if aniso_:
        det = eps[0, 0] * eps[1, 1] - eps[0, 1] * eps[1, 0]
        nu = [[eps[1, 1] / det, -eps[0, 1] / det], [-eps[1, 0] / det, eps[0, 0] / det]]
        N = blk([[toep(x).nc for x in r] for r in nu]).inverse()
        i = [[N.block(a, b, 1, 1) for b in (1, 2)] for a in (1, 2)]
        inv_ = [[i[1][1], -i[1][0]], [-i[0][1], i[0][0]]]
    else:
        n = toep(1 / eps).nc.inverse()
        inv_ = [[n, Z], [Z, n]]
    if sim.formulation == "tangent" and sim.lattice.is_1D:
        return blk([[para[0][0], Z], [Z, inv_[1][1]]])
    from nnv.symbk import elem
    n2 = sum_abs2(t, W)
    Pxx, Pyy = t[0] * t[0].conj() / n2, t[1] * t[1].conj() / n2
    Pxy, Pyx = t[0] * t[1].conj() / n2, t[1] * t[0].conj() / n2
    Pi = blk([[toep(Pxx).nc, toep(Pyx).nc], [toep(Pxy).nc, toep(Pyy).nc]])
    return blk(para) - (blk(para) - blk(inv_)) * Pi


def sum_abs2(t, W):
    """square of the regularized norm of the field"""
    n = W.prog.mods["nannos.utils.helpers"].norm(t)
    return n * n


def lossless_eps(l):
    """real permittivity, or a Hermitian tensor"""
    if l.kind == "uniform":
        return Arr0(sym(f"epsu[{l.tag}]", "pos"))
    if l.kind == "patterned":
        return grid(f"epsl[{l.tag}]", "real")
    d = np.empty((3, 3), object)
    for i in range(3):
        for j in range(i, 3):
            g = grid(f"epsl[{l.tag}]{i}{j}", *(("real",) if i == j else ()))
            d[i, j] = g
            if i != j:
                d[j, i] = g.conj()
    return TArr(d, GDIM, Grid)


def build(P, forms=FORMS, kinds=("uniform", "patterned", "anisotropic"), goals=("Q", "matrix", "Peps"), be="numpy", lossless=False, mono=None, copies=False):
    P.fn("Simulation.build_matrix", "Simulation._get_Peps", "Simulation._get_nu_hat_inv", "_build_Kmatrix", "_to_para_basis",
         "utils.helpers.block", "utils.helpers.block2list", "utils.helpers.get_block", "utils.helpers.norm", "helpers.is_uniform", "helpers.is_anisotropic")
    P.assume("profiles are not given on a 3 x 3 grid (shape of a tensor)")
    P.assume("Simulation._get_toeplitz_matrix is used through its contract (linear, T(1)=1, T(conj u)=T(u)^H), proved under P12")
    W = World(be)
    W.kinds = kinds
    if lossless:
        W.lazy["epsilon"] = lossless_eps
    for form in forms:

        def run():
            sim = make(W)
            sim._ok = False
            sim.lattice = Lat()
            sim.formulation = form
            if form in ("jones", "pol"):
                sim.lattice._1d = False
            if mono is not None and form == "tangent":
                sim.lattice._1d = mono
            sim._get_toeplitz_matrix = lambda u, transverse=False: toep_contract(None, u, transverse)
            i0 = SInt.var("idx")
            CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
            layer = sim.layers.at(i0)
            tg = [grid("t0", "real"), grid("t1", "real")]
            jg = [grid("j0"), grid("j1")]
            layer.get_tangent_field = lambda *a, **k: tg
            layer.get_jones_field = lambda t: jg
            layer.kind
            if copies:
                # its original describes another material, or is not in the stack
                layer.iscopy, layer.original = True, W.layer("original")
                layer.original.kind = layer.kind
                layer.original.tangent_field, layer.tangent_field = None, None
                layer.original.tangent_field_type, layer.tangent_field_type = "opt", "opt"
                for a in ("matrix", "Kmu", "Keps", "Peps", "Qeps"):
                    setattr(layer.original, a, mat("stale_" + a, 2))
                for a in ("eps_hat", "eps_hat_inv", "mu_hat", "mu_hat_inv"):
                    setattr(layer.original, a, mat("stale_" + a, 1))
            sim.get_layer = lambda l: (layer, i0)
            for a in ("Qeps", "Peps", "eps_hat", "eps_hat_inv"):
                W.lazy.pop(a, None)
            if layer.kind == "anisotropic" and form == "tangent" and sim.lattice.is_1D:
                raise PathEnd()       # not supported by the code (documented limitation)
            out = sim.build_matrix(layer)
            return sim, layer, out, (jg if form == "jones" else tg)
        for r in P.paths(f"build_matrix[{form}]", run):
            sim, layer, out, t = r.value
            n = f"build_matrix[{form}, {layer.kind}{', mono-periodic' if sim.lattice._1d else ''}]"
            P.true(n + " returns the layer it was given", out is layer)
            Kx, Ky = W.kx.diag(), W.ky.diag()
            I2 = NC.eye(2)
            if layer.kind == "uniform":
                eta = NC.eye(1).scale(layer.epsilon.p.inverse())
                Q = I2.scale(om2(W)) - Kmat(eta, Ky, -Kx)
                P.goal(n + ": Qeps = w^2 - K(1/eps)", [layer.Qeps.nc - Q])
                if lossless:
                    P.goal(n + ": lossless: Qeps is Hermitian", [layer.Qeps.nc - layer.Qeps.nc.H()])
                continue
            ezz = layer.epsilon[2, 2] if layer.kind == "anisotropic" else layer.epsilon
            eh = toep(ezz).nc
            P.goal(n + ": eps_hat is the convolution matrix of eps_zz", [layer.eps_hat.nc - eh])
            Q = I2.scale(om2(W)) - Kmat(eh.inverse(), Ky, -Kx)
            if "Q" in goals:
                P.goal(n + ": Qeps = w^2 - K(eps_hat^-1)", [layer.Qeps.nc - Q])
            Pe = Peps_expected(W, sim, layer, t)
            if "Peps" in goals:
                P.goal(n + ": Peps is the operator of the formulation", [layer.Peps.nc - Pe])
            if lossless:
                P.goal(n + ": lossless: Qeps is Hermitian", [layer.Qeps.nc - layer.Qeps.nc.H()])
                P.goal(n + ": lossless: Peps is Hermitian", [layer.Peps.nc - layer.Peps.nc.H()])
            if "matrix" in goals:
                Kmu = Kmat(NC.eye(1), Kx, Ky)
                P.goal(n + ": matrix = Peps (w^2 - Keps) - Kmu", [layer.matrix.nc - (layer.Peps.nc * layer.Qeps.nc - Kmu)])
    P.files |= W.prog.files


def modes(P, be="numpy", branch=True):
    """solve_uniform, solve_eigenproblem"""
    P.fn("Layer.solve_uniform", "Layer.solve_eigenproblem", "eig_func")
    P.trust("numpy/scipy/torch/jax linalg.eig: A v = v diag(w)")
    W = World(be)
    W.kinds = ("uniform",)

    def run():
        sim = make(W)
        l = sim.layers.at(SInt.var("idx"))
        r = l.solve_uniform(W.omega, W.kx, W.ky, nh())
        return l, r
    for r in P.paths("solve_uniform", run):
        l, ret = r.value
        q, phi = l.eigenvalues, l.eigenvectors
        from nnv.symbk import elem
        k2 = W.kx * W.kx + W.ky * W.ky
        want = Vec([((l.epsilon * (W.omega * W.omega)).p + (-k2).parts[0][0], 1)] * 2)
        P.eq("solve_uniform: q^2 = eps w^2 - kx^2 - ky^2", q * q, want)
        P.eq("solve_uniform: eigenvectors are the identity", phi, Mat(NC.eye(2)))
        P.eq("solve_uniform: returns what it stores", list(ret), [q, phi])
        if branch:
            ok = len(q.parts) >= 1 and all(principal(p) for p, _ in q.parts)
            P.add("solve_uniform: q is the principal square root (Re q >= 0, and Im q >= 0 where Im eps >= 0)", "proved" if ok else "undecided", "form of the result", 0, "" if ok else repr(q)[:300])

    def run2():
        sim = make(W)
        l = sim.layers.at(SInt.var("idx"))
        M = mat("M", 2)
        r = l.solve_eigenproblem(M)
        return l, M, r
    for r in P.paths("solve_eigenproblem", run2):
        l, M, ret = r.value
        q, phi = l.eigenvalues, l.eigenvectors
        from nnv.symbk import EIGFACTS
        hy = [A * v.nc - v.nc * w.diag() for A, w, v in EIGFACTS.values()]

        def setup(m):
            for n, (A, w, v) in list(EIGFACTS.items()):
                a = m.nc(A)
                ww, vv = np.linalg.eig(a)
                m.val[("C", "w_" + n)] = ww
                m.val[("L", "V_" + n)] = vv
        P.goal("solve_eigenproblem: matrix phi = phi diag(q^2)", [M.nc * phi.nc - phi.nc * (q * q).diag()], hy, setup=setup)
        P.eq("solve_eigenproblem: returns what it stores", list(ret), [q, phi])
        if branch:
            branch_goal(P, q)
    P.files |= W.prog.files


def principal(p):
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    return c.im == 0 and c.re > 0 and all(apos(a) or (a.kind == "fn" and a.args[0] == "sqrt" and not a.args[2] and e == 1) for a, e in m) and \
        sum(1 for a, e in m if not apos(a)) <= 1


def branch_goal(P, q):
    """Im q >= -tol |q| : q = selection between x and -x on a sign test"""
    name = "solve_eigenproblem: Im q >= -sqrt(eps)|q| and q is +-sqrt(w)"
    p, k = q.parts[0]
    sg = [a for a in p.atoms() if a.kind == "fn" and a.args[0] in ("sgn<", "sgn<=")]
    if len(sg) != 1:
        P.add(name, "undecided", "", 0, "no branch selection recognized: " + repr(p)[:200])
        return
    a = sg[0]
    hi = p.subs_atoms(lambda b: Poly.const(1) if b is a else None)
    lo = p.subs_atoms(lambda b: Poly.const(-1) if b is a else None)
    Z = z3()
    re, im, ab = Z.Reals("re im abs")
    try:
        roots = [b for b in p.atoms() if b.kind == "fn" and b.args[0] == "sqrt" and b.dim]
        if len(roots) != 1:
            raise Unsupported("square root not recognized")
        x = Poly.atom(roots[0])
        t = cmp_tr(a.args[1], x, re, im, ab)
        cz = t < 0 if a.args[0] == "sgn<" else t <= 0

        def img(v):
            if v == x:
                return im
            if v == -x:
                return -im
            raise Unsupported("branch selection")
        want = lambda v: img(v) >= -s_tol() * ab
        P.z(name, Z.And(Z.Implies(cz, want(hi)), Z.Implies(Z.Not(cz), want(lo))), [ab >= 0, ab * ab == re * re + im * im, s_tol() >= 0])
    except Unsupported as e:
        P.add(name, "unsupported", "", 0, e)


def s_tol():
    return z3().Real("sqrt_eps")


def cmp_tr(p, x, re, im, ab):
    """translate a real expression of the complex number x to (re, im, abs)"""
    Z = z3()
    xc = x.conj()
    (xa, _), = next(iter(x.t))
    (xca, _), = next(iter(xc.t))
    tot = Z.RealVal(0)
    for sgn, v in ((1, None),):
        pass
    lin = {xa: GQ(Fr(0)), xca: GQ(Fr(0))}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in lin:
            lin[m[0][0]] = c
            continue
        if c.im:
            raise Unsupported("complex bound")
        t = Z.RealVal(str(Fr(c.re)))
        for a, e in m:
            if a.kind == "fn" and a.args[0] == "sqrt" and "eps_mach" in a.key and e == 1:
                t = t * s_tol()
            elif a.kind == "sym" and a.args[0] == "eps_mach" and e == 1:
                t = t * s_tol() * s_tol()
            elif a.kind == "fn" and a.args[0] == "abs" and a.args[1] in (x, -x) and e == 1:
                t = t * ab
            else:
                raise Unsupported("bound of the branch selection")
        tot = tot + t
    u, v = lin[xa], lin[xca]
    # u x + v conj(x), real
    cre, cim = u + v, (u - v) * IU
    if cre.im or cim.im:
        raise Unsupported("bound of the branch selection")
    return tot + Z.RealVal(str(Fr(cre.re))) * re + Z.RealVal(str(Fr(cim.re))) * im


# ------------------------------------------------------------------ facts for the callers
def structured(W, kinds=("uniform", "patterned")):
    """layers satisfying the contracts above"""
    W.kinds = kinds
    z = W.lazy
    Kx, Ky = W.kx.diag(), W.ky.diag()
    k2 = (W.kx * W.kx + W.ky * W.ky).parts[0][0]

    def q(l):
        if l.kind == "uniform":
            return Vec([(fsqrt((l.epsilon * (W.omega * W.omega)).p - k2), 1)] * 2)
        return vec(f"q[{l.tag}]", 2, "diag")
    z["eigenvalues"] = q
    z["eigenvectors"] = lambda l: Mat(NC.eye(2)) if l.kind == "uniform" else mat(f"phi[{l.tag}]", 2)

    def eta(l):
        return NC.eye(1).scale(l.epsilon.p.inverse()) if l.kind == "uniform" else l.eps_hat.nc.inverse()
    z["Qeps"] = lambda l: Mat(NC.eye(2).scale(om2(W)) - Kmat(eta(l), Ky, -Kx))
    z["Peps"] = lambda l: Mat(NC.eye(2).scale(l.epsilon.p)) if l.kind == "uniform" else mat(f"P[{l.tag}]", 2)
    z["matrix"] = lambda l: Mat(l.Peps.nc * l.Qeps.nc - Kmat(NC.eye(1), Kx, Ky))


def mode_hyp(W, l):
    if l.kind == "uniform":
        return []
    return [l.matrix.nc * l.eigenvectors.nc - l.eigenvectors.nc * (l.eigenvalues * l.eigenvalues).diag()]


def mode_setup(W, *ls):
    def f(m):
        for l in ls:
            if l.kind == "uniform":
                continue
            w, v = np.linalg.eig(m.nc(l.matrix.nc))
            m.val[("C", f"q[{l.tag}]")] = np.sqrt(w)
            m.val[("L", f"phi[{l.tag}]")] = v
    return f
