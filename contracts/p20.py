"""P20: the integrated stress tensor is Maxwell's stress of the reported fields."""
from .common import *
from . import layers as ly, p03


def setup(W, fields):
    sim = make(W)
    sim._ok = True
    sim.lattice = ly.Lat()
    i0 = SInt.var("idx")
    CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
    layer = sim.layers.at(i0)
    z = scal("z", "real")
    asked = []

    def gff(li, z=0):
        asked.append((li, z))
        F = np.empty((1, 2, 3), object)
        for i, v in enumerate(fields(layer)):
            F[0, i // 3, i % 3] = v
        return TArr(F, 1)
    sim.get_field_fourier = gff
    return sim, i0, layer, z, asked


def epsmat(l):
    return Mat(NC.eye(1).scale(l.epsilon.p)) if l.kind == "uniform" else l.eps_hat


def stress(E, H, D, comp):
    """Maxwell's stress of the periodic cell, complex amplitudes: (x or y, z) and zz components"""
    s = lambda v: Sc(psum(v))
    if comp < 2:
        return s(E[comp] * D[2].conj() + H[comp] * H[2].conj()).real
    out = s(E[2] * D[2].conj() + H[2] * H[2].conj())
    for i in range(2):
        out = out - s(E[i] * D[i].conj() + H[i] * H[i].conj())
    return (out * Sc(Poly.const(Fr(1, 2)))).real


def formula(P):
    P.fn("Simulation.get_z_stress_tensor_integral", "utils.helpers.block", "Layer.is_uniform")
    P.assume("anisotropic layers are not covered by the stress integral (FIXME of the code): isotropic permittivity")
    P.trust("the contract of get_field_fourier (P03): eps Ez = (ky Hx - kx Hy)/w, w Hz = kx Ey - ky Ex")
    for be in bks(P, "numpy", "torch", "jax"):
        W = World(be)
        names = ("ex", "ey", "ez", "hx", "hy", "hz")

        def arb(l):
            """fields satisfying the contract of get_field_fourier"""
            ex, ey, ez, hx, hy, hz = [vec(x, 1) for x in names]
            if l.kind == "uniform":
                ez, hz = (W.ky * hx - W.kx * hy) / W.omega / l.epsilon, (W.kx * ey - W.ky * ex) / W.omega
            return ex, ey, ez, hx, hy, hz

        def run():
            sim, i0, layer, z, asked = setup(W, arb)
            T = sim.get_z_stress_tensor_integral(i0, z)
            return sim, i0, layer, z, asked, T
        for r in P.paths(f"[{be}] stress", run):
            sim, i0, l, z, asked, T = r.value
            n = f"[{be}] {l.kind}"
            ex, ey, ez, hx, hy, hz = arb(l)
            eps = epsmat(l)
            P.true(n + ": the fields are those of the layer and height asked for", bool(asked) and all(topoly(a[0]) == i0.p if isinstance(a[0], SInt) else a[0] is l for a in asked)
                   and all(topoly(a[1]) == z.p for a in asked), str(asked))
            D = [eps @ v for v in (ex, ey, ez)]
            hyp = [] if l.kind == "uniform" else [(eps @ ez).col() - ((W.ky * hx - W.kx * hy) / W.omega).col(), hz.col() - ((W.kx * ey - W.ky * ex) / W.omega).col()]

            def model(m):
                w = m.poly(W.omega.p)
                kx, ky = (m.poly(v.parts[0][0]) for v in (W.kx, W.ky))
                g = lambda v: m.poly(v.parts[0][0])
                dz = (ky * g(hx) - kx * g(hy)) / w
                m.val[("C", "ez")] = np.linalg.solve(m.nc(eps.nc), dz)
                m.val[("C", "hz")] = (kx * g(ey) - ky * g(ex)) / w
                m.cache.clear()
            for c, nm in ((0, "xz"), (1, "yz"), (2, "zz")):
                try:
                    g = quad(topoly(T[c]) - topoly(stress((ex, ey, ez), (hx, hy, hz), D, c)))
                except Unsupported as e:
                    P.add(n + f": T_{nm}", "unsupported", "", 0, e)
                    continue
                P.goal(n + f": T_{nm} is Maxwell's stress of the reported E, H and D = eps E", [g], both(hyp), setup=model if hyp else None)
        P.files |= W.prog.files


def homogeneous(P):
    """lossless homogeneous layers: no dependence on z"""
    P.fn("Simulation.get_z_stress_tensor_integral")
    for be in bks(P, "numpy", "torch"):
        W = World(be)
        W.kinds = ("uniform",)
        W.lazy["epsilon"] = ly.lossless_eps
        names = ("ex", "ey", "ez", "hx", "hy", "hz")

        def run():
            sim, i0, layer, z, asked = setup(W, lambda l: [vec(x, 1) for x in names])
            return layer, sim.get_z_stress_tensor_integral(i0, z)
        for r in P.paths(f"[{be}] homogeneous", run):
            l, T = r.value
            e = Poly.const(1) * l.epsilon.p
            om, kx, ky = W.omega.p, W.kx.parts[0][0], W.ky.parts[0][0]
            f = {x: NC.letter(C(x, 1)).entry() for x in names}
            ex, ey, hx, hy = (f[x] for x in ("ex", "ey", "hx", "hy"))
            io = Poly.const(IU)
            # fields satisfying Maxwell's equations: z components, z derivatives of the transverse ones
            f["ez"] = (ky * hx - kx * hy) * om.inverse() * e.inverse()
            f["hz"] = (kx * ey - ky * ex) * om.inverse()
            d = {"ey": io * ky * f["ez"] - io * om * hx, "ex": io * kx * f["ez"] + io * om * hy,
                 "hy": io * ky * f["hz"] + io * om * e * ex, "hx": io * kx * f["hz"] - io * om * e * ey}
            d["ez"] = (ky * d["hx"] - kx * d["hy"]) * om.inverse() * e.inverse()
            d["hz"] = (kx * d["ey"] - ky * d["ex"]) * om.inverse()
            for c, nm in ((0, "xz"), (1, "yz"), (2, "zz")):
                P.goal(f"[{be}] lossless homogeneous layer: d T_{nm} / dz = 0", deriv(topoly(T[c]), f, d))
        P.files |= W.prog.files


def deriv(T, f, d):
    """z derivative of a scalar with sums over the orders, as integrands (each must vanish)"""
    at = {}
    for x, v in f.items():
        a = next(iter(NC.letter(C(x, 1)).entry().atoms()))
        at[a] = (v, d[x])
        at[next(iter(conj_atom(a).atoms()))] = (v.conj(), d[x].conj())
    out = Poly({})
    for m, c in T.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sym" and a.args[0] in SUMS]
        rest = Poly({tuple(x for x in m if x not in sums): c})
        if len(sums) != 1 or sums[0][1] != 1:
            raise Unsupported("stress that is not a sum over orders")
        ve, k = SUMS[sums[0][0].args[0]]
        term = Poly({})
        for j, (a, e) in enumerate(ve):
            if a not in at:
                continue
            others = Poly({tuple(x for i, x in enumerate(ve) if i != j): ONE})
            t = others.subs_atoms(lambda b: at[b][0] if b in at else None) * at[a][1]
            if e > 1:
                t = t.scale(gq(e)) * at[a][0].ipow(e - 1)
            term = term + t
        out = out + rest * term
    return [out]


def fields(P):
    p03.fields(P)


PARTS = [formula, homogeneous, fields]
