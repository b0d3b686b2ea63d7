"""P01: energy conservation of lossless stacks."""
from .common import *
from . import layers as ly, p02, p03, p06, p08, p12
from .p06 import resolve
from . import construct


def operators(P):
    """lossless: the operators of every layer are Hermitian with the direct rule"""
    ly.build(P, forms=("original", "tangent"), lossless=True, mono=True, goals=("Q", "Peps", "matrix"))
    ly.modes(P, branch=False)


def constant_flux(P):
    """inside a layer the power carried by the reported fields does not depend on z:
    Maxwell's equations for the reported fields (proved from the code, part p03.fields) and Hermitian operators"""
    W = World("numpy")
    kx, ky, w = W.kx.diag(), W.ky.diag(), W.omega.p
    iw = Poly.const(GQ(0, 1)) * w
    ex, ey, hx, hy = (vec(n, 1).col() for n in ("ex", "ey", "hx", "hy"))
    i = lambda x: x.scale(Poly.const(GQ(0, 1)))
    for kind in ("uniform", "patterned"):
        if kind == "uniform":
            e = sym("eps_lossless", "pos")
            Pe, ehat_inv = NC.eye(2).scale(e), NC.eye(1).scale(e.inverse())
        else:
            Pe, ehat_inv = NC.letter(L("P_h", 2, 2, "herm")), NC.letter(L("epshat_h", 1, 1, "herm")).inverse()
        e1, e2 = NC.letter(Einj(1, 1)), NC.letter(Einj(2, 1))
        D = Pe * (e2 * ex - e1 * ey)
        dy, dx = -(e1.T() * D), e2.T() * D
        ez = -(ehat_inv * (kx * hy - ky * hx)).scale(w.inverse())
        hz = (kx * ey - ky * ex).scale(w.inverse())
        dey = i(ky * ez) - hx.scale(iw)
        dex = i(kx * ez) + hy.scale(iw)
        dhy = i(ky * hz) + dx.scale(iw)
        dhx = i(kx * hz) - dy.scale(iw)
        d = dex.H() * hy + ex.H() * dhy - dey.H() * hx - ey.H() * dhx
        P.goal(f"{kind} layer: Maxwell's equations and Hermitian operators: d/dz of the total power Re(E x H*)_z is zero", [d + d.H()])


def balance(P):
    """R + T = 1 from the constant power"""
    P.fn("Simulation.get_z_poynting_flux", "Simulation.diffraction_efficiencies")
    for be in bks(P, "numpy"):
        W = World(be)
        ly.structured(W, ("uniform",))
        W.lazy["epsilon"] = lambda l: Arr0(sym(f"epsr[{l.tag}]", "pos"))

        def run():
            sim = p06.simulation(W)
            l0, lN = sim.layers[0], sim.layers[W.n - 1]
            fi = sim.get_z_poynting_flux(l0, sim.a0, sim.b0)
            fo = sim.get_z_poynting_flux(lN, sim.aN, sim.bN)
            d0 = l0.thickness
            top = sim.get_field_fourier(0, d0)
            bot = sim.get_field_fourier(W.n - 1, 0)
            return sim, fi, fo, top, bot
        S = lambda F: (F[0, 0, 0] * F[0, 1, 1].conj() - F[0, 0, 1] * F[0, 1, 0].conj()).real
        ent = lambda v: v.parts[0][0]
        for r in P.paths(f"[{be}] balance", run):
            sim, fi, fo, top, bot = r.value
            om = W.omega.p
            kx, ky = W.kx.parts[0][0], W.ky.parts[0][0]
            th, ph = topoly(sim.excitation.theta), topoly(sim.excitation.phi)
            n0, kap = sym("n_in", "pos"), sym("kappai", "pos")
            al = sym("tan_alpha_i", "real")
            (ca, sa), (c0, s0) = [(fsqrt(Poly.const(1) + x * x).inverse(), x * fsqrt(Poly.const(1) + x * x).inverse()) for x in (al, sym("tan_theta", "real"))]
            sb, cb = fgen("sin", sym("beta_i", "real")), fgen("cos", sym("beta_i", "real"))
            trig = {next(iter(fgen("cos", th).atoms())): c0, next(iter(fgen("sin", th).atoms())): s0}

            def leafs(kx_, ky_, a0):
                m = {kx: kx_, ky: ky_, topoly(sim.layers[0].epsilon): n0 * n0}
                for (p, k), v in zip(sim.a0.split([1, 1]), a0):
                    m[p] = v
                at = dict(trig)
                for k, v in m.items():
                    for k2, v2 in ((k, v), (k.conj(), v.conj())):
                        (mo, c), = k2.t.items()
                        at[mo[0][0]] = v2
                return lambda a: at.get(a)
            inc = (om * om * n0 * n0 * c0 * c0, om * n0 * c0)
            zero = [Poly({}), Poly({})]
            h0 = [resolve(topoly(v), lambda a: trig.get(a), []) for v in sim.exc_h[:2]]
            cases = [("propagating order other than the zeroth", leafs(om * n0 * sa * cb, om * n0 * sa * sb, zero), [(om * om * n0 * n0 * ca * ca, om * n0 * ca), inc]),
                     ("evanescent order other than the zeroth", leafs(fsqrt(om * om * n0 * n0 + kap * kap) * cb, fsqrt(om * om * n0 * n0 + kap * kap) * sb, zero),
                      [(-kap * kap, kap * Poly.const(GQ(0, 1))), inc]),
                     ("zeroth order", leafs(om * n0 * s0 * fgen("cos", ph), om * n0 * s0 * fgen("sin", ph), h0), [inc])]
            for nm, lf, sq in cases:
                f, b = resolve(ent(fi[0]), lf, sq), resolve(ent(fi[1]), lf, sq)
                P.goal(f"[{be}] incidence medium, {nm}: forward + backward flux = power of the fields at its exit face", [f + b - resolve(ent(S(top)), lf, sq)])
                want = resolve(topoly(sim.incident_flux), lf, sq) if nm.startswith("zeroth") else Poly({})
                P.goal(f"[{be}] incidence medium, {nm}: forward flux is the incident one", [f - want])
            P.goal(f"[{be}] last medium: no backward flux", [fo[1].parts[0][0]])
            P.goal(f"[{be}] last medium: forward flux = power of the fields at its entrance face", [fo[0].parts[0][0] - ent(S(bot))])
        P.files |= W.prog.files
    # R = -sum(backward)/inc, T = sum(forward)/inc, sum(forward_in) = inc, sum(forward_in + backward_in) = power = sum(forward_out)
    fi, bi, fo, inc = (sym(x, "real") for x in ("sum_fwd_in", "sum_bwd_in", "sum_fwd_out", "incident"))
    P.goal("R + T = 1 from the sums of the fluxes", [((-bi + fo) * inc.inverse() - Poly.const(1)).subs_atoms(
        lambda a: {next(iter(fo.atoms())): fi + bi, next(iter(fi.atoms())): inc}.get(a)).subs_atoms(lambda a: inc if a == next(iter(fi.atoms())) else None)])


def lemmas(P):
    P.assume("a differentiable function of z whose derivative is zero everywhere is constant (mean value theorem)")
    P.lean("Flux.lean", ["flux_constant"])


PARTS = [operators, p03.fields, constant_flux, balance, p06.perorder, p06.totals, lemmas, p08.waves, p08.incident, p12.transforms, p12.toeplitz] + p02.PARTS
