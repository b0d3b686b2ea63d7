"""P03: the reported fields satisfy Maxwell's equations in every layer."""
from .common import *
from . import layers as ly


def operators(P):
    ly.build(P)


def modes(P):
    ly.modes(P, branch=False)


def fields(P):
    P.fn("Simulation.get_field_fourier", "_translate_amplitudes", "phasor", "Layer.is_uniform")
    P.trust("linalg.solve(A, b) returns A^-1 b")
    for be in bks(P, "numpy", "jax"):
        W = World(be)
        ly.structured(W)
        i0 = SInt.var("idx")
        z = scal("z", "real")

        def run():
            sim = make(W)
            sim._ok = True
            CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
            layer = sim.layers.at(i0)
            a, b = vec("a", 2), vec("b", 2)
            sim._get_amplitudes = lambda li, z=0, translate=True: (a, b) if not translate else W.simmod._translate_amplitudes(layer, z, a, b)
            Zs = SymList(SInt.var("nz"), lambda i: z)
            F = sim.get_field_fourier(i0, z) if CTX.choose(2, "list of heights") == 0 else sim.get_field_fourier(i0, Zs)
            if isinstance(F, (TArr,)):
                G = F[0]
            else:
                G = F.generic()
            return layer, G
        for r in P.paths(f"[{be}] fields", run):
            l, F = r.value
            n = f"[{be}] {l.kind} ({r.label().count('heights=1') and 'list of z' or 'z'})"
            (ex, ey, ez), (hx, hy, hz) = [F[0, i] for i in range(3)], [F[1, i] for i in range(3)]
            om, kx, ky = W.omega, W.kx, W.ky
            d = lambda v: Vec([(dpoly(p, "z"), k) for p, k in v.parts])
            hyp, st = ly.mode_hyp(W, l), ly.mode_setup(W, l)
            col = lambda v: v.col()
            eps = Mat(NC.eye(1).scale(l.epsilon.p)) if l.kind == "uniform" else l.eps_hat
            stack2 = lambda x, y: Vec(x.parts + y.parts)
            D = l.Peps @ stack2(-ey, ex)         # (-Dy, Dx)
            dy, dx = -D[:nh()], D[nh():]
            Dz = eps @ ez
            P.eq(n + ": w Hz = kx Ey - ky Ex", om * hz, kx * ey - ky * ex)
            g = lambda v: [column_nc(p, k) for p, k in v.parts]
            P.goal(n + ": -w Dz = kx Hy - ky Hx", g(om * Dz + (kx * hy - ky * hx)), hyp, setup=st)
            P.goal(n + ": (curl E)_x = i w Hx", g(1j * ky * ez - d(ey) - 1j * om * hx), hyp, setup=st)
            P.goal(n + ": (curl E)_y = i w Hy", g(d(ex) - 1j * kx * ez - 1j * om * hy), hyp, setup=st)
            P.goal(n + ": (curl H)_x = -i w Dx", g(1j * ky * hz - d(hy) + 1j * om * dx), hyp, setup=st)
            P.goal(n + ": (curl H)_y = -i w Dy", g(d(hx) - 1j * kx * hz + 1j * om * dy), hyp, setup=st)
        P.files |= W.prog.files


PARTS = [operators, modes, fields]
