"""P12: Fourier transforms and convolution matrices."""
from .common import *
from . import construct, layers as ly
from nnv.load import Transformed, Gathered, ZeroND

BACKENDS = ("numpy", "scipy", "torch", "jax", "autograd")


def norm_axes(t):
    n = len(t.shape)
    return sorted(a % n for a in t.axes)


def size(x, axes=(0, 1)):
    return topoly(x.shape[axes[0]]) * topoly(x.shape[axes[1]])


def is_transform(P, name, t, x, inverse, factor, axes=(0, 1)):
    """t is the (inverse) transform of x along the axes, times factor"""
    if not isinstance(t, Transformed):
        return P.add(name, "undecided", "", 0, f"result is {type(t).__name__}")
    same = t.x is x or type(t.x) is type(x) is Grid and all(is_zero(a[0] - b[0]) for a, b in zip(t.x.parts, x.parts))
    P.true(name + ": of the array given", same, "", )
    P.true(name + ": direct or inverse", t.inverse == inverse)
    P.true(name + ": along the axes asked for", norm_axes(t) == sorted(axes), str(t.axes))
    P.goal(name + ": normalization", [topoly(t.scale) - factor])


def transforms(P):
    P.fn("formulations.fft.fourier_transform", "formulations.fft.inverse_fourier_transform")
    P.trust("numpy/scipy/torch/jax/autograd fft2, ifft2: the discrete Fourier transform by its definition along the given axes, with 1/n in the inverse",
            "jax.jit returns a function with the same values")
    for be in bks(P, *BACKENDS):
        W = World(be)
        m = W.prog.load("nannos.formulations.fft")

        def run():
            gx, gy = gridshape()
            Z = z3()
            CTX.assume(Z.And(zpoly(gx.p) >= 1, zpoly(gy.p) >= 1))
            u = grid("u")
            s3 = ZeroND((SInt.var("sx"), SInt.var("sy"), SInt.var("nz")), (0, 0), Sc(Poly.const(1)))
            F, G = m.fourier_transform, m.inverse_fourier_transform
            b3 = ZeroND((SInt.var("nz"), SInt.var("sx"), SInt.var("sy")), (0, 0), Sc(Poly.const(1)))
            return u, F(u), G(u), s3, F(s3, axes=(0, 1)), G(s3, axes=(0, 1)), F(G(u)), G(F(u)), (b3, F(b3), G(b3))
        for r in P.paths(f"[{be}] fft", run):
            u, Fu, Gu, s3, F3, G3, FG, GF, (b3, Fb, Gb) = r.value
            n = f"[{be}] "
            is_transform(P, n + "fourier_transform = fft2 / number of points", Fu, u, False, size(u).inverse())
            is_transform(P, n + "inverse_fourier_transform = ifft2 * number of points", Gu, u, True, size(u))
            is_transform(P, n + "fourier_transform along the first axes", F3, s3, False, size(s3).inverse())
            is_transform(P, n + "inverse_fourier_transform along the first axes", G3, s3, True, size(s3))
            is_transform(P, n + "fourier_transform of a stack of grids", Fb, b3, False, size(b3, (1, 2)).inverse(), (1, 2))
            is_transform(P, n + "inverse_fourier_transform of a stack of grids", Gb, b3, True, size(b3, (1, 2)), (1, 2))
            for nm, t in (("inverse then direct", FG), ("direct then inverse", GF)):
                ok = isinstance(t, Transformed) and isinstance(t.x, Transformed)
                if not ok:
                    P.add(n + nm + " is the identity", "undecided", "", 0, type(t).__name__)
                    continue
                P.true(n + nm + " is the identity: opposite transforms along the same axes", t.inverse != t.x.inverse and norm_axes(t) == norm_axes(t.x) and t.x.x is u)
                P.goal(n + nm + " is the identity: normalization", [topoly(t.scale) * topoly(t.x.scale) - Poly.const(1)])
        P.files |= W.prog.files


def toeplitz(P):
    """entry (m, n) of the convolution matrix = coefficient of index G_m - G_n"""
    P.fn("Simulation._get_toeplitz_matrix")
    for be in bks(P, *BACKENDS):
        W = World(be)

        def run():
            sim = make(W)
            h = construct.Harm()
            sim.harmonics = h
            tr = CTX.choose(2, "tensor") == 1
            u = aniso("eps") if tr else grid("u")
            T = sim._get_toeplitz_matrix(u, transverse=True) if tr else sim._get_toeplitz_matrix(u)
            items = [(T, u, "")] if not tr else [(T[i][j], u[i, j], f" of component {i}{j}") for i in range(2) for j in range(2)]
            i, j = SInt.var("row"), SInt.var("col")
            pi, pj = h.pair(i), h.pair(j)
            return [(t, v, nm, t.f(i, j) if isinstance(t, Gathered) else None, pi, pj) for t, v, nm in items]
        for r in P.paths(f"[{be}] _get_toeplitz_matrix", run):
            for t, v, nm, ab, pi, pj in r.value:
                n = f"[{be}] convolution matrix" + nm
                if ab is None:
                    P.add(n, "undecided", "", 0, f"result is {type(t).__name__}")
                    continue
                is_transform(P, n + ": coefficients", t.x, v, False, size(v).inverse())
                P.goal(n + ": entry (i, j) has index G_i - G_j", [topoly(ab[c]) - (pi[c].p - pj[c].p) for c in range(2)])
        P.files |= W.prog.files


def lemmas(P):
    P.lean("Dft.lean", ["dft_linear", "dft_const", "dft_real", "dft_character", "dft_inverse", "e_periodic"])


PARTS = [transforms, toeplitz, lemmas]
