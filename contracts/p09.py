"""P09: lattices."""
from .common import *
from . import construct, p22
import math

TWOPI = 2 * math.pi


def orders(P):
    construct.build(P, ("kxy",))


def vectors(P):
    """reciprocal vectors, area, coordinates of the grid"""
    P.fn("Lattice.matrix", "Lattice.reciprocal", "Lattice.area", "Lattice.unit_grid", "Lattice.grid", "Lattice.transform", "Lattice.__init__")
    P.trust("linalg.inv of a 2 x 2 matrix; linspace, meshgrid(indexing='ij') and tensordot by their definition")
    P.assume("constants.pi and the factor 2 pi are machine numbers, compared with 1e-13 relative tolerance")
    for be in bks(P, "numpy", "scipy", "torch", "jax", "autograd"):
        W = World(be)
        mod = W.prog.load("nannos.lattice")

        def run():
            one = CTX.choose(2, "mono-periodic") == 1
            if one:
                p = scal("period", "pos")
                b, L_ = p, [[p, Sc(Poly.const(0))], [Sc(Poly.const(0)), Sc(Poly.const(1))]]
            else:
                L_ = [[scal(f"L{i}{j}", "real") for j in range(2)] for i in range(2)]
                b = tuple(tuple(r) for r in L_)
            gx, gy = gridshape()
            W.notgrid3()
            l = mod.Lattice(b, (gx, gy))
            l.discretization = (gx, gy)      # the second one is 1 for a mono-periodic lattice (P22)
            return one, L_, l, l.matrix, l.reciprocal, l.area, l.unit_grid, l.grid
        for r in P.paths(f"[{be}] Lattice", run):
            one, L_, l, M, K, area, U, G = r.value
            n = f"[{be}] {'mono-periodic' if one else 'bi-periodic'} lattice"
            P.eq(n + ": the columns of the matrix are the basis vectors", M, np.array([[L_[j][i] for j in range(2)] for i in range(2)], dtype=object).view(OArr))
            for i in range(2):
                for j in range(2):
                    v = topoly(K[0, i]) * topoly(L_[j][0]) + topoly(K[1, i]) * topoly(L_[j][1])
                    nm = n + f": K_{i+1} . L_{j+1} = {'2 pi' if i == j else '0'}"
                    if i != j:
                        P.goal(nm, [v])
                    else:
                        d = constant(v, TWOPI)
                        P.add(nm, *d)
            want = L_[0][0] if one else abs(L_[0][0] * L_[1][1] - L_[0][1] * L_[1][0])
            P.eq(n + ": area = |L1 x L2|", area, want)
            g = [grid("lin({},{})@{}".format(Poly.const(0).key(), Poly.const(1).key(), i), "real") for i in range(2)]
            P.eq(n + ": coordinates of the unit cell, along the axes of the array", [U[0], U[1]], g)
            P.eq(n + ": grid points are combinations of the basis vectors", [G[c] for c in range(2)], [g[0] * L_[0][c] + g[1] * L_[1][c] for c in range(2)])
        P.files |= W.prog.files


def constant(v, c):
    """(status, by, time, detail) of: the rational function v is the constant c (up to rounding)"""
    from nnv.prove import Model
    d = v - Poly.const(Fr(c))
    if is_zero(d):
        return "proved", "nc", 0, ""
    # v = k * w with w rational with small coefficients: compare with the exact identity v / c
    w = v * Poly.const(1 / Fr(c))
    if is_zero(w - Poly.const(1)):
        return "proved", "nc", 0, ""
    m = Model(N=2, seed=3)
    try:
        x = complex(np.asarray(m.poly(v)).ravel()[0])
    except Exception as e:
        return "undecided", "", 0, str(e)
    return ("refuted", "numeric model", 0, f"{x} instead of {c}") if abs(x - c) > 1e-6 else ("undecided", "", 0, repr(v)[:200])


PARTS = [orders, vectors]
