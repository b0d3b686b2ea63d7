"""Contracts shared by several properties."""
from nnv.vc import *


def ent(nc):
    return Vec.fromcol(nc)


def simclass(W):
    """the real class, with the contract of solve() and get_layer() in place of their bodies"""
    class Sim(W.Simulation):
        _ok = None

        @property
        def is_solved(self):
            if self._ok is None:
                self._ok = CTX.choose(2, "already solved") == 0
            return self._ok

        @is_solved.setter
        def is_solved(self, v):
            self._ok = v

        def solve(self):
            self._ok = True
    return Sim


def make(W, **kw):
    Sim = simclass(W)
    keep = W.Simulation
    W.Simulation = Sim
    sim = W.sim(**kw)
    W.Simulation = keep
    return sim


def real(p):
    return p.re()


def field_contract(W, sim, layer, a, b, z):
    """E, H (as (ex,ey,ez),(hx,hy,hz)) of the amplitudes a, b: the contract of get_field_fourier"""
    q, phi, Q = layer.eigenvalues, layer.eigenvectors, layer.Qeps
    d = layer.thickness
    from nnv.symbk import elem
    az = a * elem(1j * q * z, fexp)
    bz = b * elem(1j * q * (d - z), fexp)
    h = phi @ (az + bz)
    e = Q @ (phi @ ((az - bz) / (W.omega * q)))
    return halves(e), halves(h)


def halves(v):
    (p, k), (q, _) = v.split([v.k // 2, v.k // 2])
    return Vec([(p, k)]), Vec([(q, k)])


def quad(p):
    """1 x 1 matrix expression of a scalar containing sums over the orders of products of two components:
    sum_i conj(y_i) d_i x_i = y^H diag(d) x"""
    out = NC({}, 0, 0)
    for m, c in p.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sym" and a.args[0] in SUMS]
        rest = tuple(x for x in m if x not in sums)
        if not sums:
            out = out + NC({(): Poly({m: c})}, 0, 0)
            continue
        if len(sums) != 1 or sums[0][1] != 1:
            raise Unsupported("product of sums")
        ve, k = SUMS[sums[0][0].args[0]]
        cols, diag = [], []
        for a, e in ve:
            if a.kind == "ent" and "diag" not in a.args[0][-1].props and e > 0:
                cols += [a] * e
            else:
                diag.append((a, e))
        if len(cols) != 2:
            raise Unsupported("sum that is not a product of two components")
        cj = [a.args[0][-1].conj for a in cols]
        if cj[0] == cj[1]:
            cols.sort(key=lambda a: a.key)
        elif cj[1]:
            cols.reverse()
        y, x = (NC.word(a.args[0]) for a in cols)
        if diag:
            x = diag_nc(Poly({tuple(diag): ONE}), k) * x
        out = out + (y.T() * x).scale(Poly({rest: c}))
    return out


def both(hyps):
    """hypotheses with their conjugate transposes"""
    return [h for x in hyps for h in (x, x.H())]


def bks(P, *default):
    """the back ends a contract is checked for (those whose behaviour differs for it; all of them under P25)"""
    return getattr(P, "backends", None) or default
