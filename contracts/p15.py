"""P15: a copy of a layer behaves as an independent identical layer."""
from .common import *
from . import layers as ly, solve, smat, p14

DATA = ("thickness", "epsilon", "mu", "lattice", "tangent_field", "tangent_field_type")
SHOWN = ("is_uniform", "is_epsilon_anisotropic", "is_mu_anisotropic", "is_epsilon_uniform", "is_mu_uniform")


def copy(P):
    """Layer.copy: another object describing the same layer; the original is left as it is; assignments to the copy do not reach it"""
    P.fn("Layer.copy", "Layer.__init__")
    for be in bks(P, "numpy", "torch"):
        W = World(be)

        def run():
            W.notgrid3()
            d = [scal("thick", "pos"), None][CTX.choose(2, "thickness")]
            eps = [scal("eps_l"), grid("epsg_l"), aniso("epsg_l")][CTX.choose(3, "epsilon")]
            tf = None if CTX.choose(2, "no tangent field") == 0 else [grid("t0", "real"), grid("t1", "real")]
            lat = object()
            l = W.Layer("name", d, eps, 1, lat, tf, ["opt", "fft"][CTX.choose(2, "type")])
            if CTX.choose(2, "was solved") == 0:
                l.eigenvalues, l.eigenvectors, l.matrix = vec("q_l", 2, "diag"), mat("phi_l", 2), mat("M_l", 2)
            src = l.copy() if CTX.choose(2, "copy of a copy") == 0 else l
            before, before0 = dict(src.__dict__), dict(l.__dict__)
            nm = [None, "other"][CTX.choose(2, "name given")]
            cp = src.copy() if nm is None else src.copy(name=nm)
            mid = dict(src.__dict__), dict(l.__dict__)
            shown = [(a, getattr(cp, a), getattr(src, a)) for a in SHOWN]
            first = {a: getattr(cp, a) for a in DATA + ("name",)}
            # assignments to the copy
            cp.thickness = scal("thick2", "pos")
            cp.epsilon = scal("eps2")
            cp.tangent_field = object()
            cp.name = "third"
            return l, src, cp, before, before0, mid, nm, shown, first
        for r in P.paths(f"[{be}] Layer.copy", run, limit=1000):
            l, src, cp, before, before0, mid, nm, shown, first = r.value
            n = f"[{be}] Layer.copy ({r.label()})"
            P.true(n + ": another object", cp is not src and cp is not l)
            diff = [a for a in DATA if not samev(first[a], before[a])]
            P.true(n + ": the same description", not diff, str(diff))
            P.true(n + ": the same kind of material", all(x == y for _, x, y in shown), str(shown))
            for what, x, y in (("copying", *mid), ("changing the copy", src.__dict__, l.__dict__)):
                P.true(n + f": {what} leaves the description of the original as it is", keeps(x, before) and keeps(y, before0))
                P.soft(n + f": {what} leaves the original as it is", same(x, before) and same(y, before0))
            P.true(n + ": the name asked for, or another one than the original's", first["name"] == nm if nm else first["name"] != before["name"])
            P.soft(n + ": the copy knows the layer it was copied from", cp.original is src and cp.iscopy)
        P.files |= W.prog.files


def samev(a, b):
    """the same value"""
    if a is b:
        return True
    try:
        return all(g.is_zero() if isinstance(g, NC) else is_zero(g) for g in eq_goals(a, b))
    except (Unsupported, ShapeError, TypeError, ValueError):
        return False


def keeps(a, b):
    return all(k in a and samev(a[k], b[k]) for k in DATA + ("name",))


def same(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


def reuse(P):
    for be in bks(P, "numpy", "torch"):
        solve.copies(P, be)


def operators(P):
    """a copy whose operators are not reused gets those of a separately built layer"""
    ly.build(P, goals=("matrix", "Peps", "Q"), copies=True)
    for be in bks(P, "numpy", "torch"):
        ly.modes(P, be)
    solve.loop(P)


PARTS = [copy, reuse, operators]
