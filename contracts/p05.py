"""P05: results do not depend on the history of calls."""
from .common import *
from . import smat, stack, solve, layers as ly, p06, p15, construct
from .smat import content, snapshot, snapdiff


class Watch:
    """effects of a call on the layers: attributes set, contents of what they hold changed in place"""

    def __init__(s, W):
        s.W = W
        s.sets, s.held = [], []
        orig = W.SymLayer.__getattr__

        def get(l, n):
            v = orig(l, n)
            s.held.append((l, n, v, content(v)))
            return v

        def put(l, n, v):
            s.sets.append((l, n))
            object.__setattr__(l, n, v)
        s.orig = orig
        W.SymLayer.__getattr__, W.SymLayer.__setattr__ = get, put

    def stop(s):
        s.W.SymLayer.__getattr__ = s.orig
        del s.W.SymLayer.__setattr__
        ch = [f"{l.tag}.{n} set" for l, n in s.sets]
        for l, n, v, c in s.held:
            now = l.__dict__.get(n)
            if now is not v or content(v) != c:
                ch.append(f"{l.tag}.{n}")
        return ch


def frames(P):
    """queries leave the layers, the wave, the lattice, the inputs and everything stored before as they were;
    without solved modes the first thing they do is to solve (never using what is stored)"""
    queries = {
        "get_field_fourier": lambda sim, W: sim.get_field_fourier(SIDX(sim, W), scal("z", "real")),
        "get_z_poynting_flux": lambda sim, W: sim.get_z_poynting_flux(sim.layers.at(SIDX(sim, W)), sim.arg_a, sim.arg_b),
        "get_z_stress_tensor_integral": lambda sim, W: sim.get_z_stress_tensor_integral(SIDX(sim, W), scal("z", "real")),
        "diffraction_efficiencies": lambda sim, W: sim.diffraction_efficiencies(),
        "diffraction_efficiencies(orders)": lambda sim, W: sim.diffraction_efficiencies(orders=True),
        "diffraction_efficiencies(complex)": lambda sim, W: sim.diffraction_efficiencies(complex=True),
        "diffraction_efficiencies(orders, complex)": lambda sim, W: sim.diffraction_efficiencies(orders=True, complex=True),
    }
    for be in bks(P, "numpy", "torch"):
        for name, q in queries.items():
            P.fn("Simulation." + name.split("(")[0])
            W = World(be)
            uni = name.startswith("diff")
            ly.structured(W, ("uniform",) if uni else ("uniform", "patterned"))
            if uni:
                W.lazy["epsilon"] = lambda l: Arr0(sym(f"epsr[{l.tag}]", "pos"))

            def run():
                sim = p06.simulation(W) if uni else make(W)
                if not uni:
                    sim._get_amplitudes = lambda li, z=0, translate=True: (sim.arg_a, sim.arg_b)
                sim.arg_a, sim.arg_b = vec("arg_a", 2), vec("arg_b", 2)
                sim._ok = CTX.choose(2, "solved") == 0
                if not sim._ok and uni:
                    S0 = sim.S

                    def get_S_matrix(indices=None):
                        sim._ok = True
                        sim.S = S0
                        return S0
                    sim.get_S_matrix = get_S_matrix
                first = []
                if not sim._ok:
                    # nothing may be read from the layers' modes before solving
                    for a in ("eigenvalues", "eigenvectors", "Qeps", "Peps", "eps_hat"):
                        W.lazy[a] = guard(sim, a, W.lazy[a], first)
                ex = vars(sim.excitation).copy() if uni else {}
                exc = {k: content(v) for k, v in ex.items()}
                snap = snapshot(sim)
                w = Watch(W)
                try:
                    out = q(sim, W)
                finally:
                    ch = w.stop()
                    for a in ("eigenvalues", "eigenvectors", "Qeps", "Peps", "eps_hat"):
                        W.lazy[a] = getattr(W.lazy[a], "orig", W.lazy[a])
                if uni:
                    ch += [f"excitation.{k}" for k in set(ex) | set(vars(sim.excitation)) if vars(sim.excitation).get(k) is not ex.get(k) or content(ex[k]) != exc[k]]
                return snapdiff(snap, sim, ("_ok", "S")), ch, first, sim._ok
            for r in P.paths(f"[{be}] {name}", run):
                d, ch, first, ok = r.value
                n = f"[{be}] {name} ({r.label()})"
                P.soft(n + ": the simulation keeps what it holds", not d, str(d))
                P.soft(n + ": the layers and the wave are unchanged", not ch, str(ch))
                P.true(n + ": solved before the modes are used", not first and ok, str(first))
            P.files |= W.prog.files


def guard(sim, a, f, first):
    f = getattr(f, "orig", f)

    def g(l):
        if not sim._ok:
            first.append(a)
        return f(l)
    g.orig = f
    return g


def SIDX(sim, W):
    i = SInt.var("idx")
    CTX.assume(z3().And(zpoly(i.p) >= 0, zpoly(i.p) < zpoly(topoly(W.n))))
    return i


def state(P):
    for be in bks(P, "numpy", "jax"):
        solve.loop(P, be)
        solve.marks(P, be)


def memo(P):
    smat.explore_S(P, "numpy")
    if smat.SLoop.W is not None:
        smat.key_consistency(P, smat.SLoop.W, "")


def amplitudes(P):
    stack.amplitudes(P)


def built(P):
    construct.build(P, ("frame",))


def lemmas(P):
    P.assume("the functions of the code have no other state than the attributes of the simulation, its layers, lattice and wave "
             "(module level state is the back end, P16)")
    P.lean("History.lean", ["history_independent", "marks_protect"])


PARTS = [state, memo, amplitudes, frames, built, p15.copy, p15.reuse, lemmas]
