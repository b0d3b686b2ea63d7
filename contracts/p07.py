"""P07: power flux = Poynting vector of the reported fields."""
from .common import *


def flux(P):
    P.fn("Simulation.get_z_poynting_flux", "Simulation.get_field_fourier", "_translate_amplitudes", "phasor", "utils.helpers.set_index")
    for be in bks(P, "numpy", "jax"):
        W = World(be)
        i0 = SInt.var("idx")

        def run():
            sim = make(W)
            CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
            layer = sim.layers.at(i0)
            a, b = vec("a", 2), vec("b", 2)
            z = scal("z", "real")
            sim._get_amplitudes = lambda li, z=0, translate=True: (a, b) if not translate else W.simmod._translate_amplitudes(layer, z, a, b)
            F = sim.get_field_fourier(i0, z)
            az, bz = W.simmod._translate_amplitudes(layer, z, a, b)
            fw, bw = sim.get_z_poynting_flux(layer, az, bz)
            fw2, bw2 = sim.get_z_poynting_flux(layer, bz, az)
            return F, fw, bw, fw2, bw2
        for r in P.paths(f"[{be}] flux", run):
            F, fw, bw, fw2, bw2 = r.value
            E, H = [F[0, 0, i] for i in range(3)], [F[0, 1, i] for i in range(3)]
            S = (E[0] * H[1].conj() - E[1] * H[0].conj()).real
            P.eq(f"[{be}] forward + backward = Re(E x H*)_z ({r.label()})", fw + bw, S)
            P.eq(f"[{be}] swapping amplitudes: forward ({r.label()})", fw2, -bw)
            P.eq(f"[{be}] swapping amplitudes: backward ({r.label()})", bw2, -fw)
        P.files |= W.prog.files


PARTS = [flux]
