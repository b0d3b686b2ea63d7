"""P08: plane waves."""
from .common import *
from . import construct

DEG = None


def roots(vals):
    """square-root atoms occurring in scalar values"""
    out = {}
    for v in vals:
        for a in allatoms(topoly(v)):
            if a.kind == "fn" and a.args[0] == "sqrt":
                out[a] = a.args[1]
    return out


def allatoms(p):
    out = set()
    for a in p.atoms():
        out.add(a)
        if a.kind == "fn":
            out |= allatoms(a.args[1])
    return out


def subst(p, m):
    """replace atoms everywhere, also inside inverses"""
    def f(a):
        if a in m:
            return m[a]
        if a.kind == "fn" and a.args[0] == "inv":
            q = subst(a.args[1], m)
            return None if q == a.args[1] else q.inverse()
        return None
    return p.subs_atoms(f)


def wave(P, be):
    W = Program(be)
    P.fn("PlaneWave.__init__")
    P.trust("sin, cos: real, sin^2 + cos^2 = 1, parity")
    P.assume("incidence precondition: the wave propagates towards the stack (cos theta > 0), used only for the mode amplitudes")
    mod = W.load("nannos.excitation")
    pi = W.mods["nannos.constants"].pi if "nannos.constants" in W.mods else W.load("nannos.constants").pi

    def run():
        lam = Sc(sym("lambda", "pos"))
        th, ph, ps = (Sc(sym(n, "real")) for n in ("theta", "phi", "psi"))
        pw = mod.PlaneWave(lam, (th, ph, ps))
        return lam, th, ph, ps, pw
    for r in P.paths(f"[{be}] PlaneWave", run):
        lam, th, ph, ps, w = r.value
        n = f"[{be}] PlaneWave: "
        import math
        sp, cp = lambda x: Sc(fgen("sin", topoly(x))), lambda x: Sc(fgen("cos", topoly(x)))
        # the conversion to radians: the same for the three angles, by pi/180 up to rounding
        rad = [topoly(w.theta), topoly(w.phi), topoly(w.psi)]
        for nm, x, a in zip(("theta", "phi", "psi"), rad, (th, ph, ps)):
            c = x * a.p.inverse()
            ok = c.isconst() and not c.constval().im and abs(float(c.constval().re) / (math.pi / 180) - 1) < 1e-13
            P.add(n + f"{nm} in radians is the angle times pi/180", "proved" if ok else "undecided" if not c.isconst() else "refuted", "evaluation", 0, repr(x)[:200])
        T, F, S_ = (Sc(x) for x in rad)
        k0 = topoly(w.wavenumber)
        c = (k0 * lam.p)
        ok = c.isconst() and abs(complex(c.constval()) / (2 * math.pi) - 1) < 1e-13
        P.add(n + "wavenumber = 2 pi / wavelength", "proved" if ok else "refuted" if c.isconst() else "undecided", "evaluation", 0, repr(k0)[:200])
        P.eq(n + "frequency_scaled = 1 / wavelength", w.frequency_scaled, 1 / lam)
        u = [sp(T) * cp(F), sp(T) * sp(F), cp(T)]
        k = [w.wavevector[i] for i in range(3)]
        E = [w.amplitude[i] for i in range(3)]
        P.eq(n + "wave vector = k0 (sin cos, sin sin, cos)", k, [Sc(k0) * x for x in u])
        P.eq(n + "k.k = k0^2", k[0] * k[0] + k[1] * k[1] + k[2] * k[2], Sc(k0) * Sc(k0))
        P.eq(n + "unit amplitude", E[0] * E[0] + E[1] * E[1] + E[2] * E[2], Sc(Poly.const(1)))
        P.eq(n + "transverse", E[0] * k[0] + E[1] * k[1] + E[2] * k[2], Sc(Poly.const(0)))
        et = [cp(T) * cp(F), cp(T) * sp(F), -sp(T)]
        ep = [-sp(F), cp(F), Sc(Poly.const(0))]
        P.eq(n + "E = cos(psi) e_theta + sin(psi) e_phi", E, [cp(S_) * a + sp(S_) * b for a, b in zip(et, ep)])
        # s and p waves
        q90 = {a: v for x in (fgen("cos", topoly(S_)), fgen("sin", topoly(S_))) for a, v in ()}
        cs, sn = next(iter(fgen("cos", topoly(S_)).atoms())), next(iter(fgen("sin", topoly(S_)).atoms()))
        Ep = [Sc(topoly(x).subs_atoms(lambda a: Poly.const(1) if a is cs else Poly({}) if a is sn else None)) for x in E]
        Es = [Sc(topoly(x).subs_atoms(lambda a: Poly.const(1) if a is sn else Poly({}) if a is cs else None)) for x in E]
        P.eq(n + "s and p are orthogonal", Ep[0] * Es[0] + Ep[1] * Es[1] + Ep[2] * Es[2], Sc(Poly.const(0)))
        # mode amplitudes in vacuum: E_t = Q phi a0 / (omega q), phi = 1
        a0 = [topoly(w.a0[i]) for i in range(2)]
        kz = k0 * topoly(cp(T))
        m = {}
        for i, (a, x) in enumerate(sorted(roots(a0).items(), key=lambda t: t[0].key)):
            P.goal(n + f"square root #{i} of the mode amplitudes is that of kz^2 (so it is kz, cos theta > 0)", [x - kz * kz])
            m[a] = kz
        a0 = [Sc(subst(x, m)) for x in a0]
        kx, ky, om = k[0], k[1], Sc(k0)
        q = Sc(kz)
        Q = [[om * om - ky * ky, kx * ky], [kx * ky, om * om - kx * kx]]
        et_ = [(Q[i][0] * a0[0] + Q[i][1] * a0[1]) / (om * q) for i in range(2)]
        P.eq(n + "mode amplitudes carry (-Ey, Ex)", et_, [-E[1], E[0]])
        # flux of a forward wave: Re(conj(A a) a), A = Q/(omega q)
        P.eq(n + "mode amplitudes are the transverse magnetic field (k x E)/k0", a0, [u[1] * E[2] - u[2] * E[1], u[2] * E[0] - u[0] * E[2]])
        P.eq(n + "flux of the mode amplitudes is cos(theta)", et_[0] * a0[0] + et_[1] * a0[1], cp(T))
    P.files |= W.files


def waves(P):
    for be in bks(P, "numpy", "torch"):
        wave(P, be)


def incident(P):
    construct.build(P, ("a0", "flux", "omega"))


PARTS = [waves, incident]
