"""P21: fields in real space are the Fourier synthesis of the reported harmonics."""
from .common import *
from . import construct, layers as ly, p12
from nnv.load import Transformed, Gathered, ZeroND, SumOver, Lifted, COEFS

BACKENDS = p12.BACKENDS


def synthesis(P, n, t, sim, shape, coef):
    """t = sum over orders i of coef(i) exp(2 pi i (m_i p/Nx + n_i q/Ny)): the inverse transform, times the number of
    points, of the sum over i of coef(i) times the array equal to one at (m_i, n_i) and zero elsewhere"""
    if not isinstance(t, Transformed) or not isinstance(t.x, SumOver) or not isinstance(t.x.delta, ZeroND):
        return P.add(n, "undecided", "", 0, f"result is {type(t).__name__} of {type(getattr(t, 'x', None)).__name__}")
    S = t.x
    d = S.delta
    P.true(n + ": inverse transform along the axes of the pixels", t.inverse and p12.norm_axes(t) == [0, 1], str(t.axes))
    P.goal(n + ": normalization (number of pixels)", [topoly(t.scale) - topoly(shape[0]) * topoly(shape[1])])
    P.goal(n + ": every order, once", [topoly(S.n) - nh().p])
    P.true(n + ": nothing else is added", isinstance(S.v0, (int, float)) and S.v0 == 0 or isinstance(S.v0, ZeroND) and S.v0.idx is None, repr(S.v0)[:80])
    P.goal(n + ": shape", [topoly(a) - topoly(b) for a, b in zip(d.shape, shape)])
    if d.idx is None:
        return P.add(n + ": index of the order", "refuted", "", 0, "no coefficient is set")
    p, q = sim.harmonics.pair(S.index)
    P.goal(n + ": the coefficient of order (m, n) is at index (m, n)", [topoly(d.idx[0]) - topoly(p), topoly(d.idx[1]) - topoly(q)])
    P.goal(n + ": coefficient of the order", [topoly(d.coef) - topoly(coef(S.index))])


def synth(P):
    P.fn("Simulation.get_ifft", "Simulation.get_ifft_amplitudes", "formulations.fft.inverse_fourier_transform", "backends.set_index")
    P.trust("ifft2 of numpy/scipy/torch/jax/autograd: the inverse discrete Fourier transform by its definition",
            "indices of arrays are taken modulo the length (-n <= index < n): numpy semantics")
    for be in bks(P, *BACKENDS):
        W = World(be)

        def run():
            sim = make(W)
            sim.harmonics = construct.Harm()
            shape = (SInt.var("sx"), SInt.var("sy"))
            for x in shape:
                CTX.assume(zpoly(x.p) >= 1)
            u = vec("u", 1)
            j = SInt.var("iz")
            nz = SInt.var("nz")
            CTX.assume(z3().And(zpoly(j.p) >= 0, zpoly(j.p) < zpoly(nz.p)))
            one = TArr(np.empty((1,), object), 1)
            one.data[0] = u
            k = CTX.choose(4, "function")
            if k == 0:
                t, full = sim.get_ifft(u, shape), shape
            elif k == 1:
                t, full = sim.get_ifft_amplitudes(u, shape), shape + (1,)
            elif k == 2:
                t, full = sim.get_ifft_amplitudes(one, shape), shape + (1,)
            else:
                t, full = sim.get_ifft_amplitudes(Lifted(nz, j, u), shape), shape + (nz,)
            return sim, t, full, u, k
        for r in P.paths(f"[{be}] synthesis", run):
            sim, t, full, u, k = r.value
            nm = ("get_ifft", "get_ifft_amplitudes of one set", "get_ifft_amplitudes of a set of one", "get_ifft_amplitudes of a list of sets (any element)")[k]
            synthesis(P, f"[{be}] {nm}", t, sim, full, lambda i: u[i])
        P.files |= W.prog.files


def selections(P):
    """field and component arguments select parts of the full result"""
    P.fn("Simulation.get_field_grid", "Simulation.get_Efield_grid", "Simulation.get_Hfield_grid")
    P.trust("the contracts of get_field_fourier (P03) and get_ifft_amplitudes (above)")
    F, C = ("all", "E", "H"), ("all", "x", "y", "z")
    for be in bks(P, "numpy", "torch", "jax"):
        W = World(be)
        W.kinds = ("uniform", "patterned")

        def run():
            sim = make(W)
            sim._ok = True
            sim.lattice = ly.Lat()
            i0 = SInt.var("idx")
            CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
            layer = sim.layers.at(i0)
            zs = CTX.choose(2, "list of heights")
            z = scal("z", "real")
            j, nz = SInt.var("iz"), SInt.var("nz")
            CTX.assume(z3().And(zpoly(j.p) >= 0, zpoly(j.p) < zpoly(nz.p)))
            arg = SymList(nz, lambda i: z) if zs else z
            cell = TArr(np.empty((2, 3), object), 1)
            for f in range(2):
                for c in range(3):
                    cell.data[f, c] = vec("eh"[f] + "xyz"[c], 1)
            full = TArr(cell.data.reshape(1, 2, 3), 1)
            asked, used = [], {}

            def gff(li, z=0):
                asked.append((li, z))
                return Lifted(nz, j, cell) if zs else full

            def gia(amps, shape, axes=(0, 1)):
                v = amps.cell if isinstance(amps, Lifted) else amps[0]
                if not isinstance(v, Vec) or tuple(axes) not in ((0, 1),):
                    raise Unsupported("amplitudes of another shape")
                (p, k), = v.parts
                g = grid("grid of " + str(p))
                used[id(g)] = shape
                used[str(p)] = g
                return g
            sim.get_field_fourier = gff
            sim.get_ifft_amplitudes = gia
            shape = (SInt.var("sx"), SInt.var("sy"))
            E = lambda s: None
            k = CTX.choose(3, "method")
            out = {}
            if k == 0:
                for f in F:
                    for c in C:
                        out[f, c] = sim.get_field_grid(i0, arg, shape=shape, field=f, component=c)
                out["def"] = sim.get_field_grid(i0, arg, shape)
            elif k == 1:
                for c in C:
                    out["E", c] = sim.get_Efield_grid(i0, arg, shape=shape, component=c)
                out["Edef"] = sim.get_Efield_grid(i0, arg, shape)
            else:
                for c in C:
                    out["H", c] = sim.get_Hfield_grid(i0, arg, shape=shape, component=c)
                out["Hdef"] = sim.get_Hfield_grid(i0, arg, shape)
            return sim, i0, layer, arg, shape, cell, asked, used, out
        for r in P.paths(f"[{be}] selections", run):
            sim, i0, layer, arg, shape, cell, asked, used, out = r.value
            n = f"[{be}] ({r.label()})"
            P.true(n + " the harmonics of the layer and heights asked for", bool(asked) and all(topoly(a[0]) == i0.p if isinstance(a[0], SInt) else a[0] is layer for a in asked)
                   and all(a[1] is arg or isinstance(a[1], Sc) and isinstance(arg, Sc) and topoly(a[1]) == topoly(arg) for a in asked))
            shp = [v for k, v in used.items() if not isinstance(k, str)]
            P.true(n + " on the grid asked for", all(len(s) == 2 and all(topoly(a) == topoly(b) for a, b in zip(s, shape)) for s in shp))

            def want(f, c):
                return grid("grid of " + str(cell.data[f, c].parts[0][0]))

            def same(a, b):
                return isinstance(a, Grid) and all(is_zero(x[0] - y[0]) for x, y in zip(a.parts, b.parts))

            def comps(a, f, c):
                if c == "all":
                    if isinstance(a, Grid):
                        return False
                    if not isinstance(a, TArr) or a.data.shape != (3,):
                        return None
                    return all(same(a[i], want(f, i)) for i in range(3))
                return same(a, want(f, C.index(c) - 1)) if isinstance(a, Grid) else False if isinstance(a, TArr) else None

            def check(nm, a, f, c):
                if f == "all":
                    if not isinstance(a, (tuple, list)) or len(a) != 2:
                        return P.add(nm, "undecided", "", 0, type(a).__name__)
                    for i in range(2):
                        check(nm + (": E", ": H")[i], a[i], F[i + 1], c)
                    return
                k = comps(a, F.index(f) - 1, c)
                if k is None:
                    return P.add(nm, "undecided", "", 0, f"result is {type(a).__name__}")
                P.true(nm, k)
            for key, a in out.items():
                if isinstance(key, str):
                    check(f"{n} {key}ault selection", a, {"def": "all", "Edef": "E", "Hdef": "H"}[key], "all")
                else:
                    check(f"{n} field={key[0]} component={key[1]}", a, *key)
        P.files |= W.prog.files


def heights(P):
    """fields at a list of heights are, one by one, those at each height"""
    P.fn("Simulation.get_field_fourier", "_translate_amplitudes", "phasor")
    for be in bks(P, "numpy", "jax"):
        W = World(be)
        ly.structured(W)
        i0 = SInt.var("idx")
        z = scal("z", "real")

        def run():
            sim = make(W)
            sim._ok = True
            CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
            layer = sim.layers.at(i0)
            a, b = vec("a", 2), vec("b", 2)
            sim._get_amplitudes = lambda li, z=0, translate=True: (a, b) if not translate else W.simmod._translate_amplitudes(layer, z, a, b)
            one = sim.get_field_fourier(i0, z)
            nz = SInt.var("nz")
            many = sim.get_field_fourier(i0, SymList(nz, lambda i: z))
            one = one[0] if isinstance(one, TArr) else one.generic()
            return layer, one, many.generic() if not isinstance(many, TArr) else many[0]
        for r in P.paths(f"[{be}] heights", run):
            l, one, many = r.value
            for f in range(2):
                for c in range(3):
                    P.eq(f"[{be}] {l.kind}: {'EH'[f]}{'xyz'[c]} at a list of heights", many[f, c], one[f, c])
        P.files |= W.prog.files


def permittivity(P):
    """get_epsilon: the truncated Fourier series of the profile"""
    P.fn("Simulation.get_epsilon", "Simulation._get_toeplitz_matrix", "Simulation.get_ifft")
    for be in bks(P, *BACKENDS):
        W = World(be)
        W.kinds = ("uniform", "patterned", "tensor")

        def run():
            sim = make(W)
            sim._ok = True
            h = construct.Harm()
            sim.harmonics = h
            sim.index_zeroth_order = h.zero
            sim.lattice = construct.Facts()
            disc = (SInt.var("dx"), SInt.var("dy"))
            for x in disc:
                CTX.assume(zpoly(x.p) >= 1)
            sim.lattice.discretization = disc
            i0 = SInt.var("idx")
            CTX.assume(z3().And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p)))
            layer = sim.layers.at(i0)
            an = layer.kind == "tensor"
            return sim, layer, an, disc, sim.get_epsilon(i0)
        for r in P.paths(f"[{be}] get_epsilon", run):
            sim, l, an, disc, t = r.value
            n = f"[{be}] get_epsilon, {l.kind}"
            if l.kind == "uniform":
                P.true(n + ": the permittivity itself", t is l.epsilon or topoly(t) == topoly(l.epsilon))
                continue
            prof = l.epsilon[2, 2] if an else l.epsilon
            if not isinstance(t, Transformed) or not isinstance(t.x, SumOver) or not isinstance(t.x.delta, ZeroND):
                P.add(n, "undecided", "", 0, f"result is {type(t).__name__}")
                continue
            got = t.x.delta.coef
            co = COEFS.get(topoly(got).key())
            synthesis(P, n, t, sim, disc, lambda i: got)
            if co is None:
                P.add(n + ": coefficients", "undecided", "", 0, "")
                continue
            G, i, j = co
            p12.is_transform(P, n + ": coefficients", G.x, prof, False, p12.size(prof).inverse())
            ab = G.f(i, j)
            pq = sim.harmonics.pair(t.x.index)
            z = [zpoly(topoly(ab[c])) == zpoly(topoly(pq[c])) for c in range(2)]
            P.z(n + ": the coefficient of order (m, n) is that of index (m, n)", z3().And(*z), r.cond)
        P.files |= W.prog.files


def lemmas(P):
    P.lean("Dft.lean", ["e_periodic", "e_sum", "dft_character", "dft_inverse"])


PARTS = [synth, heights, selections, permittivity, lemmas]
