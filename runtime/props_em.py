"""Concrete statements of the electromagnetic properties (P01-P09, P12-P15, P20, P21)."""
from common import *

TOL = 1e-6


def fld(sim, l, z):
    F = A(sim.get_field_fourier(l, z))[0]
    return F[0], F[1]


def zin(rng, case, i):
    """a height inside layer i (outer layers extend to infinity)"""
    n, th, wl = len(case["layers"]), case["layers"][i]["th"], case["pw"]["wl"]
    x = rfloat(rng, 0.02, 0.98)
    if i == 0:
        return th - 0.3 * wl * x
    if i == n - 1:
        return 0.3 * wl * x
    return x * th


def kxy(sim, case, lat):
    """own computation of the transverse wavevectors"""
    wl = case["pw"]["wl"]
    th, ph, _ = np.deg2rad(case["pw"]["angles"])
    n = np.sqrt(complex(*case["layers"][0]["eps"]))
    k0 = 2 * np.pi / wl * n * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    K = recip(case)
    H = A(sim.harmonics)
    return k0[0] + K[0] @ H, k0[1] + K[1] @ H


def recip(case):
    bv = case["lat"]["bv"]
    if case["lat"]["kind"] == "1D":
        M = np.array([[bv, 0], [0, 1.0]]).T
    else:
        M = np.array(bv, float).T
    return 2 * np.pi * np.linalg.inv(M).T


def toep(u, H):
    Nx, Ny = u.shape
    # direct sum, not FFT
    H = np.asarray(H).astype(int)
    D1 = H[0][:, None] - H[0][None]
    D2 = H[1][:, None] - H[1][None]
    ex = lambda N, d: np.exp(-2j * np.pi * np.outer(d, np.arange(N)) / N)
    d1, i1 = np.unique(D1, return_inverse=True)
    d2, i2 = np.unique(D2, return_inverse=True)
    C = ex(Nx, d1) @ u @ ex(Ny, d2).T / (Nx * Ny)
    return C[i1.reshape(D1.shape), i2.reshape(D2.shape)]


def blk(a):
    return np.block(a)


def para_operator(case, L, sim, lat, layer):
    """own construction of the operator giving (-Dy, Dx) from (-Ey, Ex)"""
    H = A(sim.harmonics)
    nh = H.shape[1]
    Z = np.zeros((nh, nh))
    if L["kind"] == "uniform":
        e = complex(*L["eps"])
        return e * np.eye(2 * nh), e * np.eye(nh)
    eps = eps_of(L, lat.discretization)
    rot = lambda e: blk([[e[1][1], -e[1][0]], [-e[0][1], e[0][0]]])
    if eps.ndim == 4:
        E = rot([[toep(eps[i, j], H) for j in range(2)] for i in range(2)])
        ezz = toep(eps[2, 2], H)
    else:
        t = toep(eps, H)
        E = blk([[t, Z], [Z, t]])
        ezz = t
    f = case["form"]
    if f == "original":
        return E, ezz
    # inverse rule operator
    if eps.ndim == 4:
        M = np.moveaxis(eps[:2, :2], (0, 1), (-2, -1))
        nu = np.moveaxis(np.linalg.inv(M), (-2, -1), (0, 1))
        V = np.linalg.inv(blk([[toep(nu[i, j], H) for j in range(2)] for i in range(2)]))
        V = rot([[V[:nh, :nh], V[:nh, nh:]], [V[nh:, :nh], V[nh:, nh:]]])
    else:
        v = np.linalg.inv(toep(1 / eps, H))
        V = blk([[v, Z], [Z, v]])
    if case["lat"]["kind"] == "1D":
        return blk([[E[:nh, :nh], Z], [Z, V[nh:, nh:]]]), ezz
    tang = layer.get_tangent_field(sim.lattice.get_harmonics(sim.nh, sort=True)[0], normalize=(f == "tangent"))
    if f == "jones":
        tang = layer.get_jones_field(tang)
    t = A(tang)
    n2 = np.abs(t[0]) ** 2 + np.abs(t[1]) ** 2
    n2 = np.sqrt(n2) + np.finfo(float).eps
    n2 = n2 ** 2
    # normal projector in the (-Ey,Ex) basis: conj(t) t^T / |t|^2
    Pi = blk([[toep(np.conj(t[i]) * t[j] / n2, H) for j in range(2)] for i in range(2)])
    return E - (E - V) @ Pi, ezz


def maxwell(sim, case, lat, iL, z):
    L = case["layers"][iL]
    layer = sim.layers[iL]
    w = 2 * np.pi / case["pw"]["wl"]
    kx, ky = kxy(sim, case, lat)
    P, ezz = para_operator(case, L, sim, lat, layer)
    kmax = np.max(np.abs(kx)) + np.max(np.abs(ky)) + w * np.sqrt(np.max(np.abs(P)))
    h = 2e-3 / kmax
    zs = [z + k * h for k in (-2, -1, 0, 1, 2)]
    F = A(sim.get_field_fourier(iL, zs))
    c = np.array([1, -8, 0, 8, -1]) / (12 * h)
    dF = np.tensordot(c, F, (0, 0))
    (ex, ey, ez), (hx, hy, hz) = F[2]
    (dex, dey, _), (dhx, dhy, _) = dF
    s = np.max(np.abs(F)) * kmax + 1e-300
    nh = len(ex)
    D = P @ np.hstack([-ey, ex])
    dx, dy = D[nh:], -D[:nh]
    for msg, a, b in [
        ("(curl E)_x = i w H_x", 1j * ky * ez - dey, 1j * w * hx),
        ("(curl E)_y = i w H_y", dex - 1j * kx * ez, 1j * w * hy),
        ("(curl E)_z = i w H_z", 1j * kx * ey - 1j * ky * ex, 1j * w * hz),
        ("(curl H)_x = -i w D_x", 1j * ky * hz - dhy, -1j * w * dx),
        ("(curl H)_y = -i w D_y", dhx - 1j * kx * hz, -1j * w * dy),
        ("(curl H)_z = -i w D_z", 1j * kx * hy - 1j * ky * hx, -1j * w * (ezz @ ez)),
    ]:
        close(a, b, 2e-5, f"layer {iL} ({L['kind']}, {case['form']}) z={z}: {msg}", scale=s)


# ------------------------------------------------------------------ P01
def gen_P01(rng):
    lat1 = rng.random() < 0.3
    c = gen_case(rng, lossless=True, lattices=("1D",) if lat1 else ("square", "rect", "oblique"),
                 formulations=("original", "tangent") if lat1 else ("original",),
                 kinds=("uniform", "patterned") if lat1 else ("uniform", "patterned", "aniso"))
    if rng.random() < 0.25:
        c["layers"][-1]["eps"] = [1.0, 0.0]      # total internal reflection
        c["layers"][0]["eps"] = [rfloat(rng, 3, 9), 0.0]
    if rng.random() < 0.15 and len(c["layers"]) > 2:
        L = c["layers"][1]
        if L["kind"] == "uniform":
            L["eps"] = [-rfloat(rng, 1, 6), 0.0]
            L["th"] = min(L["th"], 0.3)
    if rng.random() < 0.1:
        c["layers"][-1]["eps"] = [-rfloat(rng, 1, 6), 0.0]
    return c


def run_P01(nn, c):
    lat = mk_lattice(nn, c)
    sim = well_posed(mk_sim(nn, c, lat))
    R, T = sim.diffraction_efficiencies()
    close(R + T, 1.0, 1e-6, "R+T=1", scale=1.0)
    Ri, Ti = (A(x) for x in sim.diffraction_efficiencies(orders=True))
    need(Ri.min() > -1e-7 and Ti.min() > -1e-7, f"negative efficiency {Ri.min()} {Ti.min()}")
    w = 2 * np.pi / c["pw"]["wl"]
    kx, ky = kxy(sim, c, lat)
    kt2 = (kx ** 2 + ky ** 2).real
    for nm, e, X in (("reflected", c["layers"][0]["eps"][0], Ri), ("transmitted", c["layers"][-1]["eps"][0], Ti)):
        ev = kt2 > w ** 2 * e * (1 + 1e-6)
        if ev.any():
            close(X[ev], 0 * X[ev], 1e-8, f"evanescent {nm} orders carry no power", scale=1.0)


# ------------------------------------------------------------------ P02
def gen_P02(rng):
    return gen_case(rng, nlay=int(rng.integers(0, 5)), tall=0.05)


def run_P02(nn, c):
    sim = well_posed(mk_sim(nn, c))
    n = len(sim.layers)
    for i in np.random.default_rng(c["nh"]).permutation(n - 1):
        i = int(i)
        e1, h1 = fld(sim, i, sim.layers[i].thickness)
        e2, h2 = fld(sim, i + 1, 0)
        s = max(1.0, np.abs(e1).max(), np.abs(e2).max())
        for k, nm in ((0, "x"), (1, "y")):
            close(e1[k], e2[k], TOL, f"E{nm} continuous at interface {i}|{i+1}", scale=s)
            close(h1[k], h2[k], TOL, f"H{nm} continuous at interface {i}|{i+1}", scale=max(s, np.abs(h1).max()))
    # incident field in the first layer: forward part is the plane wave
    inc = mk_pw(nn, c)
    del inc


# ------------------------------------------------------------------ P03
def gen_P03(rng):
    return gen_case(rng, nlay=int(rng.integers(1, 4)), maxnh=20, force_pattern=True)


def run_P03(nn, c):
    if c["lat"]["kind"] == "1D" and c["form"] != "original" and any(L["kind"] == "aniso" for L in c["layers"]):
        raise Skip("not supported")
    lat = mk_lattice(nn, c)
    sim = well_posed(mk_sim(nn, c, lat))
    rng = np.random.default_rng(c["nh"])
    for i in range(len(sim.layers)):
        maxwell(sim, c, lat, i, zin(rng, c, i))


# ------------------------------------------------------------------ P04
def gen_P04(rng):
    c = gen_case(rng, nlay=int(rng.integers(1, 5)), maxnh=16, tall=0.08)
    n = len(c["layers"])
    reqs = []
    for _ in range(int(rng.integers(2, 7))):
        i = int(rng.integers(0, n - 1))
        reqs.append([i, int(rng.integers(i + 1, n))])
    c["reqs"] = reqs
    c["cut"] = [int(rng.integers(1, n - 1)), rfloat(rng, 0.05, 0.95)]
    return c


def star(P, Q):
    I = np.eye(len(P[0][0]))
    X = np.linalg.solve(I - P[0][1] @ Q[1][0], np.hstack([P[0][0], P[0][1] @ Q[1][1]]))
    n = len(I)
    a0, ab = X[:, :n], X[:, n:]
    S11, S12 = Q[0][0] @ a0, Q[0][0] @ ab + Q[0][1]
    b0, bb = Q[1][0] @ a0, Q[1][0] @ ab + Q[1][1]
    return [[S11, S12], [P[1][0] + P[1][1] @ b0, P[1][1] @ bb]]


def run_P04(nn, c):
    lat = mk_lattice(nn, c)
    sim = well_posed(mk_sim(nn, c, lat))
    n = len(sim.layers)
    el = {}
    for i in range(n - 1):      # elementary matrices from independent simulations
        s = mk_sim(nn, c)
        el[i] = [[A(x) for x in r] for r in s.get_S_matrix(indices=(i, i + 1))]
    def ref(i, j):
        M = el[i]
        for k in range(i + 1, j):
            M = star(M, el[k])
        return M
    for (i, j) in c["reqs"] + [[0, n - 1]]:
        S = sim.get_S_matrix(indices=(i, j))
        R = ref(i, j)
        for a in range(2):
            for b in range(2):
                close(S[a][b], R[a][b], 1e-5, f"S matrix of layers {i}..{j} after {c['reqs']}, block {a}{b}",
                      scale=max(1, np.abs(R[a][b]).max()))
    S = sim.get_S_matrix()
    R = ref(0, n - 1)
    for a in range(2):
        for b in range(2):
            close(S[a][b], R[a][b], 1e-5, f"full S matrix, block {a}{b}", scale=max(1, np.abs(R[a][b]).max()))
    # cutting
    k, x = c["cut"]
    c2 = json.loads(json.dumps(c))
    L = c2["layers"][k]
    L2 = dict(L, th=L["th"] * (1 - x), name="second part")
    L["th"] *= x
    c2["layers"].insert(k + 1, L2)
    sim2 = mk_sim(nn, c2)
    for a, b in zip(sim.diffraction_efficiencies(orders=True), sim2.diffraction_efficiencies(orders=True)):
        close(a, b, 1e-6, f"efficiencies after cutting layer {k}", scale=1.0)
    z = 0.4 * L2["th"]
    for F, G in zip(fld(sim, k, L["th"] + z), fld(sim2, k + 1, z)):
        close(F, G, 1e-5, f"field in the cut layer {k}", scale=max(1, np.abs(F).max()))


# ------------------------------------------------------------------ P05
QUERIES = ["eff", "effo", "effc", "effoc", "effd", "S", "Spart", "field", "fieldgrid", "amp", "flux", "stress", "epsilon",
           "solve", "resetS", "resetsolve", "resetall", "newsim", "other", "otherfirst", "order", "failother", "failself", "change", "change"]


def gen_P05(rng):
    c = gen_case(rng, nlay=int(rng.integers(1, 4)), maxnh=12, tall=0.08)
    if rng.random() < 0.4:
        pats = [L for L in c["layers"] if L["kind"] != "uniform"]
        if pats:
            c["copyof"] = c["layers"].index(pats[0])
    c["seq"] = [[str(rng.choice(QUERIES)), int(rng.integers(1 << 30))] for _ in range(int(rng.integers(3, 10)))]
    return c


def query(nn, sim, q, seed):
    r = np.random.default_rng(seed)
    n = len(sim.layers)
    i = int(r.integers(0, n))
    z = rfloat(r, 0, 0.3)
    if q == "eff":
        return sim.diffraction_efficiencies()
    if q == "effo":
        return sim.diffraction_efficiencies(orders=True)
    if q == "effc":
        return sim.diffraction_efficiencies(complex=True)
    if q == "effoc":
        return sim.diffraction_efficiencies(orders=True, complex=True)
    if q == "effd":
        return sim.diffraction_efficiencies(orders=True, return_dict=True)
    if q == "S":
        return sim.get_S_matrix()
    if q == "Spart":
        a = int(r.integers(0, n - 1))
        return sim.get_S_matrix(indices=(a, int(r.integers(a + 1, n))))
    if q == "field":
        return sim.get_field_fourier(i, [z, 0.0])
    if q == "fieldgrid":
        return sim.get_field_grid(i, z)
    if q == "amp":
        return sim._get_amplitudes(i, z)
    if q == "flux":
        a = sim._get_amplitudes(i, 0.0)
        return sim.get_z_poynting_flux(sim.get_layer(i)[0], *a)
    if q == "stress":
        if sim.get_layer(i)[0].is_epsilon_anisotropic:
            return None
        return sim.get_z_stress_tensor_integral(i, z)
    if q == "epsilon":
        return sim.get_epsilon(i)
    if q == "order":
        R, T = sim.diffraction_efficiencies(orders=True)
        return sim.get_order(R, (0, 0)), sim.get_order(T, (0, 0))
    if q == "solve":
        return sim.solve()
    if q == "resetS":
        return sim.reset("S")
    if q == "resetsolve":
        return sim.reset("solve")
    if q == "resetall":
        return sim.reset()


def flat(x):
    if x is None:
        return []
    if isinstance(x, dict):
        return sum(([k] + flat(v) for k, v in sorted(x.items())), [])
    if isinstance(x, (list, tuple)):
        return sum((flat(v) for v in x), [])
    return [A(x)]


def same(a, b, msg, tol=1e-8):
    a, b = flat(a), flat(b)
    need(len(a) == len(b), f"{msg}: structure differs")
    for x, y in zip(a, b):
        close(x, y, tol, msg, scale=max(1.0, np.abs(x).max() if np.size(x) else 0))


def gauge_free(q):
    return q not in ("S", "Spart", "amp")


class Interrupted(Exception):
    pass


def interrupted(*a, **k):
    raise Interrupted()


def run_P05(nn, c):
    lat = mk_lattice(nn, c)
    pw = mk_pw(nn, c)

    mods = {}

    def build(lat, pw):
        ls = mk_layers(nn, c, lat)
        if "copyof" in c:
            cp = ls[c["copyof"]].copy("the copy")
            ls.insert(len(ls) - 1, cp)
        for i, th in mods.items():
            ls[i].thickness = th
        return ls

    layers = build(lat, pw)
    raw = [A(l.epsilon).copy() for l in layers]
    desc = [(l.name, l.thickness) for l in layers]
    sim = nn.Simulation(list(layers), pw, nh=c["nh"], formulation=c["form"])
    well_posed(nn.Simulation(build(lat, pw), pw, nh=c["nh"], formulation=c["form"]))
    # another simulation sharing the layers
    pw2 = nn.PlaneWave(wavelength=c["pw"]["wl"] * 1.37, angles=(12, 34, 56))
    other = nn.Simulation(list(layers), pw2, nh=max(2, c["nh"] // 2), formulation=c["form"])
    otherrev = nn.Simulation([layers[0]] + list(layers)[2:], pw2, nh=c["nh"], formulation=c["form"]) if len(layers) > 2 else other
    import copy as _copy
    past = []
    for q, seed in c["seq"]:
        if q == "newsim":
            sim = nn.Simulation(list(layers), pw, nh=c["nh"], formulation=c["form"])
            continue
        if q == "other":
            r = query(nn, other, "effo", seed)
            fresh = nn.Simulation(build(lat, pw2), pw2, nh=max(2, c["nh"] // 2), formulation=c["form"])
            same(r, query(nn, fresh, "effo", seed), "simulation sharing layers vs fresh")
            continue
        if q == "otherfirst":
            otherrev.solve()
            continue
        if q == "change":
            # the user changes a layer and resets explicitly
            if len(layers) < 3:
                continue
            r = np.random.default_rng(seed)
            i = int(r.integers(1, len(layers) - 1))
            mods[i] = rfloat(r, 0.05, 0.9)
            layers[i].thickness = mods[i]
            desc[i] = (desc[i][0], mods[i])
            for s_ in (sim, other, otherrev):
                s_.reset()
            if r.random() < 0.5:
                q = str(r.choice(["Spart", "field", "amp", "effo"]))
            else:
                continue
        if q in ("failother", "failself"):
            # a computation that stops with an exception part of the way
            s_ = otherrev if q == "failother" else sim
            if q == "failself":
                sim.reset()
            bad = s_.layers[int(np.random.default_rng(seed).integers(0, len(s_.layers)))]
            bad.solve_uniform = bad.solve_eigenproblem = interrupted
            try:
                s_.solve()
            except Interrupted:
                pass
            del bad.solve_uniform, bad.solve_eigenproblem
            continue
        out = query(nn, sim, q, seed)
        if out is None:
            continue
        fresh = nn.Simulation(build(mk_lattice(nn, c), pw), mk_pw(nn, c), nh=c["nh"], formulation=c["form"])
        same(out, query(nn, fresh, q, seed), f"'{q}' after {[s[0] for s in c['seq']]} vs a fresh simulation", tol=1e-7)
        past.append((q, out, _copy.deepcopy([np.array(v) for v in flat(out)])))
    for q, out, snap in past:
        for a, b in zip(flat(out), snap):
            need(np.array_equal(np.asarray(a), b), f"value returned earlier by '{q}' was modified")
    for l, r, d in zip(layers, raw, desc):
        need(np.array_equal(A(l.epsilon), r), "user permittivity modified")
        need((l.name, l.thickness) == d, "layer description modified")
    ref = mk_pw(nn, c)
    need(np.array_equal(A(ref.a0), A(pw.a0)) and np.array_equal(A(ref.wavevector), A(pw.wavevector))
         and np.array_equal(A(ref.amplitude), A(pw.amplitude)), "plane wave modified")


# ------------------------------------------------------------------ P06
def gen_P06(rng):
    return gen_case(rng, lossless_in=True, maxnh=30)


def run_P06(nn, c):
    c["layers"][-1]["eps"][1] = 0.0
    if c["layers"][-1]["eps"][0] < 0:
        c["layers"][-1]["eps"][0] *= -1
    sim = well_posed(mk_sim(nn, c))
    R, T = sim.diffraction_efficiencies()
    Ri, Ti = (A(x) for x in sim.diffraction_efficiencies(orders=True))
    close(Ri.sum(), R, 1e-9, "sum of reflected orders", scale=1.0)
    close(Ti.sum(), T, 1e-9, "sum of transmitted orders", scale=1.0)
    r, t = (A(x) for x in sim.diffraction_efficiencies(orders=True, complex=True))
    close((np.abs(r) ** 2).sum(0), Ri, 1e-6, "|r|^2 vs efficiencies", scale=1.0)
    close((np.abs(t) ** 2).sum(0), Ti, 1e-6, "|t|^2 vs efficiencies", scale=1.0)
    rs, ts = (A(x) for x in sim.diffraction_efficiencies(complex=True))
    close(r.sum(1), rs, 1e-9, "complex totals R", scale=1.0)
    close(t.sum(1), ts, 1e-9, "complex totals T", scale=1.0)
    D = sim.diffraction_efficiencies(orders=True, return_dict=True)
    H = A(sim.harmonics).astype(int)
    seen = [(i, j) for i, d in D[0].items() for j in d]
    need(sorted(seen) == sorted(map(tuple, H.T.tolist())), "keys of the dictionary are the diffraction orders")
    need(sorted((i, j) for i, d in D[1].items() for j in d) == sorted(seen), "keys of T dictionary")
    for k, (m, n) in enumerate(H.T.tolist()):
        need(sim.get_order_index((m, n)) == k, f"index of order {(m, n)}")
        close(sim.get_order(Ri, (m, n)), Ri[k], 0, "get_order R")
        close(D[0][m][n], Ri[k], 0, f"dictionary entry R {(m, n)}", scale=1.0)
        close(D[1][m][n], Ti[k], 0, f"dictionary entry T {(m, n)}", scale=1.0)
        if sim.lattice.is_1D:
            need(sim.get_order_index(m) == k, f"index of 1D order {m}")
    Dc = sim.diffraction_efficiencies(orders=True, complex=True, return_dict=True)
    need(len(Dc) == 2, "two dictionaries")


# ------------------------------------------------------------------ P07
def gen_P07(rng):
    c = gen_case(rng, lossless=bool(rng.random() < 0.4), nlay=int(rng.integers(1, 3)), maxnh=16)
    c["aseed"] = int(rng.integers(1 << 30))
    return c


def run_P07(nn, c):
    from nannos import backend as bk
    sim = well_posed(mk_sim(nn, c))
    rng = np.random.default_rng(c["aseed"])
    for i in range(len(sim.layers)):
        z = rfloat(rng, 0, 0.2)
        e, h = fld(sim, i, z)
        a, b = sim._get_amplitudes(i, z)
        f, g = sim.get_z_poynting_flux(sim.layers[i], a, b)
        S = (e[0] * h[1].conj() - e[1] * h[0].conj()).real
        close(A(f) + A(g), S, 1e-7, f"flux in layer {i}", scale=max(1.0, np.abs(A(f)).max(), np.abs(e).max() * np.abs(h).max()))
        x = rng.normal(size=(2, 2 * sim.nh)) + 1j * rng.normal(size=(2, 2 * sim.nh))
        f1, b1 = sim.get_z_poynting_flux(sim.layers[i], bk.array(x[0]), bk.array(x[1]))
        f2, b2 = sim.get_z_poynting_flux(sim.layers[i], bk.array(x[1]), bk.array(x[0]))
        s = max(1.0, np.abs(A(f1)).max())
        close(A(f1), -A(b2), 1e-8, f"swap of amplitudes, layer {i}", scale=s)
        close(A(b1), -A(f2), 1e-8, f"swap of amplitudes, layer {i}", scale=s)


# ------------------------------------------------------------------ P08
def gen_P08(rng):
    c = gen_case(rng, nlay=1, kinds=("patterned",), maxnh=12)
    c["layers"][1]["kind"] = "const"
    c["layers"][1]["eps"] = [1.0, 0.0]
    c["layers"][0]["eps"] = [1.0, 0.0]
    c["layers"][-1]["eps"] = [1.0, 0.0]
    if rng.random() < 0.3:
        c["pw"]["angles"][0] = rfloat(rng, 95, 260) if rng.random() < 0.5 else rfloat(rng, 1, 89)
    return c


def run_P08(nn, c):
    pw = mk_pw(nn, c)
    wl = c["pw"]["wl"]
    th, ph, ps = np.deg2rad(c["pw"]["angles"])
    k = 2 * np.pi / wl * np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    p = np.array([np.cos(th) * np.cos(ph), np.cos(th) * np.sin(ph), -np.sin(th)])
    s = np.array([-np.sin(ph), np.cos(ph), 0])
    E = np.cos(ps) * p + np.sin(ps) * s
    close(pw.wavevector, k, 1e-12, "wave vector")
    close(pw.wavenumber, 2 * np.pi / wl, 1e-12, "wavenumber")
    close(pw.amplitude, E, 1e-12, "electric field amplitude")
    close(np.linalg.norm(A(pw.amplitude)), 1.0, 1e-12, "unit amplitude")
    close(A(pw.amplitude) @ A(pw.wavevector), 0.0, 1e-11, "transversality", scale=np.abs(k).max())
    close(pw.frequency_scaled, 1 / wl, 1e-13, "frequency")
    need(abs(np.cos(th)) > 1e-3 or True, "")
    if np.cos(th) < 0.02:
        return
    sim = well_posed(mk_sim(nn, c))
    i0 = sim.get_order_index((0, 0))
    # empty space: the field everywhere is the incident plane wave
    for i, z in ((0, 0.0), (1, 0.3 * c["layers"][1]["th"]), (2, 0.0)):
        e, h = fld(sim, i, z)
        zz = {0: 0.0, 1: c["layers"][0]["th"] + z, 2: c["layers"][0]["th"] + c["layers"][1]["th"]}[i]
        ph_ = np.exp(1j * k[2] * zz)
        o = np.zeros(sim.nh); o[i0] = 1
        close(e, np.outer(E, o) * ph_, 1e-6, f"E of the plane wave in empty layer {i}", scale=1.0)
        close(h, np.outer(np.cross(k, E) * wl / 2 / np.pi, o) * ph_, 1e-6, f"H of the plane wave in empty layer {i}", scale=1.0)
    R, T = sim.diffraction_efficiencies()
    close(T, 1.0, 1e-7, "empty space transmits all", scale=1.0)
    close(R, 0.0, 1e-7, "empty space reflects nothing", scale=1.0)
    close(sim.incident_flux, np.cos(th), 1e-10, "incident flux", scale=1.0)


# ------------------------------------------------------------------ P09
def gen_P09(rng):
    return gen_case(rng, nlay=1, kinds=("patterned",), maxnh=30)


def run_P09(nn, c):
    lat = mk_lattice(nn, c)
    bv = c["lat"]["bv"]
    M = np.array([[bv, 0], [0, 1.0]]) if c["lat"]["kind"] == "1D" else np.array(bv, float)
    close(A(lat.matrix).T, M, 1e-14, "basis vectors are columns")
    K = A(lat.reciprocal)
    close(K.T @ A(lat.matrix), 2 * np.pi * np.eye(2), 1e-10, "K.L = 2 pi", scale=1.0)
    area = abs(M[0][0] * M[1][1] - M[0][1] * M[1][0])
    close(lat.area, area, 1e-12, "area")
    sim = mk_sim(nn, c, lat)
    kx, ky = kxy(sim, c, lat)
    close(sim.kx, kx, 1e-11, "kx", scale=max(1, np.abs(kx).max()))
    close(sim.ky, ky, 1e-11, "ky", scale=max(1, np.abs(ky).max()))
    g = A(lat.grid)
    u = A(lat.unit_grid)
    Nx, Ny = lat.discretization
    need(u.shape == (2, Nx, Ny), "unit grid shape")
    xs, ys = np.linspace(0, 1, Nx), np.linspace(0, 1, Ny)
    close(u[0], np.broadcast_to(xs[:, None], (Nx, Ny)), 1e-13, "unit grid x", scale=1.0)
    close(u[1], np.broadcast_to(ys[None], (Nx, Ny)), 1e-13, "unit grid y", scale=1.0)
    close(g, np.tensordot(M.T, u, (1, 0)), 1e-12, "grid points", scale=np.abs(M).max())
    if c["lat"]["kind"] == "1D":
        need(lat.is_1D and lat.discretization[1] == 1, "mono-periodic")
        cx, w = 0.3 * bv, 0.37 * bv
        m = A(lat.stripe(cx, w))
        want = np.abs(xs * bv - cx) <= w / 2
        edge = np.abs(np.abs(xs * bv - cx) - w / 2) < 1e-9
        need(((m[:, 0] == want) | edge).all(), "stripe")


# ------------------------------------------------------------------ P12
def gen_P12(rng):
    c = gen_case(rng, nlay=1, kinds=("patterned",), maxnh=30, minN=27)
    c["useed"] = int(rng.integers(1 << 30))
    return c


def run_P12(nn, c):
    from nannos.formulations import fft
    from nannos import backend as bk
    lat = mk_lattice(nn, c)
    sim = mk_sim(nn, c, lat)
    Nx, Ny = lat.discretization
    rng = np.random.default_rng(c["useed"])
    u = rng.normal(size=(Nx, Ny)) + 1j * rng.normal(size=(Nx, Ny))
    v = rng.normal(size=(Nx, Ny))
    H = A(sim.harmonics)
    B = lambda x: bk.array(x)
    Tu = A(sim._get_toeplitz_matrix(B(u)))
    close(Tu, toep(u, H), 1e-10, "convolution matrix", scale=1.0)
    Tv = A(sim._get_toeplitz_matrix(B(v)))
    close(Tv, Tv.conj().T, 1e-11, "Hermitian for real functions", scale=1.0)
    close(sim._get_toeplitz_matrix(B(2.5 * u - 1j * v)), 2.5 * Tu - 1j * Tv, 1e-10, "linear", scale=1.0)
    close(sim._get_toeplitz_matrix(B((2 - 3j) * np.ones((Nx, Ny)))), (2 - 3j) * np.eye(sim.nh), 1e-12, "constant", scale=1.0)
    U = fft.fourier_transform(B(u))
    close(U, np.fft.fft2(u) / u.size, 1e-11, "Fourier coefficients", scale=1.0)
    close(fft.inverse_fourier_transform(U), u, 1e-10, "round trip", scale=1.0)
    tens = np.array([[u, v], [1j * v, u * v]])
    Tt = sim._get_toeplitz_matrix(B(tens), transverse=True)
    for i in range(2):
        for j in range(2):
            close(Tt[i][j], toep(tens[i, j] + 0j, H), 1e-10, f"tensor entry {i}{j}", scale=1.0)
    u3 = rng.normal(size=(Nx, Ny, 3)) + 0j
    U3 = fft.fourier_transform(B(u3), axes=(0, 1))
    close(U3, np.fft.fft2(u3, axes=(0, 1)) / (Nx * Ny), 1e-11, "axes", scale=1.0)
    close(fft.inverse_fourier_transform(U3, axes=(0, 1)), u3, 1e-10, "round trip axes", scale=1.0)


# ------------------------------------------------------------------ P13
def gen_P13(rng):
    mode = str(rng.choice(["const", "tensor", "stripe", "stripey"]))
    if mode in ("const", "tensor"):
        lats = ("square", "rect", "oblique") if mode == "tensor" else ("square", "rect", "oblique", "1D")
        c = gen_case(rng, nlay=int(rng.integers(1, 4)), maxnh=20, kinds=("uniform", "patterned"),
                     lattices=lats, formulations=("original",) if mode == "tensor" else None)
        k = int(rng.integers(1, len(c["layers"]) - 1))
        c["layers"][k] = dict(kind="const" if mode == "const" else "tensor", eps=gen_eps(rng, False), eps2=[1, 0], pat="blocks",
                              pseed=1, th=min(c["layers"][k]["th"], 2.0), name=c["layers"][k]["name"])
        e = c["layers"][k]["eps"]
        c["layers"][k]["tensor"] = [[e, [0, 0], [0, 0]], [[0, 0], e, [0, 0]], [[0, 0], [0, 0], e]]
        c["k"] = k
    else:
        c = gen_case(rng, nlay=int(rng.integers(1, 3)), maxnh=12, kinds=("uniform",), lattices=("1D",), formulations=("original", "tangent"))
        k = int(rng.integers(1, len(c["layers"]) - 1))
        c["layers"][k].update(kind="patterned", eps2=gen_eps(rng, False), pat="blocks", pseed=int(rng.integers(1 << 30)), th=min(c["layers"][k]["th"], 2.0))
        c["k"] = k
        c["nh"] = int(2 * rng.integers(1, 5) + 1)
        c["form2"] = c["form"] if c["form"] == "original" else str(rng.choice(["tangent", "pol"]))
    c["mode"] = mode
    return c


def run_P13(nn, c):
    k = c["k"]
    if c["mode"] in ("const", "tensor"):
        sim = well_posed(mk_sim(nn, c))
        c2 = json.loads(json.dumps(c))
        c2["layers"][k]["kind"] = "uniform"
        sim2 = mk_sim(nn, c2)
        if sim2.nh != sim.nh:      # all-uniform stack: single harmonic
            R, T = sim.diffraction_efficiencies()
            R2, T2 = sim2.diffraction_efficiencies()
            close(R, R2, 1e-7, "R constant array vs uniform", scale=1.0)
            close(T, T2, 1e-7, "T constant array vs uniform", scale=1.0)
            return
        same(sim.diffraction_efficiencies(orders=True), sim2.diffraction_efficiencies(orders=True),
             f"{c['form']}: constant array vs uniform layer", 1e-6)
        z = 0.3 * c["layers"][k]["th"]
        for F, G in zip(fld(sim, k, z), fld(sim2, k, z)):
            close(F, G, 1e-5, "fields constant array vs uniform", scale=max(1.0, np.abs(F).max()))
        return
    lat = mk_lattice(nn, c)
    sim = well_posed(mk_sim(nn, c, lat))
    a = c["lat"]["bv"]
    N = c["lat"]["disc"][0]
    H = A(sim.harmonics).astype(int)
    Ny = 12
    swap = c["mode"] == "stripey"
    bv = ((a, 0), (0, 1.0)) if not swap else ((1.0, 0), (0, a))
    H2 = H if not swap else H[::-1].copy()
    lat2 = nn.Lattice(bv, discretization=(N, Ny) if not swap else (Ny, N), harmonics_array=H2)
    ls = []
    for L in c["layers"]:
        e = eps_of(L, (N, 1))
        tf = None
        if L["kind"] != "uniform":
            e = np.repeat(e, Ny, 1)
            e = e.T.copy() if swap else e
            # stripes along y: tangent along y
            one, zero = np.ones(e.shape), np.zeros(e.shape)
            from nannos import backend as bk
            tf = [bk.array(zero), bk.array(one)] if not swap else [bk.array(one), bk.array(zero)]
        ls.append(lat2.Layer(L["name"], epsilon=e, thickness=L["th"], tangent_field=tf))
    ang = list(c["pw"]["angles"])
    pw = mk_pw(nn, c)
    if swap:
        # mirror x<->y: phi -> 90-phi, psi -> -psi
        pw = nn.PlaneWave(c["pw"]["wl"], angles=(ang[0], 90 - ang[1], -ang[2]))
    sim2 = nn.Simulation(ls, pw, nh=c["nh"], formulation=c["form2"])
    same(sim.diffraction_efficiencies(orders=True), sim2.diffraction_efficiencies(orders=True),
         f"mono-periodic {c['form']} vs bi-periodic {c['form2']} ({c['mode']})", 1e-6)


# ------------------------------------------------------------------ P14
def gen_P14(rng):
    c = gen_case(rng, nlay=int(rng.integers(1, 3)), maxnh=20)
    c["mseed"] = int(rng.integers(1 << 30))
    if rng.random() < 0.25:     # uniform layers with gain: still the dispersion relation
        for L in c["layers"]:
            if L["kind"] == "uniform" and L["eps"][1] > 0:
                L["eps"][1] = -L["eps"][1]
    return c


def run_P14(nn, c):
    lat = mk_lattice(nn, c)
    sim = mk_sim(nn, c, lat)
    sim.solve()
    w = 2 * np.pi / c["pw"]["wl"]
    kx, ky = kxy(sim, c, lat)
    for i, (L, l) in enumerate(zip(c["layers"], sim.layers)):
        q, v = A(l.eigenvalues), A(l.eigenvectors)
        qs = max(w, np.abs(q).max())
        if L["kind"] != "uniform" or (L["eps"][1] >= 0):
            # rounding: the branch is decided up to sqrt(eps)
            need((q.imag >= -2e-8 * np.abs(q) - 1e-9 * qs).all(), f"layer {i}: growing mode, Im q = {q.imag.min()}")
        if L["kind"] == "uniform":
            ex = w ** 2 * complex(*L["eps"]) - kx ** 2 - ky ** 2
            close(q ** 2, np.hstack([ex, ex]), 1e-9, f"layer {i}: dispersion relation")
            need(((q.real >= -1e-9 * qs)).all(), "forward uniform modes")
        else:
            M = A(l.matrix)
            close(M @ v, v * q ** 2, 1e-6, f"layer {i}: eigen relation", scale=np.abs(M).max() * np.abs(v).max())
            need(np.linalg.matrix_rank(v) == len(q) or np.linalg.cond(v) > 1e8, "complete set of modes")
            # propagating up to rounding: forward
            need((q.real >= 0)[np.abs(q.imag) <= 1e-10 * np.abs(q)].all(), f"layer {i}: propagating mode reversed")
    rng = np.random.default_rng(c["mseed"])
    n = int(rng.integers(2, 9))
    M = rng.normal(size=(n, n)) * 2 + 1j * rng.normal(size=(n, n))
    from nannos import backend as bk
    lay = nn.layers.Layer("m", epsilon=2)
    q, v = (A(x) for x in lay.solve_eigenproblem(bk.array(M)))
    close(M @ v, v * q ** 2, 1e-8, "eigen relation (random matrix)", scale=np.abs(M).max())
    need((q.imag >= -2e-8 * np.abs(q)).all(), "branch (random matrix)")


# ------------------------------------------------------------------ P15
def gen_P15(rng):
    c = gen_case(rng, nlay=int(rng.integers(1, 4)), maxnh=12)
    ops = []
    n = len(c["layers"])
    for j in range(int(rng.integers(1, 4))):
        ops.append(dict(src=int(rng.integers(1, n - 1)), depth=int(rng.integers(1, 3)), pos=int(rng.integers(0, 3)),
                        replace=bool(rng.random() < 0.4), mod=str(rng.choice(["none", "none", "th", "eps"])),
                        th=rfloat(rng, 0, 0.5), pre=bool(rng.random() < 0.3)))
    c["ops"] = ops
    return c


def run_P15(nn, c):
    lat = mk_lattice(nn, c)
    base = mk_layers(nn, c, lat)
    if any(o["pre"] for o in c["ops"]):      # the originals were already used by another simulation
        nn.Simulation(list(base), nn.PlaneWave(c["pw"]["wl"] * 1.3, angles=(5, 6, 7)), nh=c["nh"], formulation=c["form"]).diffraction_efficiencies()
    twin = mk_layers(nn, c, mk_lattice(nn, c))
    lat2 = twin[0].lattice
    st, st2 = list(base), list(twin)
    for k, o in enumerate(c["ops"]):
        src, L = base[o["src"]], c["layers"][o["src"]]
        cp = src
        for d in range(o["depth"]):
            cp = cp.copy(f"copy{k}.{d}") if (k + d) % 2 == 0 else cp.copy()
            cp.name = f"copy{k}.{d}"
        th, eps = L["th"], eps_of(L, lat.discretization)
        if o["mod"] == "th":
            th = o["th"]
            cp.thickness = th
        if o["mod"] == "eps":
            from nannos import backend as bk
            eps = eps * 1.25
            cp.epsilon = bk.array(eps, dtype=bk.complex128)
        t = lat2.Layer(cp.name, epsilon=eps, thickness=th, tangent_field_type=c["tang"])
        if o["replace"] and src in st:
            i = st.index(src)
            st[i], st2[i] = cp, t
        else:
            i = 1 + o["pos"] % max(1, len(st) - 1)
            st.insert(i, cp)
            st2.insert(i, t)
    pw = mk_pw(nn, c)
    ref = nn.Simulation(st2, pw, nh=c["nh"], formulation=c["form"])
    well_posed(ref)
    sim = nn.Simulation(st, pw, nh=c["nh"], formulation=c["form"])
    same(sim.diffraction_efficiencies(orders=True), ref.diffraction_efficiencies(orders=True), f"stack with copies {c['ops']}", 1e-7)
    for i in range(len(st)):
        for F, G in zip(fld(sim, i, 0.0), fld(ref, i, 0.0)):
            close(F, G, 1e-6, f"fields in layer {i} of a stack with copies", scale=max(1.0, np.abs(F).max()))
    for l, L in zip(base, c["layers"]):
        need(l.name == L["name"] and l.thickness == L["th"], "original modified by its copy")


# ------------------------------------------------------------------ P20
def gen_P20(rng):
    return gen_case(rng, nlay=int(rng.integers(1, 4)), kinds=("uniform", "patterned"), maxnh=20,
                    formulations=None, lossless=bool(rng.random() < 0.6))


def run_P20(nn, c):
    lat = mk_lattice(nn, c)
    sim = well_posed(mk_sim(nn, c, lat))
    rng = np.random.default_rng(c["nh"])
    H = A(sim.harmonics)
    w = 2 * np.pi / c["pw"]["wl"]
    kx, ky = kxy(sim, c, lat)
    for i, L in enumerate(c["layers"]):
        zs = [zin(rng, c, i) for _ in range(3)]
        Ts = []
        for z in zs:
            T = [float(A(t)) for t in sim.get_z_stress_tensor_integral(i, z)]
            (ex, ey, ez), (hx, hy, hz) = fld(sim, i, z)
            if L["kind"] == "uniform":
                D = complex(*L["eps"]) * np.array([ex, ey, ez])
            else:
                t = toep(eps_of(L, lat.discretization), H)
                D = np.array([t @ ex, t @ ey, t @ ez])
            c_ = np.conj
            Tx = (ex * c_(D[2]) + hx * c_(hz)).real.sum()
            Ty = (ey * c_(D[2]) + hy * c_(hz)).real.sum()
            Tz = 0.5 * (ez * c_(D[2]) + hz * c_(hz) - ex * c_(D[0]) - ey * c_(D[1]) - hx * c_(hx) - hy * c_(hy)).real.sum()
            s = max(1.0, (np.abs(D) ** 2).sum(), (abs(ex) ** 2 + abs(hx) ** 2 + abs(hy) ** 2 + abs(hz) ** 2).sum())
            close(T, [Tx, Ty, Tz], 1e-8, f"stress in layer {i} at z={z}", scale=s)
            Ts.append((np.array(T), s))
        if L["kind"] == "uniform" and L["eps"][1] == 0:
            for T in Ts[1:]:
                close(T[0], Ts[0][0], 1e-6, f"stress independent of z in homogeneous layer {i}", scale=max(T[1], Ts[0][1]))


# ------------------------------------------------------------------ P21
def gen_P21(rng):
    c = gen_case(rng, nlay=int(rng.integers(1, 3)), maxnh=14)
    c["shape"] = [int(rng.integers(15, 40)), int(rng.integers(15, 40))]
    c["zs"] = [rfloat(rng, 0, 0.3) for _ in range(int(rng.integers(1, 4)))]
    return c


def run_P21(nn, c):
    lat = mk_lattice(nn, c)
    sim = well_posed(mk_sim(nn, c, lat))
    H = A(sim.harmonics).astype(int)
    if 2 * np.abs(H).max() >= min(c["shape"]):
        raise Skip("Nyquist")
    rng = np.random.default_rng(c["nh"])
    i = int(rng.integers(len(sim.layers)))

    def synth(u, shape):
        x, y = np.arange(shape[0]) / shape[0], np.arange(shape[1]) / shape[1]
        ex = np.exp(2j * np.pi * np.outer(x, H[0]))
        ey = np.exp(2j * np.pi * np.outer(y, H[1]))
        return np.einsum("...k,xk,yk->xy...", u, ex, ey)

    if rng.random() < 0.5 and H[1].any():
        shapes = [tuple(c["shape"])]
    else:
        shapes = [tuple(c["shape"]) if H[1].any() else (c["shape"][0], 1), None]
    F = A(sim.get_field_fourier(i, c["zs"]))       # (nz,2,3,nh)
    for k, z in enumerate(c["zs"]):
        F0 = A(sim.get_field_fourier(i, z))
        close(F0[0], F[k], 1e-12, f"list of z vs scalar z (number {k})", scale=max(1, np.abs(F0).max()))
    for shape in shapes:
        E, Hh = (A(x) for x in sim.get_field_grid(i, z=c["zs"], shape=shape))
        shp = shape or lat.discretization
        for nm, G, f in (("E", E, 0), ("H", Hh, 1)):
            want = np.array([synth(F[:, f, k], shp) for k in range(3)])
            s = max(1, np.abs(want).max())
            close(G, want, 1e-9, f"{nm} on grid {shp}", scale=s)
            for comp, k in (("x", 0), ("y", 1), ("z", 2)):
                a = A(sim.get_field_grid(i, z=c["zs"], shape=shape, field=nm, component=comp))
                close(a, want[k], 1e-9, f"{nm}{comp} selection", scale=s)
                b = A(sim.get_field_grid(i, z=c["zs"], shape=shape, field="all", component=comp)[f])
                close(b, want[k], 1e-9, f"all,{comp} selection", scale=s)
            fn = sim.get_Efield_grid if nm == "E" else sim.get_Hfield_grid
            close(fn(i, z=c["zs"], shape=shape), want, 1e-9, f"{nm} field accessor", scale=s)
            close(fn(i, z=c["zs"], shape=shape, component="y"), want[1], 1e-9, f"{nm} field accessor y", scale=s)
    u = rng.normal(size=sim.nh) + 1j * rng.normal(size=sim.nh)
    from nannos import backend as bk
    shp = shapes[0]
    close(sim.get_ifft(bk.array(u), shp), synth(u, shp), 1e-10, "synthesis", scale=np.abs(u).sum())
    us = np.array([u, u[::-1]])
    close(sim.get_ifft_amplitudes(bk.array(us), shp), np.stack([synth(v, shp) for v in us], axis=-1), 1e-10, "synthesis of several sets", scale=np.abs(u).sum())
    close(np.squeeze(A(sim.get_ifft_amplitudes(bk.array(u), shp))), np.squeeze(synth(u, shp)), 1e-10, "synthesis of one set", scale=np.abs(u).sum())
    for k, L in enumerate(c["layers"]):
        e = A(sim.get_epsilon(k))
        if L["kind"] == "uniform":
            close(e, complex(*L["eps"]), 1e-14, "epsilon of a uniform layer")
            continue
        eps = eps_of(L, lat.discretization)
        eps = eps[2, 2] if eps.ndim == 4 else eps
        i0 = [j for j in range(sim.nh) if not H[:, j].any()][0]
        close(e, synth(toep(eps, H)[:, i0], lat.discretization), 1e-9, "truncated permittivity", scale=np.abs(eps).max() * 3)


# ------------------------------------------------------------------ P25
OTHERS = ("scipy", "autograd", "torch", "jax")


def gen_P25(rng):
    c = gen_case(rng, maxnh=14, nlay=int(rng.integers(0, 3)), minN=24, kinds=("uniform",) if rng.random() < 0.25 else ("uniform", "patterned", "aniso"))
    c["rseed"] = int(rng.integers(1 << 30))
    c["others"] = ["torch"] + [b for b in ("scipy", "autograd", "jax") if rng.random() < 0.4]
    c["zs"] = [rfloat(rng, 0, 0.3), rfloat(rng, 0, 0.3)]
    return c


def everything(nn, c):
    """name -> (array, scale): the results of one set-up with the backend in use; orders by their indices"""
    from nannos import backend as bk
    from nannos import optimize as op
    from nannos.formulations.fft import fourier_transform, inverse_fourier_transform
    from nannos.utils import apply_filter
    out = {}

    def put(n, a, scale=None):
        a = A(a)
        out[n] = (a, max(1.0, np.abs(a).max() if a.size else 0) if scale is None else scale)
    lat = mk_lattice(nn, c)
    layers = mk_layers(nn, c, lat)
    pw = mk_pw(nn, c)
    rng = np.random.default_rng(c["rseed"])
    u = rng.uniform
    for n in ("wavelength", "wavenumber", "wavevector", "amplitude", "a0"):
        put("wave " + n, getattr(pw, n))
    put("area", lat.area)
    put("reciprocal", lat.reciprocal)
    put("grid", lat.grid)
    # helpers
    dens = u(0, 1, (16, 16)) if rng.random() < 0.5 else u(0, 1, (12, 17))
    arr = lambda a: bk.array(np.array(a))
    put("project", op.project(arr(dens), u(1, 30), u(0.1, 0.9)))
    nt = int(rng.integers(2, 5))
    put("multi_project", op.multi_project(arr(dens), u(1, 30), nt))
    put("multi_simp", op.multi_simp(arr(dens), [float(v) for v in u(1, 9, nt)], int(rng.integers(1, 3))), 20)
    put("simp", op.simp(arr(dens), u(1, 2), u(2, 9), 2))
    rf = float(u(1, 4))
    if min(dens.shape) == 16:
        put("apply_filter", apply_filter(arr(dens), rf))
        put("apply_filter 2", apply_filter(arr(dens), (rf, 1.7)))
    cx = u(-1, 1, (9, 14)) + 1j * u(-1, 1, (9, 14))
    put("fourier", fourier_transform(arr(cx)))
    put("inverse fourier", inverse_fourier_transform(arr(cx)))
    if not lat.is_1D:
        bv = np.array(c["lat"]["bv"])
        ctr = tuple(float(v) for v in bv.T @ u(0.4, 0.6, 2))
        s = np.linalg.norm(bv, axis=1).min()
        put("circle", np.array(A(lat.circle(ctr, float(s * u(0.1, 0.3)))), float))
        put("ellipse", np.array(A(lat.ellipse(ctr, (float(s * u(0.1, 0.3)), float(s * u(0.1, 0.3))), rotate=float(u(0, 180)))), float))
        put("rectangle", np.array(A(lat.rectangle(ctr, (float(s * u(0.1, 0.3)), float(s * u(0.1, 0.3))), rotate=float(u(0, 180)))), float))
    sim = mk_sim(nn, c, lat, layers, pw)
    H = A(sim.harmonics).astype(int)
    o = np.lexsort(H)
    oo = np.concatenate([o, o + len(o)])
    out["harmonics"] = (H[:, o], 1.0)
    put("kx", A(sim.kx)[o])
    put("ky", A(sim.ky)[o])
    g = u(0.5, 3, lat.discretization)
    put("toeplitz", A(sim._get_toeplitz_matrix(arr(g + 0j)))[o][:, o])
    for i, L in enumerate(c["layers"]):
        if L["kind"] == "patterned" and not lat.is_1D:
            t = layers[i].get_tangent_field(sim.harmonics, normalize=bool(u() < 0.5), type="fft")
            t = np.array([A(v) for v in t])
            put(f"tangent field {i}", t)
    well_posed(sim)
    R, T = sim.diffraction_efficiencies(orders=True)
    put("R", A(R)[o]); put("T", A(T)[o])
    tot = sim.diffraction_efficiencies()
    put("total R", tot[0]); put("total T", tot[1])
    if c["layers"][-1]["eps"][1] == 0 and c["layers"][-1]["eps"][0] > 0:
        r, t = sim.diffraction_efficiencies(orders=True, complex=True)
        put("r", A(r)[..., o]); put("t", A(t)[..., o])
    S = sim.get_S_matrix()
    put("S matrix", np.array([[A(S[a][b])[oo][:, oo] for b in range(2)] for a in range(2)]))
    for i in range(len(layers)):
        zs = [z * c["layers"][i]["th"] for z in c["zs"]]
        F = A(sim.get_field_fourier(i, zs))[..., o]
        put(f"field {i}", F)
        put(f"stress {i}", [float(A(v).real) for v in sim.get_z_stress_tensor_integral(i, zs[0])]) if L_ok(c, i) else None
        sc = max(1.0, np.abs(F).max())
        if 2 * np.abs(H).max() < 15:
            shape = (15, 16) if H[1].any() else (15, 1)
            put(f"grid field {i}", sim.get_field_grid(i, z=zs[0], shape=shape), sc * 3)
        an, bn = sim._get_amplitudes(i, zs[0])
        f, b = sim.get_z_poynting_flux(sim.layers[i], an, bn)
        put(f"flux {i}", [A(f)[o], A(b)[o]], None)
        put(f"epsilon {i}", sim.get_epsilon(i))
    return out


def L_ok(c, i):
    return c["layers"][i]["kind"] in ("uniform", "patterned")


def run_P25(nn, c):
    import nannos
    flat_ = all(L["kind"] == "uniform" for L in c["layers"])
    try:
        nannos.set_backend("numpy")
        ref = everything(nannos, c)
        for b in c["others"]:
            nannos.set_backend(b)
            need(nannos.get_backend() == b, f"backend {b} not selected")
            got = everything(nannos, c)
            need(set(got) == set(ref), f"{b}: results {set(got) ^ set(ref)}")
            for n, (a, s) in ref.items():
                close(got[n][0], a, 1e-8 if n in PREC or flat_ else 1e-6, f"{n} with {b} differs from numpy", scale=max(s, got[n][1]))
    finally:
        nannos.set_backend("numpy")


# computed without eigenproblem nor linear system: rounding only
PREC = {"project", "multi_project", "simp", "apply_filter", "apply_filter 2", "fourier", "inverse fourier", "wave wavelength", "wave wavenumber",
        "wave wavevector", "wave amplitude", "wave a0", "area", "reciprocal", "grid", "kx", "ky", "toeplitz", "harmonics"}


# ------------------------------------------------------------------ P24
P24_MAPS = ("eps", "ceps", "dens", "aniso")


def gen_P24(rng):
    oned = bool(rng.random() < 0.25)
    form = "tangent" if oned and rng.random() < 0.5 else "original"
    par = str(rng.choice(["eps", "eps", "ceps", "dens", "aniso", "th", "uth", "uni", "sub", "sup", "wl", "theta", "phi", "psi", "strip"]))
    if oned and par in ("dens", "aniso"):
        par = "eps"
    if not oned and rng.random() < 0.2:
        form = str(rng.choice(["tangent", "jones", "pol"]))     # torch only
    return dict(seed=int(rng.integers(1 << 30)), oned=oned, form=form, par=par, nh=int(rng.choice([3, 5, 7] if oned else [1, 5, 7, 9])),
                obj=str(rng.choice(["R", "T", "Rn", "Tn", "c", "order", "E", "F", "stress", "B"])),
                disc=[int(rng.integers(12, 19)), int(rng.integers(12, 19))], rank=bool(rng.random() < 0.3),
                angles=[rfloat(rng, 5, 60), rfloat(rng, -170, 170), rfloat(rng, 10, 80)], wl=rfloat(rng, 0.7, 2.2), th=rfloat(rng, 0.1, 0.6),
                uth=rfloat(rng, 0.05, 0.4), uni=rfloat(rng, 1.2, 5), sub=rfloat(rng, 1.2, 5), sup=rfloat(rng, 1, 3), iterative=bool(rng.random() < 0.5),
                lay=str(rng.choice(["grating", "grating", "slab", "Superstrate", "Substrate"])))


def run_P24(nn, c):
    bk, be = nn.backend, nn.get_backend()
    if be not in ("autograd", "torch"):
        try:
            nn.grad(lambda x: x * x)(1.0)
        except NotImplementedError:
            raise Skip("refused, as it should")
        raise Fail(f"a gradient was returned by {be}")
    from nannos import optimize as op
    obj, par, oned = c["obj"], c["par"], c["oned"]
    if be == "autograd" and not oned:
        c["form"] = "original"
    if be == "autograd":        # fields (and amplitudes, made from them) are refused with an error by autograd
        obj = {"E": "R", "F": "T", "stress": "Tn", "c": "Rn"}.get(obj, obj)
    N = (c["disc"][0] + 8, 1) if oned else tuple(c["disc"])
    rng = np.random.default_rng(c["seed"])
    m0, m1, md = rng.random(N) * 3 + 1.2, rng.random(N), rng.random(N)
    al, wt = rng.random(3) * 0.3, rng.random(6)
    size = int(np.prod(N)) if par in P24_MAPS else 1
    start = {"eps": np.zeros(size), "ceps": 0.2 * rng.random(size), "dens": 0.1 + 0.8 * md.ravel(), "aniso": 0.2 * rng.random(size),
             "th": [c["th"]], "uth": [c["uth"]], "uni": [c["uni"]], "sub": [c["sub"]], "sup": [c["sup"]], "wl": [c["wl"]], "theta": [c["angles"][0]],
             "phi": [c["angles"][1]], "psi": [c["angles"][2]], "strip": [0.4]}[par]
    x0 = np.array(start, float)
    vec = size > 1 or c["rank"]

    def sim(p):
        v = (lambda k: p[0] if vec else p)
        g = lambda k: v(k) if par == k else c[k]
        lat = nn.Lattice(1.0, discretization=N[0]) if oned else nn.Lattice(([1.0, 0], [0.21, 1.07]), discretization=N)
        eps = nn.array(m0)
        if par == "eps":
            eps = eps + bk.reshape(p, N)
        elif par == "ceps":
            eps = eps + 1j * bk.reshape(p, N)
        elif par == "dens":
            d = op.apply_filter(bk.reshape(p, N), 2.0)
            if c["iterative"]:
                eps = op.multi_simp(op.multi_project(d, 3.0, 3), [1.5, 3.0, 5.0], p=1)
            else:
                eps = op.simp(op.project(d, 3.0, c["th"]), 1.5, 5.0, p=2)
        elif par == "strip":
            eps = eps + v("strip") * nn.array(m1)
        st = lat.Layer("grating", thickness=g("th"), tangent_field_type="fft")
        if par == "aniso":
            z, o = 0 * eps, 1 + 0 * eps
            q = bk.reshape(p, N)
            if be == "torch":
                rows = [bk.stack(r) for r in ([eps + q, q * al[0], z], [q * al[1], eps + al[2] * q, z], [z, z, o * 2 + q])]
                eps = bk.stack(rows)
            else:
                eps = bk.array([[eps + q, q * al[0], z], [q * al[1], eps + al[2] * q, z], [z, z, o * 2 + q]])
        st.epsilon = eps
        th, ph, ps = c["angles"]
        ang = (v("theta") if par == "theta" else th, v("phi") if par == "phi" else ph, v("psi") if par == "psi" else ps)
        ls = [lat.Layer("Superstrate", epsilon=g("sup")), lat.Layer("slab", epsilon=g("uni"), thickness=g("uth")), st,
              lat.Layer("Substrate", epsilon=g("sub"))]
        pw = nn.PlaneWave(g("wl"), angles=ang)
        return nn.Simulation(ls, pw, nh=c["nh"], formulation=c["form"])

    def f(p):
        return value(sim(p))

    def value(s):
        k = min(1, s.nh - 1)
        if obj in ("R", "T"):
            return s.diffraction_efficiencies()[obj == "T"]
        if obj in ("Rn", "Tn"):
            return s.diffraction_efficiencies(orders=True)[obj == "Tn"][k] + 0.5 * s.diffraction_efficiencies(orders=True)[0][0]
        if obj == "order":
            R, T = s.diffraction_efficiencies(orders=True)
            return s.get_order(R, (0, 0)) + 2 * s.get_order(T, (0, 0))
        if obj == "B":
            R, T = s.diffraction_efficiencies()
            return R + T
        if obj == "c":
            t = s.diffraction_efficiencies(orders=True, complex=True)
            return bk.sum(bk.abs(t[1][0][0]) ** 2) if hasattr(t[1][0], "__len__") else bk.abs(t[1][0]) ** 2
        if obj == "E":
            E, H = s.get_field_grid(c.get("lay", "grating"), z=[0.05, 0.08] if c["iterative"] else 0.05)
            return sum(float(wt[k]) * bk.sum(bk.abs(E[k]) ** 2) + float(wt[3 + k]) * bk.sum(bk.abs(H[k]) ** 2) for k in range(3))
        if obj == "F":
            F = s.get_field_fourier(c.get("lay", "slab"), z=0.03)[0]
            return sum(float(wt[3 * i + k]) * bk.sum(bk.abs(F[i][k]) ** 2) for i in range(2) for k in range(3))
        if obj == "stress":
            return s.get_z_stress_tensor_integral("Substrate", z=0.02)[2]

    def fv(x):
        with np.errstate(all="ignore"):
            return float(np.real(A(f(nn.array(x if vec else x[0], dtype=bk.float64)))))

    s0 = sim(nn.array(x0 if vec else x0[0], dtype=bk.float64))
    s0.solve()
    w = float(np.real(A(s0.omega)))
    for l in s0.layers:
        q = A(l.eigenvalues)
        if np.min(np.abs(q)) < 2e-2 * w:
            raise Skip("grazing order")
        if not l.is_uniform:
            u = q ** 2
            gap = np.abs(u[:, None] - u[None]) + np.eye(len(u)) * 1e9
            if np.min(gap) < 1e-4 * w * w or np.linalg.cond(A(l.eigenvectors)) > 1e5:
                raise Skip("degenerate modes")
    d = rng.normal(size=len(x0))
    d /= np.linalg.norm(d)
    h = 2e-4 * max(1.0, float(np.max(np.abs(x0))) if size == 1 else 1.0)
    D = lambda h: (fv(x0 + h * d) - fv(x0 - h * d)) / (2 * h)
    D1, D2, D4 = D(h), D(h / 2), D(h / 4)
    R1, R2 = (4 * D2 - D1) / 3, (4 * D4 - D2) / 3
    sc = max(abs(R2), 1e-3 * max(1.0, abs(fv(x0))))
    if not np.isfinite(R1 + R2) or abs(R1 - R2) > 1e-5 * sc:
        raise Skip("no reliable differences")
    g = nn.grad(f)(nn.array(x0 if vec else x0[0], dtype=bk.float64))
    gd = 0.0 if g is None else float(np.real(np.ravel(A(g))) @ d)
    need(g is not None or abs(R2) <= 1e-8, f"no gradient of {obj} with respect to {par}, differences give {R2:g}")
    if not np.isfinite(gd):
        raise Skip("gradient is not finite (square root at zero)")
    need(abs(gd - R2) <= 1e-4 * sc, f"derivative of {obj} with respect to {par}: {gd:.10g}, differences give {R2:.10g}")
