"""Bounded companion: builds concrete cases and runs the REAL nannos code on them.

Used (a) to search and replay failing inputs for obligations the deductive
engine could not discharge, (b) as the labelled bounded stand-in for what is
outside of the engine's reach.  Nothing here counts as proved.
"""
import os, sys, json, warnings
os.environ.setdefault("MPLBACKEND", "agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
REPO = os.environ.get("NNV_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np


def load(backend=None):
    if backend and backend != "numpy":
        os.environ["NANNOS_BACKEND"] = backend
    else:
        os.environ.pop("NANNOS_BACKEND", None)
    os.environ.pop("NANNOS_GPU", None)
    import nannos
    import logging
    logging.disable(logging.CRITICAL)
    TF[0] = {"torch": 10.0, "jax": 10.0}.get(backend, 1.0)
    assert os.path.dirname(os.path.abspath(nannos.__file__)).startswith(REPO), nannos.__file__
    return nannos


def A(x):
    """to numpy"""
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    if isinstance(x, (list, tuple)):
        return np.array([A(y) for y in x])
    return np.asarray(x)


# ---------------------------------------------------------------- cases

def rfloat(rng, a, b):
    return round(float(rng.uniform(a, b)), 6)


def gen_lattice(rng, kinds=("square", "rect", "oblique", "1D"), big=False, minN=20):
    kind = str(rng.choice(list(kinds)))
    N = lambda: int(rng.choice([n for n in (20, 24, 25, 27, 32, 33, 36, 48, 64) if n >= minN]))
    s = rfloat(rng, 0.3, 2.0)
    if kind == "1D":
        return dict(kind=kind, bv=s, disc=[int(rng.choice([64, 81, 100, 128])), 1], trunc="circular")
    if kind == "square":
        bv = [[s, 0], [0, s]]
    elif kind == "rect":
        bv = [[s, 0], [0, round(s * rfloat(rng, 0.4, 2.5), 6)]]
    else:
        al = rng.uniform(0, 2 * np.pi)
        be = al + rng.uniform(np.pi / 4, 3 * np.pi / 4) * rng.choice([1, -1])
        r = rng.uniform(0.6, 1.6)
        bv = [[round(s * np.cos(al), 6), round(s * np.sin(al), 6)],
              [round(s * r * np.cos(be), 6), round(s * r * np.sin(be), 6)]]
    n1 = N()
    disc = [n1, n1] if rng.random() < 0.3 else [n1, N()]
    return dict(kind=kind, bv=bv, disc=disc, trunc=str(rng.choice(["circular", "parallelogrammic"])))


NAMES = ["Substrate", "Superstrate", "a", "b", "layer", "0", "1", "0,1", "film", "x y", "Grating", "sub", "sup",
         "-1", "", "copy", "ä", "L" * 30, "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"]


def gen_eps(rng, lossless):
    e = rfloat(rng, 1, 9)
    if lossless:
        return [e, 0.0]
    if rng.random() < 0.3:
        return [-rfloat(rng, 1, 5), rfloat(rng, 0.05, 2)]
    return [e, rfloat(rng, 0.01, 1.5)]


def gen_layer(rng, lat, lossless, kinds):
    k = str(rng.choice(list(kinds)))
    th = [0.0, rfloat(rng, 1e-4, 0.05), rfloat(rng, 0.05, 1), rfloat(rng, 1, 5), rfloat(rng, 20, 200)][
        int(rng.choice(5, p=[0.08, 0.1, 0.62, 0.15, 0.05]))]
    L = dict(kind=k, th=th, eps=gen_eps(rng, lossless))
    if k != "uniform":
        L["eps2"] = gen_eps(rng, lossless)
        L["pseed"] = int(rng.integers(1 << 30))
        L["pat"] = str(rng.choice(["blocks", "circle", "ellipse", "smooth"]))
        L["complexlossless"] = bool(lossless)
    return L


def gen_case(rng, lossless=None, lattices=("square", "rect", "oblique", "1D"), kinds=("uniform", "patterned", "aniso"),
             nlay=None, formulations=None, maxnh=30, outer="uniform", lossless_in=True, minN=20, force_pattern=False, tang="fft", tall=0.0):
    tall = tall and rng.random() < tall         # stacks of more than ten layers
    if tall:
        nlay, maxnh, kinds = int(rng.integers(9, 14)), 6, ("uniform",) * 6 + tuple(kinds)
    lat = gen_lattice(rng, lattices, minN=minN)
    if formulations is None:
        formulations = ["original", "tangent"] if lat["kind"] == "1D" else ["original", "tangent", "jones", "pol"]
    form = str(rng.choice(list(formulations)))
    if lossless is None:
        lossless = bool(rng.random() < 0.5)
    n = int(rng.integers(0, 4)) if nlay is None else nlay
    inner = [gen_layer(rng, lat, lossless, kinds) for _ in range(n)]
    if tall:
        for L in inner:
            L["th"] = min(L["th"], rfloat(rng, 0.01, 0.3))
    if force_pattern and inner:
        inner[int(rng.integers(len(inner)))] = gen_layer(rng, lat, lossless, [k for k in kinds if k != "uniform"])
    vac = rng.random() < 0.3
    sup = dict(kind="uniform", eps=[1.0, 0.0] if vac else gen_eps(rng, lossless or lossless_in),
               th=float(rng.choice([0, 0, 0.3])))
    sub = dict(kind="uniform", eps=gen_eps(rng, lossless), th=float(rng.choice([0, 0, 0.4])))
    layers = [sup] + inner + [sub]
    if lat["kind"] == "1D":     # the inverse rule of mono-periodic anisotropic layers is not implemented
        if form != "original":
            for L in layers:
                if L["kind"] == "aniso":
                    L["kind"] = "patterned"
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[: len(layers)]]
    for L, nm in zip(layers, names):
        L["name"] = nm
    th = 0.0 if rng.random() < 0.12 else rfloat(rng, 0.5, 80)
    if rng.random() < 0.1:
        th = -th
    ph = 0.0 if rng.random() < 0.1 else rfloat(rng, -400, 400)
    ps = float(rng.choice([0, 90, 45])) if rng.random() < 0.3 else rfloat(rng, -200, 200)
    s = np.linalg.norm(np.array(lat["bv"]).reshape(-1)[:2]) if lat["kind"] != "1D" else lat["bv"]
    wl = round(float(s * rng.uniform(0.35, 3)), 6)
    nh = int(rng.integers(1, maxnh))
    if form in ("jones", "pol", "tangent") and lat["kind"] != "1D":
        nh = min(nh, 16)
    return dict(lat=lat, layers=layers, pw=dict(wl=wl, angles=[th, ph, ps]), nh=nh, form=form, tang=tang)


def pattern(L, shape):
    """the permittivity array described by the case"""
    rng = np.random.default_rng(L["pseed"])
    Nx, Ny = shape
    e1, e2 = complex(*L["eps"]), complex(*L["eps2"])
    X, Y = np.meshgrid(np.arange(Nx) / Nx, np.arange(Ny) / Ny, indexing="ij")
    def mask():
        if L["pat"] == "blocks":
            nx, ny = min(Nx, int(rng.integers(2, 6))), min(Ny, int(rng.integers(2, 6)))
            B = rng.random((nx, ny)) < 0.5
            B[0, 0] = True; B[-1, -1] = False
            return B[(np.arange(Nx) * nx) // Nx][:, (np.arange(Ny) * ny) // Ny]
        cx, cy = rng.uniform(0.3, 0.7, 2)
        if Ny == 1:
            return np.abs(X - cx) < rng.uniform(0.1, 0.25)
        a, b = rng.uniform(0.15, 0.3, 2)
        if L["pat"] == "circle":
            b = a
        t = rng.uniform(0, np.pi)
        x, y = X - cx, Y - cy
        return ((x * np.cos(t) + y * np.sin(t)) / a) ** 2 + ((-x * np.sin(t) + y * np.cos(t)) / b) ** 2 < 1
    def prof(a, b):
        if L["pat"] == "smooth":
            kx, ky = rng.integers(1, 3, 2)
            w = 0.5 + 0.25 * np.cos(2 * np.pi * kx * X + rng.uniform(0, 6)) + 0.25 * np.sin(2 * np.pi * (ky if Ny > 1 else 0) * Y + kx * 2 * np.pi * X)
            return a * w + b * (1 - w)
        return np.where(mask(), a, b).astype(complex)
    if L["kind"] == "patterned":
        return prof(e1, e2)
    if L["kind"] == "const":
        return np.full(shape, e1, complex)
    # in-plane anisotropic tensor
    out = np.zeros((3, 3, Nx, Ny), complex)
    out[0, 0] = prof(e1, e2)
    out[1, 1] = prof(e2 * 1.3, e1)
    out[2, 2] = prof(e1 * 1.1, e2)
    d = 0.3 * min(abs(e1.real), abs(e2.real)) * rng.uniform(0.2, 1)
    off = prof(d, -d) + 1j * prof(0.5 * d, 0.2 * d)
    if L["kind"] == "anisoreal":
        off = off.real
    out[0, 1] = off
    out[1, 0] = off.conj() if L.get("complexlossless") else off * 0.7
    return out


def constaniso(L, shape):
    Nx, Ny = shape
    t = np.array(L["tensor"]).reshape(3, 3, 2)
    t = t[..., 0] + 1j * t[..., 1]
    return np.broadcast_to(t[:, :, None, None], (3, 3, Nx, Ny)).copy()


def mk_lattice(nn, case):
    l = case["lat"]
    if l["kind"] == "1D":
        return nn.Lattice(l["bv"], discretization=l["disc"][0])
    return nn.Lattice(l["bv"], discretization=tuple(l["disc"]), truncation=l["trunc"])


def eps_of(L, shape):
    if L["kind"] == "uniform":
        return complex(*L["eps"])
    if L["kind"] == "tensor":
        return constaniso(L, shape)
    return pattern(L, shape)


def mk_layers(nn, case, lat):
    shape = lat.discretization
    out = []
    for L in case["layers"]:
        out.append(lat.Layer(L["name"], epsilon=eps_of(L, shape), thickness=L["th"],
                             tangent_field_type=case.get("tang", "fft")))
    return out


def mk_pw(nn, case):
    return nn.PlaneWave(wavelength=case["pw"]["wl"], angles=tuple(case["pw"]["angles"]))


def mk_sim(nn, case, lat=None, layers=None, pw=None):
    lat = lat or mk_lattice(nn, case)
    layers = layers or mk_layers(nn, case, lat)
    pw = pw or mk_pw(nn, case)
    return nn.Simulation(layers, pw, nh=case["nh"], formulation=case["form"])


class Skip(Exception):
    """case outside of the precondition of the property (e.g. Nyquist)"""


class Fail(Exception):
    pass


TF = [1.0]       # other libraries: looser comparisons


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def close(a, b, tol, msg, scale=None):
    a, b = A(a), A(b)
    need(a.shape == b.shape, f"{msg}: shapes {a.shape} != {b.shape}")
    if a.size == 0:
        return
    s = max(1e-300, np.max(np.abs(a)), np.max(np.abs(b))) if scale is None else scale
    d = np.max(np.abs(a - b)) / s
    tol = tol * TF[0]
    need(np.isfinite(d) and d <= tol, f"{msg}: relative deviation {d:.3e} > {tol:g}")


def well_posed(sim):
    """precondition of the continuous statements: no (nearly) null propagation constant."""
    if not sim.is_solved:
        sim.solve()
    w = float(A(sim.omega).real)
    for l in sim.layers:
        q = A(l.eigenvalues)
        if np.min(np.abs(q)) < 1e-3 * w:
            raise Skip("grazing order")
        if not l.is_uniform:
            v = A(l.eigenvectors)
            if np.linalg.cond(v) > 1e7:
                raise Skip("defective modes")
    return sim
