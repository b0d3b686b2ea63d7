"""Concrete statements of the other properties (P10, P11, P16-P19, P22, P23)."""
from common import *
import itertools, subprocess


# ------------------------------------------------------------------ P10
def gen_P10(rng):
    lat = gen_lattice(rng)
    if lat["kind"] != "1D" and rng.random() < 0.3:   # elongated cells
        al = rng.uniform(0, 6.28)
        be = al + rng.uniform(0.3, 2.8)
        r = 10 ** rng.uniform(-1, 1)
        lat["bv"] = [[round(np.cos(al), 6), round(np.sin(al), 6)], [round(r * np.cos(be), 6), round(r * np.sin(be), 6)]]
    n = int(rng.integers(2, 12)) if rng.random() < 0.4 else int(rng.integers(2, 400))
    if rng.random() < 0.15:         # another unit of length
        s = 10.0 ** int(rng.integers(-8, 9))
        lat["bv"] = (np.array(lat["bv"], float) * s).tolist()
    return dict(lat=lat, n=n, sort=bool(rng.random() < 0.5))


def run_P10(nn, c):
    lat = mk_lattice(nn, c)
    H, nh = lat.get_harmonics(c["n"], sort=c["sort"])
    H = A(H)
    nh = int(nh)
    n = c["n"]
    need(H.shape == (2, nh), f"count {nh} vs array {H.shape}")
    need(np.array_equal(H, H.astype(int)), "integers")
    P = list(map(tuple, H.astype(int).T.tolist()))
    S = set(P)
    need(len(S) == len(P), "distinct")
    need((0, 0) in S, "contains the zeroth order")
    need(all((-i, -j) in S for i, j in P), "closed under negation")
    need(1 <= nh <= n, f"{nh} harmonics for {n} requested")
    if c["sort"]:
        need(all(a[0] <= b[0] for a, b in zip(P, P[1:])), "sorted by first index")
    if c["lat"]["kind"] == "1D":
        m = (n - 1) // 2
        need(S == {(i, 0) for i in range(-m, m + 1)}, "consecutive orders")
        return
    bv = np.array(c["lat"]["bv"], float)
    K = 2 * np.pi * np.linalg.inv(bv.T).T
    if c["lat"]["trunc"] == "parallelogrammic":
        r = int(np.sqrt(n) + 1e-12)
        if r % 2 == 0:
            r -= 1
        need(S == set(itertools.product(range(-(r // 2), r // 2 + 1), repeat=2)), "centered square of indices")
        if not c["sort"]:
            g = [np.linalg.norm(K @ p) for p in P]
            need(all(a <= b * (1 + 1e-9) + 1e-12 for a, b in zip(g, g[1:])), "ordered by norm")
        return
    rmax = max(np.linalg.norm(K @ p) for p in P)
    # all integer pairs within the ball of the longest kept vector
    L = np.linalg.norm(bv, axis=1) * rmax / (2 * np.pi)
    M = [int(np.ceil(x)) + 1 for x in L]
    if M[0] * M[1] > 4e6:
        raise Skip("window")
    I, J = np.meshgrid(np.arange(-M[0], M[0] + 1), np.arange(-M[1], M[1] + 1), indexing="ij")
    g = np.sqrt((K[0, 0] * I + K[0, 1] * J) ** 2 + (K[1, 0] * I + K[1, 1] * J) ** 2)
    short = [(int(i), int(j)) for i, j in zip(I[g < rmax * (1 - 1e-6)], J[g < rmax * (1 - 1e-6)])]
    miss = [p for p in short if p not in S]
    need(not miss, f"omitted harmonics shorter than a kept one: {miss[:4]}")


# ------------------------------------------------------------------ P11
def gen_P11(rng):
    lat = gen_lattice(rng, ("square", "rect", "oblique"))
    lat["disc"] = [int(rng.integers(2, 40)), int(rng.integers(2, 40))]
    if rng.random() < 0.25:
        lat["disc"] = [int(2 ** rng.integers(1, 6)), int(2 ** rng.integers(1, 6))]
    if rng.random() < 0.05:
        lat["disc"][int(rng.integers(2))] = 1
    kind = str(rng.choice(["circle", "ellipse", "square", "rectangle", "polygon", "multi", "hole"]))
    u = lambda a, b: rfloat(rng, a, b)
    bv = np.array(lat["bv"], float)
    cen = (u(-0.1, 1.1) * bv[0] + u(-0.1, 1.1) * bv[1]).round(6).tolist()
    s = float(np.linalg.norm(bv[0]))
    size = u(0.005, 0.05) if rng.random() < 0.2 else u(0.05, 0.9)
    return dict(lat=lat, kind=kind, cen=cen, r=round(size * s, 6), r2=round(u(0.02, 0.8) * s, 6),
                rot=float(rng.choice([0, 0, 90, 45])) if rng.random() < 0.5 else u(-180, 360), vseed=int(rng.integers(1 << 30)))


def run_P11(nn, c):
    import shapely.geometry as sg
    lat = mk_lattice(nn, c)
    bv = np.array(c["lat"]["bv"], float)
    Nx, Ny = lat.discretization
    x, y = np.linspace(0, 1, Nx), np.linspace(0, 1, Ny)
    X = x[:, None] * bv[0][0] + y[None] * bv[1][0]
    Y = x[:, None] * bv[0][1] + y[None] * bv[1][1]
    cx, cy = c["cen"]
    k = c["kind"]
    th = np.deg2rad(c["rot"])
    u, v = X - cx, Y - cy
    ur, vr = u * np.cos(th) + v * np.sin(th), -u * np.sin(th) + v * np.cos(th)
    tol = 1e-9 * np.abs(bv).max()
    if k == "circle":
        m = lat.circle(c["cen"], c["r"])
        d = np.hypot(u, v) / c["r"]
        inside, outside = d < 0.99, d > 1 + 1e-9
    elif k == "ellipse":
        m = lat.ellipse(c["cen"], (c["r"], c["r2"]), rotate=c["rot"])
        d = np.sqrt((ur / c["r"]) ** 2 + (vr / c["r2"]) ** 2)
        inside, outside = d < 0.99, d > 1 + 1e-9
    elif k in ("square", "rectangle"):
        w = (c["r"], c["r"]) if k == "square" else (c["r"], c["r2"])
        m = lat.square(c["cen"], c["r"], rotate=c["rot"]) if k == "square" else lat.rectangle(c["cen"], w, rotate=c["rot"])
        inside = (np.abs(ur) < w[0] / 2 - tol) & (np.abs(vr) < w[1] / 2 - tol)
        outside = (np.abs(ur) > w[0] / 2 + tol) | (np.abs(vr) > w[1] / 2 + tol)
    else:
        rng = np.random.default_rng(c["vseed"])
        def poly(cen, r):
            n = int(rng.integers(3, 8))
            a = np.sort(rng.uniform(0, 2 * np.pi, n))
            rr = r * rng.uniform(0.3, 1, n)
            return [(cen[0] + p * np.cos(t), cen[1] + p * np.sin(t)) for p, t in zip(rr, a)]
        vs = poly(c["cen"], c["r"])
        P = sg.Polygon(vs)
        if not P.is_valid:
            P = P.buffer(0)
            if P.is_empty:
                raise Skip("degenerate")
            k = "hole"
        if k == "polygon":
            m = lat.polygon(vs)
        elif k == "multi":
            P = P.union(sg.Point(cx + c["r2"], cy).buffer(0.1 * c["r"])).union(sg.box(cx - c["r"], cy - c["r"], cx - 0.5 * c["r"], cy - 0.8 * c["r"]))
            m = lat.geometry_mask(P)
        else:
            P = P.difference(sg.Point(cx, cy).buffer(0.3 * c["r"]))
            m = lat.geometry_mask(P)
        # exact membership on the transformed coordinates, away from the boundary
        B = P.boundary
        pts = [[sg.Point(X[i, j], Y[i, j]) for j in range(Ny)] for i in range(Nx)]
        dist = np.array([[B.distance(p) for p in r] for r in pts])
        con = np.array([[P.contains(p) for p in r] for r in pts])
        inside, outside = con & (dist > tol), ~con & (dist > tol)
    m = A(m)
    need(m.shape == (Nx, Ny), f"mask shape {m.shape} on a {Nx}x{Ny} grid")
    need(m.dtype == bool, "boolean mask")
    bad = (inside & ~m) | (outside & m)
    need(not bad.any(), f"{k}: {int(bad.sum())} wrong pixels, first {np.argwhere(bad)[:3].tolist()} of {Nx}x{Ny}")


# ------------------------------------------------------------------ P16
def gen_P16(rng):
    ops = []
    for _ in range(int(rng.integers(2, 6))):
        r = rng.random()
        if r < 0.62:
            ops.append(["backend", str(rng.choice(["numpy", "scipy", "autograd", "torch", "jax"]))])
        elif r < 0.72:
            ops.append(["backend", str(rng.choice(["fake", "", "Torch"]))])
        elif r < 0.87:
            ops.append(["32", bool(rng.random() < 0.5)])
        else:
            ops.append(["gpu", bool(rng.random() < 0.5)])
    cur, out = "numpy", []
    for op, v in ops:       # a GPU request with jax needs a GPU: outside of the precondition
        if op == "backend" and v in ("numpy", "scipy", "autograd", "torch", "jax"):
            cur = v
        if op == "gpu" and v and cur == "jax":
            continue
        out.append([op, v])
    ops = out
    env = str(rng.choice(["", "scipy", "autograd", "torch", "unknown"])) if rng.random() < 0.4 else ""
    missing = [b for b in ("torch", "jax") if rng.random() < 0.15]      # libraries that are not installed
    # variables changed once a selection was made: they no longer matter
    for var, op, v in (("NANNOS_BACKEND", "backend", str(rng.choice(["scipy", "autograd"]))), ("NANNOS_GPU", "gpu", "1")):
        k = [i for i, o in enumerate(ops) if o[0] == op and (op == "gpu" or o[1] in ("numpy", "scipy", "autograd"))]
        if k and rng.random() < 0.3:
            ops.insert(int(rng.choice(k)) + 1, [var, v])
    return dict(ops=ops, env=env, missing=missing)


P16_SCRIPT = r'''
import sys, os, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("NNV_REPO", "/repo"))
import logging
c = json.loads(sys.argv[1])
missing = c.get("missing", [])
for m in missing:
    sys.modules[m] = None
import nannos as nn
logging.disable(logging.CRITICAL)
def modname(b):
    return {"numpy": "numpy", "scipy": "numpy", "autograd": "autograd.numpy", "torch": "torch", "jax": "jax.numpy"}[b]
def check(be, b32, where):
    def need(x, m):
        if not x:
            print("FAIL", where, m); sys.exit(0)
    need(nn.get_backend() == be, f"get_backend() = {nn.get_backend()} instead of {be}")
    need(nn.BACKEND == be, f"BACKEND = {nn.BACKEND} instead of {be}")
    name = nn.backend.__name__
    if be == "autograd":
        need(name.startswith("autograd"), f"module {name}")
    else:
        need(name == modname(be), f"module {name} for backend {be}")
    import importlib
    for sub in ("simulation", "layers", "lattice", "excitation", "formulations.fft", "formulations.jones", "formulations.tangent", "utils.helpers", "geometry", "optimize"):
        m = sys.modules["nannos." + sub]
        need(m.bk is nn.backend, f"{sub} uses {m.bk.__name__} with backend {be}")
    F, C = nn.get_types()
    want = ("32", "64") if b32 else ("64", "128")
    need(str(F).endswith("float" + want[0]) or getattr(F, "__name__", "") == "float" + want[0], f"float type {F} 32bit={b32}")
    need(str(C).endswith("complex" + want[1]) or getattr(C, "__name__", "") == "complex" + want[1], f"complex type {C} 32bit={b32}")
    for sub in ("simulation", "layers", "lattice", "excitation"):
        m = sys.modules["nannos." + sub]
        need(m.FLOAT == F and m.COMPLEX == C, f"types of {sub}")
    need(nn.DEVICE == "cpu" and nn.get_device() == "cpu", f"device {nn.DEVICE} {nn.get_device()} without gpu")
    a = nn.array([1.0, 2.0])
    need(type(a).__module__.split(".")[0] in {"numpy": ("numpy",), "scipy": ("numpy",), "autograd": ("numpy", "autograd"), "torch": ("torch",), "jax": ("jax", "jaxlib")}[be], f"arrays of type {type(a)}")
    if be in ("autograd", "torch"):
        import numpy as np
        x = nn.array([0.5, 2.0])
        g = nn.grad(lambda v: (v ** 2).sum())(x)
        g = np.asarray(g.detach() if hasattr(g, "detach") else g)
        need(np.allclose(g, [1, 4]), f"grad {g}")
    else:
        try:
            nn.grad(lambda v: v)(1.0)
            need(False, "grad should not be available")
        except NotImplementedError:
            pass
    lat = nn.Lattice(1.0, discretization=32)
    s = nn.Simulation([lat.Layer("a"), lat.Layer("b", epsilon=3, thickness=0.3), lat.Layer("c", epsilon=2)], nn.PlaneWave(1.1, angles=(10, 20, 30)), nh=3)
    R, T = s.diffraction_efficiencies()
    need(abs(float(R) + float(T) - 1) < 1e-4, f"R+T = {float(R)+float(T)}")
be = c["env"] if c["env"] in nn.available_backends else "numpy"
b32 = False
done = []
check(be, b32, "initially")
for op, v in c["ops"]:
    done.append((op, v))
    if op == "backend":
        if v in ("numpy", "scipy", "autograd", "torch", "jax"):
            nn.set_backend(v)
            # a back end that is not installed: unchanged, or the default one
            be = v if v not in missing else "numpy" if nn.get_backend() == "numpy" else be
        else:
            try:
                nn.set_backend(v)
                print("FAIL", done, "unknown backend accepted"); sys.exit(0)
            except ValueError:
                pass
    elif op == "32":
        nn.use_32_bit(v)
        b32 = v
    elif op.startswith("NANNOS_"):
        os.environ[op] = v
    else:
        nn.use_gpu(v)
    check(be, b32, str(done))
print("OK")
'''


def run_P16(nn, c):
    env = dict(os.environ)
    env.pop("NANNOS_BACKEND", None)
    if c["env"]:
        env["NANNOS_BACKEND"] = c["env"]
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", P16_SCRIPT, json.dumps(c)], capture_output=True, text=True, env=env, timeout=250)
    last = [l for l in r.stdout.splitlines() if l.startswith(("FAIL", "OK"))]
    if last and last[-1] == "OK":
        return
    if last:
        raise Fail(last[-1])
    tail = r.stderr.strip().splitlines()[-1:] or ["no output"]
    raise Fail(f"crash: {tail[0]}")


# ------------------------------------------------------------------ P17
def gen_P17(rng):
    return dict(f=str(rng.choice(["lorentz", "sin", "step", "lin", "hash", "const", "neg"])), n=int(rng.integers(3, 14)),
                a=rfloat(rng, -3, 2), w=rfloat(rng, 0.1, 5), multi=int(rng.choice([0, 0, 1, 2, 3])),
                uniform=bool(rng.random() < 0.5), gseed=int(rng.integers(1 << 30)), jobs=int(rng.choice([1, 1, 1, 2])),
                xrel=float(rng.choice([1e-1, 1e-2, 5e-2, 3e-3])), scale=float(rng.choice([1.0, 1.0, 1e-3, 1e-6, 1e-7, 1e-9, 1e6, 1e14])), bend=float(rng.choice([5, 10, 30])), df=float(rng.choice([0.05, 0.2, 0.01])))


def _f17(name):
    return {"lorentz": lambda x: 1 / (1 + 50 * (x - 0.3) ** 2), "sin": lambda x: np.sin(5 * x), "step": lambda x: float(x > 0.17) + 0.01 * x,
            "lin": lambda x: 2 * x - 1, "hash": lambda x: (np.sin(x * 12.9898) * 43758.5453) % 1.0, "const": lambda x: 1.0,
            "neg": lambda x: -np.exp(-3 * x * x)}[name]


class F17:
    def __init__(self, name, multi, scale=1.0):
        self.name, self.multi, self.scale = name, multi, scale

    def __call__(self, x):
        f = _f17(self.name)
        x = x / self.scale
        if self.multi:
            return [float(f(x))] + [float(np.cos(x * (k + 1))) for k in range(self.multi)]
        return float(f(x))


def run_P17(nn, c):
    rng = np.random.default_rng(c["gseed"])
    x0 = np.linspace(c["a"], c["a"] + c["w"], c["n"]) if c["uniform"] else np.unique(c["a"] + c["w"] * rng.random(c["n"]).round(4))
    if len(x0) < 3:
        raise Skip("n")
    x0 = x0 * c.get("scale", 1.0)   # metres, nanometres, hertz: the abscissae may have any unit
    f = F17(c["f"], c["multi"], c.get("scale", 1.0))
    calls = [0]
    def g(x):
        calls[0] += 1
        if calls[0] > 20000:
            raise Skip("long refinement")
        return f(x)
    xin = x0.copy()
    fn = f if c["jobs"] > 1 else g
    with np.errstate(all="ignore"):
        x, y = nn.adaptive_sampler(fn, xin, max_bend=c["bend"], max_x_rel=c["xrel"], max_df=c["df"], n_jobs=c["jobs"])
    x, y = np.asarray(x), np.asarray(y)
    need(np.array_equal(xin, x0), "initial grid modified")
    need((np.diff(x) > 0).all(), "strictly increasing")
    need(set(x0.tolist()) <= set(x.tolist()), "contains the initial points")
    need(x[0] == x0[0] and x[-1] == x0[-1], "initial range")
    need(len(y) == len(x), f"{len(y)} values for {len(x)} points")
    close(y, np.array([f(v) for v in x]), 1e-13, "values are those of the function at the points", scale=1.0)


# ------------------------------------------------------------------ P18
def gen_P18(rng):
    u = lambda a, b: rfloat(rng, a, b)
    n = int(rng.integers(2, 7))
    return dict(beta=float(10 ** rng.uniform(-1, 2.5)), thres=u(0.02, 0.98), nthres=int(rng.integers(2, 7)), emin=[u(-5, 5), u(0, 1)],
                emax=[u(-5, 12), u(0, 2)], p=int(rng.integers(1, 4)), eps=[[u(1, 12), u(0, 1)] for _ in range(n)],
                xs=sorted([0.0, 1.0] + [u(0, 1) for _ in range(12)]), stop=u(-1, 1), fs=[u(-2, 2) for _ in range(6)],
                popt=bool(rng.random() < 0.3), method=str(rng.choice(["scipy", "nlopt"])))


def run_P18(nn, c):
    from nannos import optimize as op
    x = np.array(c["xs"])
    sl = 1e-12 if TF[0] == 1 else 1e-6
    y = A(op.project(x, c["beta"], c["thres"]))
    close(y[0], 0.0, 1e-9, "project(0)=0", scale=1.0)
    close(y[-1], 1.0, 1e-9, "project(1)=1", scale=1.0)
    need((np.diff(y) >= -sl).all(), "projection monotone")
    need(y.min() > -sl and y.max() < 1 + sl, "projection within [0,1]")
    b, t = c["beta"], c["thres"]
    close(y, (np.tanh(b * t) + np.tanh(b * (x - t))) / (np.tanh(b * t) + np.tanh(b * (1 - t))), 1e-12, "projection formula", scale=1.0)
    y = A(op.multi_project(x, c["beta"], c["nthres"]))
    close(y[0], 0.0, 1e-9, "multi_project(0)=0", scale=1.0)
    close(y[-1], 1.0, 1e-9, "multi_project(1)=1", scale=1.0)
    need((np.diff(y) >= -sl).all() and y.min() > -sl and y.max() < 1 + sl, "multi projection monotone in [0,1]")
    e0, e1 = complex(*c["emin"]), complex(*c["emax"])
    s = A(op.simp(x, e0, e1, c["p"]))
    close(s[0], e0, 1e-13, "simp(0)")
    close(s[-1], e1, 1e-13, "simp(1)")
    close(s, e0 + (e1 - e0) * x ** c["p"], 1e-13, "simp formula")
    E = np.array([complex(*e) for e in c["eps"]])
    pts = np.linspace(0, 1, len(E))
    m = A(op.multi_simp(pts, E, 1 if len(E) > 2 else c["p"]))
    close(m, E, 1e-8, "multi_simp passes through all materials")
    if len(E) > 2:
        close(op.multi_simp(pts, E, 2), E, 1e-6, "multi_simp p=2")
    # stop wrapper
    it = iter(c["fs"])
    st = op.StopFun(lambda v: v[1], stopval=c["stop"])
    for k, f in enumerate(c["fs"]):
        arg = (k, f)
        try:
            r = st.fun(arg)
            need(r == f and not f < c["stop"], "value returned above the stop value")
        except op.StopFunError:
            need(f < c["stop"], "stopped too early")
            need(st.x is arg and st.f == f, "design kept at stop is the one that reached the value")
            break
        need(st.x is arg and st.f == f, "last design recorded")
    if not c["popt"]:
        return
    # analytic gradient stand-in: automatic differentiation is out of the scope of this check
    op_grad = op.grad
    op.grad = lambda fun: (lambda x, *a: 2 * (np.asarray(x) - 0.3) * a[0])
    try:
        seen = []
        calls = []
        def fun(x, proj, extra):
            seen.append((proj, extra))
            return float((((np.asarray(x) - 0.3) ** 2).sum()) * proj)
        opt = op.TopologyOptimizer(fun, np.array([0.9, 0.8, 0.1]), method=c["method"], threshold=(0, 3), maxiter=8,
                                   args=(1, "extra"), callback=lambda x, y, *a: calls.append((np.array(x), y, a)), options={})
        xopt, fopt = opt.minimize()
        need(sorted(set(p for p, _ in seen)) == [1, 2, 4] and all(e == "extra" for _, e in seen), "projection levels 2**i in order")
        need([p for p, _ in seen] == sorted(p for p, _ in seen), "levels in increasing order")
        close(xopt, [0.3, 0.3, 0.3], 1e-2, "optimum", scale=1.0)
        close(fopt, 4 * ((np.asarray(xopt) - 0.3) ** 2).sum(), 1e-9, "value of the optimum", scale=1.0)
        need(len(calls) == len(seen), "callback at each evaluation")
        need(((np.asarray(xopt) >= 0) & (np.asarray(xopt) <= 1)).all(), "bounds")
    finally:
        op.grad = op_grad


# ------------------------------------------------------------------ P19
def _f19(x, a=0, *rest, k=1, **kw):
    import time as _t
    _t.sleep(0.002 * ((x * 7919) % 5))
    return (x, a, rest, k, tuple(sorted(kw.items())))


def gen_P19(rng):
    return dict(n=int(rng.integers(0, 9)), mod=int(rng.choice([2, 3, 5, 11])), jobs=int(rng.choice([1, 2, 3])), prefer=str(rng.choice(["threads", "none", "threads"])),
                args=[int(v) for v in rng.integers(0, 9, int(rng.integers(0, 4)))], kw={str(s): int(rng.integers(9)) for s in rng.choice(["k", "z", "y"], int(rng.integers(0, 3)), replace=False)},
                container=str(rng.choice(["list", "tuple", "array", "range"])))


def run_P19(nn, c):
    xs = [(k * 37) % 11 % c.get("mod", 11) for k in range(c["n"])]
    cont = {"list": list, "tuple": tuple, "array": np.array, "range": list}[c["container"]](xs)
    f = nn.parloop(n_jobs=c["jobs"], prefer=None if c["prefer"] == "none" else c["prefer"])(_f19)
    if c["prefer"] == "none" and c["jobs"] > 1 and c["n"] % 3:
        f = nn.parloop(n_jobs=1)(_f19)
    out = f(cont, *c["args"], **c["kw"])
    want = [_f19(x, *c["args"], **c["kw"]) for x in xs]
    need(isinstance(out, list) and len(out) == len(want), "one result per element")
    for a, b in zip(out, want):
        need(a == b, f"result {a} instead of {b}")
    need(f.__name__ == "_f19", "name preserved")


# ------------------------------------------------------------------ P22
def gen_P22(rng):
    c = gen_case(rng, nlay=int(rng.integers(1, 4)), maxnh=12)
    c["bad"] = str(rng.choice(["dup", "lattice", "form", "form1D", "nyquist", "thick", "mu", "trunc", "none", "none", "lookup", "lookup", "1dshape", "dupcopy", "fieldarg", "given"]))
    c["bseed"] = int(rng.integers(1 << 30))
    return c


def raises(exc, f, msg):
    try:
        f()
    except exc:
        return
    raise Fail(msg)


def run_P22(nn, c):
    rng = np.random.default_rng(c["bseed"])
    b = c["bad"]
    lat = mk_lattice(nn, c)
    n = len(c["layers"])
    Ex = (ValueError, AssertionError)
    pw = mk_pw(nn, c)
    if b in ("dup", "dupcopy"):
        i, j = rng.permutation(n)[:2]
        c["layers"][int(i)]["name"] = c["layers"][int(j)]["name"]
        raises(Ex, lambda: mk_sim(nn, c, lat), f"duplicated layer names {i},{j} accepted")
    elif b == "lattice":
        ls = mk_layers(nn, c, lat)
        k = int(rng.integers(1, n))
        c2 = json.loads(json.dumps(c)); c2["lat"]["bv"] = 1.2345 if c["lat"]["kind"] == "1D" else [[1.2345, 0], [0, 1.1]]
        ls[k] = mk_layers(nn, c2, mk_lattice(nn, c2))[k]
        raises(Ex, lambda: nn.Simulation(ls, pw, nh=c["nh"]), f"layer {k} with another lattice accepted")
    elif b == "form":
        c["form"] = str(rng.choice(["Original", "", "fft", "tangents", "li"]))
        raises(Ex, lambda: mk_sim(nn, c, lat), "unknown formulation accepted")
    elif b == "form1D":
        lat1 = nn.Lattice(1.0, discretization=64)
        for f in ("jones", "pol"):
            raises(Ex, lambda: nn.Simulation([lat1.Layer("a"), lat1.Layer("b")], pw, nh=3, formulation=f), f"{f} accepted for mono-periodic")
        for nm, args in (("circle", ((0, 0), 1)), ("square", ((0, 0), 1)), ("polygon", ([(0, 0), (1, 0), (1, 1)],)), ("ellipse", ((0, 0), (1, 2))), ("rectangle", ((0, 0), (1, 2)))):
            raises(Ex, lambda: getattr(lat1, nm)(*args), f"{nm} accepted on a mono-periodic lattice")
    elif b == "given":      # orders given by the user: refused exactly when the largest one in absolute value is not below half the grid
        H = [(0, 0)] + [(int(i), 0 if lat.is_1D else int(j)) for i, j in rng.integers(-7, 8, (4, 2))]
        if rng.random() < 0.5:
            H = [(-abs(i), -abs(j)) for i, j in H]
        H = np.array(sorted(set(H))).T
        m = int(np.abs(H).max())
        for d in (2 * m - 1, 2 * m, 2 * m + 1, 2 * m + 2):
            if d < 3:
                continue
            lt = nn.Lattice(1.0, discretization=d, harmonics_array=H) if lat.is_1D else \
                nn.Lattice(((1.0, 0), (0.2, 1.1)), discretization=(d, 40) if rng.random() < 0.5 else (40, d), harmonics_array=H)
            e = np.ones(lt.discretization) * 2.0
            e[0] = 3
            f = lambda: nn.Simulation([lt.Layer("a"), lt.Layer("g", epsilon=e, thickness=0.1), lt.Layer("b")], pw, nh=5)
            if d <= 2 * m:
                raises(Ex, f, f"a grid of {d} points accepted for orders {H.tolist()}")
            else:
                f()
    elif b == "nyquist":
        for k in range(n):
            if c["layers"][k]["kind"] != "uniform":
                break
        else:
            raise Skip("uniform")
        nh = int(rng.integers(2, 60))
        H, _ = lat.get_harmonics(max(nh, 2) )
        H = A(H)
        m = H.max()
        ok = 2 * m < (lat.discretization[0]) and (lat.is_1D or 2 * m < lat.discretization[1])
        # same stack on a grid at the limit
        for extra in (0, 1):
            d = int(2 * m + extra)
            if d < 4:
                continue
            c2 = json.loads(json.dumps(c)); c2["nh"] = nh; c2["form"] = "original"
            which = int(rng.integers(2)) if not lat.is_1D else 0
            c2["lat"]["disc"] = [d if which == 0 else max(d, 64), 64 if which == 0 else d]
            if lat.is_1D:
                c2["lat"]["disc"] = [d, 1]
            c2["lat"]["disc"] = [max(4, v) if not (which == q) else v for q, v in enumerate(c2["lat"]["disc"])]
            if 64 <= 2 * m and not lat.is_1D:
                raise Skip("big")
            if extra == 0:
                raises(Ex, lambda: mk_sim(nn, c2), f"discretization {c2['lat']['disc']} accepted with harmonics up to {m}")
            else:
                mk_sim(nn, c2)
    elif b == "thick":
        raises(Ex, lambda: lat.Layer("x", thickness=-rfloat(rng, 1e-6, 2)), "negative thickness accepted")
        lat.Layer("x", thickness=0)
    elif b == "mu":
        raises((NotImplementedError, ValueError), lambda: lat.Layer("x", mu=rfloat(rng, 1.1, 3)), "magnetic material accepted")
    elif b == "trunc":
        raises(Ex, lambda: nn.Lattice([[1, 0], [0, 1]], truncation=str(rng.choice(["square", "Circular", ""]))), "unknown truncation accepted")
    elif b == "1dshape":
        raises(Ex, lambda: nn.formulations.tangent.get_tangent_field(np.ones((4, 4)), np.zeros((2, 1), int), type="bad"), "unknown tangent type")
    elif b == "fieldarg":
        sim = mk_sim(nn, c, lat)
        raises(Ex, lambda: sim.get_field_grid(0, field="e"), "field argument")
        raises(Ex, lambda: sim.get_field_grid(0, component="xy"), "component argument")
    elif b == "lookup":
        sim = mk_sim(nn, c, lat)
        for i in range(n):
            l, k = sim.get_layer(i)
            need(l is sim.layers[i] and k == i, "lookup by index")
            l, k = sim.get_layer(i - n)
            need(l is sim.layers[i] and k == i, f"lookup by negative index {i-n} gives index {k}")
            l, k = sim.get_layer(c["layers"][i]["name"])
            need(l is sim.layers[i] and k == i, "lookup by name")
            l, k = sim.get_layer(sim.layers[i])
            need(l is sim.layers[i] and k == i, "lookup by object")
            need(sim.get_layer_by_name(c["layers"][i]["name"]) is sim.layers[i], "by name")
        raises(Ex, lambda: sim.get_layer("no such layer"), "unknown name accepted")
        raises((IndexError, ValueError), lambda: sim.get_layer(n), "index out of range accepted")
        raises(Ex, lambda: sim.get_layer(1.5), "float index accepted")
        well_posed(sim)
        i = int(rng.integers(0, n))
        for a in (i - n, c["layers"][i]["name"], sim.layers[i]):
            close(sim.get_field_fourier(a, 0.1), sim.get_field_fourier(i, 0.1), 1e-12, f"fields of layer {a!r}", scale=max(1, np.abs(A(sim.get_field_fourier(i, 0.1))).max()))
    else:
        sim = mk_sim(nn, c, lat)
        need([l.name for l in sim.layers] == [L["name"] for L in c["layers"]], "layers in order")
        need(sim.nh == A(sim.harmonics).shape[1], "nh")


# ------------------------------------------------------------------ P23
def gen_P23(rng):
    c = gen_case(rng, nlay=1, kinds=("patterned",), lattices=("square", "rect", "oblique"), maxnh=16)
    c["type"] = str(rng.choice(["fft", "fft", "opt"]))
    c["norm"] = bool(rng.random() < 0.5)
    c["jseed"] = int(rng.integers(1 << 30))
    return c


def run_P23(nn, c):
    from nannos import backend as bk
    from nannos.formulations.jones import get_jones_field
    lat = mk_lattice(nn, c)
    if c["type"] == "opt":
        if lat.discretization[0] != lat.discretization[1] or max(lat.discretization) > 40 or nn.get_backend() != "numpy":
            raise Skip("opt tangent fields: square grids")
        c["nh"] = min(c["nh"], 7)
    lay = mk_layers(nn, c, lat)[1]
    H, _ = lat.get_harmonics(max(2, c["nh"]), sort=True)
    t = lay.get_tangent_field(H, normalize=c["norm"], type=c["type"])
    t = A(t)
    need(t.shape == (2,) + tuple(lat.discretization), f"shape {t.shape}")
    need(np.isrealobj(t) or np.abs(t.imag).max() < 1e-12, "real")
    need(np.isfinite(t).all(), "finite")
    n = np.sqrt(np.abs(t[0]) ** 2 + np.abs(t[1]) ** 2)
    if c["norm"]:
        # the minimization method regularizes the norm: sqrt(eps+|t|^2) > 1e-6, hence at most 1.2e-4 away from one
        close(n, np.ones_like(n), 2e-4 if c["type"] == "opt" else 1e-6, "unit norm", scale=1.0)
    else:
        need(n.max() <= 1 + 1e-6, f"norm {n.max()} > 1")
    from nannos.formulations.tangent import get_tangent_field
    t2 = A(get_tangent_field(lay.epsilon, H, normalize=c["norm"], type=c["type"]))
    close(t, t2, 1e-9, "type honoured", scale=1.0)
    if c["type"] == "fft":
        lay.tangent_field_type = "fft"
        close(lay.get_tangent_field(H, normalize=c["norm"]), t, 1e-9, "default type of the layer", scale=1.0)
    rng = np.random.default_rng(c["jseed"])
    th = rng.uniform(-np.pi, np.pi, (5, 7))
    r = rng.uniform(0.02, 1, (5, 7))
    r[0] = 1.0
    tt = [bk.array(r * np.cos(th)), bk.array(r * np.sin(th))]
    J = A(get_jones_field(tt))
    close(np.abs(J[0]) ** 2 + np.abs(J[1]) ** 2, np.ones((5, 7)), 1e-9, "unit Jones vectors", scale=1.0)
    close(np.abs(J[0] * np.cos(th) + J[1] * np.sin(th))[0], np.ones(7), 1e-7, "Jones vector is the tangent where its norm is one", scale=1.0)
    phi = np.pi / 8 * (1 + np.cos(np.pi * r))
    close(np.abs(J[0] * np.cos(th) + J[1] * np.sin(th)), np.cos(phi), 1e-9, "ellipticity", scale=1.0)
    user = [bk.array(np.ones(lat.discretization) * 0.6), bk.array(np.ones(lat.discretization) * 0.8)]
    lay2 = lat.Layer("u", epsilon=A(lay.epsilon), thickness=1, tangent_field=user)
    got = lay2.get_tangent_field(H, normalize=c["norm"])
    close(got, user, 0, "user tangent field unchanged")
    need(lat.Layer("v", epsilon=2).get_tangent_field(H) is None, "uniform layer has no tangent field")
