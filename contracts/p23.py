"""P23: auxiliary vector fields."""
from .common import *
import contextlib
from nnv.px import *
from nnv.load import Stub, Quiet

FREE = []


def zdefs(ps):
    """defining equations of the function atoms of real polynomials, and their denominators"""
    Z = z3()
    seen, facts, dens = set(), [], []

    def poly(p):
        for m in p.t:
            for a, e in m:
                if e < 0:
                    dens.append(zatom(a, True))
                atom(a)

    def atom(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind != "fn":
            return
        name, p, c = a.args
        poly(p)
        v = zatom(a, True)
        if name == "inv":
            x = zpoly(p)
            dens.append(x)
            facts.append(Z.Implies(x != 0, v * x == 1))
        elif name == "sqrt":
            x = zpoly(p)
            facts.append(Z.Implies(x >= 0, Z.And(v >= 0, v * v == x)))
        elif name == "abs" and p.is_real():
            x = zpoly(p)
            facts.append(Z.And(v >= 0, v * v == x * x))
    for p in ps:
        poly(p)
    return facts, dens


def free(name, shape):
    """an arbitrary complex array: what the trusted transforms, optimizers and interpolators return"""
    FREE.append(name)
    return Px(sym(f"Re {name}{len(FREE)}", "real") + sym(f"Im {name}{len(FREE)}", "real").scale(IMAG), shape)


IMAG = GQ(0, 1)


class Big(Opq):
    """result of a transform on the supercell"""
    def __getitem__(s, i):
        if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, slice) and x.step in (None, 1) and x.start is not None and x.stop is not None for x in i):
            return free("spectral", tuple(x.stop - x.start for x in i))
        return Big()

    def _op(s, *a):
        return Big()

    def nnv_elem(s, f):
        return Big()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = _op
    real = imag = property(lambda s: Big())


def world(be, marks):
    W = World(be)
    m = W.prog.load("nannos.formulations.tangent")
    sh = gridshape()

    def ift(*a, **k):
        marks.append("fft")
        return Big()

    def minimize(*a, **k):
        marks.append("opt")
        return Stub("res", x=Opq((SInt(nh().p.scale(gq(4))),)))

    class Interp:
        def __init__(s, *a, **k):
            pass

        def __call__(s, *a, **k):
            class R:
                T = property(lambda q: free("interpolated", sh))
            return R()
    npg = Stub("npg")
    npg.__dict__.update(m.bk.__dict__)
    for f in ("linspace", "zeros", "reshape", "eye", "sum", "ones"):
        npg.__dict__[f] = opaque
    npg.__dict__["meshgrid"] = lambda *a, **k: [Opq() for _ in a]
    st = m.bk.stack
    npg.__dict__["fft"] = Stub("fft", ifft2=opaque, fft2=opaque, fftfreq=opaque)
    ag = Stub("autograd", grad=opaque, hessian_vector_product=opaque, numpy=npg)
    W.prog.ext("autograd", ag)
    W.prog.ext("autograd.numpy", npg)
    for n, v in dict(apply_filter=opaque, fourier_transform=lambda *a, **k: Big(), inverse_fourier_transform=ift, minimize=minimize, RegularGridInterpolator=Interp,
                     npo=Stub("npo", errstate=lambda **k: contextlib.nullcontext(), fft=Stub("fft", fftfreq=opaque))).items():
        if hasattr(m, n):
            setattr(m, n, v)
    b = m.bk.__dict__
    b["hstack"] = b["vstack"] = opaque
    b["gradient"] = lambda *a, **k: [Opq(), Opq()]
    b["meshgrid"] = npg.__dict__["meshgrid"]
    b["fft"] = Stub("fft", fftfreq=opaque, ifft2=ift, fft2=opaque)
    return W, m, sh


def assumptions(r):
    """facts of a path: the machine epsilon, the maxima"""
    Z = z3()
    e = zpoly(sym("eps_mach", "pos"))
    c = [x for x in r.cond if Z.is_expr(x)] + [e > 0, e <= Z.RealVal("23/100000000000000000")]
    return c


def fields(P):
    P.fn("formulations.tangent.get_tangent_field", "formulations.tangent._get_tangent_field_fft", "formulations.tangent._get_tangent_field_min", "formulations.tangent._normalize_vec",
         "formulations.tangent._normalize", "utils.helpers.norm", "layers.Layer.get_tangent_field")
    P.trust("Fourier transforms, scipy.optimize.minimize, RegularGridInterpolator, gradients and filters: finite arrays of the stated shapes (nothing else is assumed about their values)",
            "max(x) is at least every element of x and is one of them", "finfo(float).eps is positive and at most 2.3e-16")
    P.assume("the norm regularization eps makes 'unit norm' hold up to 1e-8 (fft) and 2.5e-4 (opt): exactly r/(r+eps) and r/sqrt(r^2+eps) above the threshold 1e-6")
    Z = z3()
    for be in bks(P, "numpy", "torch", "jax", "autograd", "scipy"):
        marks = []
        W, m, sh = world(be, marks)
        for typ in ("fft", "opt"):
            for normalize in (True, False):
                maxes = []

                def run():
                    del marks[:], FREE[:]
                    W.notgrid3()
                    CTX.maxes = []
                    g = Px(sym("Re eps", "real") + sym("Im eps", "real").scale(IMAG), sh)
                    harm = Opq((2, SInt(nh().p)))
                    t = m.get_tangent_field(g, harm, normalize=normalize, type=typ)
                    return t, set(marks), list(CTX.maxes)
                nm = f"[{be}] {typ} field, {'normalized' if normalize else 'not normalized'}"
                for r in P.paths(nm, run):
                    t, mk, mx = r.value
                    n = f"{nm} [{r.label()}]"
                    P.true(n + ": the requested method is used", mk == {typ}, str(mk))
                    if len(t) != 2 or not all(isinstance(x, Px) for x in t):
                        P.add(n, "unsupported", "", 0, "form of the field")
                        continue
                    P.true(n + ": one vector per pixel", all([topoly(a) for a in x.sh] == [topoly(a) for a in sh] for x in t))
                    tx, ty = t[0].p, t[1].p
                    if not P.true(n + ": real", tx.is_real() and ty.is_real(), f"{tx!r} {ty!r}"[:300]):
                        continue
                    c = assumptions(r)
                    mvals = [(zpoly(a), zpoly(p)) for a, p in mx if p.is_real()]
                    fs, dens = zdefs([tx, ty] + [p for _, p in mx if p.is_real()])
                    c = c + fs + [a >= p for a, p in mvals]
                    for i, d in enumerate(dens):
                        P.z(n + f": denominator {i} does not vanish", d != 0, c)
                    c = c + [d != 0 for d in dens]
                    X, Y = zpoly(tx), zpoly(ty)
                    # nonlinear arithmetic: name the two components and their denominators
                    P.z(n + ": norm at most one", X * X + Y * Y <= 1, c, timeout=20000)
                    if normalize:
                        tol = "1/100000000" if typ == "fft" else "25/100000"
                        P.z(n + ": unit norm", X * X + Y * Y >= 1 - Z.RealVal(tol), c, timeout=20000)
        # another method is refused
        def run2():
            del marks[:]
            return m.get_tangent_field(Px(sym("Re eps", "real"), sh), Opq((2, SInt(nh().p))), type="something else")
        try:
            rs = explore(run2)
            P.true(f"[{be}] an unknown method is refused", all(isinstance(r.exc, ValueError) for r in rs))
        except Unsupported as e:
            P.add(f"[{be}] an unknown method is refused", "unsupported", "", 0, str(e))
        P.files |= W.prog.files


def helpers(P):
    """contracts of the helpers for every argument, the zero vector included"""
    P.fn("formulations.tangent._ft_filt")
    Z = z3()
    for be in bks(P, "numpy", "torch", "jax"):
        marks = []
        W, m, sh = world(be, marks)
        if hasattr(m, "_ft_filt"):
            def run():
                x = Px(sym("x", "real"), sh)
                return x, m._ft_filt(x, 2)
            for r in P.paths(f"[{be}] _ft_filt", run):
                x, v = r.value
                fs, dens = zdefs([v.p])
                for d in dens:
                    P.z(f"[{be}] spectral filter [{r.label()}]: finite, the zeroth frequency included", d != 0, assumptions(r) + fs)
                P.true(f"[{be}] spectral filter [{r.label()}]: evaluated", True)
        P.files |= W.prog.files


def layer(P):
    P.fn("layers.Layer.get_tangent_field", "layers.Layer.get_jones_field")
    for be in bks(P, "numpy", "torch", "jax"):
        marks = []
        W, m, sh = world(be, marks)
        W.kinds = ("uniform", "patterned", "anisotropic")
        eps = Px(sym("Re eps", "real") + sym("Im eps", "real").scale(IMAG), sh)

        def epsilon(l):
            if l.kind == "uniform":
                return Arr0(sym("eps"))
            if l.kind == "patterned":
                return eps
            d = aniso("eps")
            return PxTensor(d, eps)
        W.lazy["epsilon"] = epsilon
        user = [Px(sym("ux", "real"), sh), Px(sym("uy", "real"), sh)]

        def run():
            del marks[:], FREE[:]
            W.notgrid3()
            l = W.layer("l")
            own = CTX.choose(2, "field given by the user") == 1
            object.__setattr__(l, "tangent_field", user if own else None)
            pref = ("fft", "opt")[CTX.choose(2, "method of the layer")]
            object.__setattr__(l, "tangent_field_type", pref)
            typ = (None, "fft", "opt")[CTX.choose(3, "method requested")]
            nz = CTX.choose(2, "normalize") == 1
            t = l.get_tangent_field(Opq((2, SInt(nh().p))), normalize=nz, **({} if typ is None else dict(type=typ)))
            return l.kind, own, pref, typ, t, set(marks), l.get_jones_field(t) is None if l.kind == "uniform" else None
        for r in P.paths(f"[{be}] Layer.get_tangent_field", run):
            kind, own, pref, typ, t, mk, jn = r.value
            n = f"[{be}] field of a layer [{r.label()}]"
            if kind == "uniform":
                P.true(n + ": a uniform layer has none", t is None and jn)
            elif own:
                P.true(n + ": the field of the user, unchanged", t is user or t is not None and len(t) == 2 and all(a is b or isinstance(a, Px) and a.p == b.p for a, b in zip(t, user)))
                P.true(n + ": the components of the user's field are not modified", all(x.p == sym(s_, "real") for x, s_ in zip(user, ("ux", "uy"))))
            else:
                P.true(n + ": the method requested, or that of the layer", mk == {typ or pref}, str(mk))
        P.files |= W.prog.files


class PxTensor(TArr):
    def __init__(s, d, zz):
        TArr.__init__(s, d.data, d.k, d.cls)
        s.zz = zz

    def __getitem__(s, i):
        if isinstance(i, tuple) and i[:2] in ((2, 2), (-1, -1)):
            return s.zz
        return TArr.__getitem__(s, i)


def jones(P):
    P.fn("formulations.jones.get_jones_field")
    P.trust("|exp(i x)| = 1 and sin^2 + cos^2 = 1 for real x, cos(pi) = -1", "atan2 of real numbers is real")
    for be in bks(P, "numpy", "torch", "jax", "autograd", "scipy"):
        W = World(be)
        sh = gridshape()
        bk = W.prog.bk
        PIP = sym("PI", "pos")
        cos0 = bk.__dict__["cos"]
        at2 = lambda y, x: Px(sym("theta", "real"), sh)
        bk.__dict__["arctan2"] = bk.__dict__["atan2"] = at2
        m = W.prog.load("nannos.formulations.jones")
        for a in list(vars(m)):
            if getattr(m, a) is W.prog.bk.__dict__.get("pi") or a == "pi":
                setattr(m, a, Sc(PIP))
        if hasattr(m, "_arctan2"):
            m._arctan2 = at2

        def cos(x):
            if topoly(getattr(x, "p", x)) == PIP:
                return Px(Poly.const(-1), sh) if isinstance(x, Px) else Sc(Poly.const(-1))
            return cos0(x)
        bk.__dict__["cos"] = cos
        norm0 = getattr(m, "norm", None)

        def run():
            x, y = Px(sym("x", "real"), sh), Px(sym("y", "real"), sh)
            m.norm = lambda v: Px(sym("n", "pos"), sh)
            a = m.get_jones_field([x, y])
            m.norm = lambda v: Px(Poly.const(1), sh)
            b = m.get_jones_field([x, y])
            m.norm = norm0
            return a, b, m.norm([x, y])
        for r in P.paths(f"[{be}] get_jones_field", run):
            a, b, nn = r.value
            n = f"[{be}] Jones field"
            x, y, N = sym("x", "real"), sym("y", "real"), sym("n", "pos")
            j0, j1 = a[0].p, a[1].p
            pos = sym("r", "pos")
            P.goal(n + ": norm of the Jones vector = norm of the tangent / its regularized norm", [(j0 * j0.conj() + j1 * j1.conj()) * N * N - x * x - y * y])
            P.goal(n + ": the tangent direction where the norm is one", [b[0].p * y - b[1].p * x], setup=False)
            e = sym("eps_mach", "pos")
            rad = nn.p - e
            P.goal(n + ": the regularized norm is the norm plus eps", [rad * rad - x * x - y * y])
            Z = z3()
            fs, dens = zdefs([nn.p])
            P.z(n + ": the regularized norm does not vanish", zpoly(nn.p) >= zpoly(e), fs + [zpoly(e) > 0])
        P.files |= W.prog.files


PARTS = [fields, helpers, layer, jones]
