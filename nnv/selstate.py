"""Selections of back end, device and precision: the real modules of the package, executed by
the real import system (importlib, importlib.reload, sys.modules) with every external library
replaced by a named stub.  Run in its own process, once per configuration (which libraries are
installed, which environment variables are set):

    python3-vt -m nnv.selstate '{"torch": true, "cuda": false, "jax": true, "env": "scipy", "gpu": null}'

The state is everything the package keeps at module level.  From the state after the first
import, every operation (each selection, with every class of arguments: the five names, and any
other string) is executed at every state reached so far until no new state appears: the set of
states found is the invariant (it contains the initial state and is closed under all
operations), and the contracts of the operations are evaluated at each of its members, with the
ghost state (selected back end, device, precision) carried along.  Prints a JSON list.
"""
import sys, os, json, types, importlib, importlib.abc, importlib.machinery, itertools

REPO = os.environ.get("NNV_REPO", "/repo")
sys.dont_write_bytecode = True
LIMIT = 4000
NAMES = ("numpy", "scipy", "autograd", "torch", "jax")
MODULE = dict(numpy="numpy", scipy="numpy", autograd="autograd.numpy", torch="torch", jax="jax.numpy")


class Undecided(Exception):
    pass


class Stub(types.ModuleType):
    """an external library or something in it"""
    SET = {}

    def __init__(s, name, *a, **k):
        super().__init__(str(name))
        s.__dict__["__path__"] = []
        s.__dict__["__all__"] = []

    def __getattr__(s, n):
        if n.startswith("__") and n != "__version__":
            raise AttributeError(n)
        full = f"{s.__name__}.{n}"
        if full in SPECIAL:
            v = SPECIAL[full]
        elif full in sys.modules:
            v = sys.modules[full]
        else:
            v = STUBS.get(full)
            if v is None:
                v = STUBS[full] = Stub(full)
        return v

    def __setattr__(s, n, v):
        if n.startswith("__"):
            s.__dict__[n] = v
            return
        Stub.SET.setdefault(s, {})[n] = v
        s.__dict__[n] = v

    def __call__(s, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], (type, types.FunctionType)):
            return a[0]                     # decorators
        return Stub(s.__name__ + "()")

    def __repr__(s):
        return f"<{s.__name__}>"

    def __iter__(s):
        raise Undecided(f"iteration over the external {s.__name__}")

    def __bool__(s):
        raise Undecided(f"truth value of the external {s.__name__}")


for _op in ("add", "sub", "mul", "truediv", "radd", "rmul", "rsub", "rtruediv", "neg", "pow", "getitem"):
    setattr(Stub, f"__{_op}__", lambda s, *a, _op=_op: Stub(f"{s.__name__}.{_op}"))

STUBS, SPECIAL, CODE = {}, {}, {}


class Other(str):
    """any string that is none of the five names: only comparisons are decided"""
    def __eq__(s, o):
        return s is o

    def __ne__(s, o):
        return s is not o

    def __hash__(s):
        return 12345

    def _no(n):
        def f(s, *a, **k):
            raise Undecided(f"{n} of an arbitrary string")
        return f
    for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "__contains__", "__getitem__", "__len__", "__iter__",
               "__lt__", "__gt__", "__le__", "__ge__", "casefold", "title", "capitalize", "replace", "split", "find", "index", "count", "__add__"):
        locals()[_n] = _no(_n)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(s, avail):
        s.avail = avail

    def find_spec(s, name, path=None, target=None):
        top = name.split(".")[0]
        if top == "nannos":
            p = os.path.join(REPO, *name.split("."))
            pkg = os.path.isdir(p)
            f = os.path.join(p, "__init__.py") if pkg else p + ".py"
            if not os.path.exists(f):
                return None
            sp = importlib.machinery.ModuleSpec(name, s, origin=f, is_package=pkg)
            if pkg:
                sp.submodule_search_locations = [p]
            return sp
        if not s.avail.get(top, True):
            return None
        if top in sys.stdlib_module_names and top != "distutils":
            return None
        if top == "packaging":
            return None
        return importlib.machinery.ModuleSpec(name, s, is_package=True)

    def create_module(s, spec):
        if spec.name.split(".")[0] == "nannos":
            return None
        m = STUBS.get(spec.name)
        if m is None:
            m = STUBS[spec.name] = Stub(spec.name)
        return m

    def exec_module(s, m):
        n = m.__spec__.name
        if n.split(".")[0] != "nannos":
            return
        f = m.__spec__.origin
        if f not in CODE:
            with open(f, encoding="utf8") as h:
                CODE[f] = compile(h.read(), f, "exec")
        m.__file__ = f
        exec(CODE[f], m.__dict__)


# ------------------------------------------------------------------ states
def mods():
    return [n for n in sys.modules if n == "nannos" or n.startswith("nannos.")]


def cp(v, d=0):
    if isinstance(v, list):
        return [cp(x) for x in v]
    if isinstance(v, set):
        return set(v)
    if isinstance(v, dict) and type(v) is dict:
        return {k: cp(x) for k, x in v.items()}
    return v


def snap():
    return ([(n, sys.modules[n], {k: cp(v) if k not in ("__builtins__", "__spec__", "__path__") else v for k, v in sys.modules[n].__dict__.items()}) for n in mods()],
            dict(os.environ), {s: dict(d) for s, d in Stub.SET.items()})


def restore(st):
    ms, env, ext = st
    for n in mods():
        del sys.modules[n]
    for n, m, d in ms:
        m.__dict__.clear()
        m.__dict__.update({k: cp(v) if k not in ("__builtins__", "__spec__", "__path__") else v for k, v in d.items()})
        sys.modules[n] = m
    os.environ.clear()
    os.environ.update(env)
    for s, d in list(Stub.SET.items()):
        for k in d:
            s.__dict__.pop(k, None)
    Stub.SET.clear()
    for s, d in ext.items():
        Stub.SET[s] = dict(d)
        s.__dict__.update(d)


def key(v, depth=0):
    t = type(v)
    if t is Stub:
        return "<" + v.__dict__["__name__"] + ">"
    if t is types.FunctionType and not v.__closure__ and not v.__defaults__:
        return f"fn {v.__module__}.{v.__qualname__}"
    if t is type:
        return f"class {v.__module__}.{v.__qualname__}"
    if isinstance(v, Stub):
        return "<" + v.__name__ + ">"
    if isinstance(v, (str, int, float, complex, bool, type(None), bytes)):
        return repr(v)
    if depth > 4:
        return "..."
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(key(x, depth + 1) for x in v) + ")"
    if isinstance(v, (set, frozenset)):
        return "set(" + ",".join(sorted(key(x, depth + 1) for x in v)) + ")"
    if isinstance(v, dict):
        return "{" + ",".join(sorted(key(k, depth + 1) + ":" + key(x, depth + 1) for k, x in v.items())) + "}"
    if isinstance(v, types.FunctionType):
        c = v.__closure__ or ()
        cells = []
        for x in c:
            try:
                cells.append(key(x.cell_contents, depth + 1))
            except ValueError:
                cells.append("?")
        return f"fn {v.__module__}.{v.__qualname__}[{','.join(cells)}][{key(v.__defaults__, depth + 1)}]"
    if isinstance(v, type):
        return f"class {v.__module__}.{v.__qualname__}"
    if isinstance(v, types.ModuleType):
        return "module " + v.__name__
    if isinstance(v, types.MethodType):
        return "method " + v.__func__.__qualname__
    return "object " + type(v).__name__


SKIP = {"__builtins__", "__spec__", "__loader__", "__file__", "__path__", "__cached__", "__doc__", "__name__", "__package__"}


def statekey():
    out = []
    for n in sorted(mods()):
        d = sys.modules[n].__dict__
        out.append(n + ":" + ";".join(f"{k}={key(d[k])}" for k in sorted(d) if k not in SKIP))
    ext = ";".join(sorted(f"{s.__name__}.{k}={key(v)}" for s, d in Stub.SET.items() for k, v in d.items()))
    # the order of the modules decides in which order they are reloaded
    return "\n".join(out) + "\n" + ext + "\n" + ",".join(mods()) + "\n" + os.environ.get("NANNOS_BACKEND", "-") + os.environ.get("NANNOS_GPU", "-")


def observe():
    """the public selection and the data every module of the package has at module level"""
    nn = sys.modules["nannos"]
    d = {}
    for n in mods():
        for k, v in sys.modules[n].__dict__.items():
            if k in SKIP or k.startswith("_") and not isinstance(v, Stub):
                continue
            if n == "nannos" and k.startswith("_"):
                continue
            if isinstance(v, (Stub, str, int, float, bool, type(None), types.FunctionType)) or isinstance(v, tuple):
                d[f"{n}.{k}"] = key(v)
    return d


def main(cfg):
    res = []
    fails = []
    count = {}

    soft = []

    def ob(name, ok, detail="", hist=(), semantic=True):
        """semantic: a failure is a violation; otherwise only the representation is not the expected one"""
        count[name] = count.get(name, 0) + 1
        out = fails if semantic else soft
        if not ok and not any(f[0] == name for f in out):
            out.append((name, str(detail)[:500], list(hist)))
        return ok

    avail = {"torch": cfg["torch"], "jax": cfg["jax"]}
    for n in list(sys.modules):
        if n.split(".")[0] in ("numpy", "torch", "jax", "autograd", "scipy", "nannos"):
            raise RuntimeError("already imported: " + n)
    SPECIAL["torch.cuda.is_available"] = lambda: bool(cfg["cuda"])
    SPECIAL["jax.__version__"] = cfg.get("jaxversion", "0.4.30")
    SPECIAL["torch.Tensor"] = type("Tensor", (), {})
    SPECIAL["IPython.get_ipython"] = lambda: None
    SPECIAL["joblib.delayed"] = lambda f: f
    for v in ("NANNOS_BACKEND", "NANNOS_GPU"):
        os.environ.pop(v, None)
    if cfg["env"] is not None:
        os.environ["NANNOS_BACKEND"] = cfg["env"]
    if cfg["gpu"] is not None:
        os.environ["NANNOS_GPU"] = cfg["gpu"]
    sys.meta_path.insert(0, Finder(avail))
    import warnings
    warnings.simplefilter("ignore")
    import nannos
    import logging
    logging.disable(logging.CRITICAL)
    for sub in ("simulation", "layers", "lattice", "excitation", "formulations.fft", "formulations.jones", "formulations.tangent", "utils.helpers",
                "geometry", "optimize", "parallel", "sample", "plot", "constants"):
        if os.path.exists(os.path.join(REPO, "nannos", *sub.split(".")) + ".py"):
            importlib.import_module("nannos." + sub)

    installed = [b for b in NAMES if b not in ("torch", "jax") or cfg[b]]
    sel = {}

    def gpu_ok(b):
        return b == "torch" and cfg["torch"] and cfg["cuda"] or b == "jax" and cfg["jax"]

    def post(g, h):
        """the contract common to all operations: everything in use is what the ghost state g says"""
        nn = sys.modules["nannos"]
        b, dev, b32 = g
        ob("the reported back end is the one last selected", nn.get_backend() == b, f"get_backend() = {nn.get_backend()!r}, selected {b!r}", h)
        ob("BACKEND is the reported back end", nn.BACKEND == nn.get_backend(), f"{nn.BACKEND!r} {nn.get_backend()!r}", h)
        b = nn.get_backend()
        be = nn.backend
        name = getattr(be, "__name__", "?")
        if not ob("the numerical module is that of the reported back end", name == MODULE[b], f"{name} with {b}", h):
            return
        ob("arrays are made by the numerical module", nn.array is be.array, key(nn.array), h, isinstance(nn.array, Stub))
        gr = nn.grad
        if b == "autograd":
            ob("gradients are those of the back end", isinstance(gr, Stub) and gr.__name__.startswith("autograd.") and gr.__name__.split(".")[-1] == "grad", key(gr), h, isinstance(gr, Stub) or key(gr).startswith("fn nannos._grad"))
        elif b == "torch":
            try:
                ok = callable(gr(lambda x: x))
            except NotImplementedError:
                ok = False
            ob("gradients are those of the back end", ok and not isinstance(gr, Stub), key(gr), h)
        else:
            try:
                gr(lambda x: x)
                ok = False
            except NotImplementedError:
                ok = True
            ob("no gradients without support for them", ok, key(gr), h)
        want = (f"{name}.float32", f"{name}.complex64") if b32 else (f"{name}.float64", f"{name}.complex128")
        t = tuple(getattr(x, "__name__", "?") for x in nn.get_types())
        ob("the types are those of the numerical module and the precision", t == want, f"{t} {'32' if b32 else '64'} bits, {b}", h)
        ob("FLOAT and COMPLEX are these types", (nn.FLOAT, nn.COMPLEX) == tuple(nn.get_types()), key((nn.FLOAT, nn.COMPLEX)), h)
        ob("the reported device is the one last selected", nn.get_device() == dev, f"{nn.get_device()!r}, selected {dev!r}", h)
        ob("DEVICE is the reported device", nn.DEVICE == nn.get_device(), f"{nn.DEVICE!r} {nn.get_device()!r}", h)
        for n in mods():
            d = sys.modules[n].__dict__
            if n == "nannos":
                continue
            for k, v in (("bk", be), ("backend", be), ("BACKEND", nn.BACKEND), ("DEVICE", nn.DEVICE), ("FLOAT", nn.FLOAT), ("COMPLEX", nn.COMPLEX), ("grad", nn.grad)):
                if k in d and (k not in ("backend", "grad") or isinstance(d[k], (Stub, types.FunctionType))):
                    ob(f"the modules of the package use the selected {k}", d[k] is v or key(d[k]) == key(v), f"{n}.{k} is {key(d[k])}, selected {key(v)} ({b})", h)
        o = observe()
        s = (b, nn.get_device(), b32)
        if s not in sel:
            sel[s] = (o, h)
        else:
            o2, h2 = sel[s]
            diff = sorted((k for k in set(o) & set(o2) if o.get(k) != o2.get(k)), key=lambda k: "<" not in o[k] + o2[k])
            ob("everything in use depends on the selection only", not diff, "" if not diff else
               f"{diff[0]} is {o.get(diff[0])} after {h} but {o2.get(diff[0])} after {h2}", h, not diff or "<" in o[diff[0]] + o2[diff[0]])

    env = cfg["env"]
    b0 = env if env in installed else "numpy"
    d0 = "cuda" if cfg["gpu"] is not None and gpu_ok(b0) else "cpu"
    g0 = (b0, d0, False)
    chosen0 = (False, False)        # a back end, a device has been selected explicitly
    try:
        post(g0, ["import"])
        first = statekey()
        states = {(first, g0, chosen0): (snap(), [])}
        todo = [(first, g0, chosen0)]
        ops = [("backend", b) for b in NAMES] + [("backend", Other("?")), ("backend", "NumPy")] + [("gpu", True), ("gpu", False), ("32", True), ("32", False)]
        if cfg["env"] is None:
            ops.append(("NANNOS_BACKEND", "scipy"))
        if cfg["gpu"] is None:
            ops.append(("NANNOS_GPU", "1"))
        nops = 0
        while todo:
            st, g, chosen = todo.pop(0)
            sn, h = states[st, g, chosen]
            for op, v in ops:
                if op.startswith("NANNOS_") and not chosen[op == "NANNOS_GPU"]:
                    continue        # a variable changed before the selection was made explicitly: unspecified
                restore(sn)
                nn = sys.modules["nannos"]
                nops += 1
                b, dev, b32 = g
                h2 = h + [[op, v if not isinstance(v, Other) else "<any other string>"]]
                err = None
                before = (nn.get_backend(), nn.backend, nn.grad, nn.array, tuple(nn.get_types()), nn.get_device(), nn.BACKEND, nn.DEVICE)
                try:
                    if op.startswith("NANNOS_"):
                        os.environ[op] = v
                    else:
                        {"backend": nn.set_backend, "gpu": nn.use_gpu, "32": nn.use_32_bit}[op](v)
                except ValueError as e:
                    err = e
                except Undecided:
                    raise
                nn = sys.modules["nannos"]
                if op == "backend":
                    if v not in NAMES:
                        ob("an unknown back end is refused with an error", err is not None, "no ValueError", h2)
                        after = (nn.get_backend(), nn.backend, nn.grad, nn.array, tuple(nn.get_types()), nn.get_device(), nn.BACKEND, nn.DEVICE)
                        ob("a refused selection changes nothing", all(x is y or x == y for x, y in zip(before, after)), f"{key(before)} -> {key(after)}", h2)
                    else:
                        ob("a known back end is accepted", err is None, repr(err), h2)
                        if v in installed:
                            b = v
                        else:
                            # not installed: the selection falls back (documented) or is left unchanged
                            ob("a back end that is not installed is not reported", nn.get_backend() in ("numpy", b), nn.get_backend(), h2)
                            b = nn.get_backend()
                elif op == "gpu":
                    ob("a device can be selected", err is None, repr(err), h2)
                    dev = "cuda" if v and gpu_ok(b) else "cpu"
                elif op == "32":
                    ob("a precision can be selected", err is None, repr(err), h2)
                    b32 = v
                if op == "backend" and b != g[0] and nn.get_device() != dev and nn.get_device() == "cpu":
                    dev = "cpu"             # going back to the processor with another back end is allowed
                g2 = (b, dev, b32)
                post(g2, h2)
                k2 = (statekey(), g2, (chosen[0] or op == "backend" and v in installed, chosen[1] or op == "gpu"))
                if k2 not in states:
                    if len(states) >= LIMIT:
                        raise Undecided(f"more than {LIMIT} states")
                    if len(fails) > 20:
                        todo.clear()
                        break
                    states[k2] = (snap(), h2)
                    todo.append(k2)
        res = dict(states=len(states), operations=nops, obligations=count, fails=fails, soft=soft, undecided=None)
    except Undecided as e:
        res = dict(states=0, operations=0, obligations=count, fails=fails, soft=soft, undecided=str(e))
    res["files"] = sorted(CODE)
    return res


if __name__ == "__main__":
    import io
    out = sys.stdout
    sys.stdout = io.StringIO()
    cfg = json.loads(sys.argv[1])
    try:
        r = main(cfg)
    except BaseException as e:      # noqa
        import traceback
        r = dict(states=0, operations=0, obligations={}, fails=[], undecided=f"{type(e).__name__}: {e}", trace=traceback.format_exc(), files=[])
    print(json.dumps(r), file=out)
