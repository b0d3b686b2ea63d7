"""The gradient wrapper and the array constructor of each back end: the real package, executed by
the import machinery of nnv/selstate.py, with a torch whose tensors carry a value and the set of
leaves their derivative depends on (ghost state).

    python3-vt -m nnv.gradc '{"torch": true}'

Prints {"obs": [[name, ok, detail]...], "undecided": null or text, "files": [...]}."""
import sys, os, json
from . import selstate as S
from .selstate import Undecided, Stub, SPECIAL


class Dev(Stub):
    pass


def atom(v):
    return v


class T:
    """a tensor: nested tuple of values; for each element the leaves its derivative depends on"""
    n = 0

    def __init__(s, val, graph, leaf=False, dtype="float64"):
        s.val, s.graph, s.leaf, s.dtype_ = val, graph, leaf, dtype
        T.n += 1
        s.name = T.n

    requires_grad = property(lambda s: bool(flat(s.graph)))
    dtype = property(lambda s: SPECIAL["torch." + s.dtype_])
    device = property(lambda s: "cpu")
    shape = property(lambda s: shp(s.val))
    ndim = property(lambda s: len(shp(s.val)))

    def dim(s):
        return len(shp(s.val))

    def size(s, *a):
        return shp(s.val)[a[0]] if a else shp(s.val)

    def to(s, *a, **k):
        d = [x for x in list(a) + list(k.values()) if isinstance(x, Dt)]
        return T(s.val, s.graph, dtype=d[0].__dict__["short"]) if d and d[0].short != s.dtype_ else s

    def clone(s):
        return T(s.val, s.graph, dtype=s.dtype_)

    contiguous = clone

    def detach(s):
        return T(s.val, zero(s.val), dtype=s.dtype_)

    @property
    def data(s):
        return s.detach()

    def requires_grad_(s, on=True):
        if not on:
            s.graph = zero(s.val)
            return s
        if s.requires_grad:
            return s
        s.leaf = True
        s.graph = own(s.val, s.name)
        return s

    def item(s):
        if s.val.__class__ is tuple:
            raise Undecided("item() of an array")
        return s.val

    __float__ = item

    def tolist(s):
        return lst(s.val)

    def cpu(s):
        return s

    def __len__(s):
        if not isinstance(s.val, tuple):
            raise TypeError("len() of a 0-d tensor")
        return len(s.val)

    def __iter__(s):
        if not isinstance(s.val, tuple):
            raise TypeError("iteration over a 0-d tensor")
        return iter([T(v, g, dtype=s.dtype_) for v, g in zip(s.val, s.graph)])

    def __getitem__(s, i):
        if not isinstance(i, int):
            raise Undecided("index of a tensor")
        return T(s.val[i], s.graph[i], dtype=s.dtype_)

    def __bool__(s):
        raise Undecided("truth value of a tensor")

    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Undecided(f"tensor.{n}")


class Dt(Stub):
    def __init__(s, n):
        super().__init__("torch." + n)
        s.__dict__["short"] = n


def flat(g):
    if isinstance(g, tuple):
        return frozenset().union(*[flat(x) for x in g]) if g else frozenset()
    return g


def zero(v):
    return tuple(zero(x) for x in v) if isinstance(v, tuple) else frozenset()


def own(v, n, path=()):
    return tuple(own(x, n, path + (i,)) for i, x in enumerate(v)) if isinstance(v, tuple) else frozenset([(n, path)])


def lst(v):
    return [lst(x) for x in v] if isinstance(v, tuple) else v


def shp(v):
    return (len(v),) + shp(v[0]) if isinstance(v, tuple) and v else (0,) if isinstance(v, tuple) else ()


def isnum(x):
    return isinstance(x, (int, float, complex, V)) and not isinstance(x, bool)


class V:
    """an arbitrary number"""
    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return s.n


def dts(*d):
    order = ["int64", "float32", "float64", "complex64", "complex128"]
    m = max((order.index(x) for x in d), default=2)
    if order[m] == "complex64" and "float64" in d:
        return "complex128"
    return order[m]


def kind(a):
    return a.dtype_ if isinstance(a, T) else "complex128" if isinstance(a, complex) else "int64" if isinstance(a, int) else "float64"


def build(a, keep):
    """(value, graph, types) of nested lists of numbers and tensors"""
    if isinstance(a, (list, tuple)):
        r = [build(x, keep) for x in a]
        if len({shp(x[0]) for x in r}) > 1:
            raise ValueError("lists of different lengths")
        return tuple(x[0] for x in r), tuple(x[1] for x in r), sum([x[2] for x in r], [])
    if isinstance(a, T):
        return a.val, a.graph if keep else zero(a.val), [a.dtype_]
    if isnum(a):
        return a, frozenset(), [kind(a)]
    raise Undecided(f"a tensor made of {type(a).__name__}")


def short(d):
    if d is None:
        return None
    if isinstance(d, Dt):
        return d.short
    raise Undecided(f"type {d!r}")


def t_tensor(a, dtype=None, device=None, requires_grad=False):
    v, g, d = build(a, False)
    t = T(v, g, dtype=short(dtype) or dts(*d))
    return t.requires_grad_() if requires_grad else t


def t_as_tensor(a, dtype=None, device=None):
    if isinstance(a, T):
        return a.to(dtype) if dtype is not None else a
    v, g, d = build(a, False)
    return T(v, g, dtype=short(dtype) or dts(*d))


def t_stack(a, dim=0, axis=0):
    if dim or axis:
        raise Undecided("stack along another axis")
    a = list(a)
    if not a or not all(isinstance(x, T) for x in a):
        raise TypeError("stack of something else than tensors")
    v, g, d = build(a, True)
    return T(v, g, dtype=dts(*d))


def t_promote(a, b):
    return SPECIAL["torch." + dts(short(a), short(b))]


def t_result(a, b):
    return SPECIAL["torch." + dts(kind(a), kind(b))]


CALLS = []


def t_grad(outputs, inputs, allow_unused=False, **k):
    if k and set(k) - {"retain_graph", "create_graph", "materialize_grads"}:
        raise Undecided(f"autograd.grad({list(k)})")
    CALLS.append((outputs, inputs, allow_unused))
    ins = inputs if isinstance(inputs, (list, tuple)) else [inputs]
    return tuple(T(("derivative of", id(outputs), "at", x.name), zero(x.val)) for x in ins)


def setup():
    SPECIAL.update({"torch.Tensor": T, "torch.is_tensor": lambda a: isinstance(a, T), "torch.tensor": t_tensor, "torch.as_tensor": t_as_tensor,
                    "torch.stack": t_stack, "torch.promote_types": t_promote, "torch.result_type": t_result, "torch.device": lambda d="cpu": Stub("device " + str(d)),
                    "torch.autograd.grad": t_grad, "torch.cuda.is_available": lambda: False})
    for d in ("int64", "float32", "float64", "complex64", "complex128"):
        SPECIAL["torch." + d] = Dt(d)
    SPECIAL["torch.double"], SPECIAL["torch.float"], SPECIAL["torch.cdouble"], SPECIAL["torch.cfloat"] = [SPECIAL["torch." + x] for x in ("float64", "float32", "complex128", "complex64")]


def main(cfg):
    setup()
    obs = []
    ob = lambda n, ok, d="": obs.append([n, bool(ok), str(d)[:300]])
    SPECIAL["jax.__version__"] = "0.4.30"
    SPECIAL["IPython.get_ipython"] = lambda: None
    SPECIAL["joblib.delayed"] = lambda f: f
    for v in ("NANNOS_BACKEND", "NANNOS_GPU"):
        os.environ.pop(v, None)
    sys.meta_path.insert(0, S.Finder({}))
    import warnings, logging
    warnings.simplefilter("ignore")
    und = None
    try:
        import nannos
        logging.disable(logging.CRITICAL)
        for b in S.NAMES:
            nannos.set_backend(b)
            nn = sys.modules["nannos"]
            g = nn.grad
            if b == "autograd":
                ob(f"[{b}] nn.grad is the gradient of the library, on the module in use",
                   isinstance(g, Stub) and g.__name__ == "autograd.grad" and nn.backend.__name__ == "autograd.numpy", S.key(g))
                ob(f"[{b}] arrays are made by the differentiable constructor", isinstance(nn.array, Stub) and nn.array.__name__ == "autograd.numpy.array", S.key(nn.array))
            elif b == "torch":
                torch(nn, ob)
            else:
                called = []
                try:
                    df = g(lambda *a: called.append(a))
                    df(1.0)
                    ok = False
                except NotImplementedError:
                    ok = True
                ob(f"[{b}] a gradient is refused with NotImplementedError", ok)
    except Undecided as e:
        und = str(e)
    except Exception as e:
        import traceback
        und = f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}"
    return dict(obs=obs, undecided=und, files=sorted(S.CODE))


def torch(nn, ob):
    c = [0]

    def num():
        c[0] += 1
        return V(f"x{c[0]}")

    def leaf(shape):
        v = (lambda s: tuple(v0(s[1:]) for _ in range(s[0])) if s else num())
        v0 = v
        return T(v(shape), None).requires_grad_() if False else mk(v(shape))

    def mk(v):
        t = T(v, zero(v))
        return t.requires_grad_()
    # grad
    for shape in ((), (1,), (3,), (2, 2), (2, 1, 2)):
        for how in ("tensor", "tensor with a graph", "list"):
            x = leaf(shape)
            if how == "tensor":
                x = x.detach()
            if how == "list":
                if not shape:
                    x = num()
                else:
                    x = lst(x.val)
            seen = []
            out = mk(num())
            a1, k1 = object(), object()

            def f(p, *a, **k):
                seen.append((p, a, k))
                return out
            CALLS.clear()
            try:
                r = nn.grad(f)(x, a1, key=k1)
            except Undecided:
                raise
            except Exception as e:
                ob(f"[torch] gradient with respect to a {how} of shape {shape} is available", False, f"{type(e).__name__}: {e}")
                continue
            xv = x.val if isinstance(x, T) else build(x, False)[0]
            nm = f"[torch] gradient with respect to a {how} of shape {shape}: "
            ob(nm + "the function is evaluated at the argument", len(seen) >= 1 and all(isinstance(s[0], T) and s[0].val == xv for s in seen), seen)
            ob(nm + "in double precision", seen and isinstance(seen[-1][0], T) and seen[-1][0].dtype_ == "float64")
            ob(nm + "the other arguments are passed on", seen and all(s[1] == (a1,) and s[2] == {"key": k1} for s in seen))
            ok = len(CALLS) == 1 and CALLS[0][0] is out and seen and (CALLS[0][1] is seen[-1][0] or isinstance(CALLS[0][1], (list, tuple)) and len(CALLS[0][1]) == 1 and CALLS[0][1][0] is seen[-1][0])
            ob(nm + "the result is the derivative of the value of the function with respect to the point it was evaluated at",
               ok and isinstance(r, T) and r.val == ("derivative of", id(out), "at", seen[-1][0].name), CALLS)
            p = seen[-1][0] if seen else None
            ob(nm + "that point is a variable of its own (the graph of the argument is not part of it)", isinstance(p, T) and p.leaf and p.graph == own(p.val, p.name))
    # arrays
    from itertools import product

    def pats(d):
        n = num
        yield "a scalar", lambda: leaf(())
        yield "a vector", lambda: leaf((3,))
        yield "a matrix", lambda: leaf((2, 2))
        for k in range(1, 5):
            for m in product((0, 1), repeat=k):
                if any(m):
                    yield f"the list {[('number', 'scalar')[q] for q in m]}", (lambda m=m: [leaf(()) if q else num() for q in m])
        for k in (1, 2, 3):
            yield f"{k} vectors", lambda k=k: [leaf((3,)) for _ in range(k)]
            yield f"a tuple of {k} vectors", lambda k=k: tuple(leaf((3,)) for _ in range(k))
        for m in product((0, 1), repeat=4):
            if any(m):
                yield f"the table {[('number', 'scalar')[q] for q in m]}", (lambda m=m: [[leaf(()) if q else num() for q in m[:2]], [leaf(()) if q else num() for q in m[2:]]])
        yield "a table of matrices", lambda: [[leaf((2, 2)), leaf((2, 2))], [leaf((2, 2)), leaf((2, 2))]]
        yield "numbers and a parameter among derived values", lambda: [1.5, leaf(()), 2]
    A = nn.array
    for nm, mkp in pats(0):
        for dt in (None, nn.FLOAT):
            x = mkp()
            v, g, d = build(x, True)
            try:
                r = A(x) if dt is None else A(x, dtype=dt)
            except Undecided:
                raise
            except Exception as e:
                ob(f"[torch] array of {nm}{'' if dt is None else ' with a type'} is available", False, f"{type(e).__name__}: {e}")
                continue
            t = f"[torch] array of {nm}{'' if dt is None else ' with a type'}: "
            ob(t + "the elements are those given", isinstance(r, T) and r.val == v, getattr(r, "val", r))
            ob(t + "the derivative of each element is that of the element given", isinstance(r, T) and r.graph == g, getattr(r, "graph", r))
            ob(t + "no element loses precision", isinstance(r, T) and r.dtype_ == dts(*d) or dt is not None and isinstance(r, T) and r.dtype_ in ("float64",), getattr(r, "dtype_", ""))


if __name__ == "__main__":
    print(json.dumps(main(json.loads(sys.argv[1]) if len(sys.argv) > 1 else {})))
