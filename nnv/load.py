"""Mechanical extraction: the modules of /repo/nannos are read from the working tree on
every run, their syntax trees are rewritten as listed below and executed with symbolic
stand-ins for the external libraries.

Rewriting (nothing else is dropped or changed):
 * `for` statements get a second branch used when the iterable is symbolic (loop rules);
 * comprehensions with one generator and no condition go through `__nnv.comp`;
 * f-strings go through `__nnv.fstr` (they are used as dictionary keys);
 * builtins len, range, ... are looked up in the module namespace first, where versions
   accepting symbolic arguments are stored.
External modules are replaced: numerical back end by nnv.symbk, others by recording stubs.
"""
import ast, builtins, types, sys, os, importlib
from . import engine as en
from .engine import *

REPO = os.environ.get("NNV_REPO", "/repo")
PKG = os.path.join(REPO, "nannos")
REAL = {"math", "copy", "functools", "itertools", "time", "collections", "typing", "warnings", "operator", "logging", "numbers",
        "inspect", "contextlib", "dataclasses", "enum", "abc", "string", "re", "random", "fractions"}


def source(mod):
    rel = mod.split(".")[1:]
    p = os.path.join(PKG, *rel)
    if os.path.isdir(p):
        p = os.path.join(p, "__init__.py")
    else:
        p += ".py"
    with open(p, encoding="utf8") as f:
        return p, f.read()


class Stub(types.ModuleType):
    """external module or object: any attribute; calling is not supported unless replaced"""

    def __init__(s, name, **kw):
        super().__init__(name)
        s.__dict__.update(kw)
        s.__dict__.setdefault("__path__", [])
        s.__dict__["__all__"] = []

    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = Stub(f"{s.__name__}.{n}")
        s.__dict__[n] = v
        return v

    def __call__(s, *a, **k):
        raise Unsupported(f"call of the external function {s.__name__}")

    def __repr__(s):
        return f"<external {s.__name__}>"


class Quiet:
    """object accepting everything (loggers, plotting settings)"""

    def __getattr__(s, n):
        if n.startswith("__") and n != "__call__":
            raise AttributeError(n)
        return s

    def __call__(s, *a, **k):
        return s

    def __setattr__(s, n, v):
        pass


# ------------------------------------------------------------------ rewriting
class Rewrite(ast.NodeTransformer):
    def __init__(s):
        s.n = 0

    def call(s, f, args):
        return ast.Call(ast.Attribute(ast.Name("_nnv_", ast.Load()), f, ast.Load()), args, [])

    def visit_JoinedStr(s, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = s.visit(v.value)
                spec = v.format_spec
                if spec is not None:
                    spec = ast.JoinedStr(spec.values) if isinstance(spec, ast.JoinedStr) else spec
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec or ast.Constant("")], ast.Load()))
        return ast.copy_location(s.call("fstr", parts), node)

    def comp(s, node, kind):
        g = node.generators
        if len(g) != 1 or g[0].is_async or g[0].ifs and kind == "dict":
            s.generic_visit(node)
            return node
        elt = s.visit(node.elt if kind != "dict" else ast.Tuple([node.key, node.value], ast.Load()))
        it = s.visit(g[0].iter)
        t = g[0].target
        names = set()
        for x in ast.walk(elt):
            if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)):
                s.generic_visit(node)
                return node
        lam = s.lam(t, elt)
        if g[0].ifs:
            import copy as cp
            cond = ast.BoolOp(ast.And(), [s.visit(c) for c in g[0].ifs]) if len(g[0].ifs) > 1 else s.visit(g[0].ifs[0])
            if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(cond)):
                raise Unsupported("comprehension")
            return ast.copy_location(s.call("compif", [ast.Constant(kind), it, lam, s.lam(cp.deepcopy(t), cond)]), node)
        return ast.copy_location(s.call("comp", [ast.Constant(kind), it, lam]), node)

    def lam(s, t, body):
        def arg(names):
            return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        s.n += 1
        x = f"_nnvx{s.n}"
        if isinstance(t, ast.Name):
            return ast.Lambda(arg([t.id]), body)
        if isinstance(t, (ast.Tuple, ast.List)) and all(not isinstance(e, ast.Starred) for e in t.elts):
            # unpack nested tuples
            names, inner = [], body
            for j, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    names.append(e.id)
                else:
                    s.n += 1
                    y = f"_nnvy{s.n}"
                    names.append(y)
                    inner = ast.Call(s.lam(e, inner), [ast.Name(y, ast.Load())], [])
            f = ast.Lambda(arg(names), inner)
            return ast.Lambda(arg([x]), ast.Call(f, [ast.Starred(ast.Name(x, ast.Load()), ast.Load())], []))
        raise Unsupported("comprehension target")

    def visit_ListComp(s, node):
        return s.comp(node, "list")

    def visit_GeneratorExp(s, node):
        return s.comp(node, "gen")

    def visit_DictComp(s, node):
        return s.comp(node, "dict")

    def visit_List(s, node):
        s.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not node.elts:
            return ast.copy_location(s.call("newlist", []), node)
        return node

    def visit_Dict(s, node):
        s.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return ast.copy_location(s.call("newdict", [node]), node)

    def visit_For(s, node):
        attrs = sorted(stored_attrs(node.body) - assigned(node.body) - assigned_target(node.target))
        s.generic_visit(node)
        s.n += 1
        it, lo = f"_nnvit{s.n}", f"_nnvL{s.n}"
        names = sorted(assigned(node.body) | assigned_target(node.target))
        N = lambda x: ast.Name(x, ast.Load())
        S = lambda x: ast.Name(x, ast.Store())
        loc = ast.Call(N("locals"), [], [])
        get = [ast.Assign([S(v)], ast.Call(ast.Attribute(N(lo), "get", ast.Load()), [ast.Constant(v)], [])) for v in names]
        meth = lambda m, *a: ast.Call(ast.Attribute(N(lo), m, ast.Load()), list(a), [])
        import copy as cp
        rets = Returns(lo)
        inner = [rets.visit(b) for b in cp.deepcopy(node.body)]
        body = ast.While(
            meth("next", loc),
            cp.deepcopy(get)
            + [ast.Assign([cp.deepcopy(node.target)], ast.Attribute(N(lo), "elem", ast.Load())),
               ast.For(S(f"_nnvo{s.n}"), ast.Tuple([ast.Constant(0)], ast.Load()), inner,
                       [ast.Expr(meth("end", loc)), ast.Continue()]),
               ast.Expr(meth("broke", loc)), ast.Break()],
            cp.deepcopy(get) + (cp.deepcopy(node.orelse) or []) or [ast.Pass()])
        plain = ast.For(node.target, N(it), node.body, node.orelse)
        out = [
            ast.Assign([S(it)], s.call("iter", [node.iter])),
            ast.If(s.call("is_sym", [N(it)]),
                   [ast.Assign([S(lo)], s.call("loop", [N(it), ast.Constant(node.lineno), ast.Tuple([ast.Constant(v) for v in names], ast.Load()), ast.Constant(hasbreak(node.body) or rets.n > 0), ast.Constant(",".join(attrs))])),
                    body],
                   [plain]),
        ]
        for o in out:
            ast.copy_location(o, node)
        return out


    def visit_While(s, node):
        names = sorted(assigned(node.body))
        s.generic_visit(node)
        s.n += 1
        lo = f"_nnvW{s.n}"
        N = lambda x: ast.Name(x, ast.Load())
        import copy as cp
        loc = ast.Call(N("locals"), [], [])
        meth = lambda m, *a: ast.Call(ast.Attribute(N(lo), m, ast.Load()), list(a), [])
        get = [ast.If(meth("has", ast.Constant(v)), [ast.Assign([ast.Name(v, ast.Store())], meth("get", ast.Constant(v)))], []) for v in names]
        rets = Returns(lo)
        body = [rets.visit(b) for b in cp.deepcopy(node.body)]
        # one iteration from an arbitrary state satisfying the invariant; `continue` and falling through end it
        ruled = [ast.Expr(meth("enter", loc))] + get + [
            ast.For(ast.Name(f"_nnvo{s.n}", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()),
                    [ast.If(ast.UnaryOp(ast.Not(), cp.deepcopy(node.test)), [ast.Expr(meth("leave", loc)), ast.Break()], [])] + body,
                    [ast.Expr(meth("end", loc))]),
            ast.Expr(meth("after", loc))]
        out = [ast.Assign([ast.Name(lo, ast.Store())], s.call("whiles", [ast.Constant(node.lineno), ast.Tuple([ast.Constant(v) for v in names], ast.Load())])),
               ast.If(ast.Compare(N(lo), [ast.Is()], [ast.Constant(None)]), [node], ruled if not node.orelse else [ast.Expr(meth("refuse"))])]
        for o in out:
            ast.copy_location(o, node)
        return out


class Returns(ast.NodeTransformer):
    """return statements leaving a loop"""

    def __init__(s, loop):
        s.loop, s.n = loop, 0

    def visit_Return(s, node):
        s.n += 1
        v = node.value or ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Call(ast.Attribute(ast.Name(s.loop, ast.Load()), "ret", ast.Load()), [v], [])), node)

    def visit_FunctionDef(s, node):
        return node

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef


def hasbreak(body):
    for b in body:
        if isinstance(b, ast.Break):
            return True
        if isinstance(b, (ast.For, ast.While, ast.FunctionDef)):
            if hasbreak(b.orelse if hasattr(b, "orelse") else []):
                return True
            continue
        for f in ("body", "orelse", "handlers", "finalbody"):
            if hasbreak(getattr(b, f, []) or []):
                return True
        if isinstance(b, ast.ExceptHandler) and hasbreak(b.body):
            return True
    return False


def stored_attrs(body):
    """names of the objects of which an attribute is assigned"""
    out = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                y = x
                while isinstance(y, (ast.Attribute, ast.Subscript)):
                    y = y.value
                out.add(y.id if isinstance(y, ast.Name) else "?")
    return out


def assigned_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(s, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(s, n):
            out.add(n.name)

        def visit_Lambda(s, n):
            pass

        def visit_ListComp(s, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(s, n):
            for b in n.body:
                s.visit(b)

        def visit_Import(s, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    for b in body:
        V().visit(b)
    return {n for n in out if not n.startswith("_nnv")}


# ------------------------------------------------------------------ loading
class Program:
    """the package under symbolic execution, for one reported back end"""

    def __init__(s, backend="numpy", device="cpu"):
        from . import symbk
        s.backend = backend
        INPLACE[0], INPLACE[1] = backend != "jax", backend != "torch"
        s.mods = {}
        s.bk = symbk.make(backend)
        s.FLOAT, s.COMPLEX = s.bk.float64, s.bk.complex128
        s.externals = {}
        s.files = set()
        s.loop_rules = {}
        s.loop_default = None
        s.while_rule = None
        root = types.ModuleType("nannos")
        root.__path__ = [PKG]
        root.__dict__.update(
            backend=s.bk, get_types=lambda: (s.FLOAT, s.COMPLEX), jit=lambda fun, **kw: fun, logger=Quiet(), BACKEND=backend,
            DEVICE=device, get_backend=lambda: backend, get_device=lambda: device, HAS_TORCH=True, HAS_JAX=True, FLOAT=s.FLOAT,
            COMPLEX=s.COMPLEX, grad=Stub("grad"), set_log_level=lambda *a: None, has_torch=lambda: True, has_jax=lambda: True)
        s.mods["nannos"] = root
        s.root = root
        s.mods["nannos.plot"] = Stub("nannos.plot")
        s.mods["nannos.plot"].__dict__["__all__"] = []
        s.mods["nannos.utils.jupyter"] = Stub("nannos.utils.jupyter")
        s.mods["nannos.log"] = Stub("nannos.log", logger=Quiet())
        s.rt = Runtime(s)
        s.ext("numpy", s.bk)
        s.ext("torch", Stub("torch", fft=s.bk.torchfft))
        s.ext("torch.fft", s.bk.torchfft)
        s.ext("scipy.fftpack", s.bk.fftpack)
        s.ext("pyvista", Quiet())
        s.ext("matplotlib", Quiet())
        s.ext("matplotlib.pyplot", Quiet())
        s.ext("IPython", Stub("IPython", get_ipython=lambda: None))
        s.ext("colorlog", Quiet())

    def ext(s, name, mod):
        s.externals[name] = mod

    def external(s, name):
        if name in s.externals:
            return s.externals[name]
        top = name.split(".")[0]
        if top in REAL:
            return importlib.import_module(name)
        if "." in name:
            p, _, last = name.rpartition(".")
            v = getattr(s.external(p), last)
        else:
            v = Stub(name)
        s.externals[name] = v
        return v

    def load(s, name):
        if name in s.mods:
            return s.mods[name]
        if "." in name:
            parent = s.load(name.rpartition(".")[0])
        path, src = source(name)
        s.files.add(os.path.relpath(path, REPO))
        tree = Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith("__init__.py")
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        s.prepare(m)
        s.mods[name] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def prepare(s, m):
        b = dict(builtins.__dict__)
        b["__import__"] = s.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["_nnv_"] = s.rt
        b.update(SHADOW)

    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name.split(".")[0] == "nannos":
                full = name
            else:
                v = s.external(name)
                if not fromlist:
                    return s.external(name.split(".")[0])
                return v
        else:
            pkg = globals["__package__"].split(".")
            pkg = pkg[: len(pkg) - level + 1]
            full = ".".join(pkg + ([name] if name else []))
        m = s.load(full)
        if not fromlist:
            return s.mods["nannos"] if level == 0 else m
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                try:
                    s.load(full + "." + f)
                except FileNotFoundError:
                    pass
        return m


# ------------------------------------------------------------------ run-time support
class Key:
    """f-string with symbolic parts, used as a dictionary key"""

    def __init__(s, parts):
        s.parts = tuple(parts)
        s.id = tuple(p.p if isinstance(p, (SInt, Sc)) else str(p) for p in s.parts)

    def __hash__(s):
        return hash(s.id)

    def __eq__(s, o):
        return isinstance(o, Key) and s.id == o.id

    def __repr__(s):
        return "".join(map(str, s.parts))


class Runtime:
    def __init__(s, prog):
        s.prog = prog

    def fstr(s, *parts):
        out, symb = [], False
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            if isinstance(v, (SInt, Sc, Key)):
                symb = True
                out.append(v)
            else:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                try:
                    out.append(format(v, spec))
                except (TypeError, Unsupported):
                    out.append("?")
        return Key(out) if symb else "".join(out)

    def is_sym(s, it):
        return getattr(it, "_nnv_iter", False)

    def iter(s, it):
        f = getattr(it, "nnv_iter", None)
        return f() if f is not None and not isinstance(it, type) else it

    def compif(s, kind, it, f, cond):
        it = s.iter(it)
        if s.is_sym(it):
            g = getattr(it, "nnv_compif", None)
            if g is None and kind == "gen":
                return Find(it, f, cond)
            if g is None:
                raise Unsupported("selection from a symbolic collection")
            return g(f, cond)
        g = (f(x) for x in it if cond(x))
        return g if kind == "gen" else list(g)

    def pure(s, f, x):
        """f(x), where f leaves the lists it uses alone"""
        cells = []
        for c in getattr(f, "__closure__", None) or ():
            try:
                if isinstance(c.cell_contents, AList):
                    cells.append(c.cell_contents)
            except ValueError:
                pass
        n = [list.__len__(l) for l in cells]
        v = f(x)
        if n != [list.__len__(l) for l in cells]:
            raise Unsupported("list changed by a comprehension")
        return v

    def comp(s, kind, it, f):
        it = s.iter(it)
        if s.is_sym(it) and hasattr(it, "nnv_comp") and kind != "dict":
            return it.nnv_comp(f)
        if s.is_sym(it):
            if kind == "dict":
                dk = getattr(it, "dictkey", None)
                if dk is None:
                    raise Unsupported("dictionary over a symbolic collection")
                i = SInt.var(CTX.fresh("i"))
                e = it.at(i)
                k, v = f(e)
                if topoly(k) != topoly(dk(e)):
                    raise Unsupported("keys of a dictionary over a symbolic collection")
                d = ADict()
                d.sym = (k, v)
                return d
            l = SymList(it.n, lambda i: s.pure(f, it.at(i)))
            l.witness = getattr(it, "witness", None)
            l.cover = getattr(it, "cover", None)
            return l
        if kind == "dict":
            return dict(f(x) for x in it)
        if kind == "gen":
            return (f(x) for x in it)
        return [f(x) for x in it]

    def whiles(s, line, names):
        rule = s.prog.while_rule
        return rule(s.prog, line, names) if rule is not None else None

    def loop(s, it, line, names, brk, attrs=""):
        rule = it.rule or s.prog.loop_default or GenericLoop
        l = rule(s.prog, it, line, names, brk)
        l.attrs = attrs
        return l

    def newdict(s, d):
        return made(ADict(d))

    def newlist(s):
        return made(AList())


class Undef:
    def __repr__(s):
        return "UNDEF"

    def __getattr__(s, n):
        raise Unsupported("variable possibly undefined after a loop")


UNDEF = Undef()


class SymIter:
    """iteration over n (symbolic) elements at(i)"""
    _nnv_iter = True

    def __init__(s, n, at, tag=None, rule=None):
        s.n, s.at, s.tag, s.rule = n, at, tag, rule

    def nnv_iter(s):
        return s


class Find:
    """the elements of a symbolic collection that satisfy a condition, looked for with next()"""

    def __init__(s, it, f, cond):
        s.it, s.f, s.cond = it, f, cond

    def __iter__(s):
        raise Unsupported("selection from a symbolic collection")

    def nnv_next(s, *default):
        w = getattr(s.it, "witness", None)
        if w is not None and CTX.choose(2, "search: witness") == 1:
            e = s.it.at(w)
            if not s.cond(e):
                raise Unsupported("search does not stop at the element looked for")
            return s.f(e)
        i = SInt.var(CTX.fresh("i"))
        z = zpoly(i.p)
        CTX.assume(z3().And(z >= 0, z < zpoly(topoly(s.it.n))))
        e = s.it.at(i)
        if s.cond(e):
            return s.f(e)
        if w is not None:
            raise PathEnd()
        if default:
            return default[0]
        raise StopIteration


def _set(it=()):
    f = getattr(it, "nnv_set", None)
    return f() if f is not None else set(it)


def _next(it, *d):
    f = getattr(it, "nnv_next", None)
    return f(*d) if f is not None else next(it, *d)


class SymRange:
    def __init__(s, a, b):
        s.a, s.b = a, b
        s.rule = None

    def __iter__(s):
        raise Unsupported("iteration over a range of symbolic length")

    def nnv_iter(s):
        return SymIter(s.b - s.a, lambda i: s.a + i, "range", s.rule)

    def __getitem__(s, i):
        if isinstance(i, (int, SInt)):
            if isinstance(i, int) and i < 0:
                i = s.b - s.a + i
            n = s.b - s.a
            ok = (i >= 0) & (i < n) if isinstance(i, SInt) or isinstance(n, SInt) else 0 <= i < n
            if isinstance(ok, bool) and not ok or not ok:
                raise IndexError("range object index out of range")
            return s.a + i
        raise Unsupported("slice of a range")

    def nnv_len(s):
        return s.b - s.a


class SymList:
    """list of symbolic length"""
    _nnv_array = False

    def nnv_array(s):
        return s

    def __len__(s):
        raise Unsupported("length of a symbolic list")

    def __init__(s, n, at, name=None):
        s.n, s._at = n, at
        s.cache = {}
        s.extra = []

    def at(s, i):
        k = topoly(i)
        if k not in s.cache:
            s.cache[k] = s._at(i)
        return s.cache[k]

    def nnv_iter(s):
        it = SymIter(s.n, s.at, "list")
        it.witness = getattr(s, "witness", None)
        it.cover = getattr(s, "cover", None)
        return it

    def nnv_len(s):
        return s.n

    def __contains__(s, x):
        w = getattr(s, "witness", None)
        if w is not None:
            y = s.at(w)
            if y is x or y == x:
                return True
        return _quant("any", True)(SymList(s.n, lambda i: s.at(i) is x or s.at(i) == x))

    def __iter__(s):
        raise Unsupported("iteration over a list of symbolic length")

    def index(s, x):
        try:
            return Find(_enumerate(s), lambda e: e[0], lambda e: e[1] is x or e[1] == x).nnv_next()
        except StopIteration:
            raise ValueError(f"{x!r} is not in list") from None

    def slice(s, sl):
        """[a:b] with 0 <= a, b (decided with the path condition)"""
        if sl.step not in (None, 1):
            raise Unsupported("slice with a step of a list of symbolic length")
        a, b = 0 if sl.start is None else sl.start, s.n if sl.stop is None else sl.stop
        if not all(isinstance(v, (int, SInt)) for v in (a, b)):
            raise Unsupported("slice of a list of symbolic length")
        if a < 0:
            a = s.n + a
        if b < 0:
            b = s.n + b
        if b > s.n:
            b = s.n
        if a < 0 or b < a:
            raise Unsupported("slice of a list of symbolic length")
        out = SymList(b - a, lambda i: s.at(i + a))
        for k in ("witness", "cover"):
            w = getattr(s, k, None)
            if w is not None and (isinstance(a, int) and a == 0 or w >= a) and (b is s.n or w < b):
                setattr(out, k, w - a)
        return out

    def __getitem__(s, i):
        if isinstance(i, slice):
            return s.slice(i)
        if isinstance(i, (int, SInt)):
            if isinstance(i, int) and i < 0:
                i = s.n + i
            if isinstance(i, SInt) or isinstance(s.n, SInt):
                if isinstance(i, SInt) and i < 0:
                    i = s.n + i
                ok = (SInt(topoly(i)) >= 0) & (SInt(topoly(i)) < s.n)
                if not ok:
                    raise IndexError("list index out of range")
            elif not 0 <= i < s.n:
                raise IndexError("list index out of range")
            return s.at(i)
        raise Unsupported("slice of a list of symbolic length")

    @property
    def shape(s):
        return (s.n,)


class AList(list):
    """list built in the code; may become a list of symbolic length by appends in a loop"""
    sym = None      # (n, index, element)
    src = None      # the j-th element, where each element is that of the collection iterated over

    has = put = None        # membership and append of a list in an arbitrary state

    def __contains__(s, x):
        if s.sym is None:
            return list.__contains__(s, x)
        if s.has is None:
            raise Unsupported("search in a list of symbolic length")
        return s.has(x)

    def append(s, x):
        if s.sym is not None and s.put is not None:
            return s.put(x)
        if s.sym is not None:
            raise Unsupported("append to a list of symbolic length")
        if LOOPS and id(s) not in LOOPS[-1].made:
            LOOPS[-1].appends.append((s, x))
            return
        list.append(s, x)

    def _guard(s):
        if s.sym is not None or LOOPS and id(s) not in LOOPS[-1].made:
            raise Unsupported("change of a list in a loop over a symbolic collection")

    def __setitem__(s, i, v):
        s._guard()
        list.__setitem__(s, i, v)

    def extend(s, x):
        s._guard()
        list.extend(s, x)

    def insert(s, i, x):
        s._guard()
        list.insert(s, i, x)

    def pop(s, *a):
        s._guard()
        return list.pop(s, *a)

    def __iadd__(s, x):
        s._guard()
        return list.__iadd__(s, x)

    def __len__(s):
        if s.sym is not None:
            raise Unsupported("len")
        return list.__len__(s)

    def nnv_len(s):
        return s.sym[0] if s.sym is not None else list.__len__(s)

    def nnv_array(s):
        if s.sym is None:
            from . import symbk
            return symbk.array(tuple(s))
        return SymArr(*s.sym)

    @property
    def nnv_iter(s):
        if s.sym is None:
            raise AttributeError("nnv_iter")
        n, i, e = s.sym
        return lambda: SymIter(n, s._at, "list")

    def _at(s, j):
        n, i, e = s.sym
        if topoly(j) == topoly(i):
            return e
        if s.src is not None:
            return s.src(j)
        raise Unsupported("element of a list at another index")

    def __getitem__(s, j):
        if s.sym is not None:
            if isinstance(j, slice):
                return SymList(s.sym[0], s._at).slice(j)
            return s._at(j)
        return list.__getitem__(s, j)


def made(x):
    if LOOPS:
        LOOPS[-1].made[id(x)] = x
    return x


class ADict(dict):
    """dictionary of the code; one built by a loop over a symbolic collection is described by
    `rows`: what it holds under each key written by the iteration"""
    hav = None          # contents as SMT arrays while a loop builds it (index dictionaries)
    sym = None          # (key, value, loop) written once per iteration under distinct keys

    def _key(s, k):
        if isinstance(k, (SInt, Sc)) or any(isinstance(x, (SInt, Sc)) for x in dict.keys(s)):
            if dict.__len__(s) and not (dict.__len__(s) == 1 and next(iter(dict.keys(s))) is k):
                raise Unsupported("dictionary with symbolic keys")
        return k

    def _out(s):
        return LOOPS and id(s) not in LOOPS[-1].made

    def _hav(s):
        """this dictionary is built by the current loop"""
        if s.hav is None:
            L = LOOPS[-1]
            inv = getattr(L.it, "dictinv", None)
            if inv is None or dict.__len__(s) or len(LOOPS) > 1:
                raise Unsupported("dictionary changed in a loop over a symbolic collection")
            s.hav = IndexDict(inv, L)
            L.dicts.append(s)
        return s.hav

    def _indexdict(s):
        return s.hav is not None or s._out() and getattr(LOOPS[-1].it, "dictinv", None) is not None

    def __contains__(s, k):
        if s._indexdict():
            return s._hav().has(k)
        if s.sym is not None:
            raise Unsupported("membership in a dictionary filled by a loop")
        if s._out() and not dict.__len__(s) and False:
            pass
        return dict.__contains__(s, s._key(k))

    def __getitem__(s, k):
        if s._indexdict():
            return s._hav().row(k)
        if s.sym is not None:
            if topoly(s.sym[0]) == topoly(k):
                return s.sym[1]
            raise Unsupported("entry of a dictionary at another key")
        return dict.__getitem__(s, s._key(k))

    def get(s, k, d=None):
        return s[k] if s.__contains__(k) else d

    def setdefault(s, k, d=None):
        if not s.__contains__(k):
            s[k] = d
        return s[k]

    def __setitem__(s, k, v):
        if s._indexdict():
            return s._hav().write(k, v)
        if s._out():
            L = LOOPS[-1]
            dk = getattr(L.it, "dictkey", None)
            if dk is None or s.sym is not None or s.hav is not None or dict.__len__(s) or topoly(dk(L.elem)) != topoly(k):
                raise Unsupported("dictionary changed in a loop over a symbolic collection")
            if any(x[0] is s for x in L.writes):
                raise Unsupported("two writes of a dictionary per iteration")
            L.writes.append((s, k, v))
            return
        if s.sym is not None or s.hav is not None:
            raise Unsupported("dictionary changed after the loop that filled it")
        dict.__setitem__(s, s._key(k), v)

    def items(s):
        if s.hav is not None:
            return s.hav.items()
        if s.sym is not None:
            raise Unsupported("items of a dictionary filled by a loop")
        return dict.items(s)

    def close(s, loop):
        s.hav.close(loop)


class IndexDict:
    """two-level dictionary key -> key -> index, as SMT arrays, with the invariant of the loop
    building it: for the generic earlier index j', D[k1(j')][k2(j')] = j'"""

    def __init__(s, inv, loop):
        Z = z3()
        I, B = Z.IntSort(), Z.BoolSort()
        s.inv, s.loop, s.n = inv, loop, loop.it.n
        f = CTX.fresh("dict")
        s.In = Z.Array(f + ".in", I, B)
        s.In2 = Z.Array(f + ".in2", I, Z.ArraySort(I, B))
        s.V = Z.Array(f + ".v", I, Z.ArraySort(I, I))
        s.done = False
        s.prev = SInt.var(CTX.fresh("jprev"))
        jp, j = zpoly(s.prev.p), zpoly(loop.index.p)
        CTX.assume(Z.Implies(Z.And(0 <= jp, jp < j), s.holds(s.prev)))

    def holds(s, j):
        Z = z3()
        k1, k2 = (zpoly(topoly(x)) for x in s.inv(j))
        return Z.And(Z.Select(s.In, k1), Z.Select(Z.Select(s.In2, k1), k2), Z.Select(Z.Select(s.V, k1), k2) == zpoly(topoly(j)))

    def has(s, k):
        if s.done:
            raise Unsupported("membership after the loop")
        return bool(SBool(z3().Select(s.In, zpoly(topoly(k)))))

    def row(s, k):
        if not s.done and not s.has(k):
            raise KeyError(repr(k))
        return IndexRow(s, k)

    def write(s, k, v):
        Z = z3()
        if s.done:
            raise Unsupported("dictionary changed after the loop that filled it")
        k = zpoly(topoly(k))
        if isinstance(v, IndexRow) and v.d is s:
            raise Unsupported("row stored under another key")
        if not isinstance(v, ADict) or v.hav is not None or v.sym is not None:
            raise Unsupported("value of an index dictionary")
        i2 = Z.K(Z.IntSort(), Z.BoolVal(False))
        vv = Z.Select(s.V, k)
        for a, b in dict.items(v):
            i2, vv = Z.Store(i2, zpoly(topoly(a)), True), Z.Store(vv, zpoly(topoly(a)), zpoly(topoly(b)))
        s.In, s.In2, s.V = Z.Store(s.In, k, True), Z.Store(s.In2, k, i2), Z.Store(s.V, k, vv)

    def close(s, loop):
        Z = z3()
        jp, j = zpoly(s.prev.p), zpoly(loop.index.p)
        c = [x for x in CTX.cond if Z.is_expr(x)]
        CTX.obls.append(("dict: the entry of this iteration is its index", s.holds(loop.index), c))
        CTX.obls.append(("dict: earlier entries are kept", Z.Implies(Z.And(0 <= jp, jp < j), s.holds(s.prev)), c))
        s.done = True


class IndexRow:
    def __init__(s, d, k):
        s.d, s.k = d, k

    def __setitem__(s, k2, v):
        Z, d = z3(), s.d
        if d.done:
            raise Unsupported("dictionary changed after the loop that filled it")
        a, b = zpoly(topoly(s.k)), zpoly(topoly(k2))
        d.In2 = Z.Store(d.In2, a, Z.Store(Z.Select(d.In2, a), b, True))
        d.V = Z.Store(d.V, a, Z.Store(Z.Select(d.V, a), b, zpoly(topoly(v))))


class SymArr:
    """1-D array of symbolic length given by its element at a generic index (on this path)"""
    _nnv_array = True

    def __init__(s, n, i, e):
        s.n, s.i, s.e = n, i, e

    @property
    def shape(s):
        return (s.n,)


class SymStack:
    """array with a symbolic leading axis, written in a loop"""
    _nnv_array = True

    def __init__(s, n, proto):
        s.n, s.proto = n, proto
        s.index = None
        s.cells = None
        s.loop = None

    @property
    def shape(s):
        return (s.n,) + s.proto.shape

    def __setitem__(s, i, v):
        i = tuple(x for x in (i if isinstance(i, tuple) else (i,)) if x is not None)
        if not LOOPS or s.index is not None and s.loop is not LOOPS[-1]:
            raise Unsupported("assignment outside of the loop filling the array")
        L = LOOPS[-1]
        if s.index is None:
            s.loop, s.index = L, L.index
            s.cells = s.proto.copy()
            for q in np.ndindex(*s.cells.data.shape):
                s.cells.data[q] = None
            L.stacks.append(s)
        if topoly(i[0]) != topoly(s.index):
            raise Unsupported("write at another index than the one of the iteration")
        s.cells[i[1:]] = v

    def generic(s):
        """content at the generic index of the loop that filled it"""
        c = s.proto.copy()
        for q in np.ndindex(*c.data.shape):
            if s.cells is not None and s.cells.data[q] is not None:
                c.data[q] = s.cells.data[q]
        return c

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        i = i if isinstance(i, tuple) else (i,)
        if s.cells is None or s.loop in LOOPS:
            raise Unsupported("read of an array being filled")
        if isinstance(i[0], (int, SInt)):
            if topoly(i[0]) != topoly(s.index):
                raise Unsupported("element at another index")
            g = s.generic()
            return g[i[1:]] if len(i) > 1 else g
        if i[0] == slice(None):
            g = s.generic()
            r = g[i[1:]] if len(i) > 1 else g
            return Lifted(s.n, s.index, r)
        raise Unsupported("index of a stacked array")

    @property
    def at(s):
        return AtS(s)


class AtS:
    def __init__(s, a, i=None):
        s.a, s.i = a, i

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        return AtS(s.a, i)

    def set(s, v):
        s.a[s.i] = v
        return s.a


class Lifted:
    """array (n, ...) by its content at the generic index"""
    _nnv_array = True

    def __init__(s, n, index, cell):
        s.n, s.index, s.cell = n, index, cell

    @property
    def shape(s):
        return (s.n,) + s.cell.shape

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        i = i if isinstance(i, tuple) else (i,)
        if i[0] == slice(None):
            return Lifted(s.n, s.index, s.cell[i[1:]] if len(i) > 1 else s.cell)
        if isinstance(i[0], SInt) and topoly(i[0]) == topoly(s.index):
            return s.cell[i[1:]] if len(i) > 1 else s.cell
        raise Unsupported("index of a lifted array")


LOOPS = []


class Loop:
    """base class of the loop rules"""

    def __init__(s, prog, it, line, names, brk=False):
        s.prog, s.it, s.line, s.names, s.brk = prog, it, line, names, brk
        s.state = {}
        s.stage = 0
        s.elem = None
        s.appends, s.stacks, s.made, s.dicts, s.writes = [], [], {}, [], []
        s.attrs = ""

    def get(s, v):
        return s.state.get(v, UNDEF)

    def save(s, loc):
        s.state = {v: loc.get(v, UNDEF) for v in s.names}

    def next(s, loc):
        raise Unsupported(f"loop over a symbolic collection (line {s.line})")

    def end(s, loc):
        pass

    def broke(s, loc):
        pass

    def ret(s, v):
        raise Unsupported(f"return inside of a loop (line {s.line})")


class WhileRule:
    """loop invariants for while loops: `havoc` gives an arbitrary state satisfying the invariant (and checks
    the one the loop is entered with), `check` proves that the body preserves it"""

    def __init__(s, prog, line, names):
        s.prog, s.line, s.names = prog, line, names
        s.state = {}

    def has(s, v):
        return v in s.state

    def get(s, v):
        return s.state[v]

    def enter(s, loc):
        s.state = s.havoc({v: loc[v] for v in s.names if v in loc})

    def end(s, loc):
        s.check({v: loc.get(v, UNDEF) for v in s.names})
        raise PathEnd()

    def after(s, loc):
        pass

    def leave(s, loc):
        pass

    def ret(s, v):
        return v

    def refuse(s):
        raise Unsupported("while ... else")


class Old:
    """value carried around a loop; only additions to it are understood"""

    def __init__(s, v0, delta=None):
        s.v0, s.delta = v0, delta

    def _add(s, x):
        return Old(s.v0, x if s.delta is None else s.delta + x)

    __add__ = __radd__ = _add
    __array_ufunc__ = None

    def __sub__(s, x):
        return s._add(-x)

    def __getattr__(s, n):
        raise Unsupported("value carried around a loop")


class ZeroND:
    """array of arbitrary shape, zero except at one index of its leading axes: value `coef` there"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, shape, idx=None, coef=None):
        s.shape, s.idx, s.coef = tuple(shape), idx, coef

    ndim = property(lambda s: len(s.shape))

    def copy(s):
        return ZeroND(s.shape, s.idx, s.coef)

    @staticmethod
    def _index(i):
        i = tuple(x for x in (i if isinstance(i, tuple) else (i,)) if x is not None and x is not Ellipsis)
        while i and i[-1] == slice(None):
            i = i[:-1]
        if not i or not all(isinstance(x, (int, SInt)) for x in i):
            raise Unsupported("index of an array")
        return i

    def __setitem__(s, i, v):
        i = s._index(i)
        if len(i) > len(s.shape):
            raise IndexError("too many indices for array")
        if s.idx is not None or not isinstance(v, NUM + (Sc, SInt)):
            raise Unsupported("several assignments in an array")
        s.idx, s.coef = i, Sc(topoly(v))

    @property
    def at(s):
        return AtZ(s)

    def __mul__(s, o):
        if isinstance(o, Lifted) and isinstance(o.cell, (Sc,)):
            if topoly(s.shape[-1]) != topoly(o.n):
                raise ShapeError("last axes differ")
            o = o.cell
        elif isinstance(o, np.ndarray):
            if o.shape != (1,):
                raise Unsupported("product of arrays")
            o = o[0]
        if not isinstance(o, NUM + (Sc, SInt)):
            raise Unsupported("product of arrays")
        return ZeroND(s.shape, s.idx, None if s.coef is None else s.coef * Sc(topoly(o)))

    __rmul__ = __mul__

    def nnv_fft(s, axes, inverse):
        return Transformed(s, axes, inverse)


class AtZ:
    def __init__(s, a, i=None):
        s.a, s.i = a, i

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        return AtZ(s.a, i)

    def set(s, v):
        c = s.a.copy()
        c[s.i] = v
        return c


class IntMat:
    """matrix of integers by its generic entry"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, f):
        s.f = f

    def _op(s, o, g):
        if isinstance(o, IntMat):
            return IntMat(lambda i, j: g(s.f(i, j), o.f(i, j)))
        if isinstance(o, (int, SInt)):
            return IntMat(lambda i, j: g(s.f(i, j), o))
        raise Unsupported("arithmetic of index matrices")

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._op(o, lambda a, b: b - a)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b)
    def __neg__(s): return IntMat(lambda i, j: -s.f(i, j))
    def __mod__(s, o): raise Unsupported("remainder of an index")
    __radd__, __rmul__ = __add__, __mul__

    @property
    def T(s): return IntMat(lambda i, j: s.f(j, i))


class IntMats:
    """stack of index matrices"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, ms):
        s.ms = list(ms)

    def __getitem__(s, i):
        if isinstance(i, int):
            return s.ms[i]
        if isinstance(i, tuple) and len(i) >= 1 and isinstance(i[0], int) and all(x == slice(None) for x in i[1:]):
            return s.ms[i[0]]
        raise Unsupported("index of index matrices")

    def __iter__(s):
        return iter(s.ms)

    def _op(s, o, f):
        if isinstance(o, IntMats):
            return IntMats(f(a, b) for a, b in zip(s.ms, o.ms))
        return IntMats(f(a, o) for a in s.ms)

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __neg__(s): return IntMats(-a for a in s.ms)


class Gathered:
    """matrix with entry (m, n) = coefficient of index f(m, n) of a transformed array"""
    _nnv_array = True

    def __init__(s, x, f):
        s.x, s.f = x, f

    shape = property(lambda s: (nh(), nh()))

    @property
    def T(s):
        return Gathered(s.x, lambda i, j: s.f(j, i))

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if isinstance(i, tuple) and len(i) == 2:
            if i[0] == slice(None) and isinstance(i[1], (int, SInt)):
                return GatheredVec(s, lambda k: (k, i[1]))
            if i[1] == slice(None) and isinstance(i[0], (int, SInt)):
                return GatheredVec(s, lambda k: (i[0], k))
            if all(isinstance(x, (int, SInt)) for x in i):
                return GatheredVec(s, lambda k: i)[0]
        raise Unsupported("index of a convolution matrix")

    def __mul__(s, o): return Gathered(s.x * o, s.f)
    __rmul__ = __mul__
    def __truediv__(s, o): return Gathered(s.x / o, s.f)


COEFS = {}      # letters standing for one entry of a convolution matrix


class GatheredVec:
    """row or column of a convolution matrix"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, g, at):
        s.g, s.at = g, at

    shape = property(lambda s: (nh(),))
    ndim = 1

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, k):
        if not isinstance(k, (int, SInt)):
            raise Unsupported("index of a row of a convolution matrix")
        i, j = s.at(k)
        a, b = s.g.f(i, j)
        if not hasattr(s.g, "no"):
            s.g.no = len(COEFS)
        x = sym(f"coefficient of index {topoly(a)}, {topoly(b)} of transform {s.g.no}")
        COEFS[x.key()] = (s.g, i, j)
        return Sc(x)


class SumOver:
    """v0 + sum over index in [0, n) of delta(index)"""
    _nnv_array = True

    def __init__(s, n, index, delta, v0):
        s.n, s.index, s.delta, s.v0 = n, index, delta, v0

    @property
    def shape(s):
        return s.delta.shape

    def nnv_fft(s, axes, inverse):
        return Transformed(s, axes, inverse)


class Transformed:
    """(inverse) discrete Fourier transform of x along two axes, times a scalar"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, x, axes, inverse, scale=None):
        s.x, s.axes, s.inverse = x, tuple(axes), inverse
        s.scale = scale if scale is not None else Sc(Poly.const(1))

    @property
    def shape(s):
        return s.x.shape

    def _num(s, o):
        if not isinstance(o, NUM + (Sc, SInt)):
            raise Unsupported("arithmetic of transformed arrays")
        return Sc(topoly(o))

    def __mul__(s, o):
        return Transformed(s.x, s.axes, s.inverse, s.scale * s._num(o))

    __rmul__ = __mul__

    def __truediv__(s, o):
        return Transformed(s.x, s.axes, s.inverse, s.scale / s._num(o))

    def nnv_fft(s, axes, inverse):
        return Transformed(s, axes, inverse)

    def __iter__(s):
        raise Unsupported("iteration over a symbolic array")

    def __getitem__(s, i):
        if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, IntMat) for x in i):
            return Gathered(s, lambda m, n: (i[0].f(m, n), i[1].f(m, n)))
        raise Unsupported("index of a transformed array")


class GenericLoop(Loop):
    """one iteration at a generic index, from a state where every variable carried around the
    loop is opaque; accepted effects: writes of arrays at the index of the iteration, one append
    per iteration, sums of terms that do not depend on the carried state, and searches (break)"""

    def next(s, loc):
        if s.stage == 0:
            if s.attrs:
                raise Unsupported(f"attributes of {s.attrs} assigned in a loop over a symbolic collection (line {s.line})")
            s.before = {v: loc.get(v, UNDEF) for v in s.names}
            n = s.it.n
            w = getattr(s.it, "witness", None)
            s.index = SInt.var(CTX.fresh("i"))
            if s.brk and w is not None and CTX.choose(2, f"loop line {s.line}: witness") == 1:
                s.index = w
                s.mode = "witness"
            elif getattr(s.it, "cover", None) is not None:
                # the iteration of the particular element (the others are those of a collection without it)
                s.index = s.it.cover
                s.mode = "generic"
            else:
                s.mode = "generic"
                z = zpoly(s.index.p)
                CTX.assume(z3().And(z >= 0, z < zpoly(topoly(n))))
            for v in s.names:
                b = s.before[v]
                s.state[v] = b if b is UNDEF or isinstance(b, SymStack) else Old(b)
            s.elem = s.it.at(s.index)
            s.stage = 1
            LOOPS.append(s)
            return True
        return False

    def end(s, loc):
        LOOPS.remove(s)
        if s.brk:
            if s.mode == "witness":
                raise Unsupported(f"search loop (line {s.line}) does not stop at the element looked for")
            if getattr(s.it, "witness", None) is not None:
                raise PathEnd()
            if s.appends or s.stacks or s.dicts or s.writes:
                raise Unsupported(f"loop with break (line {s.line})")
            # no element stops the search: seen of the generic one
            for v in s.names:
                a = loc.get(v, UNDEF)
                s.state[v] = s.before[v] if a is s.before[v] or isinstance(a, Old) and a.delta is None else UNDEF
            return
        n = s.it.n
        for v in s.names:
            b, a = s.before[v], loc.get(v, UNDEF)
            if isinstance(a, Old):
                if a.delta is None:
                    s.state[v] = b
                elif a.v0 is not b:
                    s.state[v] = UNDEF
                else:
                    s.state[v] = SumOver(n, s.index, a.delta, b)
            elif a is b:
                s.state[v] = b
            elif isinstance(a, SymStack):
                s.state[v] = a
            else:
                s.state[v] = UNDEF
        seen = set()
        for l, x in s.appends:
            if id(l) in seen:
                raise Unsupported("several appends per iteration")
            seen.add(id(l))
            if list.__len__(l):
                raise Unsupported("append to a non-empty list")
            if LOOPS and id(l) not in LOOPS[-1].made:
                raise Unsupported("list filled by nested loops")
            l.sym = (n, s.index, x)
            if x is s.elem and not isinstance(x, (list, dict)):
                l.src = s.it.at
        for d in s.dicts:
            d.close(s)
        for d, k, v in s.writes:
            d.sym = (k, v)

    def broke(s, loc):
        LOOPS.remove(s)
        if s.mode == "witness":
            raise PathEnd()
        if s.appends or s.stacks or s.dicts or s.writes:
            raise Unsupported("search loop with side effects")
        s.state = dict(loc)

    def ret(s, v):
        """return from inside of the loop"""
        LOOPS.remove(s)
        if s.appends or s.stacks or s.dicts or s.writes:
            raise Unsupported("search loop with side effects")
        return v


# builtins accepting symbolic arguments
def _len(x):
    f = getattr(x, "nnv_len", None)
    if f is not None:
        return f()
    if isinstance(x, (Vec, Mat)):
        return x.shape[0]
    return len(x)


def _range(*a):
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 3 and a[2] != 1:
            raise Unsupported("range with a step")
        return SymRange(0, a[0]) if len(a) == 1 else SymRange(a[0], a[1])
    return range(*a)


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SInt):
        return any(q in (int, SInt, object) for q in ts) or _int in ts
    ts = tuple(REALT.get(q, q) for q in ts)
    if isinstance(x, Arr0):
        return any(q in (np.ndarray,) for q in ts)
    if isinstance(x, Sc):
        return any(q in (float, complex) for q in ts)
    ts = tuple(q for q in ts if isinstance(q, type))
    return isinstance(x, ts)


class _IntMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (int, SInt))


def _int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, Sc) and not x.p.isconst():
        q = SInt.var(CTX.fresh("trunc"))
        z = zpoly(x.p)
        Z = z3()
        qq = zpoly(q.p)
        zr = Z.ToReal(z) if z.is_int() else z
        CTX.assume(Z.And(Z.Implies(zr >= 0, Z.And(qq <= zr, zr < qq + 1)), Z.Implies(zr < 0, Z.And(qq >= zr, zr > qq - 1))))
        return q
    if isinstance(x, Sc):
        x = float(x)
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, Sc):
        symbk.taped("float", x)
    if isinstance(x, (SInt, Sc)):
        return Sc(topoly(x))
    return float(x)


def _complex(x=0.0, y=0.0):
    if isinstance(x, (SInt, Sc)) or isinstance(y, (SInt, Sc)):
        return Sc(topoly(x)) + Sc(topoly(y)) * 1j
    return complex(x, y)


REALT = {_int: int, _float: float, _complex: complex, _set: set}


def _sum(it, start=0):
    f = getattr(it, "nnv_iter", None)
    if f is not None:
        if not isinstance(start, int) or start:
            raise Unsupported("sum of a symbolic collection")
        q = f()
        i = SInt.var(CTX.fresh("i"))
        z = zpoly(i.p)
        CTX.assume(z3().And(z >= 0, z < zpoly(topoly(q.n))))
        return SymSum(q.n, i, q.at(i))
    for x in it:
        start = start + x
    return start


class SymSum:
    """sum over index in [0, n) of term"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, n, index, term):
        s.n, s.index, s.term = n, index, term


def _minmax(name, best):
    import builtins as B
    real = getattr(B, name)

    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(isinstance(x, (SInt, Sc)) for x in xs):
            return real(*a, **k)
        out = xs[0]
        for x in xs[1:]:
            out = x if best(x, out) else out
        return out
    return f


def _enumerate(it, start=0):
    f = getattr(it, "nnv_iter", None)
    if f is None or isinstance(it, (list, tuple)):
        return enumerate(it, start)
    q = f()
    r = SymIter(q.n, lambda i: (i + start, q.at(i)), ("enumerate", q.tag), q.rule)
    for a in ("witness", "dictinv", "cover"):
        setattr(r, a, getattr(q, a, None))
    return r


def _zip(*its):
    if any(getattr(i, "nnv_iter", None) for i in its):
        qs = [i.nnv_iter() for i in its if getattr(i, "nnv_iter", None)]
        if len(qs) != len(its):
            raise Unsupported("zip of symbolic and concrete collections")
        n = qs[0].n
        for q in qs[1:]:
            if topoly(q.n) != topoly(n) and q.n < n:
                n = q.n
        r = SymIter(n, lambda i: tuple(q.at(i) for q in qs), "zip")
        for k in ("witness", "cover"):
            w = getattr(qs[0], k, None)
            if w is not None and (n is qs[0].n or w < n):
                setattr(r, k, w)
        return r
    return zip(*its)


def _list(it=()):
    if getattr(it, "nnv_iter", None):
        q = it.nnv_iter()
        r = SymList(q.n, q.at)
        for k in ("witness", "cover"):
            setattr(r, k, getattr(q, k, None))
        return r
    return list(it)


def _quant(name, stop):
    """any / all over a symbolic collection: a witness (value `stop`), or a generic element for
    which the test has the other value; together these cover every non empty collection"""
    import builtins as B
    real = getattr(B, name)

    def f(it):
        g = getattr(it, "nnv_iter", None)
        if g is None or isinstance(it, (list, tuple)) and not getattr(it, "sym", None):
            return real(it)
        q = g()
        if q.n == 0:
            return not stop
        for k in ("witness", "cover"):
            w = getattr(q, k, None)
            if w is not None and (True if q.at(w) else False) == stop:
                return stop
        i = SInt.var(CTX.fresh("w"))
        z = zpoly(i.p)
        CTX.assume(z3().And(z >= 0, z < zpoly(topoly(q.n))))
        v = True if q.at(i) else False
        getattr(CTX, "quants", []).append((name, i, v))
        return v
    return f


def _round(x, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, Sc):
        raise Unsupported("round")
    return round(x, *a)


def _bool(x=False):
    return True if x else False


SHADOW = dict(len=_len, range=_range, isinstance=_isinstance, int=_int, float=_float, sum=_sum, max=_minmax("max", lambda a, b: a > b),
              min=_minmax("min", lambda a, b: a < b), enumerate=_enumerate, zip=_zip, next=_next, set=_set, list=_list, round=_round, complex=_complex, any=_quant("any", True), all=_quant("all", False))
