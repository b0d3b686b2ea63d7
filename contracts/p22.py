"""P22: ill-posed set-ups are refused, well-posed ones accepted."""
from .common import *
from . import construct, stack
from nnv.load import SymList, SymIter, AList


def simulation(P):
    construct.build(P, ("refuse",))


def layer(P):
    """Layer(...) fails exactly for a negative thickness or a permeability other than one"""
    P.fn("Layer.__init__")
    for be in bks(P, "numpy", "torch"):
        W = World(be)

        def run():
            d = scal("thick", "real") if CTX.choose(2, "thickness") == 0 else None
            mu = [1, 1.0, scal("mu_l"), 2][CTX.choose(4, "mu")]
            eps = [scal("eps_l"), grid("epsg_l")][CTX.choose(2, "epsilon")]
            W.notgrid3()
            exc, l = None, None
            lat = [None, object()][CTX.choose(2, "lattice")]
            try:
                l = W.Layer("name", d, eps, mu) if lat is None else W.Layer("name", d, eps, mu, lat)
            except (ValueError, NotImplementedError, AssertionError) as e:
                exc = e
            return d, mu, eps, l, exc, dict(CTX.zeros), lat
        for k, r in enumerate(P.paths(f"[{be}] Layer.__init__", run)):
            d, mu, eps, l, exc, zeros, lat = r.value
            n = f"[{be}] Layer.__init__ ({r.label()}, path {k})"
            Z = z3()
            zc = [c for c in r.cond if Z.is_expr(c)]
            neg = Z.BoolVal(False) if d is None else zpoly(d.p) < 0
            if isinstance(mu, Sc):
                mag = musign(zeros, mu)
            else:
                mag = Z.BoolVal(mu != 1)
            if exc is None:
                P.z(n + ": accepted only for a non negative thickness and unit permeability", Z.Not(Z.Or(neg, mag)), zc)
            else:
                P.z(n + ": refused only for a negative thickness or magnetic material", Z.Or(neg, mag), zc)
            if exc is None:
                P.eq(n + ": holds the permittivity it was given", l.epsilon, eps)
                P.true(n + ": and its name and thickness", l.name == "name" and l.thickness is d)
                P.true(n + ": and its lattice", l.lattice is lat)
        P.files |= W.prog.files


def musign(zeros, mu):
    """the value of mu != 1 on this path"""
    Z = z3()
    d = mu.p - Poly.const(1)
    for k, v in zeros.items():
        if k == d or k == -d:
            return Z.BoolVal(not v)
    return Z.Bool("mu != 1")


def lattice(P):
    """Lattice(...) and _get_harmonics refuse exactly unknown truncations and numbers of harmonics that are no integers;
    shapes other than the stripe are refused for mono-periodic lattices"""
    P.fn("Lattice.__init__", "Lattice._get_harmonics", "Lattice.no1d")
    for be in bks(P, "numpy", "torch"):
        W = World(be)
        mod = W.prog.load("nannos.lattice")

        def run():
            one = CTX.choose(2, "mono-periodic") == 1
            b = scal("period", "pos") if one else ((scal("L00", "real"), scal("L01", "real")), (scal("L10", "real"), scal("L11", "real")))
            t = ["circular", "parallelogrammic", "other", "1D"][CTX.choose(4, "truncation")]
            g = SInt.var("g0") if CTX.choose(2, "discretization") == 0 else (SInt.var("g0"), SInt.var("g1"))
            try:
                return mod.Lattice(b, g, t), one, t, g, b, None
            except ValueError as e:
                return None, one, t, g, b, e
        for r in P.paths(f"[{be}] Lattice.__init__", run):
            l, one, t, g, b, exc = r.value
            n = f"[{be}] Lattice.__init__ ({r.label()})"
            P.true(n + ": refused exactly for an unknown truncation", (exc is not None) == (t in ("other", "1D")))
            if l is None:
                continue
            P.true(n + ": mono-periodic exactly for a scalar period", bool(l.is_1D) == one)
            want = (SInt.var("g0"), 1) if one else (SInt.var("g0"), g[1] if isinstance(g, tuple) else g)
            d = tuple(l.discretization)
            P.true(n + ": discretization", len(d) == 2 and all(topoly(x) == topoly(y) for x, y in zip(d, want)), str(d))

        def run2():
            l = object.__new__(mod.Lattice)
            l.is_1D = CTX.choose(2, "mono-periodic") == 1
            l.truncation = "1D" if l.is_1D else ["circular", "parallelogrammic"][CTX.choose(2, "truncation")]
            l.harmonics_array = None
            l.basis_vectors = ((1, 0), (0, 1))
            l.discretization = (SInt.var("g0"), SInt.var("g1"))
            called = []
            keep = {}
            for f in ("_circular_truncation", "_parallelogramic_truncation", "_one_dim_truncation"):
                keep[f] = getattr(mod, f)
                setattr(mod, f, lambda *a, f=f: called.append((f, a)) or ("G", 7))
            nh_ = [5, 5.0, 5.5, SInt.var("nh_req")][CTX.choose(4, "nh")]
            exc = None
            try:
                l._get_harmonics(nh_)
            except ValueError as e:
                exc = e
            finally:
                for f, v in keep.items():
                    setattr(mod, f, v)
            shapes = {}
            if nh_ == 5 and isinstance(nh_, int):
                for s in ("polygon", "circle", "ellipse", "square", "rectangle"):
                    keep2 = getattr(mod, s)
                    setattr(mod, s, lambda *a, **k: "mask")
                    try:
                        a = {"polygon": ([],), "circle": ((0, 0), 1), "ellipse": ((0, 0), (1, 1)), "square": ((0, 0), 1), "rectangle": ((0, 0), (1, 1))}[s]
                        shapes[s] = getattr(l, s)(*a)
                    except ValueError:
                        shapes[s] = "refused"
                    finally:
                        setattr(mod, s, keep2)
            return l, nh_, exc, called, shapes
        for r in P.paths(f"[{be}] _get_harmonics", run2):
            l, nh_, exc, called, shapes = r.value
            n = f"[{be}] Lattice ({r.label()})"
            P.true(n + ": a number of harmonics is refused exactly when it is no integer", (exc is not None) == (isinstance(nh_, float) and nh_ != int(nh_)))
            if exc is None:
                want = "_one_dim_truncation" if l.is_1D else "_circular_truncation" if l.truncation == "circular" else "_parallelogramic_truncation"
                P.soft(n + ": the truncation asked for is used", [c[0] for c in called] == [want], str(called))
            for s, v in shapes.items():
                P.true(n + f": {s} is refused exactly for mono-periodic lattices", (v == "refused") == bool(l.is_1D), str(v))
        P.files |= W.prog.files


def lookup(P):
    """layers are found by name, object and (negative) index, others are refused"""
    P.fn("layers._get_layer", "Simulation.get_layer", "Simulation.get_layer_by_name")
    W = World("numpy")

    class L_:
        def __init__(s, name):
            s.name = name

    def run():
        n = SInt.var("nlay")
        CTX.assume(zpoly(n.p) >= 1)
        j = SInt.var("j")
        Z = z3()
        CTX.assume(Z.And(zpoly(j.p) >= 0, zpoly(j.p) < zpoly(n.p)))
        target = L_("target")

        def at(i):
            if topoly(i) == j.p or SInt(topoly(i)) == j:
                return target
            return L_(f"layer {topoly(i).key()}")
        layers = SymList(n, at)
        layers.witness = j
        names = SymList(n, lambda i: layers.at(i).name)
        names.witness = j
        how = ["name", "object", "index", "negative", "unknown name", "unknown object", "number"][CTX.choose(7, "how")]
        arg = {"name": "target", "object": target, "index": j, "negative": j - n, "unknown name": "nobody", "unknown object": L_("nobody"), "number": 1.5}[how]
        try:
            return how, W.laymod._get_layer(arg, layers, names), None, j, target
        except (ValueError, IndexError, KeyError) as e:
            return how, None, e, j, target
    for r in P.paths("_get_layer", run):
        how, out, exc, j, target = r.value
        n = f"_get_layer by {how}"
        if how.startswith("unknown") or how == "number":
            P.true(n + ": refused", exc is not None)
            continue
        P.true(n + ": found", exc is None and out is not None and out[0] is target, f"{exc!r} {out!r}")
        if out is not None:
            P.z(n + ": index", zpoly(topoly(out[1])) == zpoly(j.p), [c for c in r.cond if z3().is_expr(c)])
    P.files |= W.prog.files


class Names(SymList):
    """list of any length; the elements at j < i are equal (dup), the others are arbitrary, or all are distinct"""

    def __init__(s, dup):
        n = SInt.var("n")
        Z = z3()
        CTX.assume(zpoly(n.p) >= 0)
        SymList.__init__(s, n, s.elem)
        s.dup, s.forks = dup, {}
        s.extradup = SInt.var("repetitions")
        if dup:
            s.i, s.j = SInt.var("i0"), SInt.var("j0")
            CTX.assume(Z.And(zpoly(s.j.p) >= 0, zpoly(s.j.p) < zpoly(s.i.p), zpoly(s.i.p) < zpoly(n.p), zpoly(s.extradup.p) >= 1, zpoly(s.extradup.p) < zpoly(n.p)))
            s.witness = s.i
        else:
            CTX.assume(zpoly(s.extradup.p) == 0)

    def elem(s, i):
        return Name(s, SInt(topoly(i)))

    def same(s, a, b):
        if topoly(a) == topoly(b) or SInt(topoly(a)) == b:
            return True
        if not s.dup:
            return False
        for x, y in ((a, b), (b, a)):
            if (topoly(x) == s.i.p or SInt(topoly(x)) == s.i) and (topoly(y) == s.j.p or SInt(topoly(y)) == s.j):
                return True
        k = tuple(sorted((topoly(a).key(), topoly(b).key())))
        if k not in s.forks:
            s.forks[k] = CTX.choose(2, f"elements {k} equal") == 1
        return s.forks[k]

    def nnv_set(s):
        return SetOf(s)

    def nnv_iter(s):
        it = SymList.nnv_iter(s)
        it.nnv_comp = s.nnv_comp
        return it

    def nnv_comp(s, f):
        """comprehension; a list filled by the iterations holds the elements already seen"""
        q = SymIter(s.n, lambda i: s.step(f, i), "names")
        q.witness = getattr(s, "witness", None)
        r = SymList(q.n, q.at)
        r.witness = q.witness
        return r

    def step(s, f, i):
        cells = [c.cell_contents for c in (f.__closure__ or ()) if isinstance(c.cell_contents, AList)]
        seen = []
        for l in cells:
            if list.__len__(l):
                raise Unsupported("list changed by a comprehension")
            l.sym = (SInt(topoly(i)), None, None)
            l.has = lambda x: s.earlier(x, SInt(topoly(i)))
            l.put = seen.append
        try:
            v = True if f(s.at(i)) else False
        finally:
            for l in cells:
                l.sym = None
        # the iteration goes on: what has been seen is now one element longer
        if cells and not (len(cells) == 1 and (v or len(seen) == 1 and isinstance(seen[0], Name) and topoly(seen[0].i) == topoly(i))):
            raise Unsupported("list changed by a comprehension")
        return v

    def earlier(s, x, k):
        """x, an element of the list, is among the k first ones"""
        if not isinstance(x, Name):
            raise Unsupported("search")
        if x.i < k:
            return True
        if not s.dup:
            return False
        if (topoly(x.i) == s.i.p or x.i == s.i) and s.j < k or x.i == s.j and s.i < k:
            return True
        key = ("earlier", topoly(x.i).key(), topoly(k).key())
        if key not in s.forks:
            s.forks[key] = CTX.choose(2, f"{key}") == 1
        return s.forks[key]


class Name:
    def __init__(s, of, i):
        s.of, s.i = of, i

    def __eq__(s, o):
        return s.of.same(s.i, o.i) if isinstance(o, Name) else False

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        raise Unsupported("hash of a name")


class SetOf:
    def __init__(s, l):
        s.l = l

    def nnv_len(s):
        return s.l.n - s.l.extradup


def duplicates(P):
    """unique(x), for a list of any length: True exactly when no two elements are equal"""
    P.fn("helpers.unique")
    W = World("numpy")
    m = W.prog.load("nannos.utils.helpers")

    def run():
        CTX.quants = []
        dup = CTX.choose(2, "two elements are equal") == 1
        v = m.unique(Names(dup))
        return dup, True if v else False, CTX.quants
    for r in P.paths("unique", run):
        dup, v, quants = r.value
        if dup and quants:      # a quantifier evaluated at an arbitrary element only
            P.soft(f"unique ({r.label()})", not v, "elements that are equal not found")
            continue
        P.true(f"unique ({r.label()})", v == (not dup), repr(v))
    P.files |= W.prog.files


def tolattice(P):
    """lattice.Layer(...) is Layer(...) with this lattice"""
    P.fn("Lattice.Layer")
    for be in bks(P, "numpy"):
        W = World(be)
        mod = W.prog.load("nannos.lattice")

        def run():
            l = object.__new__(mod.Lattice)
            d = {k: object() for k in ("name", "thickness", "epsilon", "mu", "tangent_field", "tangent_field_type")}
            keep, got = mod.Layer, []

            class Rec:
                def __init__(s, name="layer", thickness=0, epsilon=1, mu=1, lattice=None, tangent_field=None, tangent_field_type="opt"):
                    s.__dict__.update(name=name, thickness=thickness, epsilon=epsilon, mu=mu, lattice=lattice, tangent_field=tangent_field, tangent_field_type=tangent_field_type)
            mod.Layer = Rec
            try:
                given = CTX.choose(2, "arguments by position") == 1
                a = l.Layer(d["name"], d["thickness"], d["epsilon"]) if given else l.Layer(**d)
            finally:
                mod.Layer = keep
            return l, d, a, given
        for r in P.paths(f"[{be}] Lattice.Layer", run):
            l, d, a, given = r.value
            n = f"[{be}] Lattice.Layer ({r.label()})"
            keys = ("name", "thickness", "epsilon") if given else tuple(d)
            P.true(n + ": the description given", all(a.__dict__.get(k) is d[k] for k in keys))
            P.true(n + ": with this lattice", a.__dict__.get("lattice") is l)
        P.files |= W.prog.files


PARTS = [simulation, layer, lattice, lookup, duplicates, tolattice]
