"""Contract of Simulation.__init__ (shared by P05, P06, P08, P09 and P22).

Everything given to the constructor is arbitrary: any number of layers, any lattice, wave and
harmonics. Assumed of its arguments: the contract of get_harmonics (P10): distinct integer pairs
containing (0, 0), their number nh >= 1; of PlaneWave (P08): two mode amplitudes; of Lattice:
2 x 2 reciprocal matrix."""
from .common import *
from nnv.load import SymArr, ADict, IntMat, IntMats
from nnv.symbk import MeshIdx


class HVec(Vec):
    """the first (second) integers of the orders"""
    def __getitem__(s, i):
        h, a = s.of
        if isinstance(i, tuple) and len(i) == 2 and None in i and slice(None) in i:
            return IntMat((lambda p, q: h.pair(p)[a]) if i[1] is None else (lambda p, q: h.pair(q)[a]))
        if isinstance(i, (int, SInt)):
            return h.pair(i)[a]
        return Vec.__getitem__(s, i)

    def nnv_max(s):
        """maximum over one of the two rows"""
        h, a = s.of
        if not hasattr(h, "rowmax"):
            h.rowmax = [SInt.var(f"max{c}") for c in "mn"]
            x, y = (zpoly(v.p) for v in h.rowmax)
            Z = z3()
            CTX.assume(zpoly(topoly(h.maxn)) == Z.If(x >= y, x, y))
            CTX.assume(Z.And(x >= 0, y >= 0))
        return h.rowmax[a]

    def nnv_min(s):
        h, a = s.of
        if not hasattr(h, "rowmin"):
            h.rowmin = [SInt.var(f"min{c}") for c in "mn"]
            x, y = (zpoly(v.p) for v in h.rowmin)
            Z = z3()
            CTX.assume(zpoly(topoly(h.minn)) == Z.If(x <= y, x, y))
            CTX.assume(Z.And(x <= 0, y <= 0))
        return h.rowmin[a]

    def nnv_abs(s):
        return HarmAbsRow(*s.of)

    def nnv_iter(s):
        h, a = s.of
        it = SymIter(nh(), lambda i: h.pair(i)[a], "harmonics")
        it.witness = h.zero
        return it


class Harm:
    """the harmonics: (2, nh) integers"""
    _nnv_array = True

    def __init__(s):
        s.m = HVec([(NC.letter(C("hm", 1, "real")).entry(), 1)])
        s.n = HVec([(NC.letter(C("hn", 1, "real")).entry(), 1)])
        s.m.of, s.n.of = (s, 0), (s, 1)
        s.seen = []
        s.zero = SInt.var("zeroth")
        Z = z3()
        z = zpoly(s.zero.p)
        CTX.assume(Z.And(0 <= z, z < zpoly(nh().p)))
        a, b = s.pair(s.zero)
        CTX.assume(Z.And(zpoly(topoly(a)) == 0, zpoly(topoly(b)) == 0))

    shape = property(lambda s: (2, nh()))

    def pair(s, i):
        """the i-th pair; distinct for distinct indices"""
        Z = z3()
        for j, m, n in s.seen:
            if topoly(j) == topoly(i):
                return m, n
        k = topoly(i).key()
        m, n = SInt.var(f"m[{k}]"), SInt.var(f"n[{k}]")
        zi = zpoly(topoly(i))
        for j, a, b in s.seen:
            CTX.assume((zi == zpoly(topoly(j))) == Z.And(zpoly(m.p) == zpoly(a.p), zpoly(n.p) == zpoly(b.p)))
        s.seen.append((i, m, n))
        return m, n

    def __getitem__(s, i):
        i = i if isinstance(i, tuple) else (i,)
        if isinstance(i[0], int) and i[0] in (0, 1, -1, -2):
            a = i[0] % 2
            if len(i) == 1 or i[1] == slice(None):
                return s.n if a else s.m
            if isinstance(i[1], (int, SInt)):
                return s.pair(i[1])[a]
        if len(i) == 2 and isinstance(i[1], MeshIdx) and i[1].k == 1:
            ms = [IntMat(lambda p, q, a=a: s.pair(q if i[1].axis else p)[a]) for a in range(2)]
            if i[0] == slice(None):
                return IntMats(ms)
            if isinstance(i[0], int) and i[0] in (0, 1, -1, -2):
                return ms[i[0] % 2]
        if i[0] == slice(None) and len(i) == 2 and isinstance(i[1], (int, SInt)):
            return s.col(i[1])
        raise Unsupported("index of the harmonics")

    def __iter__(s):
        return iter((s.m, s.n))

    def col(s, i):
        return np.array(list(s.pair(i)) + [None], dtype=object)[:2]

    @property
    def T(s):
        return HarmT(s)

    def nnv_max(s):
        return s.maxn

    def nnv_min(s):
        return s.minn

    def nnv_abs(s):
        return HarmAbs(s)

    __abs__ = nnv_abs


class HarmAbs:
    """absolute values of the orders"""
    _nnv_array = True

    def __init__(s, h):
        s.h = h

    shape = property(lambda s: (2, nh()))

    def nnv_max(s):
        return s.h.maxabs

    def __getitem__(s, i):
        if isinstance(i, int):
            return HarmAbsRow(s.h, i % 2)
        raise Unsupported("index of the absolute values of the harmonics")

    def __iter__(s):
        return iter((s[0], s[1]))


class HarmAbsRow:
    _nnv_array = True

    def __init__(s, h, a):
        s.h, s.a = h, a

    shape = property(lambda s: (nh(),))

    def nnv_max(s):
        h = s.h
        if not hasattr(h, "rowabs"):
            h.rowabs = [SInt.var(f"maxabs{c}") for c in "mn"]
            x, y = (zpoly(v.p) for v in h.rowabs)
            Z = z3()
            CTX.assume(zpoly(topoly(h.maxabs)) == Z.If(x >= y, x, y))
            CTX.assume(Z.And(x >= 0, y >= 0))
        return h.rowabs[s.a]


class HarmT:
    _nnv_array = True

    def __init__(s, h):
        s.h = h

    shape = property(lambda s: (nh(), 2))

    def nnv_iter(s):
        it = SymIter(nh(), s.h.col, "harmonics")
        it.witness = s.h.zero
        it.dictinv = s.h.pair
        return it

    def __getitem__(s, i):
        if isinstance(i, (int, SInt)):
            return s.h.col(i)
        raise Unsupported("index of the harmonics")


class Lat:
    """lattice given to every layer, unless another one"""

    def __init__(s, same):
        s.same = same

    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"lattice attribute {n}")

    def __eq__(s, o):
        return s is o

    __hash__ = object.__hash__


class Lay:
    pass


class Facts:
    pass


def setup(W, refuse):
    """(arguments of the constructor, the facts)"""
    A = Facts()
    opt = (lambda label: CTX.choose(2, label)) if refuse else (lambda label: 0)
    lat = Lat(True)
    h = Harm()
    h.maxn, h.minn, h.maxabs = SInt.var("maxN"), SInt.var("minN"), SInt.var("maxabsN")
    Z = z3()
    hi, lo, ab = (zpoly(v.p) for v in (h.maxn, h.minn, h.maxabs))
    CTX.assume(Z.And(hi >= 0, lo <= 0, ab == Z.If(hi >= -lo, hi, -lo)))    # (0, 0) is one of the orders
    d = lat.__dict__
    d["is_1D"] = opt("mono-periodic") == 1
    d["reciprocal"] = np.array([[Sc(sym(f"r{i}{j}", "real")) for j in range(2)] for i in range(2)], dtype=object).view(OArr)
    d["discretization"] = tuple(SInt.var(f"g{c}") for c in "xy")
    A.asked = []

    def get_harmonics(n, sort=False):
        A.asked.append(n)
        return h, nh()
    d["get_harmonics"] = get_harmonics
    CTX.assume(zpoly(nh().p) >= 1)
    n = SInt.var("nlayers")
    CTX.assume(zpoly(n.p) >= 1)
    A.other = {}

    def lay(i):
        l = Lay()
        k = topoly(i).key()
        l.name = Key(("name", SInt(topoly(i)) if not isinstance(i, int) else i))
        l.is_uniform = True
        l.epsilon, l.mu = Arr0(sym(f"ceps[{k}]", "pos")), Arr0(sym(f"cmu[{k}]", "pos"))
        l.lattice = Lat(False) if A.other and topoly(i) == topoly(A.other["index"]) else lat
        return l
    A.layers = SymList(n, lay)
    if opt("one layer has another lattice") == 1:
        j = A.other["index"] = SInt.var("odd")
        CTX.assume(z3().And(zpoly(j.p) >= 1, zpoly(j.p) < zpoly(n.p)))
        A.layers.cover = j
    A.lat, A.h, A.n = lat, h, n
    e = Lay()
    e.wavevector = np.array([Sc(sym(f"k{c}", "real")) for c in "xyz"], dtype=object).view(OArr)
    e.amplitude = np.array([Sc(sym(f"E{c}", "real")) for c in "xyz"], dtype=object).view(OArr)
    e.a0 = [Sc(sym("exc_a0")), Sc(sym("exc_a1"))]
    e.theta = Sc(sym("theta", "real"))
    e.frequency_scaled = e.frequency = Sc(sym("f", "pos"))
    A.ex = e
    A.unique = opt("names are not unique") == 0
    A.alluniform = opt("not all layers uniform") == 1

    def complete(x):
        """the list of the names of all the layers"""
        if not isinstance(x, SymList):
            raise Unsupported(f"uniqueness of {type(x).__name__}")
        k = SInt.var(CTX.fresh("k"))
        return topoly(x.n) == n.p and x.at(k) == A.layers.at(k).name

    class NameSet:
        def __init__(s, x):
            s.x = x

        def nnv_len(s):
            d = SInt.var("repetitions")
            CTX.assume(zpoly(d.p) == 0 if A.unique or not complete(s.x) else z3().And(zpoly(d.p) >= 1, zpoly(d.p) < zpoly(n.p)))
            return s.x.n - d
    W.simmod.unique = lambda x: A.unique or not complete(x)
    SymList.nnv_set = lambda s: NameSet(s)
    SymList.nnv_all = lambda s: A.alluniform
    return A


def build(P, what):
    for be in bks(P, "numpy", "torch"):
        one(P, what, be)


KNOWN = ("original", "tangent", "jones", "pol")


def one(P, what, be):
    W = Program(be)
    simmod = W.load("nannos.simulation")
    W.simmod = simmod
    forms = KNOWN + ("other",) if "refuse" in what else ("original",)
    P.fn("Simulation.__init__")
    P.assume("contract of Lattice.get_harmonics (P10) and of PlaneWave (P08) assumed of the constructor's arguments; harmonics are distinct and contain (0, 0)")

    def run():
        A = setup(W, "refuse" in what)
        form = forms[CTX.choose(len(forms), "formulation")]
        nhreq = SInt.var("nh_requested")
        CTX.assume(zpoly(nhreq.p) >= 1)
        A.form, A.req = form, nhreq
        before = dict(vars(A.ex)), dict(vars(A.lat))
        A.exc = None
        try:
            A.sim = simmod.Simulation(A.layers, A.ex, nh=nhreq, formulation=form)
        except (ValueError, AssertionError) as e:
            A.exc = e
        if A.exc is None and isinstance(getattr(A.sim, "a0", None), SymList):
            i = SInt.var(CTX.fresh("i"))
            CTX.assume(z3().And(zpoly(i.p) >= 0, zpoly(i.p) < zpoly(topoly(A.sim.a0.n))))
            A.sim.a0 = SymArr(A.sim.a0.n, i, A.sim.a0.at(i))
        A.changed = [k for o, b in zip((A.ex, A.lat), before) for k in set(vars(o)) | set(b) if vars(o).get(k) is not b.get(k)]
        return A
    try:
        res = P.paths(f"[{be}] Simulation.__init__", run, limit=8000 if "refuse" in what else 400)
    finally:
        for a in ("nnv_all", "nnv_set"):
            if a in SymList.__dict__:
                delattr(SymList, a)
    seen = set()
    for k, r in enumerate(res):
        A = r.value
        if A is None:
            zdict(P, f"[{be}] Simulation.__init__ (path {k + 1})", r, what)
            continue
        n = f"[{be}] Simulation.__init__ (path {k + 1})"
        zc = [c for c in r.cond if z3().is_expr(c)]
        if "refuse" in what:
            refused(P, n, A, zc)
        if A.exc is not None:
            continue
        goals(P, n, A, zc, r, what, seen)
    P.files |= W.files


def refused(P, n, A, zc):
    """refused exactly when ill-posed; other layers than those inspected have the common lattice on this path"""
    Z = z3()
    gx, gy = (zpoly(g.p) for g in A.lat.discretization)
    mx = zpoly(A.h.maxabs.p)
    ill = [not A.unique, bool(A.other), A.form not in KNOWN, A.form in ("jones", "pol") and A.lat.is_1D]
    ny = gx <= 2 * mx if A.lat.is_1D else Z.Or(gx <= 2 * mx, gy <= 2 * mx)
    if A.exc is None:
        P.z(n + ": accepted only when well posed", Z.BoolVal(False) if any(ill) else Z.Not(ny), zc)
    elif not any(ill):
        P.z(n + ": refused only when ill-posed", ny, zc)
    else:
        P.z(n + ": ill-posed set-up refused", True)


def goals(P, n, A, zc, r, what, seen):
    sim, ex, h, Z = A.sim, A.ex, A.h, z3()

    def once(key, f):
        f()
    s0 = A.layers.at(0)
    idx = s0.epsilon * s0.mu
    if "kxy" in what:
        rr = A.lat.reciprocal
        for nm, v, c in (("kx", sim.kx, 0), ("ky", sim.ky, 1)):
            ref = ex.wavevector[c] * idx ** 0.5 + rr[c, 0] * h.m + rr[c, 1] * h.n
            P.eq(n + f": {nm} of order (m, n) is k0 + m K1 + n K2", v, ref)
        P.eq(n + ": Kx = diag(kx)", sim.Kx, Mat(sim.kx.diag()))
        P.eq(n + ": Ky = diag(ky)", sim.Ky, Mat(sim.ky.diag()))
        P.eq(n + ": transverse wave vector of the zeroth order is that of the wave in the incidence medium", [sim.k0para[i] for i in range(2)],
             [ex.wavevector[i] * idx ** 0.5 for i in range(2)])
    if "omega" in what:
        om = topoly(sim.omega) * topoly(ex.frequency_scaled).inverse()
        import math
        ok = om.isconst() and abs(complex(om.constval()) / (2 * math.pi) - 1) < 1e-13
        P.add(n + ": omega = 2 pi frequency", "proved" if ok else "refuted" if om.isconst() else "undecided", "evaluation", 0, repr(om)[:200])
    if "flux" in what:
        P.eq(n + ": incident flux = Re(cos(theta)/sqrt(eps mu))", sim.incident_flux, Sc(fgen("cos", topoly(ex.theta))) / idx ** 0.5)
    if "a0" in what:
        a = sim.a0
        if isinstance(a, Vec):
            from nnv.engine import onehot
            P.z(n + ": index_zeroth_order", zpoly(topoly(sim.index_zeroth_order)) == zpoly(h.zero.p), zc)
            nm = n + ": incident amplitudes: those of the wave in the zeroth order, zero elsewhere"
            ds = [onehot(x) for x in (h.zero, sim.index_zeroth_order)]      # equal indices, by the obligation above
            if any(all(is_zero(g) for g in eq_goals(a, Vec([(d * topoly(v), 1) for v in ex.a0])) if isinstance(g, Poly)) for d in ds):
                P.add(nm, "proved", "nc")
            else:
                P.add(nm, "undecided", "", 0, repr(a)[:300])
            P.eq(n + ": nothing incident from below", sim.bN, Vec([(Poly({}), 2)]))
        elif not isinstance(a, SymArr):
            P.add(n + ": incident amplitudes", "unsupported", "", 0, type(a).__name__)
        else:
            P.z(n + ": 2 nh incident amplitudes", zpoly(topoly(a.n)) == 2 * zpoly(nh().p), zc)
            i, z0, N = zpoly(topoly(a.i)), zpoly(h.zero.p), zpoly(nh().p)
            e = topoly(a.e)
            cases = [(topoly(ex.a0[0]), i == z0), (topoly(ex.a0[1]), i == N + z0), (Poly({}), Z.And(i != z0, i != N + z0))]
            hit = [c for v, c in cases if v == e]
            if not hit:
                P.goal(n + ": incident amplitudes of the zeroth order only", [e - topoly(ex.a0[0])])
            else:
                P.z(n + ": incident amplitudes: those of the wave in the zeroth order, zero elsewhere", hit[0], zc)
            P.eq(n + ": nothing incident from below", sim.bN, Vec([(Poly({}), 2)]))
            P.z(n + ": index_zeroth_order", zpoly(topoly(sim.index_zeroth_order)) == z0, zc)
    if "dict" in what:
        d = sim.harmidx_dict
        if not isinstance(d, ADict) or d.hav is None or not d.hav.done:
            P.add(n + ": index dictionary", "unsupported", "", 0, "not built by a loop over the harmonics")
        else:
            zdict(P, n, r, what)
    if "frame" in what:
        P.true(n + ": the wave and the lattice are left unchanged", not A.changed, f"{A.changed}")


def zdict(P, n, r, what):
    if "dict" in what:
        for o in r.obls:
            if str(o[0]).startswith("dict"):
                P.z(n + f": index {o[0]}", o[1], o[2])


def incident(P):
    build(P, ("a0", "flux", "omega"))
