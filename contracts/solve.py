"""Contracts of Simulation.solve, reset, is_solved and of the reuse of an original's operators by its copies."""
from .common import *

REUSED = ("matrix", "Kmu", "eps_hat", "eps_hat_inv", "mu_hat", "mu_hat_inv", "Keps", "Peps", "Qeps")


class Tok:
    def __init__(s, n):
        s.n = n


class Stale(dict):
    """a table holding a matrix computed earlier for everything that was asked so far"""

    def __init__(s):
        super().__init__({"any": "stale"})
        s.asked, s.past = [], True

    def has(s, k):
        if s.past:
            s.asked.append(k)
            return False
        return dict.__len__(s) > 0 and k in s.asked

    def __getitem__(s, k):
        if s.has(k):
            return "stale"
        raise KeyError(k)

    def __contains__(s, k):
        return s.has(k)

    def get(s, k, d=None):
        return s[k] if s.has(k) else d


def ask(W, sim):
    """get_S_matrix([0, 1]) of a solved simulation"""
    W.Simulation.is_solved, keep = True, W.Simulation.is_solved
    try:
        return sim.get_S_matrix([0, 1])
    except Exception:
        return None
    finally:
        W.Simulation.is_solved = keep


def loop(P, be="numpy"):
    """after solve(): every layer holds the modes computed with this simulation's frequency, wave vectors and
    operators, the stored scattering matrices are gone and the layers are marked as belonging to this solution"""
    P.fn("Simulation.solve", "Simulation.reset", "Simulation.is_solved")
    W = World(be)
    W.kinds = ("uniform", "patterned")

    def run():
        sim = W.sim()
        log = []
        layers = sim.layers
        old = Tok("old")
        sim._solution = old if CTX.choose(2, "solved before") == 0 else None
        sim._intermediate_S = past = Stale()
        ask(W, sim)
        past.past = False
        sim._intermediate_S = past
        other = Tok("other")
        W.lazy["_solution"] = lambda l: other
        if CTX.choose(2, "has S") == 0:
            sim.S = "stale"

        def build_matrix(l):
            log.append(("build", l, getattr(l, "_solution", None)))
            l.matrix = Mat(NC.letter(L("new_matrix", 2, 2)))
            return l

        sim.build_matrix = build_matrix
        W.SymLayer.solve_uniform = lambda l, *a: log.append(("uniform", l, a))
        W.SymLayer.solve_eigenproblem = lambda l, m: log.append(("eig", l, m))
        try:
            sim.solve()
            served = []
            if "_intermediate_S" in sim.__dict__ and sim._intermediate_S != {}:
                # the same question after solve(): is what was computed before served?
                served.append(ask(W, sim))
        finally:
            del W.SymLayer.solve_uniform, W.SymLayer.solve_eigenproblem
            W.lazy.pop("_solution", None)
        return sim, layers, log, old, served
    for r in P.paths(f"[{be}] solve", run):
        sim, layers, log, old, served = r.value
        n = f"[{be}] solve ({r.label()})"
        P.true(n + ": matrices of a previous solution are not served", "stale" not in [x for x in served if isinstance(x, str)], "get_S_matrix([0, 1]) after solve() returns the matrix stored before it")
        P.soft(n + ": the table of intermediate matrices is empty", sim._intermediate_S == {})
        P.soft(n + ": no stored total matrix", "S" not in sim.__dict__)
        P.soft(n + ": a new mark", sim._solution is not None and sim._solution is not old)
        new = sim.layers
        b = [x for x in log if x[0] == "build"]
        s = [x for x in log if x[0] != "build"]
        if len(b) != 1 or len(s) != 1:
            P.add(n + ": one processing per layer", "refuted" if len(b) == 0 or len(s) == 0 else "undecided", "", 0, f"{len(b)} constructions, {len(s)} resolutions per layer")
            continue
        l = b[0][1]
        P.soft(n + ": a layer being changed carries no mark of another simulation", b[0][2] is None)
        P.true(n + ": the modes are computed after the operators, for the same layer", log.index(b[0]) < log.index(s[0]) and s[0][1] is l)
        if l.kind == "uniform":
            a = s[0][2]
            P.true(n + ": uniform layers are solved as such", s[0][0] == "uniform")
            P.eq(n + ": with the frequency and wave vectors of the simulation", list(a[:3]), [W.omega, W.kx, W.ky])
            P.true(n + ": and its number of harmonics", len(a) == 4 and topoly(a[3]) == nh().p if isinstance(a[3], SInt) else a[3] is sim.nh)
        else:
            P.true(n + ": patterned layers are solved with their operator", s[0][0] == "eig")
            P.eq(n + ": their own operator", s[0][2], l.matrix)
        i = SInt.var("any")
        same = isinstance(new, SymList) and new.at(i) is layers.at(i) if new is layers else None
        if same is None:
            same = getattr(new, "sym", None) is not None and new.sym[2] is l
        P.soft(n + ": the list of layers is unchanged", bool(same))
        nn = new.n if isinstance(new, SymList) else new.sym[0]
        P.z(n + ": same number of layers", zpoly(topoly(nn)) == zpoly(topoly(W.n)))
    P.files |= W.prog.files


class Interrupted(Exception):
    pass


def marks(P, be="numpy"):
    """is_solved holds exactly when every layer carries this simulation's mark"""
    P.fn("Simulation.is_solved", "Simulation.reset", "helpers._reseter")
    W = World(be)

    def run():
        sim = W.sim()
        mine, other = Tok("mine"), Tok("other")
        sim._solution = mine if CTX.choose(2, "solved") == 0 else None
        state = ["mine", "none", "other"]
        asked = []

        def sol(l):
            v = state[CTX.choose(3, f"mark of layer {l.tag}")]
            asked.append((l, v))
            if v == "none":
                raise AttributeError("_solution")
            return mine if v == "mine" else other
        W.lazy["_solution"] = sol
        got = sim.is_solved
        return sim, got, asked, mine
    for r in P.paths(f"[{be}] is_solved", run):
        sim, got, asked, mine = r.value
        n = f"[{be}] is_solved ({r.label()})"
        if sim._solution is None:
            P.soft(n + ": not solved", got is False)
        else:
            P.soft(n + ": solved when every layer carries the mark of this solution", bool(got) == all(v == "mine" for _, v in asked) and bool(asked), str([v for _, v in asked]))

    # one arbitrary layer has been solved by another simulation since, the others have not
    def run1():
        W.lazy.pop("_solution", None)
        sim, sim2 = W.sim(), W.sim()
        j, k = SInt.var("j"), SInt.var("k")
        Z = z3()
        CTX.assume(Z.And(zpoly(j.p) >= 0, zpoly(j.p) < zpoly(W.n.p)))
        n2 = SInt.var("nlayers2")
        CTX.assume(Z.And(zpoly(k.p) >= 0, zpoly(k.p) < zpoly(n2.p)))
        shared = W.layer("shared")
        for s_, n_, w, tag in ((sim, W.n, j, ""), (sim2, n2, k, "other ")):
            s_.layers = SymList(n_, lambda i, w=w, tag=tag: shared if topoly(i) == topoly(w) else W.layer(tag + topoly(i).key()))
            s_.layers.cover = w
        marked = {}

        own = {}

        def lazy(a):
            """a mark set on one layer of a simulation is that of all its layers, except the shared one"""
            def f(l):
                d = own if l.tag != "shared" and not l.tag.startswith("other ") else {}
                if a in d:
                    return d[a]
                raise AttributeError(a)
            return f
        mine = []

        def setter(l, a, v):
            marked.setdefault(l.tag, {})[a] = v
            if a not in W.lazy and "marks" in phase:
                W.lazy[a] = lazy(a)
                mine.append(a)
            if "own" in phase:
                own[a] = v
            object.__setattr__(l, a, v)
        phase = []
        how = CTX.choose(3, "the other simulation: solved, interrupted, not asked")
        W.SymLayer.__setattr__ = setter
        try:
            phase[:] = ["marks", "own"]
            sim.is_solved = True
            phase[:] = ["marks"]
            if how == 0:
                sim2.is_solved = True
            elif how == 1:
                def solved(l, *a):
                    raise Interrupted()
                sim2.build_matrix = lambda l: l
                l_matrix = shared.__dict__.setdefault("matrix", Mat(NC.letter(L("new_matrix", 2, 2))))
                W.SymLayer.solve_uniform = W.SymLayer.solve_eigenproblem = solved
                try:
                    sim2.solve()
                except Interrupted:
                    pass
                finally:
                    del W.SymLayer.solve_uniform, W.SymLayer.solve_eigenproblem
            got = bool(sim.is_solved)
        finally:
            del W.SymLayer.__setattr__
            for a in mine:
                del W.lazy[a]
        return how, got
    for r in P.paths(f"[{be}] layers shared by two simulations", run1):
        how, got = r.value
        n = f"[{be}] layers shared by two simulations ({r.label()}): "
        if how == 2:
            P.true(n + "solved once every layer is", got)
        else:
            P.true(n + "not solved any more when " + ("any layer has been solved by the other one" if how == 0 else "the modes of any layer have been replaced"), not got)

    # setter: every layer receives the new mark
    def run2():
        sim = W.sim()
        W.lazy.pop("_solution", None)
        seen = []

        def setter(l, k, v):
            seen.append((l, k, v))
            object.__setattr__(l, k, v)
        W.SymLayer.__setattr__ = setter
        val = CTX.choose(2, "value") == 0
        try:
            sim.is_solved = val
        finally:
            del W.SymLayer.__setattr__
        return sim, seen, val
    for r in P.paths(f"[{be}] is_solved setter", run2):
        sim, seen, val = r.value
        n = f"[{be}] is_solved := {val}"
        if val:
            P.soft(n + ": a mark is set on the simulation and on every layer", sim._solution is not None and len(seen) == 1 and seen[0][1:] == ("_solution", sim._solution), str(seen)[:200])
        else:
            P.soft(n + ": no mark", sim._solution is None)

    # reset
    for what in ("all", "S", "solve"):
        def run3():
            sim = W.sim()
            sim._solution = Tok("mine")
            sim._intermediate_S = {"0,1": "stale"}
            if CTX.choose(2, "has S") == 0:
                sim.S = "stale"
            before = dict(sim.__dict__)
            r_ = sim.reset(what) if CTX.choose(2, "default argument") == 0 or what != "all" else sim.reset()
            return sim, before
        for r in P.paths(f"[{be}] reset({what})", run3):
            sim, before = r.value
            n = f"[{be}] reset({what}) ({r.label()})"
            if what in ("all", "S"):
                P.soft(n + ": no stored matrix left", "S" not in sim.__dict__ and sim._intermediate_S == {})
            if what in ("all", "solve"):
                P.soft(n + ": not solved any more", sim._solution is None)
            ch = [k for k in before if k not in ("S", "_intermediate_S", "_solution") and sim.__dict__.get(k) is not before[k]]
            P.soft(n + ": nothing else is changed", not ch, str(ch))
    P.files |= W.prog.files


def copies(P, be="numpy"):
    """the operators of an original are reused by a copy only if that original was processed before in the same stack
    and describes the same material; otherwise they are computed"""
    from . import layers as ly
    P.fn("Simulation.build_matrix", "Layer.solve_eigenproblem")
    W = World(be)
    W.kinds = ("uniform", "patterned")

    def run():
        sim = make(W)
        sim._ok = False
        sim.lattice = ly.Lat()
        sim.lattice._1d = False
        sim._get_toeplitz_matrix = lambda u, transverse=False: ly.toep_contract(None, u, transverse)
        for a in ("Qeps", "Peps", "eps_hat", "eps_hat_inv"):
            W.lazy.pop(a, None)
        Z = z3()
        i0, o = SInt.var("idx"), SInt.var("orig")
        CTX.assume(Z.And(zpoly(i0.p) >= 0, zpoly(i0.p) < zpoly(W.n.p), zpoly(o.p) >= 0, zpoly(o.p) < zpoly(W.n.p), zpoly(o.p) != zpoly(i0.p)))
        instack = CTX.choose(2, "original in the stack") == 0
        orig, cp = W.layer("o"), W.layer("c")
        cp.kind
        inner = sim.layers._at

        def at(i):
            if topoly(i) == i0.p:
                return cp
            if SInt(topoly(i)) == i0:
                return cp
            if instack and (topoly(i) == o.p or SInt(topoly(i)) == o):
                return orig
            return inner(i)
        sim.layers._at = at
        cp.iscopy, cp.original = True, orig
        orig.kind = cp.kind
        eps_same = CTX.choose(2, "same permittivity") == 0
        if eps_same:
            object.__setattr__(orig, "epsilon", cp.epsilon)
        t = [object(), object()]
        cp.tangent_field = None if CTX.choose(2, "tangent field given") else t[0]
        orig.tangent_field = cp.tangent_field if CTX.choose(2, "same tangent field") == 0 else t[1]
        cp.tangent_field_type = "opt"
        orig.tangent_field_type = "opt" if CTX.choose(2, "same type") == 0 else "fft"
        # the original: stale operators, or those of this simulation when it was processed before in the same stack
        for a in REUSED:
            setattr(orig, a, Mat(NC.letter(L(f"orig_{a}", *((1, 1) if "hat" in a else (2, 2))))))
        orig.eigenvalues, orig.eigenvectors = vec("orig_q", 2, "diag"), mat("orig_phi", 2)
        sim.get_layer = lambda l: (cp, i0)
        out = sim.build_matrix(cp)
        return sim, cp, orig, out, i0, o, instack
    for k, r in enumerate(P.paths(f"[{be}] build_matrix of a copy", run)):
        sim, cp, orig, out, i0, o, instack = r.value
        n = f"[{be}] build_matrix of a copy ({r.label()}, path {k})"
        zc = [c for c in r.cond if z3().is_expr(c)]
        P.true(n + ": returns the layer it was given", out is cp)
        shared = [a for a in REUSED if a in cp.__dict__ and cp.__dict__[a] is orig.__dict__[a]]
        if not shared:
            P.true(n + ": computed", "Qeps" in cp.__dict__)
            continue
        P.true(n + ": every operator is reused", set(REUSED) <= set(cp.__dict__) and all(cp.__dict__[a] is orig.__dict__[a] for a in REUSED if a in cp.__dict__), str(shared))
        P.true(n + ": only for the same permittivity", cp.epsilon is orig.epsilon)
        P.true(n + ": only for the same given vector field and type", cp.tangent_field is orig.tangent_field and cp.tangent_field_type == orig.tangent_field_type)
        P.true(n + ": only if the original is in the stack", instack)
        P.z(n + ": and was processed before", zpoly(o.p) < zpoly(i0.p), zc)

    def run2():
        make(W)
        orig, cp = W.layer("o"), W.layer("c")
        cp.iscopy = CTX.choose(2, "copy") == 0
        cp.original = orig if cp.iscopy else cp
        orig.matrix = mat("M_orig", 2)
        orig.eigenvalues, orig.eigenvectors = vec("orig_q", 2, "diag"), mat("orig_phi", 2)
        same = CTX.choose(2, "matrix of the original") == 0
        M = orig.matrix if same else mat("M_other", 2)
        cp.matrix = M
        cp.solve_eigenproblem(M)
        return cp, orig, same
    for r in P.paths(f"[{be}] solve_eigenproblem of a copy", run2):
        cp, orig, same = r.value
        n = f"[{be}] solve_eigenproblem ({r.label()})"
        reuse = cp.eigenvalues is orig.eigenvalues or cp.eigenvectors is orig.eigenvectors
        if reuse:
            P.true(n + ": modes of the original only for the operator of the original", same and cp.iscopy)
            P.true(n + ": both eigenvalues and eigenvectors", cp.eigenvalues is orig.eigenvalues and cp.eigenvectors is orig.eigenvectors)
        else:
            P.true(n + ": own modes", True)
    P.files |= W.prog.files
