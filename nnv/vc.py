"""Obligations and their discharge."""
import time, json, os, traceback
from .engine import *
from .prove import *
from .load import Program, SymList, SymRange, SymIter, Loop, Key, UNDEF, Stub, Quiet, GenericLoop


class Proof:
    def __init__(s, pid, tier="quick", seed=1):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.obls = []
        s.functions = []
        s.trusted = []
        s.assumptions = []
        s.notes = []
        s.files = set()
        s.vacuity = []
        s.cases = []

    # ---- bookkeeping
    def fn(s, *names):
        for n in names:
            if n not in s.functions:
                s.functions.append(n)

    def trust(s, *t):
        for x in t:
            if x not in s.trusted:
                s.trusted.append(x)

    def assume(s, *t):
        for x in t:
            if x not in s.assumptions:
                s.assumptions.append(x)

    def add(s, name, status, by="", t=0.0, detail=""):
        s.obls.append(dict(name=" ".join(name.split()), status=status, by=by, time=round(t, 4), detail=str(detail)[:1500]))
        return status == "proved"

    def case(s, c):
        """a concrete counterexample: replayed on the real code by the companion"""
        if c not in s.cases and len(s.cases) < 12:
            s.cases.append(c)

    # ---- algebraic goals
    def goal(s, name, goals, hyps=(), budget=25.0, models=4, setup=None, by="nc", limit=400, conds=()):
        """every Poly / NC of `goals` is zero, given hyps (NC = 0)"""
        t0 = time.time()
        goals = [g for g in goals]
        if not goals:
            return s.add(name, "undecided", by, 0, "no goal generated")
        try:
            # numeric models of the hypotheses: refutation, and protection against vacuity
            bad = None
            nmod = 0
            if setup is not False:
                for i in range(models):
                    m = Model(N=2 + i % 2, seed=1000 * s.seed + i)
                    try:
                        if setup is not None:
                            setup(m)
                        for h in hyps:
                            v = m.nc(h)
                            sc = 1 + np.max(np.abs(v)) if v.size else 1
                            if v.size and np.max(np.abs(v)) > 1e-6 * max(1, mag(m, h)):
                                raise HypFalse(repr(h)[:200])
                        for g in goals:
                            v = np.asarray(m.nc(g) if isinstance(g, NC) else m.poly(g))
                            ref = max(1.0, mag(m, g))
                            if not np.all(np.isfinite(v)):
                                raise Degenerate()
                            if v.size and np.max(np.abs(v)) > 1e-7 * ref:
                                bad = f"difference {np.max(np.abs(v)):.3g} (scale {ref:.3g}) in {g!r}"[:600]
                                break
                        nmod += 1
                    except (Degenerate, np.linalg.LinAlgError, FloatingPointError, OverflowError):
                        continue
                    if bad:
                        break
            if bad:
                return s.add(name, "refuted", "numeric model", time.time() - t0, bad)
            ok, det = True, "polynomial identity"
            ncs = []
            for g in goals:
                if isinstance(g, NC):
                    ncs.append(g)
                elif not is_zero(g):
                    d = g.dim
                    try:
                        ncs.append(column_nc(g, d) if d else NC({(): g}, 1, 1))
                    except Unsupported as e:
                        ok, det = False, f"not reduced: {g!r}"
            if ok and ncs:
                ok, det = prove_nc(ncs, hyps, budget, limit)
            st = "proved" if ok else "undecided"
            if ok and setup is not False and nmod == 0:
                st, det = "undecided", "no model of the hypotheses found (possibly vacuous)"
            return s.add(name, st, by, time.time() - t0, det)
        except HypFalse as e:
            return s.add(name, "undecided", by, time.time() - t0, f"hypothesis not satisfied by the model: {e}")
        except Inconsistent as e:
            return s.add(name, "undecided", by, time.time() - t0, str(e))
        except Unsupported as e:
            return s.add(name, "unsupported", by, time.time() - t0, str(e))
        except ShapeError as e:
            return s.add(name, "refuted", by, time.time() - t0, f"shape error: {e}")

    def eq(s, name, a, b, hyps=(), **k):
        try:
            g = eq_goals(a, b)
        except ShapeError as e:
            return s.add(name, "refuted", "shapes", 0, str(e))
        except Unsupported as e:
            return s.add(name, "unsupported", "", 0, str(e))
        return s.goal(name, g, hyps, **k)

    # ---- z3 goals
    def z(s, name, goal, conds=(), timeout=10000, cross=True):
        t0 = time.time()
        Z = z3()
        if isinstance(goal, SBool):
            goal = goal.z
        if isinstance(goal, bool):
            return s.add(name, "proved" if goal else "refuted", "evaluation", 0, "")
        conds = [c for c in conds if Z.is_expr(c)]
        st, det = zvalid(goal, conds, timeout)
        by = "z3"
        if st == "undecided":
            st2 = cvc5_valid(goal, conds, timeout)
            if st2:
                st, det, by = st2, "cvc5", "cvc5"
        return s.add(name, st, by, time.time() - t0, det)

    def true(s, name, ok, detail="", by="evaluation"):
        return s.add(name, "proved" if ok else "refuted", by, 0, detail)

    def soft(s, name, ok, detail="", by="evaluation"):
        """a fact about the representation: its failure alone is no violation"""
        return s.add(name, "proved" if ok else "undecided", by, 0, detail)

    # ---- lemmas over the contracts
    def lean(s, file, theorems, timeout=300):
        """machine-checked lemmas: Lean accepts the file, the theorems exist and use no axiom beyond the standard ones"""
        import subprocess, tempfile, re
        t0 = time.time()
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        src = open(os.path.join(here, "lean", file)).read()
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "q.lean")
            open(f, "w").write(src + "\n" + "\n".join(f"#print axioms {t}" for t in theorems))
            try:
                r = subprocess.run(["lean", f], capture_output=True, text=True, timeout=timeout, cwd=d)
                out, rc = r.stdout + r.stderr, r.returncode
            except (OSError, subprocess.TimeoutExpired) as e:
                out, rc = str(e), -1
        dt = time.time() - t0
        for t in theorems:
            m = re.search(r"'%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(t), out)
            std = m and all(a.strip() in ("propext", "Quot.sound", "Classical.choice") for a in (m.group(2) or "propext").split(","))
            s.add(f"lemma {t} ({file})", "proved" if rc == 0 and std else "undecided", "lean", dt / max(1, len(theorems)), "" if rc == 0 and std else out[-600:])

    # ---- running the code
    def paths(s, name, fn, limit=400, allow=(), ok_exc=None):
        """explore fn; every unexpected exception of the real code is a refuted obligation"""
        try:
            res = explore(fn, limit)
        except Unsupported as e:
            s.add(name + ": execution", "unsupported", "", 0, str(e) + where_tb(e))
            return []
        out = []
        for r in res:
            if r.exc is not None and not isinstance(r.exc, tuple(allow)):
                if isinstance(r.exc, (ShapeError, ValueError, KeyError, IndexError, ZeroDivisionError, AssertionError, NotImplementedError)):
                    feas = zsolve([c for c in r.cond if z3().is_expr(c)])[0] if r.cond else "sat"
                    if feas == "unsat":
                        continue
                    st = "refuted" if isinstance(r.exc, ShapeError) else "undecided"
                    s.add(name + f": no exception [{r.label()}]", st, "", 0, f"{type(r.exc).__name__}: {r.exc}{where_tb(r.exc)}")
                else:
                    s.add(name + f": execution [{r.label()}]", "unsupported", "", 0, f"{type(r.exc).__name__}: {r.exc}{where_tb(r.exc)}")
                continue
            out.append(r)
        if not out and not any(o["name"].startswith(name) for o in s.obls):
            s.add(name + ": execution", "unsupported", "", 0, "no path")
        return out

    def result(s):
        return dict(property=s.pid, obligations=s.obls, functions=s.functions, trusted=s.trusted, assumptions=s.assumptions,
                    notes=s.notes, files=sorted(s.files), vacuity=s.vacuity, cases=s.cases,
                    extraction="modules parsed from /repo/nannos on this run; see nnv/load.py for the rewriting; logging, plotting, "
                               "timing and presentation modules are replaced by stubs")


class HypFalse(Exception):
    pass


def where_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/nannos/" in f.filename:
            return f" at {os.path.basename(f.filename)}:{f.lineno}"
    return ""


def mag(m, g):
    """magnitude of the terms of an expression in a model"""
    out = 0.0
    if isinstance(g, NC):
        for w, c in g.t.items():
            v = m.nc(NC({w: c}, g.rows, g.cols))
            if v.size:
                out = max(out, float(np.max(np.abs(v))))
    else:
        for mo, c in g.t.items():
            v = np.asarray(m.poly(Poly({mo: c})))
            if v.size:
                out = max(out, float(np.max(np.abs(v))))
    return out


def cvc5_valid(goal, conds, timeout):
    """second solver on the z3-printed problem"""
    try:
        import cvc5
        Z = z3()
        S = Z.Solver()
        for c in list(conds) + zfacts(list(conds) + [goal]):
            S.add(c)
        S.add(Z.Not(goal))
        txt = S.to_smt2()
        sol = cvc5.Solver()
        sol.setOption("tlimit-per", str(timeout))
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = str(c.invoke(sol, sm)).strip()
            if r in ("sat", "unsat", "unknown"):
                res = r
        return "proved" if res == "unsat" else None
    except Exception:
        return None


# ------------------------------------------------------------------ arbitrary solved stack
def vec(name, k, *props):
    return Vec([(NC.letter(C(name, k, *props)).entry(), k)])


def mat(name, k, *props):
    return Mat(NC.letter(L(name, k, k, *props)))


def scal(name, *props):
    return Sc(sym(name, *props))


class World:
    """an arbitrary simulation object; layers by symbolic index"""

    def __init__(s, backend="numpy"):
        s.prog = Program(backend)
        s.simmod = s.prog.load("nannos.simulation")
        s.laymod = s.prog.load("nannos.layers")
        s.Simulation = s.simmod.Simulation
        s.Layer = s.laymod.Layer
        W = s

        class SymLayer(s.Layer):
            """arbitrary layer; the kind of material is chosen when it is first needed"""
            def __init__(self):
                pass

            def __getattr__(self, n):
                f = W.lazy.get(n)
                if f is None or n.startswith("__"):
                    raise AttributeError(n)
                v = f(self)
                object.__setattr__(self, n, v)
                return v
        s.SymLayer = SymLayer
        s.omega = scal("omega", "pos")
        s.kx, s.ky = vec("kx", 1, "real", "diag"), vec("ky", 1, "real", "diag")
        s.lazy = {}
        s.kinds = ("uniform", "patterned")
        s.std()

    def std(s):
        """layers as left by a solved simulation (contract of solve)"""
        def kind(l):
            return s.kinds[CTX.choose(len(s.kinds), f"kind of layer {l.tag}")]
        z = s.lazy
        z["kind"] = kind
        z["thickness"] = lambda l: scal(f"d[{l.tag}]", "pos")
        z["eigenvalues"] = lambda l: vec(f"q[{l.tag}]", 2, "diag")
        z["eigenvectors"] = lambda l: mat(f"phi[{l.tag}]", 2)
        z["Qeps"] = lambda l: mat(f"Q[{l.tag}]", 2)
        z["Peps"] = lambda l: mat(f"P[{l.tag}]", 2)
        z["eps_hat"] = lambda l: mat(f"epshat[{l.tag}]", 1)
        z["eps_hat_inv"] = lambda l: Mat(l.eps_hat.nc.inverse())
        z["epsilon"] = lambda l: Arr0(sym(f"eps[{l.tag}]")) if l.kind == "uniform" else grid(f"epsgrid[{l.tag}]") if l.kind == "patterned" else aniso(f"epsgrid[{l.tag}]")
        z["mu"] = lambda l: Arr0(Poly.const(1))
        z["name"] = lambda l: f"layer[{l.tag}]"
        z["iscopy"] = lambda l: False
        z["original"] = lambda l: l

    def layer(s, tag):
        l = s.SymLayer()
        object.__setattr__(l, "tag", tag)
        return l

    def sim(s, nlayers=None):
        sim = object.__new__(s.Simulation)
        s.n = nlayers if nlayers is not None else SInt.var("nlayers")
        if nlayers is None:
            CTX.assume(zpoly(s.n.p) >= 2)
        s.notgrid3()
        CTX.assume(zpoly(nh().p) >= 1)
        cache = {}

        def at(i):
            return s.layer(topoly(i).key())
        sim.layers = SymList(s.n, at)
        sim.layer_names = None
        sim.nh = nh()
        sim.nh0 = nh()
        sim.omega = s.omega
        sim.kx, sim.ky = s.kx.copy(), s.ky.copy()
        sim.Kx, sim.Ky = Mat(s.kx.diag()), Mat(s.ky.diag())
        sim.IdG = Mat(NC.eye(1))
        sim.ZeroG = Mat(NC.zero(1, 1))
        sim.formulation = "original"
        sim._intermediate_S = {}
        sim.a0 = vec("a0", 2)
        sim.bN = vec("bN", 2)
        sim._solution = object()
        s.install_solved(sim)
        return sim

    def notgrid3(s):
        """a scalar profile on a 3 x 3 grid has the shape of a tensor: excluded (stated assumption)"""
        gx, gy = gridshape()
        Z = z3()
        CTX.assume(Z.And(zpoly(gx.p) >= 1, zpoly(gy.p) >= 1, Z.Not(Z.And(zpoly(gx.p) == 3, zpoly(gy.p) == 3)), zpoly(nh().p) >= 1))

    def install_solved(s, sim):
        pass


def aniso(name):
    d = np.empty((3, 3), object)
    for i in range(3):
        for j in range(3):
            d[i, j] = grid(f"{name}{i}{j}")
    return TArr(d, GDIM, Grid)
