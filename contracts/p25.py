"""P25: the back ends give the same results.

Each function reached by a computation is executed under each of the five back ends (the code has different branches for them:
in-place or functional assignment, precision and device options, keywords of the transforms, ...) and shown to satisfy the SAME
contract, which determines its result; two back ends satisfying a determining contract have equal results (up to the eigenvalue
solver's choice of a basis, which the contract of `eig` leaves free in every back end).  Functions without such a contract are
compared directly: both executions give the same term over uninterpreted array operations (nnv/terms.py)."""
import os, multiprocessing as mp, time
from .common import *
from nnv.alg import Unsupported

BES = ("numpy", "scipy", "torch", "jax", "autograd")


def jobs():
    from . import construct, layers as ly, p03, p06, p07, p08, p09, p10, p11, p12, p18, p20, p21, p23, smat, stack, solve, p22, p13
    J = []
    for be in BES:
        add = lambda name, f, *a, **k: J.append((be, name, f, a, k))
        add("constructor", construct.build, ("kxy", "modal", "zero", "dict"))
        add("operators", lambda P, be=be: ly.build(P, be=be))
        add("modes", lambda P, be=be: ly.modes(P, be))
        add("field coefficients", p03.fields)
        add("scattering matrices", lambda P, be=be: smat.explore_S(P, be))
        add("interfaces and amplitudes", lambda P, be=be: [f(P, be) for f in (stack.imatrix, stack.translate, stack.amplitudes, stack.continuity)])
        add("solve", lambda P, be=be: solve.loop(P, be))
        add("efficiencies", lambda P: [p06.perorder(P), p06.totals(P)])
        add("flux", p07.flux)
        add("waves", p08.waves)
        add("lattice", p09.vectors)
        add("truncation", lambda P: [f(P) for f in (p10.circular, p10.parallelogrammic, p10.onedim, p10.others)])
        add("geometry", p11.raster)
        add("shapes", p11.helpers)
        add("transforms", lambda P: [p12.transforms(P), p12.toeplitz(P)])
        add("topology optimization", lambda P: [p18.projection(P), p18.interpolation(P)])
        add("stress tensor", lambda P: [f(P) for f in p20.PARTS])
        add("field synthesis", lambda P: [p21.synth(P), p21.selections(P), p21.permittivity(P)])
        add("tangent field", lambda P: [p23.fields(P), p23.helpers(P), p23.layer(P)])
    return J


def one(k):
    be, name, f, a, kw = JOBS[k]
    from nnv.vc import Proof
    P = Proof("P25")
    P.backends = (be,)
    t0 = time.time()
    try:
        f(P, *a, **kw)
    except Unsupported as e:
        P.add(name, "unsupported", "", 0, str(e))
    except (Exception, RecursionError) as e:
        P.add(name, "unsupported", "", 0, f"{type(e).__name__}: {e}")
    tag = f"[{be}] "
    for o in P.obls:
        o["name"] = tag + name + ": " + o["name"].replace(tag, "")
    return dict(obls=P.obls, functions=P.functions, trusted=P.trusted, assumptions=P.assumptions, notes=P.notes,
                files=sorted(P.files), vacuity=P.vacuity, cases=P.cases, t=round(time.time() - t0, 1), job=tag + name)


JOBS = []


def determined(P):
    JOBS[:] = jobs()
    n = int(os.environ.get("NNV_P25_PROCS", 0)) or min(6, os.cpu_count() or 1)
    with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
        res = pool.map(one, range(len(JOBS)), chunksize=1)
    for r in res:
        P.obls += r["obls"]
        P.fn(*r["functions"])
        P.trust(*r["trusted"])
        P.assume(*r["assumptions"])
        for x in r["notes"]:
            if x not in P.notes:
                P.notes.append(x)
        P.files |= set(r["files"])
        P.vacuity += r["vacuity"]
        for c in r["cases"]:
            P.case(c)
        if os.environ.get("NNV_TIMES"):
            print(r["job"], r["t"], len(r["obls"]))


PARTS = [determined]
