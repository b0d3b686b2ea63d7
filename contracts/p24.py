"""P24: the gradient of an objective is its derivative.

A gradient is the derivative of the objective when (a) it is taken at the given point with respect to a variable of its own and of the
value the objective returned, and (b) every step from that variable to the value is made of differentiable operations of the library,
so that no dependence is dropped.  The rules of the library for its own operations are trusted.
  (a) contracts of `grad` and of the array constructor of each back end, evaluated on the real package over tensors carrying the leaves
      their derivative depends on (nnv/gradc.py)
  (b) every function reached by a computation is executed over symbolic arguments with the operations of the back end (the functions of
      P25): the execution only uses differentiable operations, and never turns a parameter into a number of its own."""
import os, sys, json, subprocess, time, multiprocessing as mp
from .common import *
from nnv.alg import Unsupported
from nnv import symbk, load as L

SKIP = {"truncation", "geometry", "shapes"}     # neither depends on a parameter (orders and shapes are selected, not differentiated)
J = []


def jobs():
    from . import p25
    return [j for j in p25.jobs() if j[0] in ("torch", "autograd") and j[1] not in SKIP]


def tensors(be):
    """the attributes through which a parameter loses its derivative exist and are recorded"""
    from nnv import engine as E

    def rec(n):
        def f(s, *a, **k):
            symbk.taped("float", s)
            return s
        return f
    names = ("detach", "numpy", "item", "tolist") if be == "torch" else ("_value",)
    for c in (E.Sc, E.OArr, E.Vec, E.Mat, E.TArr, L.SymArr):
        for n in names:
            if n in ("item", "tolist") and (c is E.OArr or issubclass(c, E.OArr)):
                continue
            setattr(c, n, rec(n) if be == "torch" else property(rec(n)))
        if be == "torch":
            for n in ("cpu", "clone", "contiguous"):
                setattr(c, n, lambda s, *a, **k: s)
            setattr(c, "data", property(rec("data"))) if c not in (E.OArr, E.TArr) else None


def one(k):
    be, name, f, a, kw = J[k]
    from nnv.vc import Proof
    P = Proof("P24")
    P.backends = (be,)
    lost = []
    symbk.TAPE = lambda kind, where, x: lost.append((kind, where)) if kind == "float" and "_get_tangent_field_min" not in where else None
    tensors(be)
    err = None
    t0 = time.time()
    try:
        f(P, *a, **kw)
    except (Exception, RecursionError) as e:
        err = f"{type(e).__name__}: {e}"
    symbk.TAPE = None
    bad = [o["name"] + ": " + str(o["detail"])[:200] for o in P.obls if o["status"] == "unsupported"]
    return dict(functions=P.functions, files=sorted(P.files), t=round(time.time() - t0, 2), err=err, bad=bad, lost=sorted(set(lost)), n=len(P.obls))


def differentiable(P):
    J[:] = jobs()
    n = int(os.environ.get("NNV_P25_PROCS", 0)) or min(6, os.cpu_count() or 1)
    with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
        res = pool.map(one, range(len(J)), chunksize=1)
    for (be, name, *_), r in zip(J, res):
        P.fn(*r["functions"])
        P.files |= set(r["files"])
        nm = f"[{be}] {name}: "
        if r["err"] or r["bad"]:
            P.add(nm + "the execution is within the operations of the library", "unsupported", "", r["t"], str(r["err"] or r["bad"][:2]))
        else:
            P.add(nm + "the execution only uses differentiable operations of the library", "proved", "symbolic execution", r["t"], f"{r['n']} obligations of the functions executed")
            P.vacuity.append(dict(name=nm, paths=r["n"])) if False else None
        for kind, where in r["lost"]:
            P.add(nm + f"no parameter becomes a number of its own at {where}", "undecided", "", 0, kind)
        if not r["lost"] and not r["err"] and not r["bad"]:
            P.add(nm + "no parameter becomes a number of its own", "proved", "symbolic execution", 0, "")
    P.trust("the derivative rules of torch and autograd for their own operations (eigenvalues, inverses, transforms, ...), at points where these are differentiable",
            "the operations of the symbolic back end stand for operations of the library that are differentiable and recorded")
    P.assume("the tangent field found by an external optimiser (type 'opt') is outside of the statement", "eigenvalues of patterned layers are simple and no order grazes a layer (elsewhere the functions are not differentiable)",
             "comparisons of parameters choose a branch, on which the function is differentiated")


def wrapper(P):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = {k: v for k, v in os.environ.items() if not k.startswith("NANNOS_")}
    env.update(NNV_REPO=L.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    t0 = time.time()
    r = subprocess.run([sys.executable, "-m", "nnv.gradc"], cwd=here, env=env, capture_output=True, text=True, timeout=200)
    try:
        r = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception as e:
        raise Unsupported(f"{e}: {r.stderr[-300:]}")
    P.fn("__init__.grad (torch)", "__init__._array (torch)", "__init__._grad", "__init__ (choice of grad and array)")
    P.files |= set(r["files"])
    if r["undecided"]:
        P.add("gradients and arrays", "unsupported", "", 0, r["undecided"])
    dt = (time.time() - t0) / max(1, len(r["obs"]))
    for nm, ok, det in r["obs"]:
        P.add(nm, "proved" if ok else "refuted", "evaluation", dt, "" if ok else det)
    P.assume("lists of tensors: nested patterns up to a table of matrices, every placement of parameters among numbers in lists of up to four")


PARTS = [wrapper, differentiable]
