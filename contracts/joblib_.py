"""Assumed contract of joblib: Parallel(...)(delayed(f)(*a, **k) for ...) is the list of f(*a, **k) in the order of the tasks."""
from .common import *
from nnv.load import SymList

KEEP = {"n_jobs", "prefer", "verbose", "batch_size", "pre_dispatch", "backend", "require", "temp_folder", "max_nbytes", "mmap_mode"}


class Task:
    def __init__(s, f, a, k):
        s.f, s.a, s.k = f, a, k

    def __iter__(s):
        return iter((s.f, s.a, s.k))

    def run(s):
        return s.f(*s.a, **s.k)


def delayed(f, *a, **k):
    def call(*a, **k):
        return Task(f, a, k)
    return call


class Parallel:
    def __init__(s, n_jobs=None, *pos, **k):
        if pos or set(k) - KEEP and not set(k) - KEEP <= {"return_as"} or k.get("return_as", "list") != "list" or k.get("timeout") is not None:
            raise Unsupported("options of joblib.Parallel")
        s.n_jobs = n_jobs

    def __enter__(s):
        return s

    def __exit__(s, *a):
        return False

    def __call__(s, it):
        def one(t):
            if not isinstance(t, Task):
                t = Task(*t)
            return t.run()
        f = getattr(it, "nnv_iter", None)
        if f is None:
            return [one(t) for t in it]
        q = f()
        if hasattr(q, "nnv_comp"):
            return q.nnv_comp(one)
        return SymList(q.n, lambda i: one(q.at(i)))


def install(prog):
    from nnv.load import Stub
    prog.ext("joblib", Stub("joblib", Parallel=Parallel, delayed=delayed, cpu_count=lambda *a, **k: SInt.var("cpus")))


class Elem:
    """element number i of a list of arbitrary values"""
    def __init__(s, name, i):
        s.name, s.i = name, topoly(i)


class Call:
    def __init__(s, a, k):
        s.a, s.k = a, k


TRUST = "joblib.Parallel(...)(tasks) returns the results of the delayed calls in the order of the tasks, for every number of workers"
