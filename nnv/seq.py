"""Finite sequences as terms: sorted grids, their concatenation, the sorted distinct elements with their
first positions, selections, and the values of a function at the elements (element-wise images)."""
from .engine import *
from .load import SymIter, SymList, Loop, LOOPS, UNDEF, Key
import numpy as np

_n = [0]


class Term:
    """sequence term: name + facts (strictly increasing; elements inside the hull of another; disjoint from another)"""

    def __init__(s, op, args, inc=False, disjoint=(), within=None):
        s.op, s.args, s.inc = op, tuple(args), inc
        s.disjoint, s.within = set(disjoint), within

    def key(s):
        return (s.op,) + tuple(a.key() if isinstance(a, Term) else a for a in s.args)

    def __eq__(s, o):
        return isinstance(o, Term) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        return f"{s.op}({', '.join(map(repr, s.args))})"


def fresh(name, **k):
    _n[0] += 1
    return Term(f"{name}#{_n[0]}", (), **k)


def cat(a, b):
    return Term("cat", (a, b))


def uniq(t):
    if t.inc:
        return t
    return Term("uniq", (t,), inc=True)


def without(t, x):
    """elements of t that are not elements of x, in the order of t"""
    if t.op == "uniq" and t.args[0].op == "cat":
        a, b = t.args[0].args
        # lemma unique_cat_minus (lean/Seq.lean): a, b strictly increasing and disjoint
        if a == x and b.inc and x.key() in b.disjoint:
            return b
        if b == x and a.inc and x.key() in a.disjoint:
            return a
    if x.key() in t.disjoint:
        return t
    return Term("without", (t, x), inc=t.inc)


def members(t):
    """set of generators a term is the union of"""
    if t.op == "cat":
        return members(t.args[0]) | members(t.args[1])
    if t.op in ("uniq",):
        return members(t.args[0])
    return {t.key()}


class Elem(Sc):
    """element of a sequence"""
    __slots__ = ("seq", "idx")

    def __init__(s, seq, idx):
        Sc.__init__(s, sym(f"{seq.key()!r}[{topoly(idx).key()}]", "real"))
        s.seq, s.idx = seq, idx

    def __eq__(s, o):
        return Sc.__eq__(s, o)

    __hash__ = Sc.__hash__


class FVal(Sc):
    """value of the function at an element"""
    __slots__ = ("fn", "arg")

    def __init__(s, fn, arg):
        Sc.__init__(s, sym(f"{fn}({arg.p!r})", "real"))
        s.fn, s.arg = fn, arg


class FVals:
    """several outputs of the function at an element"""

    def __init__(s, fn, arg, n):
        s.fn, s.arg, s.n = fn, arg, n

    def nnv_len(s):
        return s.n

    def __len__(s):
        return s.n

    def __getitem__(s, k):
        if isinstance(k, int) and -s.n <= k < s.n:
            return FVal(f"{s.fn}{k % s.n}", s.arg)
        raise IndexError(k)

    def __iter__(s):
        return iter([s[k] for k in range(s.n)])


def vkey(v):
    if isinstance(v, FVal):
        return ("v", v.fn)
    if isinstance(v, FVals):
        return ("vs", v.fn, v.n)
    if isinstance(v, Elem):
        return ("x",)
    return None


class Seq:
    """array / list whose elements are those of a term (or their images g(element))"""
    _nnv_array = True
    __array_ufunc__ = None

    def __init__(s, t, g=None, arr=True):
        s.t, s.g, s.arr = t, g or (lambda e: e), arr
        i = SInt(sym("generic_index", "real"))
        s.kind = vkey(s.g(Elem(t, i)))

    @property
    def n(s):
        return length(s.t)

    @property
    def shape(s):
        return (s.n,)

    ndim = 1

    @property
    def size(s):
        return s.n

    def nnv_len(s):
        return s.n

    def __len__(s):
        raise Unsupported("length of a symbolic sequence")

    def __iter__(s):
        raise Unsupported("iteration over a symbolic sequence")

    def at(s, i):
        return s.g(Elem(s.t, i))

    def nnv_iter(s):
        it = SymIter(s.n, s.at, "seq")
        it.nnv_comp = s.nnv_comp
        it.nnv_compif = s.nnv_compif
        return it

    def nnv_comp(s, f):
        g = s.g
        return Seq(s.t, lambda e: f(g(e)), arr=False)

    def nnv_compif(s, f, cond):
        if s.kind != ("x",):
            raise Unsupported("selection of values")
        q = Query()
        e = Elem(s.t, SInt(sym("generic_index", "real")))
        res = []
        for ans in (True, False):
            QUERY.append((e, ans, q))
            try:
                res.append(True if cond(e) else False)
            finally:
                QUERY.pop()
        if len(q.asked) != 2 or q.asked[0] is not q.asked[1] or res != [False, True]:
            raise Unsupported("selection of elements")
        r = Seq(without(s.t, q.asked[0].t), arr=False)
        return r.nnv_comp(f)

    def __contains__(s, x):
        if QUERY and QUERY[-1][0] is x:
            QUERY[-1][2].asked.append(s)
            return QUERY[-1][1]
        raise Unsupported("membership in a sequence")

    def nnv_set(s): return Seq(s.t, s.g, arr=False)      # only membership is used (a set has no order: indexing is not)
    def tolist(s): return Seq(s.t, s.g, arr=False)
    def copy(s): return Seq(s.t, s.g, s.arr)
    def flatten(s): return s

    def __getitem__(s, i):
        if isinstance(i, First):
            # position of the first occurrence of every distinct element
            if i.t == s.t:
                return Seq(uniq(s.t), s.g, s.arr)
            raise Unsupported(f"positions in {i.t!r} used in {s.t!r}")
        if isinstance(i, slice):
            if i.step in (None, 1) and i.start is not None and i.stop is not None:
                d = topoly(i.stop) - topoly(i.start)
                if d.isconst():
                    return [s[i.start + k] for k in range(int(d.constval().re))]
            raise Unsupported("slice of a sequence")
        if isinstance(i, (int, SInt)):
            if isinstance(i, int) and i < 0:
                i = s.n + i
            return s.at(i)
        raise Unsupported("index of a sequence")


class Query:
    def __init__(s):
        s.asked = []


QUERY = []


class First:
    """positions of the first occurrences in a sequence"""
    _nnv_array = True

    def __init__(s, t):
        s.t = t


def length(t):
    if t.op == "cat":
        return length(t.args[0]) + length(t.args[1])
    n = SInt.var(f"len {t.key()!r}")
    if CTX is not None:
        CTX.assume(zpoly(n.p) >= 0)
    return n


class Bag:
    """list filled by a loop: elements in no particular order, all with the property proved of every appended value"""

    def __init__(s, **facts):
        s.facts = facts


def asseq(x):
    if isinstance(x, Seq):
        return x
    return None


def hstack(xs, vertical=False):
    xs = list(xs)
    out = None
    for x in xs:
        if not isinstance(x, Seq):
            raise Unsupported("concatenation of " + type(x).__name__)
        if out is None:
            out = x
        else:
            if x.kind != out.kind or x.kind is None:
                raise ShapeError("arrays of different kinds concatenated")
            out = Seq(cat(out.t, x.t), out.g)
    if (out.kind[0] == "vs") != vertical:
        raise ShapeError("concatenation along the wrong axis")
    return out
