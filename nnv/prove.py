"""Back ends for algebraic obligations.

* numeric refutation: evaluate both sides on a random model of the hypotheses
  (a disagreement is a counter-model -> REFUTED);
* proof: reduction modulo the hypotheses with bounded completion of the
  two-sided ideal they generate (non-commutative Buchberger), exact arithmetic.
"""
import time, itertools
import numpy as np
from .alg import *
from .alg import _fold


# ------------------------------------------------------------------ numeric models
class Model:
    def __init__(s, N=3, seed=0):
        s.N = N
        s.rng = np.random.default_rng(seed)
        s.val = {}
        s.cache = {}

    def rand(s, shape, props):
        r = s.rng
        if "pos" in props:
            return r.uniform(0.5, 2, shape)
        x = r.normal(size=shape)
        if "real" in props:
            return x
        y = r.normal(size=shape)
        if "imag" in props:
            return 1j * x
        return x + 1j * y

    def dimof(s, k):
        return s.N * k if k else 1

    def letter(s, l):
        base = s.val.get((l.kind, l.name))
        if base is None:
            if l.kind == "C" and l.name == "1":
                base = np.ones(s.dimof(l.rows))
            else:
                shape = (s.dimof(l.rows), s.dimof(l.cols)) if l.kind == "L" else (s.dimof(l.rows),)
                base = s.rand(shape, l.props)
                if "herm" in l.props:
                    base = base + base.conj().T
                if "sym" in l.props:
                    base = base + base.T
            s.val[(l.kind, l.name)] = base
        return base

    def mat(s, l):
        if l.kind == "E" or l.kind == "P":
            k = l.cols if l.kind == "E" else l.rows
            n = s.N * k
            M = np.zeros((2 * n, n))
            M[(l.args - 1) * n:l.args * n] = np.eye(n)
            return M if l.kind == "E" else M.T
        if l.kind == "D":
            return np.diag(np.broadcast_to(s.poly(Poly({l.args: ONE})), (s.N * l.rows,)))
        if l.kind == "X":
            k = ("X", l.args.key())
            if k not in s.cache:
                M = s.nc(l.args)
                if np.linalg.cond(M) > 1e9:
                    raise Degenerate()
                s.cache[k] = np.linalg.inv(M)
            M = s.cache[k]
            return M
        M = s.letter(l)
        if l.kind == "C":
            M = M[:, None]
        if l.conj:
            M = M.conj()
        if l.trans:
            M = M.T
        return M

    def nc(s, e):
        out = np.zeros((s.dimof(e.rows), s.dimof(e.cols)), complex)
        for w, c in e.t.items():
            x = None
            for l in w:
                m = s.mat(l)
                x = m if x is None else x @ m
            if x is None:
                x = np.eye(s.dimof(e.rows))
            out = out + x * s.poly(c)
        return out

    def poly(s, p):
        if p in s.cache:
            return s.cache[p]
        out = 0
        for m, c in p.t.items():
            x = complex(c)
            for a, e in m:
                x = x * s.atom(a) ** e
            out = out + x
        s.cache[p] = out
        return out

    def atom(s, a):
        if a in s.cache:
            return s.cache[a]
        if a.kind == "sym":
            n, c = a.args
            v = s.val.get(("S", n))
            if v is None and n in SUMS:
                ve, k = SUMS[n]
                v = np.sum(np.broadcast_to(s.poly(Poly({ve: ONE})), (s.N * k,)))
                s.val[("S", n)] = v
            if v is None and n == "N":
                v = s.val[("S", n)] = s.N
            if v is None:
                v = s.rand((), SYMPROPS[n])
                s.val[("S", n)] = v
            v = np.conj(v) if c else v
        elif a.kind == "ent":
            v = s.nc(NC.word(a.args[0]))[:, 0]
        else:
            name, p, c = a.args
            x = np.asarray(s.poly(p), complex)
            if name in ("abs",):
                v = np.abs(x)
            elif name == "inv":
                if np.min(np.abs(x)) < 1e-12:
                    raise Degenerate()
                v = 1 / x
            elif name in ("sgn<", "sgn<="):
                v = np.where(x.real < 0 if name == "sgn<" else x.real <= 0, 1.0, -1.0)
            elif name in POWERS:
                v = x ** s.poly(POWERS[name])
            elif name == "atan2":
                raise Unsupported("atan2")
            else:
                v = {"exp": np.exp, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh,
                     "round": np.round}[name](x)
            v = np.conj(v) if c else v
        s.cache[a] = v
        return v


class Degenerate(Exception):
    pass


# ------------------------------------------------------------------ completion
W = {"L": 6, "C": 6, "X": 8, "P": 3, "E": 3, "D": 1}


def wkey(w):
    return (sum(W[l.kind] for l in w), len(w), tuple(l.key for l in w))


class Rules:
    def __init__(s, limit=160, maxw=90, deadline=None):
        s.rules = []          # (lead word, tail NC)
        s.limit, s.maxw = limit, maxw
        s.deadline = deadline
        s.pairs = []

    def orient(s, e):
        """e = 0  ->  (lead, tail) with lead = tail"""
        if not e.t:
            return None
        e = s.strip(e)
        w = max(e.t, key=wkey)
        c = e.t[w]
        if not w:
            raise Inconsistent("hypotheses are contradictory: a non-zero scalar equals zero")
        rest = NC({x: y for x, y in e.t.items() if x != w}, e.rows, e.cols)
        return w, (-rest).scale(c.inverse())

    def strip(s, e):
        """multiply by inverses of diagonal letters at the ends of the leading word"""
        for _ in range(4):
            w = max(e.t, key=wkey)
            if len(w) > 1 and w[0].kind == "D":
                e = diag_nc(Poly({w[0].args: ONE}).inverse(), w[0].rows) * e
            elif len(w) > 1 and w[-1].kind == "D":
                e = e * diag_nc(Poly({w[-1].args: ONE}).inverse(), w[-1].rows)
            else:
                break
        return e

    def reduce(s, e, steps=20000):
        todo = dict(e.t)
        out = {}
        n = 0
        while todo:
            w = max(todo, key=wkey)
            c = todo.pop(w)
            if is_zero(c):
                continue
            hit = s.match(w)
            if hit is None:
                out[w] = c
                continue
            n += 1
            if n > steps or (s.deadline and time.time() > s.deadline):
                raise Timeout()
            i, lead, tail = hit
            pre, post = w[:i], w[i + len(lead):]
            for tw, tc in tail.t.items():
                for c1, x in cat3(pre, tw, post):
                    cc = c * tc * c1
                    todo[x] = todo[x] + cc if x in todo else cc
                    if not todo[x].t:
                        del todo[x]
        return NC(out, e.rows, e.cols)

    def match(s, w):
        for lead, tail in s.rules:
            n = len(lead)
            if n > len(w):
                continue
            for i in range(len(w) - n + 1):
                if w[i] is lead[0] and w[i:i + n] == lead:
                    return i, lead, tail
        return None

    def add(s, e):
        e = s.reduce(e)
        e = NC({w: c for w, c in e.t.items() if not is_zero(c)}, e.rows, e.cols)
        o = s.orient(e)
        if o is None:
            return False
        lead, tail = o
        if wkey(lead)[0] > s.maxw:
            return False
        # interreduce
        keep, redo = [], []
        for l2, t2 in s.rules:
            if contains(l2, lead):
                redo.append(NC.word(l2) - t2 if True else None)
            else:
                keep.append((l2, t2))
        s.rules = keep + [(lead, tail)]
        for l2, t2 in list(s.rules):
            for o1, o2 in (((lead, tail), (l2, t2)), ((l2, t2), (lead, tail))):
                for k in range(1, min(len(o1[0]), len(o2[0]))):
                    if o1[0][-k:] == o2[0][:k]:
                        s.pairs.append((wkey(o1[0] + o2[0][k:]), o1, o2, k))
                if o1 is o2 or (lead == l2):
                    break
        for r in redo:
            s.add(r)
        return True

    def step(s):
        """one critical pair; False when there is none left"""
        if not s.pairs:
            return False
        j = min(range(len(s.pairs)), key=lambda i: s.pairs[i][0])
        _, (l1, t1), (l2, t2), k = s.pairs.pop(j)
        a = s.mul(t1, l2[k:])
        b = s.mul(l1[:-k], t2, left=True)
        s.add(a - b)
        return True

    def mul(s, x, y, left=False):
        if left:
            w, nc = x, y
            return NC.word(w) * nc if w else nc
        return x * NC.word(y) if y else x


def cat3(a, b, c):
    for c1, x in concat(a, b):
        for c2, y in concat(x, c):
            yield c1 * c2, y


def contains(w, sub):
    n = len(sub)
    return any(w[i:i + n] == sub for i in range(len(w) - n + 1))


class Timeout(Exception):
    pass


class Inconsistent(Exception):
    pass


def inverse_rules(exprs, known=()):
    """X A = 1, A X = 1 for every inverse letter of the expressions"""
    seen, out = set(), []
    todo = [l for e in exprs for l in e.letters() if l.kind == "X"]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        A = l.args
        X = NC.letter(l)
        I = NC.eye(A.rows)
        out += [X * A - I, A * X - I]
        todo += [m for m in A.letters() if m.kind == "X"]
    return out


def prove_nc(goals, hyps=(), budget=20.0, limit=400):
    """every goal NC is zero modulo the hypotheses.  -> (ok, detail)"""
    t0 = time.time()
    goals = [g for g in goals]
    if all(g.is_zero() for g in goals):
        return True, "polynomial identity"
    R = Rules(deadline=t0 + budget)
    try:
        for h in list(inverse_rules(list(goals) + list(hyps))) + list(hyps):
            R.add(h)
        left = [R.reduce(g) for g in goals]
        n = 0
        while True:
            left = [g for g in left if not g.is_zero()]
            if not left:
                return True, f"reduction modulo {len(R.rules)} rules ({n} critical pairs)"
            if n >= limit or time.time() - t0 > budget or not R.step():
                break
            n += 1
            left = [R.reduce(g) for g in left]
        return False, f"not reduced to zero: {left[0]!r}"
    except Timeout:
        return False, "time limit"
