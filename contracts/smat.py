"""Contract of Simulation.get_S_matrix: exact characterization of the amplitudes at the two ends
of a part of the stack, by induction over the interfaces (loop rule below), memo included.

amplitudes of layer i: a_i at its entrance face (forward), b_i at its exit face (backward);
interface i:  (f_i a_i ; b_i) = I_i (a_{i+1} ; f_{i+1} b_{i+1}),  f = exp(i q d),
with I_i = M_i^-1 M_{i+1} (contract of _build_Imatrix).

Rel(k, l)(S):  for every solution of the interface equations k .. l-1
                   a_l = S11 a_k + S12 b_l   and   b_k = S21 a_k + S22 b_l,
               and conversely every (a_k, b_l) extends to a solution with these values."""
from .common import *
from nnv.load import SymRange, Loop, LOOPS, Key
from nnv.symbk import elem


def phasor(l):
    d = l.thickness
    if d is None or (isinstance(d, (int, float)) and d == 0):
        return NC.eye(2)
    return elem(1j * l.eigenvalues * d, fexp).diag()


def thickness(l):
    if SLoop.W.template:
        return scal(f"d[{l.tag}]", "pos")
    k = CTX.choose(3, f"d[{l.tag}]")      # positive, zero or none
    return [scal(f"d[{l.tag}]", "pos"), 0, None][k]


def iletter(l1, l2):
    return NC.letter(L(f"I[{l1.tag},{l2.tag}]", 4, 4))


def imatrix_contract(l1, l2):
    return Mat(iletter(l1, l2))


def iblk(l1, l2):
    I = iletter(l1, l2)
    return [[NC.letter(Psel(i, 2)) * I * NC.letter(Einj(j, 2)) for j in (1, 2)] for i in (1, 2)]


def col(name):
    return NC.letter(C(name, 2))


def leaves(v, path=(), seen=None):
    """(path, leaf) of nested lists / tuples / dictionaries"""
    if isinstance(v, (list, tuple)):
        for j, x in enumerate(v):
            yield from leaves(x, path + (j,))
    elif isinstance(v, dict):
        for j, x in v.items():
            yield from leaves(x, path + (j,))
    else:
        yield path, v


def as_S(v):
    """[[S11, S12], [S21, S22]] as NC, or None"""
    try:
        out = [[v[i][j] for j in range(2)] for i in range(2)]
        if all(isinstance(x, Mat) for r in out for x in r) and len(v) == 2 and all(len(r) == 2 for r in v):
            return [[x.nc for x in r] for r in out]
    except (TypeError, IndexError, KeyError, Unsupported):
        pass
    return None


class Memo(dict):
    """the table of intermediate matrices: an entry may or may not be there; what is read is an
    arbitrary matrix for which the consistency of the keys gives Rel"""

    def __init__(s):
        super().__init__()
        s.writes, s.reads, s.seen = [], [], {}

    def has(s, key):
        for k, v in reversed(s.writes):
            if k == key:
                return True
        if key not in s.seen:
            if CTX.choose(2, "intermediate matrix in the table") == 0:
                s.seen[key] = None
            else:
                n = len(s.reads)
                s.seen[key] = [[Mat(NC.letter(L(f"memo{n}_{i}{j}", 2, 2))) for j in (1, 2)] for i in (1, 2)]
                s.reads.append((key, s.seen[key]))
        return s.seen[key] is not None

    def __getitem__(s, key):
        for k, v in reversed(s.writes):
            if k == key:
                return v
        if not s.has(key):
            raise KeyError(key)
        return s.seen[key]

    def __contains__(s, key):
        return s.has(key)

    def get(s, key, default=None):
        return s[key] if s.has(key) else default

    def __setitem__(s, key, v):
        s.writes.append((key, v))

    def setdefault(s, key, v):
        if s.has(key):
            return s[key]
        s[key] = v
        return v

    def __bool__(s):
        raise Unsupported("truth of the table")

    def _no(s, *a, **k):
        raise Unsupported("operation on the table of intermediate matrices")

    __iter__ = __len__ = keys = values = items = update = pop = popitem = clear = __delitem__ = _no


def keyterms(k):
    """integer terms of a key (f-string or tuple) and its constant part"""
    import re
    if isinstance(k, str):
        k = Key((k,)) if k else k
    if isinstance(k, tuple):
        parts = [x for p in k for x in (p, ",")]
    elif isinstance(k, Key):
        parts = list(k.parts)
    else:
        raise Unsupported("key of the table of intermediate matrices")
    terms, const = [], ""
    for p in parts:
        if isinstance(p, (SInt, Sc, int)) and not isinstance(p, bool):
            terms.append(topoly(p))
            const += "#"
        elif isinstance(p, str):
            for q in re.split(r"(\d+)", p):
                if q.isdigit():
                    terms.append(Poly.const(int(q)))
                    const += "#"
                else:
                    const += q
        else:
            raise Unsupported("key of the table of intermediate matrices")
    if "##" in const:
        raise Unsupported("key of the table: adjacent numbers")
    return tuple(terms), const


class SLoop(Loop):
    """see explore_S"""
    W = None

    def next(s, loc):
        W = s.W
        if s.stage == 0:
            s.before = {v: loc.get(v, UNDEF) for v in s.names}
            W.template = W.smode == "generic"
            s.state = dict(s.before)
            s.elem = s.it.at(0)
            s.i0 = s.elem
            s.stage = 1
            return True
        if s.stage == 2:
            s.stage = 3
            return True
        return False

    def end(s, loc):
        W = s.W
        cur = {v: loc.get(v, UNDEF) for v in s.names}
        if s.stage == 1:
            if W.smode == "first":
                W.after_first = cur
                s.state = cur
                s.stage = 4
                return
            s.havoc(cur)
            W.template = False
            if CTX.choose(2, "loop: step or exit") == 0:
                j = SInt.var("j")
                CTX.assume(z3().And(zpoly(j.p) >= 1, zpoly(j.p) < zpoly(topoly(s.it.n))))
                s.elem = s.it.at(j)
                W.Sold = s.letters
                s.stage = 2
            else:
                CTX.assume(zpoly(topoly(s.it.n)) >= 2)
                W.Sold = s.letters
                s.stage = 4
                W.exited = True
            return
        if s.stage == 3:
            W.stepped(s, cur)
            raise PathEnd()

    def havoc(s, cur):
        """forget everything about the state after the first iteration except which variables
        hold which of the four matrices (and which of them are the same object)"""
        W = s.W
        ids, byc = {}, {}
        s.letters = [[NC.letter(L(f"S{i}{j}", 2, 2)) for j in (1, 2)] for i in (1, 2)]
        role = {}
        for (nm, path), rc in W.roles.items():
            role[(nm, path)] = rc
        n = [0]

        def letter(key, v):
            if key in byc:
                return byc[key]
            n[0] += 1
            byc[key] = NC.letter(L(f"carried{n[0]}", v.nc.rows, v.nc.cols))
            return byc[key]

        def conv(nm, path, v):
            if id(v) in ids:
                return ids[id(v)]
            if isinstance(v, Mat):
                rc = role.get((nm, path))
                r = Mat(s.letters[rc[0]][rc[1]] if rc else letter(v.nc.key(), v))
                r.shared = v.shared
            elif isinstance(v, list):
                r = type(v)()
                ids[id(v)] = r
                list.extend(r, [conv(nm, path + (j,), x) for j, x in enumerate(v)])
            elif isinstance(v, tuple):
                r = tuple(conv(nm, path + (j,), x) for j, x in enumerate(v))
            elif v is UNDEF:
                r = UNDEF
            else:
                r = UNDEF
            ids[id(v)] = r
            s.keep.append(v)
            return r
        s.keep = []
        # role variables first, so that shared objects get the role letters
        names = sorted(cur, key=lambda v: (not any(nm == v for nm, _ in role), v))
        new = {}
        for v in names:
            new[v] = conv(v, (), cur[v])
        # same object unchanged by the first iteration: constants of the loop
        for v in names:
            if cur[v] is s.before[v] and not isinstance(cur[v], (Mat, list)):
                new[v] = cur[v]
        W.mem.writes = [(("old",), conv("memo", (q,), v)) for q, (k, v) in enumerate(W.mem.writes)]
        W.memold = [[list(map(lambda x: x.nc if isinstance(x, Mat) else x, r)) for r in v] if as_S(v) else None for _, v in W.mem.writes]
        W.memobjs = [v for _, v in W.mem.writes]
        W.mem.writes = []
        s.state = new


def world(be="numpy", kinds=("patterned",)):
    W = World(be)
    W.kinds = kinds
    W.lazy["thickness"] = thickness
    SLoop.W = W
    W.template = False
    W.has_contract = hasattr(W.simmod, "_build_Imatrix")
    if W.has_contract:
        W.simmod._build_Imatrix = imatrix_contract
    return W


def setup_sim(W, indices):
    sim = make(W)
    W.sim_ = sim
    sim._ok = True if W.solved else None
    W.mem = sim._intermediate_S = Memo()
    W.prog.loop_default = SLoop
    W.exited = W.template = False
    W.Sold = None
    n = zpoly(topoly(W.n))
    if indices:
        k, l = SInt.var("k"), SInt.var("l")
        CTX.assume(z3().And(zpoly(k.p) >= 0, zpoly(k.p) < zpoly(l.p), zpoly(l.p) < n))
        W.k, W.l = k, l
        return sim, [k, l]
    W.k, W.l = 0, SInt(topoly(W.n) - Poly.const(1))
    return sim, None


def rel_step(W, P, name, S, S2, la, lb):
    """Rel(k,i)(S) => Rel(k,i+1)(S2), interface between layers la=i and lb=i+1; S = None: k = i"""
    I = iblk(la, lb)
    f, f2 = phasor(la), phasor(lb)
    ak, bk_, ai, bi, an, bn = map(col, ("ak", "bk", "ai", "bi", "an", "bn"))
    first = S is None
    if first:
        one, zero = NC.eye(2), NC.zero(2, 2)
        S = [[one, zero], [zero, one]]
    hy = [f * ai - I[0][0] * an - I[0][1] * f2 * bn, bi - I[1][0] * an - I[1][1] * f2 * bn,
          ai - S[0][0] * ak - S[0][1] * bi, bk_ - S[1][0] * ak - S[1][1] * bi]

    def setup(m):
        g = lambda e: m.nc(e)
        Ak, Bn = g(ak), g(bn)
        F, F2 = g(f), g(f2)
        i = [[g(I[a][b]) for b in range(2)] for a in range(2)]
        s = [[g(S[a][b]) for b in range(2)] for a in range(2)]
        # unknowns ai, bi, an
        n = len(Ak)
        Z, E = np.zeros((n, n)), np.eye(n)
        A = np.block([[F, Z, -i[0][0]], [Z, E, -i[1][0]], [E, -s[0][1], Z]])
        b = np.vstack([i[0][1] @ F2 @ Bn, i[1][1] @ F2 @ Bn, s[0][0] @ Ak])
        x = np.linalg.solve(A, b)
        m.val[("C", "ai")], m.val[("C", "bi")], m.val[("C", "an")] = x[:n, 0], x[n:2 * n, 0], x[2 * n:, 0]
        m.val[("C", "bk")] = (s[1][0] @ Ak + s[1][1] @ x[n:2 * n])[:, 0]
    P.goal(name + ": a_l = S11 a_k + S12 b_l for every solution", [an - S2[0][0] * ak - S2[0][1] * bn], hy, setup=setup)
    P.goal(name + ": b_k = S21 a_k + S22 b_l for every solution", [bk_ - S2[1][0] * ak - S2[1][1] * bn], hy, setup=setup)
    # converse
    AN = S2[0][0] * ak + S2[0][1] * bn
    BI = I[1][0] * AN + I[1][1] * f2 * bn
    AI = S[0][0] * ak + S[0][1] * BI
    P.goal(name + ": every (a_k, b_l) extends to a solution", [f * AI - I[0][0] * AN - I[0][1] * f2 * bn,
                                                              S2[1][0] * ak + S2[1][1] * bn - S[1][0] * ak - S[1][1] * BI], ())


def explore_S(P, be="numpy", tag=""):
    P.fn("Simulation.get_S_matrix", "phasor", "utils.helpers.get_block")
    P.trust("linalg.solve(A, b) returns A^-1 b where it returns")
    tag = f"[{be}] " if tag == "" else tag
    W = world(be)
    W.solved = True
    if not W.has_contract:
        P.add(tag + "get_S_matrix: interface matrix", "unsupported", "", 0, "_build_Imatrix not found")
        return
    W.roles, W.keys, W.rkeys = {}, [], []
    allroles = {}
    frames = []
    for indices in (True, False):
        nm = tag + ("get_S_matrix(indices)" if indices else "get_S_matrix()")
        # one interface
        W.smode = "first"

        def run():
            W.after_first = None
            sim, ind = setup_sim(W, indices)
            CTX.assume(zpoly(topoly(W.l - W.k)) == 1)
            snap = snapshot(sim)
            S = sim.get_S_matrix(ind)
            return sim, S, W.after_first, W.mem, W.k, W.l, snapdiff(snap, sim)
        for r in P.paths(nm + ", one interface", run):
            sim, S, after, mem, k, l, diff = r.value
            n = nm + f", one interface [{r.label()}]"
            nc = as_S(S)
            if nc is None:
                P.add(n + ": returns four matrices", "undecided", "", 0, repr(S)[:200])
                continue
            out_checks(P, n, sim, S, indices, diff)
            if mem.reads and after is None:
                read_check(P, n, W, mem, S, k, l, r.cond)
                continue
            for v, x in (after or {}).items():
                for path, leaf in leaves(x):
                    if isinstance(leaf, Mat):
                        for a in range(2):
                            for b in range(2):
                                if leaf.nc.key() == nc[a][b].key():
                                    allroles.setdefault((v, path), (a, b))
            for q, (kk, v) in enumerate(mem.writes):
                for path, leaf in leaves(v):
                    if isinstance(leaf, Mat):
                        for a in range(2):
                            for b in range(2):
                                if leaf.nc.key() == nc[a][b].key():
                                    allroles.setdefault(("memo", (q,) + path), (a, b))
            la, lb = sim.layers.at(k), sim.layers.at(k + 1)
            rel_step(W, P, n, None, nc, la, lb)
            write_checks(P, n, W, r.cond, k, l, nc, mem.writes)
        # more interfaces
        W.smode = "generic"
        W.roles = allroles
        if not allroles:
            P.add(nm + ": loop invariant", "undecided", "", 0, "the loop-carried matrices were not recognized")
            continue

        def run2():
            sim, ind = setup_sim(W, indices)
            CTX.assume(zpoly(topoly(W.l - W.k)) >= 2)

            def stepped(L, cur):
                S2 = {}
                for (v, path), rc in allroles.items():
                    x = cur.get(v) if v != "memo" else None
                    try:
                        for q in path:
                            x = x[q]
                    except Exception:
                        x = None
                    if isinstance(x, Mat):
                        S2.setdefault(rc, []).append(((v, path), x.nc))
                i = L.elem
                CTX.obls.append(("step", S2, sim.layers.at(i), sim.layers.at(i + 1), W.Sold, list(W.mem.writes), W.k, i, list(zip(W.memobjs, W.memold))))
            W.stepped = stepped
            snap = snapshot(sim)
            S = sim.get_S_matrix(ind)
            return sim, S, W.Sold, W.mem, W.k, W.l, snapdiff(snap, sim), W.exited
        for r in P.paths(nm + ", several interfaces", run2):
            n = nm + f", several interfaces [{r.label()}]"
            for o in r.obls:
                _, S2, la, lb, Sold, writes, k, i, memo = o
                if len(S2) < 4:
                    P.add(n + ": loop invariant", "undecided", "", 0, f"matrices found after the iteration: {sorted(S2)}")
                    continue
                base = [[S2[(a, b)][0][1] for b in range(2)] for a in range(2)]
                for rc, lst in S2.items():
                    for w, x in lst[1:]:
                        P.goal(n + f": {w[0]}{list(w[1])} still holds S{rc[0]+1}{rc[1]+1}", [x - lst[0][1]])
                rel_step(W, P, n + ", iteration", Sold, base, la, lb)
                P.true(n + ": earlier entries of the table are not modified",
                       all(old is None or (as_S(v) is not None and all(as_S(v)[a][b].key() == old[a][b].key() for a in range(2) for b in range(2))) for v, old in memo))
                write_checks(P, n + ", iteration", W, r.cond, k, i + 1, base, writes)
            if not r.ended:
                sim, S, Sold, mem, k, l, diff, exited = r.value
                nc = as_S(S)
                out_checks(P, n, sim, S, indices, diff)
                if nc is None:
                    P.add(n + ": returns four matrices", "undecided", "", 0, repr(S)[:200])
                elif mem.reads and not exited:
                    read_check(P, n, W, mem, S, k, l, r.cond)
                else:
                    P.goal(n + ": returns the matrices of the loop", [nc[a][b] - Sold[a][b] for a in range(2) for b in range(2)])
    P.files |= W.prog.files


def out_checks(P, n, sim, S, indices, diff):
    allowed = {"S"} if not indices else set()
    P.true(n + ": modifies only the table" + ("" if indices else " and S"), set(diff) <= allowed, f"modified: {sorted(diff)}")
    if not indices:
        P.true(n + ": stores the total matrix", getattr(sim, "S", None) is S)


def write_checks(P, n, W, conds, k, l, nc, writes):
    """whatever is written in the table is the matrix of the part (k, l) under a key from which (k, l) can be read back"""
    for key, v in writes:
        x = as_S(v)
        if x is None:
            P.add(n + ": entry of the table", "undecided", "", 0, repr(v)[:200])
            continue
        P.goal(n + ": the entry written in the table is the matrix of the part", [x[a][b] - nc[a][b] for a in range(2) for b in range(2)])
        try:
            W.keys.append((keyterms(key), topoly(k), topoly(l), n.split("[intermediate")[0], conds))
        except Unsupported as e:
            P.add(n + ": key of the table", "undecided", "", 0, e)


def read_check(P, n, W, mem, S, k, l, conds):
    """what is read under a key was written under the same key for the same part"""
    key, v = mem.reads[-1]
    x = as_S(S)
    P.true(n + ": returns the entry read", all(x[a][b].key() == as_S(v)[a][b].key() for a in range(2) for b in range(2)))
    try:
        W.rkeys.append((keyterms(key), topoly(k), topoly(l), n.split("[intermediate")[0], conds))
    except Unsupported as e:
        P.add(n + ": key of the table", "undecided", "", 0, e)


def key_consistency(P, W, tag):
    """key of the read for (k, l) = key of a write for (k', l')  =>  (k, l) = (k', l')"""
    Z = z3()
    syms = [Z.Int(x) for x in ("k", "l", "j", "nlayers")]
    sub = [(x, Z.Int(str(x) + "'")) for x in syms[:3]]
    prime = lambda e: Z.substitute(e, *sub)
    done = set()
    for (rt, rs), k, l, n, rc in getattr(W, "rkeys", []):
        for (wt, ws), k2, l2, n2, wc in getattr(W, "keys", []):
            if rs != ws or len(rt) != len(wt):
                continue
            ints = lambda cs: [c for c in cs if all(str(v) in ("k", "l", "j", "nlayers") for v in zvars(c))]
            conds = ints(rc) + [prime(c) for c in ints(wc)]
            same = Z.And(*[zpoly(a) == prime(zpoly(b)) for a, b in zip(rt, wt)])
            goal = Z.Implies(same, Z.And(zpoly(k) == prime(zpoly(k2)), zpoly(l) == prime(zpoly(l2))))
            sig = (str(goal), str(sorted(map(str, conds))))
            if sig in done:
                continue
            done.add(sig)
            P.z(f"{tag}table: an entry read for a part was written for the same part [read: {n}; written: {n2}]", goal, conds)


def zvars(e, out=None):
    Z = z3()
    out = set() if out is None else out
    if Z.is_const(e) and e.decl().kind() == Z.Z3_OP_UNINTERPRETED:
        out.add(e)
    for c in e.children():
        zvars(c, out)
    return out


from nnv.engine import INTS


# ------------------------------------------------------------------ frames
def content(v, depth=0):
    if isinstance(v, Vec):
        return ("vec", tuple((p, k) for p, k in v.parts))
    if isinstance(v, Mat):
        return ("mat", v.nc.key())
    if isinstance(v, TArr):
        return ("tarr", v.data.shape, tuple(content(x) for x in v.data.ravel()))
    if isinstance(v, (Sc, SInt)):
        return ("num", v.p)
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, tuple(content(x) for x in v.ravel()))
    if isinstance(v, (list, tuple)) and depth < 6:
        return (type(v).__name__, tuple(content(x, depth + 1) for x in v))
    if isinstance(v, Memo):
        return ("memo", id(v))
    if isinstance(v, dict) and depth < 6:
        return ("dict", tuple((repr(a), content(b, depth + 1)) for a, b in v.items()))
    return ("id", id(v))


def snapshot(obj):
    return {k: (v, content(v)) for k, v in vars(obj).items()}


def snapdiff(snap, obj, skip=("_ok",)):
    out = []
    for k, v in vars(obj).items():
        if k in skip:
            continue
        if k not in snap or snap[k][0] is not v or snap[k][1] != content(v):
            out.append(k)
    return out + [k for k in snap if k not in vars(obj)]
