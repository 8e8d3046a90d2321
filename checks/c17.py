"""C17: sparse arrays against the multiset of inserted entries and against dense numpy arithmetic."""
import numpy as np
from model import *
from engine import Prog

PROP = "C17"
RULE = ("A case inserts a generated multiset of entries (empty rows, columns and blocks, duplicates, dimensions smaller than the process "
        "count, 32- and 64-bit indices) from generated owners into a sparse array, or converts a dense array, then runs 1-5 operations "
        "(scale, shift, diagonal products, duplicate, matrix-vector, sparse-sparse, sparse-dense and dense-sparse products, diagonal and "
        "column extraction, conversion, sketch, export); every live sparse array is then compared entry by entry through its column blocks and "
        "remote block fetches, every dense operand and result in full. Non-trivial: the first array has at least two entries.")
TYPES = (0, 1, 2, 3, 4, 5, 6)
OPS = ("scale", "shift", "left", "right", "dup", "mv", "mm", "sd", "ds", "diag", "col", "fs", "sketch", "export", "blocks", "destroy")


def configs(tier):
    q = [dict(port="ts", np=4, n=700), dict(port="ts", np=3, n=450), dict(port="ts", np=6, n=250), dict(port="pr", np=3, n=250),
         dict(port="ts", np=1, n=150), dict(port="ts", np=2, n=250), dict(port="mpi3", np=3, n=150)]
    q += embedded(120)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=1500), dict(port="ts", np=4, n=2500, variant="asan")]
    return q


def gen_sp(draw, P, t, l64, dims):
    m, n = dims
    style = pick(draw, ["sparse", "dense", "diag", "rows", "cols", "empty", "big"])
    ents = []
    if style == "dense":
        q = draw(I(2, 5))
        s = gseed(draw)
        h = hsh(s, np.arange(m * n))
        ents = [[int(k) // n, int(k) % n] for k in range(m * n) if int(h[k]) % 6 < q]
    elif style == "diag":
        ents = [[i, i] for i in range(min(m, n))]
        ents += [[draw(I(0, m - 1)), draw(I(0, n - 1))] for _ in range(draw(I(0, 5)))]
    elif style == "rows":
        r = draw(I(0, m - 1))
        ents = [[r, j] for j in range(n)]
    elif style == "cols":
        r = draw(I(0, n - 1))
        ents = [[j, r] for j in range(m)]
    elif style == "sparse":
        ents = [[draw(I(0, m - 1)), draw(I(0, n - 1))] for _ in range(draw(I(1, 12)))]
    elif style == "big" and m * n > 300:
        ents = [[i, j] for i in range(m) for j in range(n)]
    dup = chance(draw, 1, 8)
    if not dup:
        ents = [list(x) for x in sorted(set(map(tuple, ents)))]
    return dict(dims=dims, l64=l64, ents=ents, seed=gseed(draw), own=pick(draw, ["hash", "one", "rank0"]), dup=dup and len(set(map(tuple, ents))) < len(ents))


def gen(draw, cfg):
    P = cfg["np"]
    t = pick(draw, TYPES)
    l64 = draw(I(0, 1))

    def dim():
        return draw(I(1, 4)) if chance(draw, 1, 4) else draw(I(1, 24))
    m = dim()
    n = m if chance(draw, 1, 2) else dim()
    if chance(draw, 1, 20):
        m, n = draw(I(30, 60)), draw(I(30, 60))
    dense = chance(draw, 1, 6)
    a = gen_sp(draw, P, t, l64, [m, n])
    ops = []
    for _ in range(draw(I(1, 5))):
        o = dict(op=pick(draw, OPS), k=draw(I(0, 50)), al=gen_scal(draw, t))
        if o["op"] in ("left", "right", "mv", "sd", "ds"):
            q = draw(I(1, 12))
            dd = dict(left=[[m]], right=[[n]], mv=[[n], [m]], sd=[[n, q]], ds=[[q, m]])[o["op"]]
            o["arrs"] = [gen_array(draw, P, t=t, dims=d) for d in dd]
        if o["op"] == "mm":
            o["b"] = gen_sp(draw, P, t, l64, [n, dim()])
        ops.append(o)
    da = gen_array(draw, P, t=t, dims=[m, n], ghosts=False, kinds=(0, 1, 2)) if dense else None
    return dict(t=t, a=a, dense=da, ops=ops, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    return c["dense"] is not None or len(c["a"]["ents"]) >= 2


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    yield "idx64" if c["a"]["l64"] else "idx32"
    if c["dense"]:
        yield "from_dense"
    if not c["a"]["ents"]:
        yield "empty"
    if c["a"]["dup"]:
        yield "duplicates"
    if min(c["a"]["dims"]) < cfg["np"]:
        yield "dim_below_procs"
    if len(c["a"]["ents"]) > 1024:
        yield "buffer_growth"
    for o in c["ops"]:
        yield o["op"]


class Sp:
    """Model of one sparse array: entries as [(i, j, value)]; structural=True: only a superset of the pattern is known."""

    def __init__(self, t, dims, ents, dup=False):
        self.t, self.dims, self.ents, self.dup, self.super = t, dims, ents, dup, None

    def dense(self):
        d = np.zeros(self.dims, DT[self.t])
        for i, j, v in self.ents:
            d[i, j] += v
        return d

    def copy(self):
        s = Sp(self.t, self.dims, list(self.ents), self.dup)
        s.super = self.super
        return s


def key(v):
    v = complex(v)
    return (v.real, v.imag)


def csr_entries(rec, k, r0, c0, c1, t, what):
    """Entries of the CSR block recorded at rec[k..k+2], rows starting at r0, columns within [c0, c1]."""
    ptr = list(rec[k][1])
    jx = list(rec[k + 1][1])
    v = np.frombuffer(rec[k + 2][1], dtype=DT[t])
    if ptr[0] != 0 or any(a > b for a, b in zip(ptr, ptr[1:])):
        return None, "%s: row pointers %s are not increasing from zero" % (what, ptr)
    out = []
    for r in range(len(ptr) - 1):
        for q in range(ptr[r], ptr[r + 1]):
            if not c0 <= jx[q] <= c1:
                return None, "%s: column %d lies outside the block's columns [%d,%d]" % (what, jx[q], c0, c1)
            out.append((r0 + r, int(jx[q]), v[q]))
    return out, None


def match(got, S, what):
    g = sorted((i, j) + key(v) for i, j, v in got)
    if S.super is None:
        w = sorted((i, j) + key(v) for i, j, v in S.ents)
        if g != w:
            gs, ws = set(g), set(w)
            return "%s: %d entries, expected %d; missing %s, unexpected %s" % (what, len(g), len(w), sorted(ws - gs)[:3], sorted(gs - ws)[:3])
        return None
    pos = [x[:2] for x in g]
    if len(set(pos)) != len(pos):
        return "%s: an element is stored twice" % what
    if set(pos) - S.super:
        return "%s: element %s is stored but no product contributes to it" % (what, sorted(set(pos) - S.super)[0])
    d = np.zeros(S.dims, DT[S.t])
    for i, j, v in got:
        d[i, j] = v if S.t in CPX else np.real(v)
    w = S.dense()
    bad = np.argwhere(d != w)
    if len(bad):
        b = tuple(bad[0])
        return "%s: %d elements differ; first at %s: got %s expected %s" % (what, len(bad), b, d[b], w[b])
    return None


def parts(rec, P, dims, what):
    """Row and column ranges of every process; they must partition the rows and the columns in order."""
    q = np.array(rec).reshape(P, 4)
    for ax in (0, 1):
        nxt = 0
        for p in range(P):
            lo, hi = q[p, 2 * ax], q[p, 2 * ax + 1]
            if lo > hi:
                continue
            if lo != nxt:
                return None, "%s: the %s ranges %s do not partition the dimension" % (what, ("row", "column")[ax], q[:, 2 * ax:2 * ax + 2].tolist())
            nxt = hi + 1
        if nxt != dims[ax]:
            return None, "%s: the %s ranges %s do not cover dimension %d" % (what, ("row", "column")[ax], q[:, 2 * ax:2 * ax + 2].tolist(), dims[ax])
    return q, None


def emit_view(p, c, P, s, S, name, blocks):
    S = S.copy()
    d = p.op("spdist", s, P)
    v = p.op("spview", s)
    acc = p.op("spaccess", s, c["pick"] % P)
    bl = [(p.op("spblock", s, a, b, mask=1 << r), r, a, b) for a, b, r in blocks]

    def f(res):
        q = None
        for r in range(P):
            x, e = parts(res[(d, r)][0][1], P, S.dims, name)
            if e:
                return e
            if q is not None and not np.array_equal(q, x):
                return "%s: distributions reported by processes 0 and %d differ" % (name, r)
            q = x
        if S.super is None:
            want = {}
            for i, j, val in S.ents:
                a = [k for k in range(P) if q[k, 0] <= i <= q[k, 1]][0]
                b = [k for k in range(P) if q[k, 2] <= j <= q[k, 3]][0]
                want.setdefault((a, b), []).append((i, j, val))
        tot, stored = [], {}
        for r in range(P):
            rec = res[(v, r)]
            lst = list(rec[0][1])
            if len(set(lst)) != len(lst):
                return "%s: a column block is listed twice on process %d: %s" % (name, r, lst)
            if S.super is None and sorted(lst) != sorted(b for a, b in want if a == r):
                return "%s: process %d lists the column blocks %s, expected %s" % (name, r, lst, sorted(b for a, b in want if a == r))
            for k, b in enumerate(lst):
                if q[r, 1] - q[r, 0] + 2 != len(rec[1 + 3 * k][1]):
                    return "%s: wrong number of row pointers" % name
                e, m = csr_entries(rec, 1 + 3 * k, q[r, 0], q[b, 2], q[b, 3], S.t, "%s block (%d,%d)" % (name, r, b))
                if m:
                    return m
                stored[(r, b)] = e
                tot += e
            if (res[(acc, r)][0][1][0] != 0) != ((c["pick"] % P) in lst):
                return "%s: process %d: access to column block %d disagrees with the list %s" % (name, r, c["pick"] % P, lst)
        m = match(tot, S, name)
        if m:
            return m
        for o, r, a, b in bl:
            rec = res[(o, r)]
            h = list(rec[0][1])
            if h[1:] != [q[a, 0], q[a, 1], q[b, 2], q[b, 3]]:
                return "%s: get_block(%d,%d) reports bounds %s, distribution %s" % (name, a, b, h[1:], [q[a, 0], q[a, 1], q[b, 2], q[b, 3]])
            if bool(h[0]) != ((a, b) in stored):
                return "%s: get_block(%d,%d) found=%d, but the owner %s it" % (name, a, b, h[0], "lists" if (a, b) in stored else "does not list")
            if h[0]:
                e, m = csr_entries(rec, 1, q[a, 0], q[b, 2], q[b, 3], S.t, "%s get_block (%d,%d)" % (name, a, b))
                if m:
                    return m
                x = sorted((i, j) + key(z) for i, j, z in e)
                y = sorted((i, j) + key(z) for i, j, z in stored[(a, b)])
                if x != y:
                    return "%s: get_block(%d,%d) differs from the owner's block" % (name, a, b)
        return None
    p.post(f)


def emit_sp(p, P, s, a, t):
    """Insert the entries of a; returns the model."""
    m, n = a["dims"]
    p.op("spcreate", s, a["l64"], t, m, n)
    v = gen_vals(t, (a["seed"], -4, 9), [len(a["ents"])]) if a["ents"] else []
    per = [[] for _ in range(P)]
    ents = []
    for k, (i, j) in enumerate(a["ents"]):
        r = dict(hash=(a["seed"] * 7 + k * 13 + k // 3) % P, one=a["seed"] % P, rank0=0)[a["own"]]
        z = complex(v[k])
        per[r].append([i, j, int(z.real), int(z.imag)])
        ents.append((i, j, v[k]))
    for r in range(P):
        for b in range(0, len(per[r]), 400):
            ch = per[r][b:b + 400]
            p.op("spadd", s, len(ch), [x for e in ch for x in e], mask=1 << r)
    k = p.op("spasm", s)
    for r in range(P):
        p.expect_ints(k, r, [1], "assemble result")
    return Sp(t, [m, n], ents, a["dup"])


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    t = c["t"]
    slot = [0]
    W = []                                      # (slot, expected contents)
    live = {}

    def new(a, lo=-4, span=9, ini=True):
        s = slot[0]
        slot[0] += 1
        emit_create(p, s, a)
        g = (c["seed"] + s, lo, span)
        p.op("init", s, g, c["pick"] % P)
        x = gen_vals(t, g, a["dims"]).copy()
        W.append((s, x))
        return s, x
    if c["dense"]:
        s, x = new(c["dense"], -1, 3)
        p.op("spfd", s, 0, c["a"]["l64"])
        m, n = c["dense"]["dims"]
        S = Sp(t, [m, n], [(i, j, x[i, j]) for i in range(m) for j in range(n) if x[i, j] != 0])
        S.super = set((i, j) for i, j, _ in S.ents) | set((i, i) for i in range(min(m, n)))
        S.must = S.super
        live[0] = S
    else:
        live[0] = emit_sp(p, P, 0, c["a"], t)
    A = live[0]
    m, n = A.dims
    nxt = 1
    lim = 2 ** 23

    def big(S):
        return max([abs(v) for _, _, v in S.ents] or [1])
    dumps = []
    texts = []
    for o in c["ops"]:
        k = o["op"]
        if 0 not in live:
            break
        A = live[0]
        full = len(set((i, j) for i, j, _ in A.ents if i == j)) == min(m, n)
        if k == "scale":
            if big(A) * 20 > lim:
                continue
            p.op("spscale", 0, o["al"])
            f = one(t, *o["al"])
            A.ents = [(i, j, DT[t].type(v * f)) for i, j, v in A.ents]
        elif k == "shift":
            if A.dup or not (full or (c["dense"] and A.super)):
                continue
            if A.super is not None:             # the conversion stores every diagonal element
                have = set((i, j) for i, j, _ in A.ents)
                A.ents += [(i, i, DT[t].type(0)) for i in range(min(m, n)) if (i, i) not in have]
            p.op("spshift", 0, o["al"])
            f = one(t, *o["al"])
            A.ents = [(i, j, DT[t].type(v + f) if i == j else v) for i, j, v in A.ents]
        elif k in ("left", "right"):
            if big(A) * 8 > lim:
                continue
            s, x = new(o["arrs"][0])
            p.op("splr", 0 if k == "left" else 1, 0, s)
            A.ents = [(i, j, DT[t].type(v * x[i if k == "left" else j])) for i, j, v in A.ents]
        elif k == "dup":
            if nxt > 12:
                continue
            p.op("spdup", 0, nxt)
            live[nxt] = A.copy()
            nxt += 1
        elif k == "mv":
            if t == LLONG or big(A) * 8 * n > lim:
                continue
            s, x = new(o["arrs"][0])
            q, y = new(o["arrs"][1])
            p.op("spmv", 0, s, q)
            y[:] = A.dense() @ x
        elif k == "mm":
            if big(A) * 8 * n > lim or nxt > 11:
                continue
            B = live[nxt] = emit_sp(p, P, nxt, o["b"], t)
            p.op("spmm", 0, nxt, nxt + 1)
            D = A.dense() @ B.dense()
            pa = set((i, j) for i, j, _ in A.ents) if A.super is None else A.super
            pb = {}
            for i, j, _ in B.ents:
                pb.setdefault(i, set()).add(j)
            sup = set((i, j) for i, l in pa for j in pb.get(l, ()))
            C = Sp(t, [m, B.dims[1]], [(i, j, D[i, j]) for i, j in sorted(sup)])
            C.super = sup
            live[nxt + 1] = C
            nxt += 2
        elif k == "sd":
            if big(A) * 8 * n > lim or m < P:
                continue
            s, x = new(o["arrs"][0])
            q = slot[0]
            slot[0] += 1
            p.op("spsd", 0, s, q)
            W.append((q, A.dense() @ x))
        elif k == "ds":
            if big(A) * 8 * m > lim or o["arrs"][0]["dims"][0] < P:
                continue
            s, x = new(o["arrs"][0])
            q = slot[0]
            slot[0] += 1
            p.op("spds", s, 0, q)
            W.append((q, x @ A.dense()))
        elif k in ("diag", "col", "fs"):
            if A.dup or m < P:
                continue
            q = slot[0]
            slot[0] += 1
            D = A.dense()
            if k == "diag":
                p.op("spdiag", 0, q)
                w = np.zeros(m, DT[t])
                w[:min(m, n)] = np.diag(D)
            elif k == "col":
                p.op("spcol", 0, o["k"] % n, q)
                w = D[:, o["k"] % n].copy()
            else:
                p.op("spfs", 0, q)
                w = D
            W.append((q, w))
        elif k == "sketch":
            if t == LLONG or big(A) * m > lim or m < P:
                continue
            q = slot[0]
            slot[0] += 3
            kk = 1 + o["k"] % m
            p.op("spsketch", 0, kk, q, q + 1, q + 2)
            r = c["pick"] % P
            ds = [p.op("dump", q + z, mask=1 << r) for z in range(3)]

            def f(res, ds=ds, r=r, kk=kk, D=A.dense()):
                g, lab, w = [np.frombuffer(res[(z, r)][0][1], dtype=y).reshape(x) for z, x, y in
                             zip(ds, ([kk, D.shape[1]], [D.shape[0]], [D.shape[0]]), (DT[t], DT[0], DT[t]))]
                if lab.min() < 0 or lab.max() >= kk:
                    return "sketch: labels %s outside [0,%d)" % (lab.tolist(), kk)
                if not np.all(np.isin(w, [1, -1])):
                    return "sketch: weights %s are not +-1" % w.tolist()
                e = np.zeros(g.shape, DT[t])
                for i in range(D.shape[0]):
                    e[lab[i]] += w[i] * D[i]
                return None if np.array_equal(e, g) else "sketch: result %s expected %s for labels %s weights %s" % (g.tolist(), e.tolist(), lab.tolist(), w.tolist())
            p.post(f)
        elif k == "export":
            e = p.op("spexport", 0)

            def f(res, e=e, S=A.copy()):
                ls = res[(e, 0)][0][1].splitlines()
                if not ls or ls[0].split() not in [["%%MatrixMarket", "matrix", "coordinate", x, "general"] for x in (("complex",) if S.t in CPX else ("real", "integer"))]:
                    return "export: the MatrixMarket banner is %r" % ls[:1]
                h = [int(x) for x in ls[1].split()]
                got = []
                for l in ls[2:]:
                    f = l.split()
                    if len(f) != (4 if S.t in CPX else 3):
                        return "export: malformed line %r" % l
                    got.append((int(f[0]) - 1, int(f[1]) - 1, complex(float(f[2]), float(f[3]) if S.t in CPX else 0)))
                if h != [S.dims[0], S.dims[1], len(got)]:
                    return "export: header %s, but %d entries of a %s matrix follow" % (h, len(got), S.dims)
                return match(got, S, "export")
            if max(abs(complex(v)) for _, _, v in A.ents or [(0, 0, 0)]) < 1e6:
                p.post(f)
        elif k == "blocks":
            emit_view(p, c, P, 0, A, "sparse array 0", [((o["k"] + z) % P, (o["k"] * 3 + z) % P, (c["pick"] + z) % P) for z in range(3)])
        elif k == "destroy" and nxt > 1:
            z = o["k"] % nxt
            if z in live:
                d = p.op("spdestroy", z)
                p.expect_ints(d, 0, [1], "destroy")
                del live[z]
    p.op("sync")
    for z, S in live.items():
        emit_view(p, c, P, z, S, "sparse array %d" % z, [((c["pick"] + z) % P, (c["pick"] * 3 + z) % P, c["seed"] % P)])
    for s, x in W:
        r = (c["pick"] + s) % P
        k = p.op("dump", s, mask=1 << r)
        p.expect_bytes(k, r, x, "contents of dense array %d" % s)
    p.op("sync")
    return p
