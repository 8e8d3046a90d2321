"""C10: matrix multiplication (GEMM family and patch multiplication) against numpy."""
import numpy as np
from model import *
from engine import Prog

PROP = "C10"
RULE = ("A case creates three floating-point arrays (2-d for whole products and block-cyclic layouts, up to 5-d for patches) with "
        "independent layouts, ghost cells included, fills them with small integers (C sometimes with NaN when beta is 0) and "
        "runs 1-3 products C = alpha op(A) op(B) + beta C over leading submatrices (GA_*gemm) or patches (NGA/GA_Matmul_patch), "
        "with all transposition flags and extents that cross the internal chunk sizes; C is compared in full. Non-trivial: "
        "m*n*k > 1 and alpha != 0.")


def configs(tier):
    q = [dict(port="ts", np=4, n=800), dict(port="ts", np=3, n=500), dict(port="ts", np=6, n=300), dict(port="pr", np=3, n=200),
         dict(port="ts", np=2, n=250), dict(port="ts", np=1, n=200), dict(port="mpi3", np=4, n=200)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2000), dict(port="ts", np=4, n=2500, variant="asan")]
    return q


def ext(draw):
    m = draw(I(0, 9))
    return 1 if m == 0 else draw(I(1, 6)) if m < 4 else draw(I(1, 25)) if m < 8 else draw(I(20, 70))


def mkarray(draw, P, t, dims, cyc, ghosts):
    """A layout for dims, which may grow to suit ghost cells."""
    if ghosts and len(dims) <= 3 and chance(draw, 1, 2):
        gw = [draw(I(0, 2)) for _ in dims]
        nb = pick(draw, factorizations(P, len(dims)))
        if any(gw):
            dims = [max(d, n * max(1, w)) for d, n, w in zip(dims, nb, gw)]
            a1 = []
            for d, n, w in zip(dims, nb, gw):
                w = max(1, w)
                s = 0
                slack = d - n * w
                for i in range(n):
                    a1.append(s)
                    e = draw(I(0, slack)) if i < n - 1 else slack
                    slack -= e
                    s += w + e
            return dict(t=t, dims=dims, gw=gw, nr=[], api=pick(draw, (0, 1, 2, 3)), kind=2, a1=a1, a2=nb, a3=[])
    return gen_array(draw, P, t=t, dims=dims, kinds=(0, 1, 2, 3, 4, 5, 6) if cyc else (0, 0, 1, 2))


def place(draw, nd, rows, cols, tr):
    """Array dims and patch for an operand with op(X) of shape rows x cols; the patch indices describe op(X)."""
    if tr:
        rows, cols = cols, rows
    d1, d2 = 0, 1
    if nd > 2:
        d1 = draw(I(0, nd - 2))
        d2 = draw(I(d1 + 1, nd - 1))
    big = nd == 2 and chance(draw, 1, 2)
    dims, lo, hi = [], [], []
    for i in range(nd):
        e = rows if i == d1 else cols if i == d2 else 1
        x = draw(I(0, 0 if big else 2))
        dims.append(e + x + draw(I(0, 0 if big else 1)))
        lo.append(x)
        hi.append(x + e - 1)
    return dims, lo, hi, d1, d2


def gen(draw, cfg):
    P = cfg["np"]
    t = draw(I(3, 6))
    cyc = chance(draw, 1, 4)
    ops, arrs = [], []
    for _ in range(draw(I(1, 3))):
        m, n, k = ext(draw), ext(draw), ext(draw)
        if chance(draw, 1, 8):
            q = draw(I(0, 2))
            big = draw(I(257, 530))
            m, n, k = (big, min(n, 5), min(k, 5)) if q == 0 else (min(m, 5), big, min(k, 5)) if q == 1 else (min(m, 5), min(n, 5), big)
        kind = pick(draw, ["gemm", "gemm", "nga", "flat"])
        ta, tb = (pick(draw, "nNtT"), pick(draw, "nNtT")) if not cyc else (pick(draw, "nN"), pick(draw, "nN"))
        nd = [2, 2, 2]
        if kind == "nga" and not cyc and min(m, n, k) > 1 and max(m, n, k) < 40:
            nd = [draw(I(2, 5)) for _ in range(3)]
        o = dict(op=kind, m=m, n=n, k=k, ta=ta, tb=tb, g=gseed(draw))
        for x, r, c, tr, d in (("A", m, k, ta in "tT", nd[0]), ("B", k, n, tb in "tT", nd[1]), ("C", m, n, False, nd[2])):
            dims, lo, hi, d1, d2 = place(draw, d, r, c, tr)
            if kind == "gemm":
                ex = draw(I(0, 1)) and chance(draw, 1, 3)
                dims = [hi[i] - lo[i] + 1 + (draw(I(0, 3)) if ex else 0) for i in range(2)]
                lo, hi = [0, 0], [hi[i] - lo[i] for i in range(2)]
            elif tr:        # the patch indices of a transposed operand describe the transposed matrix
                for y in (lo, hi):
                    y[d1], y[d2] = y[d2], y[d1]
            a = mkarray(draw, P, t, dims, cyc, True)
            o[x] = dict(i=len(arrs), lo=lo, hi=hi, d=[d1, d2])
            arrs.append(a)
        o["v"] = draw(I(0, 4))
        if kind == "flat":
            o["v"] = draw(I(5, 8))
        o["al"] = gen_scal(draw, t)
        o["be"] = [0, 0] if chance(draw, 1, 4) else gen_scal(draw, t)
        o["nan"] = not any(o["be"]) and chance(draw, 1, 2)
        ops.append(o)
    return dict(t=t, arrs=arrs, ops=ops, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    return any(o["m"] * o["n"] * o["k"] > 1 and any(o["al"]) for o in c["ops"])


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    for o in c["ops"]:
        yield o["op"]
        if o["ta"] in "tT" or o["tb"] in "tT":
            yield "transposed"
        if max(o["m"], o["n"], o["k"]) > 256:
            yield "several_chunks"
        if any(c["arrs"][o[x]["i"]]["kind"] > 2 for x in "ABC"):
            yield "block_cyclic"
        if any(c["arrs"][o[x]["i"]]["gw"] for x in "ABC"):
            yield "ghosts"
        if any(len(c["arrs"][o[x]["i"]]["dims"]) > 2 for x in "ABC"):
            yield "nd_patch"
        if o["nan"]:
            yield "nan_in_c_with_beta_0"
        if not any(o["be"]):
            yield "beta_0"


def view(x, a, o, tr):
    """op(X) restricted to the patch, whose indices describe op(X)."""
    d1, d2 = o["d"]
    ix = list(o["lo"])
    ix[d1], ix[d2] = slice(None), slice(None)
    m = x[tuple(ix)]
    if tr:
        m = m.T
    return m[o["lo"][d1]:o["hi"][d1] + 1, o["lo"][d2]:o["hi"][d2] + 1]


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    t = c["t"]
    for i, a in enumerate(c["arrs"]):
        emit_create(p, i, a)
    for o in c["ops"]:
        M = {}
        for q, x in enumerate("ABC"):
            i = o[x]["i"]
            gv = (o["g"] + q, -4, 9)
            p.op("init", i, gv, c["pick"] % P)
            M[x] = gen_vals(t, gv, c["arrs"][i]["dims"])
        a, b, d = (o[x] for x in "ABC")
        if o["nan"]:
            # with beta = 0 the old contents of the patch of C are irrelevant
            p.op("nanfill", d["i"], d["lo"], d["hi"])
        al, be = one(t, *o["al"]), one(t, *o["be"])
        if o["op"] == "gemm":
            p.op("gemm", o["v"], o["ta"], o["tb"], o["m"], o["n"], o["k"], a["i"], b["i"], d["i"], o["al"], o["be"])
            A = M["A"].T if o["ta"] in "tT" else M["A"]
            B = M["B"].T if o["tb"] in "tT" else M["B"]
            A, B = A[:o["m"], :o["k"]], B[:o["k"], :o["n"]]
        else:
            A, B = view(M["A"], None, a, o["ta"] in "tT"), view(M["B"], None, b, o["tb"] in "tT")
            if o["op"] == "flat":
                # the flat interface numbers the dimensions in storage order
                r = lambda z: list(z[::-1])
                p.op("matmulp", o["v"], o["tb"], o["ta"], b["i"], a["i"], d["i"], o["al"], o["be"],
                     r(b["lo"]), r(b["hi"]), r(a["lo"]), r(a["hi"]), r(d["lo"]), r(d["hi"]))
            else:
                p.op("matmulp", o["v"], o["ta"], o["tb"], a["i"], b["i"], d["i"], o["al"], o["be"],
                     a["lo"], a["hi"], b["lo"], b["hi"], d["lo"], d["hi"])
        W = M["C"]
        s = sl(d["lo"], d["hi"])
        prod = al * (np.ascontiguousarray(A) @ np.ascontiguousarray(B)).astype(DT[t])
        old = np.zeros_like(W[s]) if not any(o["be"]) else be * W[s]
        W[s] = old + prod.reshape(W[s].shape)
        k = p.op("dump", d["i"], mask=1 << (c["pick"] % P))
        p.expect_bytes(k, c["pick"] % P, W, "%s product" % o["op"])
        p.op("sync")
    return p
