"""C12: diagonal, row and column operations and median against numpy."""
import numpy as np
from model import *
from engine import Prog

PROP = "C12"
RULE = ("A case creates a matrix with a vector of its diagonal, row or column length (independent layouts, ghost cells, "
        "restricted processes) and runs 1-6 diagonal / scaling operations on it, or creates four arrays and runs 1-3 medians "
        "over whole arrays or patches (aliased operands included); every array is then compared in full. Non-trivial: some "
        "operation touches more than one element.")
TYPES = (0, 1, 3, 4, 5, 6)


def configs(tier):
    q = [dict(port="ts", np=4, n=1200), dict(port="ts", np=3, n=700), dict(port="ts", np=6, n=500), dict(port="pr", np=3, n=300),
         dict(port="ts", np=2, n=300), dict(port="ts", np=1, n=200), dict(port="mpi3", np=4, n=250)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2500), dict(port="ts", np=4, n=3500, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    t = pick(draw, TYPES)
    if chance(draw, 3, 5):
        m = draw(I(0, 5))
        dims = [draw(I(1, 6)) for _ in range(2)] if m < 2 else [draw(I(1, 30)) for _ in range(2)]
        if chance(draw, 1, 3):
            dims[1] = dims[0]
        a = gen_array(draw, P, t=t, nds=[2], ghosts=True, dims=None if chance(draw, 1, 3) else dims)
        d = a["dims"]
        vs = [gen_array(draw, P, t=t, dims=[n]) for n in (min(d), d[0], d[1])]
        ops = [dict(op=pick(draw, ["get", "set", "add", "zero", "shift", "rows", "cols"]), v=draw(I(0, 4)), al=gen_scal(draw, t))
               for _ in range(draw(I(1, 6)))]
        return dict(m="diag", t=t, arrs=[a] + vs, ops=ops, seed=gseed(draw), pick=gseed(draw))
    arrs = [gen_array(draw, P, t=t, ghosts=True)]
    for _ in range(3):
        if chance(draw, 1, 4):
            arrs.append(dict(arrs[-1]))
        elif chance(draw, 1, 4):
            arrs.append(gen_array(draw, P, t=t, ghosts=True))
        else:
            arrs.append(gen_array(draw, P, t=t, dims=list(arrs[0]["dims"])))
    ops = []
    for _ in range(draw(I(1, 3))):
        ix = [draw(I(0, 3)) for _ in range(4)]
        m = ix[3]
        if chance(draw, 1, 3) and all(arrs[i]["dims"] == arrs[m]["dims"] for i in ix):
            ops.append(dict(ix=ix, v=draw(I(0, 4)), p=None))
            continue
        lo, hi = gen_patch(draw, arrs[m]["dims"])
        pt = []
        for i in ix[:3]:
            cyc = arrs[i]["kind"] > 2 or arrs[m]["kind"] > 2
            f = [lo, hi] if i == m else fit(draw, shp(lo, hi), arrs[i]["dims"], [lo, hi], not cyc)
            if f is None:
                i = m
                f = [lo, hi]
            pt.append((i, f))
        ops.append(dict(ix=[i for i, _ in pt] + [m], v=draw(I(0, 4)), p=[f for _, f in pt] + [[lo, hi]]))
    return dict(m="median", t=t, arrs=arrs, ops=ops, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    if c["m"] == "diag":
        return min(c["arrs"][0]["dims"]) > 1
    return any(o["p"] is None or any(a < b for a, b in zip(*o["p"][3])) for o in c["ops"])


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    yield c["m"]
    for a in c["arrs"]:
        if a["kind"] > 2:
            yield "block_cyclic"
        if a["gw"]:
            yield "ghosts"
    for o in c["ops"]:
        if c["m"] == "diag":
            yield o["op"]
        else:
            yield "median_whole" if o["p"] is None else "median_patch"
            if o["p"] and any(q != o["p"][3] for q in o["p"]):
                yield "different_patches"
            if len(set(o["ix"])) < 4:
                yield "aliased"


def median(a, b, c):
    """The element of middle value; complex numbers are ordered by magnitude (equal magnitudes: see ambiguous)."""
    s = np.stack([a.ravel(), b.ravel(), c.ravel()])
    k = np.abs(s.astype(np.complex128)) if s.dtype.kind == "c" else s
    i = np.argsort(k, axis=0, kind="stable")[1]
    return s[i, np.arange(s.shape[1])].reshape(a.shape)


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    t = c["t"]
    M = []
    for i, a in enumerate(c["arrs"]):
        emit_create(p, i, a)
        gv = (c["seed"] + i, -9, 19) if c["m"] == "diag" else (c["seed"] + i, -300, 601)
        p.op("init", i, gv, c["pick"] % P)
        M.append(gen_vals(t, gv, a["dims"]).copy())
    amb = [np.zeros(x.shape, bool) for x in M]         # elements whose median the specification leaves open
    for o in c["ops"]:
        if c["m"] == "diag":
            k = o["op"]
            vi = dict(get=1, set=1, add=1, rows=2, cols=3).get(k, -1)
            if k in ("rows", "cols", "add") and max(np.abs(M[0]).max(), 1) * 1000 > 2 ** 24:
                continue        # stay exact in single precision
            p.op("diagop", o["v"], k, 0, vi, o["al"])
            n = min(M[0].shape)
            ix = (np.arange(n), np.arange(n))
            if k == "get":
                M[1] = M[0][ix].copy()
            elif k == "set":
                M[0][ix] = M[1]
            elif k == "add":
                M[0][ix] += M[1]
            elif k == "zero":
                M[0][ix] = 0
            elif k == "shift":
                M[0][ix] += one(t, *o["al"])
            elif k == "rows":
                M[0] *= M[2][:, None]
            else:
                M[0] *= M[3][None, :]
        else:
            ix = o["ix"]
            q = o["p"] or [[[0] * M[i].ndim, [d - 1 for d in M[i].shape]] for i in ix]
            p.op("median", o["v"], ix, 1 if o["p"] else 0, [z for x in q for y in x for z in y] if o["p"] else [])
            s = shp(*q[3])
            ops = [M[i][sl(*x)].reshape(s) for i, x in zip(ix[:3], q)]
            am = np.zeros(s, bool)
            for i, x in zip(ix[:3], q):
                am |= amb[i][sl(*x)].reshape(s)
            if t in CPX:
                k = [np.abs(x.astype(np.complex128)) for x in ops]
                for a, b in ((0, 1), (0, 2), (1, 2)):
                    am |= (np.abs(k[a] - k[b]) < 1e-6) & (ops[a] != ops[b])
            M[ix[3]][sl(*q[3])] = median(*ops)
            amb[ix[3]][sl(*q[3])] = am
    p.op("sync")
    for i in range(len(M)):
        r = (c["pick"] + i) % P
        k = p.op("dump", i, mask=1 << r)
        if not amb[i].any():
            p.expect_bytes(k, r, M[i], "contents of array %d after the operations" % i)
        else:
            def f(v, w=M[i].copy(), z=amb[i]):
                g = np.frombuffer(v[1], dtype=w.dtype).reshape(w.shape)
                bad = np.argwhere((g != w) & ~z)
                return "%d elements differ; first at %s: got %s expected %s" % (len(bad), tuple(bad[0]), g[tuple(bad[0])], w[tuple(bad[0])]) if len(bad) else None
            p.expect(k, r, 0, f, "contents of array %d after the operations" % i)
    p.op("sync")
    return p
