"""C02: distribution queries partition the index space and agree with each other and with the requested layout."""
import itertools
import numpy as np
from model import *
from engine import Prog

PROP = "C02"
RULE = ("A case creates 1-2 arrays with a generated layout (regular, chunked, irregular, block-cyclic, ScaLAPACK, tiled, "
        "irregular tiled; ghosts; restricted process lists), and asks every process for the block of every process, the "
        "owner of generated subscripts (in and out of range), the pieces of generated regions, block counts, grid "
        "coordinates and layout comparison. Non-trivial: the array is split into at least two blocks.")
ASSUMPTIONS = ["block indices count blocks with the last (C) dimension fastest; process coordinates returned by "
               "NGA_Proc_topology and GA_Get_proc_grid are in storage order, fastest dimension first (the library's own "
               "test depends on it)"]


def configs(tier):
    q = [dict(port="ts", np=4, n=700), dict(port="ts", np=6, n=500), dict(port="ts", np=3, n=500), dict(port="pr", np=5, n=300),
         dict(port="ts", np=1, n=150), dict(port="ts", np=8, n=250)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mpi3", np=4, n=2000), dict(port="ts", np=7, n=4000),
                                                  dict(port="ts", np=12, n=1500), dict(port="ts", np=4, n=2500, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    big = chance(draw, 1, 4)
    if big:
        nd = draw(I(1, 4))
        dims = [draw(I(1, {1: 100000, 2: 3000, 3: 200, 4: 30}[nd])) for _ in range(nd)]
        if int(np.prod(dims)) > 4000000:
            dims[0] = max(1, 4000000 // int(np.prod(dims[1:])))
        a = gen_array(draw, P, types=[0, 1, 4], dims=dims, ghosts=False, apis=(0, 1, 2, 3, 4))
        if a["kind"] >= 3:      # keep the number of blocks moderate
            if a["kind"] != 6:
                a["a1"] = [max(b, (d + 7) // 8) for b, d in zip(a["a1"], dims)]
    else:
        a = gen_array(draw, P, types=[0, 1, 4], ghosts=True, apis=(0, 1, 2, 3, 4, 5, 6))
    d = a["dims"]
    subs = [[draw(I(0, x - 1)) for x in d] for _ in range(draw(I(1, 8)))]
    if chance(draw, 1, 3):      # one subscript out of range
        s = list(pick(draw, subs))
        k = draw(I(0, len(d) - 1))
        s[k] = pick(draw, [-1, d[k], d[k] + draw(I(1, 50)), -draw(I(1, 50))])
        subs.append(s)
    regs = [list(gen_patch(draw, d)) for _ in range(draw(I(1, 4)))]
    if chance(draw, 1, 4):      # a region that is out of bounds or empty is reported as having no pieces
        lo, hi = gen_patch(draw, d)
        k = draw(I(0, len(d) - 1))
        m = draw(I(0, 2))
        if m == 0:
            lo[k] = -draw(I(1, 3))
        elif m == 1:
            hi[k] = d[k] + draw(I(0, 3))
        else:
            lo[k], hi[k] = hi[k] + 1, lo[k]
        regs.append([lo, hi])
    b = None
    m = draw(I(0, 3))
    if m == 1:
        b = dict(a)
        b["t"] = pick(draw, [0, 4])
    elif m == 2:
        b = gen_array(draw, P, types=[0, 4], dims=list(d), apis=(0,))
        if b["kind"] >= 3 and b["kind"] != 6 and big:
            b["a1"] = [max(q, (x + 7) // 8) for q, x in zip(b["a1"], d)]
    elif m == 3:
        b = gen_array(draw, P, types=[0, 4], apis=(0,))
    return dict(a=a, b=b, subs=subs, regs=regs, v=draw(I(0, 2)))


def nblocks_of(a):
    if a["kind"] in (3, 4, 5):
        return [-(-d // b) for d, b in zip(a["dims"], a["a1"])]
    if a["kind"] in (2, 6):
        return list(a["a2"])
    return None


def blocks_of(a, cap=None):
    """Blocks in index order for layouts that determine them; None otherwise."""
    nb = nblocks_of(a)
    if nb is None:
        return None
    starts = []
    if a["kind"] in (3, 4, 5):
        for d, b in zip(a["dims"], a["a1"]):
            starts.append(list(range(0, d, b)))
    else:
        o = 0
        for n in nb:
            starts.append(a["a1"][o:o + n])
            o += n
    out = []
    for ix in itertools.product(*[range(n) for n in nb]):
        lo = [starts[k][i] for k, i in enumerate(ix)]
        hi = [(starts[k][i + 1] if i + 1 < nb[k] else a["dims"][k]) - 1 for k, i in enumerate(ix)]
        out.append((lo, hi))
    return out


def nontrivial(c, cfg):
    a = c["a"]
    nb = nblocks_of(a)
    return int(np.prod(nb)) > 1 if nb else (cfg["np"] > 1 and np.prod(a["dims"]) > 1)


def labels(c, cfg):
    a = c["a"]
    yield "kind%d" % a["kind"]
    yield "nd%d" % len(a["dims"])
    if a["nr"]:
        yield "restricted"
    if a["gw"]:
        yield "ghosts"
    if c["b"]:
        yield "compare"


def inter(lo, hi, blo, bhi):
    l, h = [max(x, y) for x, y in zip(lo, blo)], [min(x, y) for x, y in zip(hi, bhi)]
    return (l, h) if all(x <= y for x, y in zip(l, h)) else None


def build(c, cfg):
    P, a = cfg["np"], c["a"]
    p = Prog(P)
    nd, d = len(a["dims"]), a["dims"]
    j = emit_create(p, 0, a)
    for r in range(P):
        p.expect_ints(j, r, [1, 0], "creation succeeds")
    if c["b"]:
        j = emit_create(p, 1, c["b"], name="second")
        for r in range(P):
            p.expect_ints(j, r, [1, 0], "creation succeeds")
    reg = a["kind"] in (0, 1, 2)
    blk = blocks_of(a)
    nq = P if reg else len(blk)
    jd_ = p.op("dists", c["v"], 0, nq)
    jl = p.op("locates", c["v"], 0, len(c["subs"]), sum(c["subs"], []))
    jr = [p.op("locreg", c["v"] % 2, 0, lo, hi, max(P, nq)) for lo, hi in c["regs"]]
    jn = [p.op("locnn", c["v"] % 2, 0, lo, hi) for lo, hi in c["regs"]]
    ok = [all(0 <= l <= h < x for l, h, x in zip(lo, hi, d)) for lo, hi in c["regs"]]
    jb = [p.op("locnb", 0, lo, hi) if o else None for (lo, hi), o in zip(c["regs"], ok)]
    jk = p.op("nblock", 0)
    jt = p.op("topo", 0, P) if reg else None
    ji = p.op("blkinfo", 0) if a["kind"] in (3, 4, 5) else None
    jg = p.op("procgrid", 0, P) if a["kind"] in (4, 5, 6) else None
    jc = p.op("cmpdistr", 0, 1) if c["b"] else None
    jdb = p.op("dists", 0, 1, P if c["b"]["kind"] <= 2 else len(blocks_of(c["b"]))) if c["b"] else None
    jq = p.op("inquire", 0, c["v"] % 2)

    def f(res):
        for r in range(P):
            D = res[(jd_, r)][0][1].reshape(nq, 2, nd).tolist()
            if reg:
                own = [(q, lo, hi) for q, (lo, hi) in enumerate(D) if all(x <= y for x, y in zip(lo, hi))]
            else:
                own = [(q, lo, hi) for q, (lo, hi) in enumerate(D)]
                if [(lo, hi) for _, lo, hi in own] != [(list(x), list(y)) for x, y in blk]:
                    k = next(i for i in range(len(blk)) if D[i] != [list(blk[i][0]), list(blk[i][1])])
                    return "rank %d: block %d is reported as %s, the requested layout gives %s" % (r, k, D[k], blk[k])
            # partition
            for q, lo, hi in own:
                if any(l < 0 or h >= x for l, h, x in zip(lo, hi, d)):
                    return "rank %d: process %d owns %s..%s outside the array %s" % (r, q, lo, hi, d)
            vol = sum(int(np.prod([h - l + 1 for l, h in zip(lo, hi)])) for _, lo, hi in own)
            if vol != int(np.prod(d)):
                return "rank %d: the blocks hold %d elements, the array has %d: %s" % (r, vol, int(np.prod(d)), own[:6])
            for (q, lo, hi), (q2, lo2, hi2) in itertools.combinations(own if len(own) < 40 else [], 2):
                if inter(lo, hi, lo2, hi2):
                    return "rank %d: blocks of %d and %d overlap: %s..%s and %s..%s" % (r, q, q2, lo, hi, lo2, hi2)
            if r and res[(jd_, r)][0][1].tobytes() != res[(jd_, 0)][0][1].tobytes():
                return "ranks 0 and %d see different distributions" % r
            if a["nr"]:
                bad = [q for q, _, _ in own if q not in a["nr"]]
                if bad:
                    return "rank %d: process %d owns data although the array is restricted to %s" % (r, bad[0], a["nr"])
            if a["kind"] == 2:
                want = [(lo, hi) for lo, hi in blk]
                got = [(lo, hi) for _, lo, hi in sorted(own)]
                if got != want or [q for q, _, _ in own] != list(range(len(blk))):
                    return "rank %d: blocks %s do not follow the requested map %s" % (r, own, want)
            if a["kind"] == 1:
                for k, ch in enumerate(a["a1"]):
                    ext = sorted(set((lo[k], hi[k]) for _, lo, hi in own))
                    if ch == d[k] and len(ext) != 1:
                        return "rank %d: dimension %d is split although its chunk is the whole extent: %s" % (r, k, ext)
                    if ch > 0 and any(h - l + 1 < min(ch, d[k]) for l, h in ext[:-1]):
                        return "rank %d: dimension %d has a block smaller than the requested minimum %d: %s" % (r, k, ch, ext)
            # owners
            L = res[(jl, r)][0][1].tolist()
            for s, o in zip(c["subs"], L):
                if any(x < 0 or x >= y for x, y in zip(s, d)):
                    if o != -1:
                        return "rank %d: owner of out-of-range subscript %s is reported as %d" % (r, s, o)
                    continue
                w = [q for q, lo, hi in own if all(l <= x <= h for x, l, h in zip(s, lo, hi))]
                if [o] != w:
                    return "rank %d: owner of %s reported as %d, the blocks say %s" % (r, s, o, w)
            # regions
            for (lo, hi), k, kn, kb, o in zip(c["regs"], jr, jn, jb, ok):
                m = res[(k, r)][0][1].reshape(-1, 2, nd).tolist()
                pr = res[(k, r)][1][1].tolist()
                want = []
                if o:
                    for q, blo, bhi in own:
                        x = inter(lo, hi, blo, bhi)
                        if x:
                            want.append((q, x[0], x[1]))
                got = sorted((q, x, y) for q, (x, y) in zip(pr, m))
                if got != sorted(want):
                    return "rank %d: region %s..%s located as %s, the blocks say %s" % (r, lo, hi, got[:6], sorted(want)[:6])
                n = int(res[(kn, r)][0][1][0])
                if n != len(want):
                    return "rank %d: region %s..%s: %d owners reported, the blocks say %d" % (r, lo, hi, n, len(want))
                if kb is not None:
                    n = int(res[(kb, r)][0][1][0])
                    if n != (-1 if reg else len(want)):
                        return "rank %d: region %s..%s: %d blocks reported, expected %d" % (r, lo, hi, n, -1 if reg else len(want))
            # block counts and coordinates
            nb = res[(jk, r)][0][1].tolist()
            if reg:
                G = [len(set(lo[k] for _, lo, _ in own)) for k in range(nd)]
                if nb != G:
                    return "rank %d: block counts %s, the blocks say %s" % (r, nb, G)
                T = res[(jt, r)][0][1].reshape(P, nd).tolist()
                st_ = [sorted(set(lo[k] for _, lo, _ in own)) for k in range(nd)]
                for q, lo, hi in own:
                    g = a["nr"].index(q) if a["nr"] else q
                    co = [st_[k].index(lo[k]) for k in range(nd)][::-1]
                    if T[g] != co:
                        return "rank %d: coordinates of process %d reported as %s, its block is at %s" % (r, g, T[g], co)
            else:
                if nb != nblocks_of(a):
                    return "rank %d: block counts %s, requested %s" % (r, nb, nblocks_of(a))
            if ji is not None:
                v = res[(ji, r)][0][1].tolist()
                if v != nblocks_of(a) + list(a["a1"]):
                    return "rank %d: block info %s, expected %s" % (r, v, nblocks_of(a) + list(a["a1"]))
                v = res[(ji, r)][1][1].tolist()
                if v != [len(blk), int(a["kind"] in (4, 5))]:
                    return "rank %d: total blocks / uses grid %s, expected %s" % (r, v, [len(blk), int(a["kind"] in (4, 5))])
            if jg is not None:
                g = list(a["a3"] if a["kind"] == 6 else a["a2"])
                v = res[(jg, r)][0][1].tolist()
                if v != g[::-1]:
                    return "rank %d: process grid %s, requested %s" % (r, v, g)
                X = [tuple(x) for x in res[(jg, r)][1][1].reshape(P, nd).tolist()]
                if sorted(X) != sorted(itertools.product(*[range(n) for n in g])):
                    return "rank %d: process coordinates %s do not enumerate the grid %s" % (r, X, g)
            if jc is not None:
                b = c["b"]
                eq = b["dims"] == d and (b["kind"] in (0, 1, 2)) == reg and sorted(b["nr"]) == sorted(a["nr"])
                if eq:
                    D2 = res[(jdb, r)][0][1].tobytes()
                    eq = D2 == res[(jd_, r)][0][1].tobytes()
                if not reg:
                    eq = eq and b["kind"] == a["kind"] and (b["kind"] == 3 or b["a2"] == a["a2"] and b["a3"] == a["a3"])
                elif eq and a["nr"]:
                    eq = None if b["nr"] != a["nr"] else eq
                v = int(res[(jc, r)][0][1][0])
                if eq is not None and (v == 0) != bool(eq):
                    return "rank %d: comparison of the two layouts gives %d although they are %s" % (r, v, "the same" if eq else "different")
            v = res[(jq, r)][0][1].tolist()
            if v != [1, nd] + d:
                return "rank %d: inquire gives %s for type/dimensions %s" % (r, v, d)
        return None
    p.post(f)
    return p
