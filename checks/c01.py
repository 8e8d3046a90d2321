"""C01: put/get/acc against a numpy array."""
import numpy as np
from model import *
from engine import Prog

PROP = "C01"
RULE = ("A case creates 1-2 arrays (type, 1-7 dimensions, any distribution, ghosts, restricted process lists), "
        "fills them, then issues 1-8 put/get/acc calls on generated patches with generated leading dimensions from "
        "generated ranks, and finally reads every array back by get and by direct local access. Non-trivial: at least "
        "one transfer and a patch of more than one element.")


def configs(tier):
    q = [dict(port="ts", np=4, n=1500), dict(port="ts", np=3, n=1000), dict(port="ts", np=1, n=200),
         dict(port="pr", np=4, n=500), dict(port="mpi3", np=3, n=300), dict(port="ts", np=5, n=300)]
    q += [dict(port="pr", np=4, n=200, env=PR_SRV), dict(port="pr", np=3, n=200, env=PR_DT), dict(port="pr", np=3, n=200, env=PR_IOV)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [
            dict(port="mt", np=4, n=4000), dict(port="pt", np=4, n=3000), dict(port="mpi3", np=4, n=3000),
            dict(port="ts", np=7, n=3000), dict(port="ts", np=4, n=4000, variant="asan"),
            dict(port="pr", np=4, n=2000, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    na = draw(I(1, 2))
    big = chance(draw, 1, 12)
    arrs = []
    for _ in range(na):
        if big:
            nd = draw(I(1, 3))
            dims = [draw(I(1, {1: 9000, 2: 120, 3: 22}[nd])) for _ in range(nd)]
            arrs.append(gen_array(draw, P, dims=dims, ghosts=True))
        else:
            arrs.append(gen_array(draw, P, ghosts=True))
    ops = []
    for _ in range(draw(I(1, 8))):
        k = draw(I(0, na - 1))
        a = arrs[k]
        lo, hi = gen_patch(draw, a["dims"])
        o = dict(a=k, op=pick(draw, ["put", "get", "acc" if a["t"] != LLONG else "put"]), r=draw(I(0, P - 1)), v=draw(I(0, 2)), lo=lo, hi=hi,
                 ld=gen_ld(draw, shp(lo, hi)))
        if o["op"] != "get":
            o["g"] = [gseed(draw), -50, 101]
        if o["op"] == "acc":
            o["al"] = gen_scal(draw, a["t"])
        ops.append(o)
    return dict(arrs=arrs, ops=ops, root=draw(I(0, P - 1)), seed=gseed(draw), dump=draw(I(0, P - 1)))


def nontrivial(c, cfg):
    return any(np.prod(shp(o["lo"], o["hi"])) > 1 for o in c["ops"])


def labels(c, cfg):
    for a in c["arrs"]:
        yield "kind%d" % a["kind"]
        yield "nd%d" % len(a["dims"])
        yield TN[a["t"]]
        if a["gw"]:
            yield "ghosts"
        if a["nr"]:
            yield "restricted"
    for o in c["ops"]:
        yield o["op"]
    yield cfg["port"] + str(cfg["np"])


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    M = []
    for i, a in enumerate(c["arrs"]):
        j = emit_create(p, i, a)
        for r in range(P):
            p.expect_ints(j, r, [1, 0], "creation succeeds")
        g = (c["seed"] + i, -1000, 2001)
        p.op("init", i, g, c["root"])
        M.append(gen_vals(a["t"], g, a["dims"]))
    last = None
    for o in c["ops"]:
        if last is not None and o["r"] != last:
            p.op("sync")
        last = o["r"]
        a, m = c["arrs"][o["a"]], M[o["a"]]
        s = sl(o["lo"], o["hi"])
        if o["op"] == "get":
            j = p.op("get", o["v"], o["a"], o["lo"], o["hi"], o["ld"], mask=1 << o["r"])
            p.expect_bytes(j, o["r"], m[s], "get returns the current values")
        else:
            v = gen_vals(a["t"], o["g"], shp(o["lo"], o["hi"]))
            if o["op"] == "put":
                p.op("put", o["v"], o["a"], o["lo"], o["hi"], o["ld"], o["g"], mask=1 << o["r"])
                m[s] = v
            else:
                p.op("acc", o["v"], o["a"], o["lo"], o["hi"], o["ld"], o["g"], o["al"], mask=1 << o["r"])
                m[s] += one(a["t"], *o["al"]) * v
    p.op("sync")
    for i, a in enumerate(c["arrs"]):
        j = p.op("dump", i, mask=1 << c["dump"])
        p.expect_bytes(j, c["dump"], M[i], "contents of array %d after sync" % i)
        if a["kind"] in (0, 1, 2):
            j = p.op("ldump", i)
            local_expect(p, j, P, M[i])
    p.op("sync")
    return p


def local_expect(p, j, P, m):
    """Every rank's own block, read through its access pointer, holds the array's values; the blocks tile it."""
    def f(res):
        cover = np.zeros(m.shape, dtype=np.int32)
        nd = m.ndim
        for r in range(P):
            recs = res.get((j, r), [])
            if not recs:
                return "rank %d: no local block record" % r
            lh = recs[0][1]
            if len(lh) == 0:
                continue
            lo, hi = [int(x) for x in lh[:nd]], [int(x) for x in lh[nd:]]
            if any(l < 0 or h >= d for l, h, d in zip(lo, hi, m.shape)):
                return "rank %d: block %s..%s outside the array %s" % (r, lo, hi, m.shape)
            s = sl(lo, hi)
            cover[s] += 1
            if recs[1][1] != np.ascontiguousarray(m[s]).tobytes():
                got = np.frombuffer(recs[1][1], dtype=m.dtype).reshape(m[s].shape)
                if not np.array_equal(got, m[s]):
                    return "rank %d: local block %s..%s read by direct access differs from the array's contents: %s vs %s" % (
                        r, lo, hi, got.ravel()[:8], m[s].ravel()[:8])
        if not (cover == 1).all():
            return "blocks do not tile the array (element covered %d times)" % int(cover.ravel()[np.argmax(cover.ravel() != 1)])
        return None
    p.post(f)
