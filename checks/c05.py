"""C05: strided, periodic and field sections against their elementwise definition."""
import numpy as np
from model import *
from engine import Prog

PROP = "C05"
RULE = ("A case creates one array (any type and layout, ghost cells, restricted processes, or a registered structure type of "
        "generated size) and runs 1-6 strided (skips 1..dim+1), periodic (patches shifted by several periods and covering up "
        "to two periods) or field (byte ranges of structure elements) transfers with padded buffers from generated ranks; reads "
        "are compared with the definition and the array in full at the end. Non-trivial: a transfer of more than one element "
        "with a skip above 1, a wrapped index, or a partial field.")


def configs(tier):
    q = [dict(port="ts", np=4, n=1000), dict(port="ts", np=3, n=600), dict(port="pr", np=4, n=450), dict(port="mpi3", np=3, n=300),
         dict(port="ts", np=6, n=350), dict(port="ts", np=1, n=150)]
    q += [dict(port="pr", np=4, n=200, env=PR_SRV), dict(port="pr", np=3, n=200, env=PR_DT), dict(port="pr", np=3, n=200, env=PR_IOV)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 10) for c in q] + [dict(port="mt", np=4, n=2500), dict(port="pt", np=4, n=2500),
                                                  dict(port="ts", np=4, n=3000, variant="asan"), dict(port="mpi3", np=4, n=2500)]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    m = pick(draw, ["strided", "strided", "periodic", "periodic", "field"])
    if m == "field":
        a = gen_array(draw, P, t=0, ghosts=True, apis=(0, 1))
        es = draw(I(1, 40))
        a["t"] = 100
    else:
        if chance(draw, 1, 8):
            nd = draw(I(1, 3))
            a = gen_array(draw, P, dims=[draw(I(1, {1: 2000, 2: 60, 3: 16}[nd])) for _ in range(nd)], ghosts=True)
        else:
            a = gen_array(draw, P, ghosts=True)
        es = 0
    ops = []
    for _ in range(draw(I(1, 6))):
        k = pick(draw, ["put", "get", "acc" if m != "field" and a["t"] != LLONG else "put"])
        o = dict(op=k, r=draw(I(0, P - 1)), v=draw(I(0, 2)))
        d = a["dims"]
        if m == "strided":
            o["lo"], o["hi"] = gen_patch(draw, d, 4)
            o["sk"] = [draw(I(1, 3)) if chance(draw, 3, 4) else draw(I(1, x + 1)) for x in d]
            s = [(h - l) // k + 1 for l, h, k in zip(o["lo"], o["hi"], o["sk"])]
        elif m == "periodic":
            lo, s = [], []
            for x in d:
                per = x if k == "put" else 2 * x
                s.append(draw(I(1, x)) if chance(draw, 2, 3) else draw(I(1, per)))
                lo.append(draw(I(-x, 2 * x)) if chance(draw, 2, 3) else draw(I(-4 * x, 4 * x)))
            while np.prod(s, dtype=np.int64) > 20000:
                s[int(np.argmax(s))] //= 2
            o["lo"], o["hi"] = lo, [l + n - 1 for l, n in zip(lo, s)]
        else:
            o["lo"], o["hi"] = gen_patch(draw, d, 4)
            o["fo"] = draw(I(0, es - 1))
            o["fs"] = draw(I(1, es - o["fo"]))
            o["nb"] = draw(I(0, 3))
            s = shp(o["lo"], o["hi"])
        o["ld"] = gen_ld(draw, s)
        if k != "get":
            o["g"] = [gseed(draw), -50, 101]
        if k == "acc":
            o["al"] = gen_scal(draw, a["t"])
        ops.append(o)
    return dict(m=m, a=a, es=es, ops=ops, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    d = c["a"]["dims"]
    for o in c["ops"]:
        if all(l == h for l, h in zip(o["lo"], o["hi"])):
            continue
        if c["m"] == "strided" and any(k > 1 for k in o["sk"]):
            return True
        if c["m"] == "periodic" and any(l < 0 or h >= x for l, h, x in zip(o["lo"], o["hi"], d)):
            return True
        if c["m"] == "field" and o["fs"] < c["es"]:
            return True
    return False


def labels(c, cfg):
    a = c["a"]
    yield c["m"]
    yield "kind%d" % a["kind"]
    yield "nd%d" % len(a["dims"])
    if a["t"] < 100:
        yield TN[a["t"]]
    if a["gw"]:
        yield "ghosts"
    for o in c["ops"]:
        yield c["m"] + "_" + o["op"]
        if c["m"] == "periodic":
            if any(h - l >= d for l, h, d in zip(o["lo"], o["hi"], a["dims"])):
                yield "more_than_a_period"
            if any(l < 0 and h >= d for l, h, d in zip(o["lo"], o["hi"], a["dims"])):
                yield "past_both_ends"


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    a, m = c["a"], c["m"]
    d, t = a["dims"], a["t"]
    if m == "field":
        p.op("regtype", 0, c["es"])
    j = emit_create(p, 0, a)
    for r in range(P):
        p.expect_ints(j, r, [1, 0], "creation succeeds")
    g = (c["seed"], -1000, 2001)
    p.op("init", 0, g, c["pick"] % P)
    M = gen_bytes(g, d, c["es"]) if m == "field" else gen_vals(t, g, d).copy()
    last = None
    for o in c["ops"]:
        if last is not None and o["r"] != last:
            p.op("sync")
        last = o["r"]
        mk = 1 << o["r"]
        k, lo, hi = o["op"], o["lo"], o["hi"]
        if m == "field":
            s = sl(lo, hi) + (slice(o["fo"], o["fo"] + o["fs"]),)
            if k == "get":
                q = p.op("fget", 0, lo, hi, o["fo"], o["fs"], o["ld"], o["nb"], mask=mk)
                p.expect_bytes(q, o["r"], M[s], "field values read")
            else:
                p.op("fput", 0, lo, hi, o["fo"], o["fs"], o["ld"], o["g"], o["nb"], mask=mk)
                M[s] = gen_bytes(o["g"], shp(lo, hi), o["fs"])
            continue
        if m == "strided":
            ix = [np.arange(l, h + 1, s) for l, h, s in zip(lo, hi, o["sk"])]
            args = [lo, hi, o["sk"], o["ld"]]
            nm = {"put": "sput", "get": "sget", "acc": "sacc"}[k]
        else:
            ix = [np.arange(l, h + 1) % x for l, h, x in zip(lo, hi, d)]
            args = [lo, hi, o["ld"]]
            nm = {"put": "pput", "get": "pget", "acc": "pacc"}[k]
        X = np.ix_(*ix)
        sh = [len(x) for x in ix]
        if k == "get":
            q = p.op(nm, o["v"], 0, *args, mask=mk)
            p.expect_bytes(q, o["r"], M[X], "%s section read" % m)
        elif k == "put":
            p.op(nm, o["v"], 0, *args, o["g"], mask=mk)
            M[X] = gen_vals(t, o["g"], sh)
        else:
            p.op(nm, o["v"], 0, *args, o["g"], o["al"], mask=mk)
            np.add.at(M, X, one(t, *o["al"]) * gen_vals(t, o["g"], sh))
    p.op("sync")
    r = (c["pick"] // 7) % P
    q = p.op("dump", 0, mask=1 << r)
    p.expect_bytes(q, r, M, "contents of the array after the transfers")
    p.op("sync")
    if m == "field":
        p.op("destroy", 0)
        p.op("deregtype", 0)
    return p
