"""C03: gather, scatter and scatter-accumulate against elementwise reads and writes."""
import numpy as np
from model import *
from engine import Prog

PROP = "C03"
RULE = ("A case creates 1-2 arrays (any type and layout, ghosts, restricted lists), and issues 1-6 rounds of gather / "
        "scatter / scatter-accumulate calls with generated subscript lists (repeats where defined) from generated ranks, "
        "several ranks at once where the results commute or the targets are disjoint, through the pointer, flat, 64-bit "
        "and Fortran forms, with and without preallocated buffers. Non-trivial: a list of at least two elements.")


def configs(tier):
    q = [dict(port="ts", np=4, n=900), dict(port="ts", np=3, n=600), dict(port="pr", np=4, n=450), dict(port="mpi3", np=3, n=300),
         dict(port="ts", np=6, n=300), dict(port="ts", np=1, n=100)]
    q += [dict(port="pr", np=4, n=200, env=PR_SRV), dict(port="pr", np=3, n=200, env=PR_DT), dict(port="pr", np=3, n=200, env=PR_IOV)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 10) for c in q] + [dict(port="mt", np=4, n=3000), dict(port="pt", np=4, n=3000),
                                                  dict(port="ts", np=4, n=3000, variant="asan"), dict(port="mpi3", np=4, n=3000)]
    return q


def gen_subs(draw, a, n, dup):
    d = a["dims"]
    tot = int(np.prod(d))
    if n > 60:      # long lists by a generated arithmetic pattern over the flattened index space
        step, off = draw(I(1, max(1, tot - 1))), draw(I(0, tot - 1))
        k = [(off + i * step) % tot for i in range(n)]
    else:
        k = draw(st.lists(I(0, tot - 1), min_size=n, max_size=n))
    if not dup:
        k = list(dict.fromkeys(k))
    return k


def gen(draw, cfg):
    P = cfg["np"]
    arrs = [gen_array(draw, P, ghosts=True) for _ in range(draw(I(1, 2)))]
    if chance(draw, 1, 8):
        arrs[0] = gen_array(draw, P, dims=[draw(I(20, 60)), draw(I(20, 60))], ghosts=False)
    rounds = []
    pre = draw(I(1, 3)) if chance(draw, 1, 4) else 0
    for _ in range(draw(I(1, 6))):
        i = draw(I(0, len(arrs) - 1))
        a = arrs[i]
        tot = int(np.prod(a["dims"]))
        op = pick(draw, ["gather", "scatter", "scatacc"])
        if op == "scatacc" and a["t"] == LLONG:
            op = "scatter"
        many = chance(draw, 1, 3)
        parts = []
        ranks = sorted(draw(st.lists(I(0, P - 1), min_size=1, max_size=P, unique=True))) if many else [draw(I(0, P - 1))]
        used = set()
        for r in ranks:
            n = draw(I(0, 12)) if not chance(draw, 1, 6) else draw(I(13, 400))
            k = gen_subs(draw, a, n, op != "scatter")
            if op == "scatter":
                k = [x for x in k if x not in used]
                used |= set(k)
            q = dict(r=r, k=k, v=draw(I(0, 4)))
            if op != "gather":
                q["g"] = [gseed(draw), -40, 81]
            if op == "scatacc":
                q["al"] = gen_scal(draw, a["t"])
            parts.append(q)
        rounds.append(dict(a=i, op=op, parts=parts))
    return dict(arrs=arrs, rounds=rounds, pre=pre, root=draw(I(0, P - 1)), seed=gseed(draw), dump=draw(I(0, P - 1)))


def nontrivial(c, cfg):
    return any(len(q["k"]) > 1 for o in c["rounds"] for q in o["parts"])


def labels(c, cfg):
    for a in c["arrs"]:
        yield "kind%d" % a["kind"]
        if a["gw"]:
            yield "ghosts"
        if a["nr"]:
            yield "restricted"
    for o in c["rounds"]:
        yield o["op"]
        for q in o["parts"]:
            if len(set(q["k"])) < len(q["k"]):
                yield "repeats"
            if len(q["k"]) > 60:
                yield "long"
        if len(o["parts"]) > 1:
            yield "concurrent"
    if c["pre"]:
        yield "preallocated"


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    M = []
    for i, a in enumerate(c["arrs"]):
        emit_create(p, i, a)
        g = (c["seed"] + i, -1000, 2001)
        p.op("init", i, g, c["root"])
        M.append(gen_vals(a["t"], g, a["dims"]))
    mx = max([len(q["k"]) for o in c["rounds"] for q in o["parts"]] + [1])
    if c["pre"]:
        p.op("gsbuf", mx + c["pre"] - 1)
    for o in c["rounds"]:
        a, m = c["arrs"][o["a"]], M[o["a"]]
        flat = m.reshape(-1)
        nv = np.array(flat)
        for q in o["parts"]:
            ix = np.array(np.unravel_index(np.array(q["k"], dtype=np.int64), a["dims"])).T.ravel() if q["k"] else []
            if o["op"] == "gather":
                j = p.op("gather", q["v"], o["a"], len(q["k"]), ix, mask=1 << q["r"])
                p.expect_bytes(j, q["r"], flat[np.array(q["k"], dtype=np.int64)], "gather returns the elements in list order")
            else:
                v = gen_vals(a["t"], q["g"], [len(q["k"])])
                k = np.array(q["k"], dtype=np.int64)
                if o["op"] == "scatter":
                    p.op("scatter", q["v"], o["a"], len(q["k"]), ix, q["g"], mask=1 << q["r"])
                    nv[k] = v
                else:
                    p.op("scatacc", q["v"], o["a"], len(q["k"]), ix, q["g"], q["al"], mask=1 << q["r"])
                    np.add.at(nv, k, one(a["t"], *q["al"]) * v)
        flat[:] = nv
        p.op("sync")
    if c["pre"]:
        p.op("gsfree")
    p.op("sync")
    for i, a in enumerate(c["arrs"]):
        j = p.op("dump", i, mask=1 << c["dump"])
        p.expect_bytes(j, c["dump"], M[i], "contents of array %d: only the listed elements change" % i)
    p.op("sync")
    return p
