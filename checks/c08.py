"""C08: copy, patch copy, redistribution, transposition and duplication against numpy."""
import numpy as np
from model import *
from engine import Prog

PROP = "C08"
RULE = ("A case creates 2-4 arrays of one type with the same, transposed or unrelated shapes and independent layouts (some on a "
        "process group), fills them and runs 1-7 of: whole copy, patch copy (same shape, reshaped or transposed, also between "
        "disjoint patches of one array), transpose, duplicate; every array is then compared in full. Non-trivial: at "
        "least one operation moves more than one element.")


def configs(tier):
    q = [dict(port="ts", np=4, n=900), dict(port="ts", np=3, n=500), dict(port="ts", np=6, n=400), dict(port="pr", np=3, n=250),
         dict(port="ts", np=2, n=250), dict(port="ts", np=1, n=100), dict(port="mpi3", np=4, n=200)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2000), dict(port="ts", np=4, n=3000, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    t = draw(I(0, 6))
    G = gen_group(draw, P) if P > 1 and chance(draw, 1, 3) else []
    two = chance(draw, 1, 3)
    a0 = gen_array(draw, P, t=t, ghosts=True, nds=[2] if two else range(1, 8))
    arrs = [a0]
    for _ in range(draw(I(1, 3))):
        m = draw(I(0, 7))
        d = list(a0["dims"])
        if m == 0:
            arrs.append(dict(a0))
        elif m <= 3:
            arrs.append(gen_array(draw, P, t=t, dims=d))
        elif m <= 5:
            arrs.append(gen_array(draw, P, t=t, dims=d[::-1]))
        elif m == 6 and len(d) < 7:
            arrs.append(gen_array(draw, P, t=t, dims=[1] + d if chance(draw, 1, 2) else d + [1]))
        else:
            arrs.append(gen_array(draw, P, t=t, ghosts=True))
    if G:
        for i, a in enumerate(arrs):
            if chance(draw, 1, 2):
                # distributions are drawn for the number of processes of the group
                arrs[i] = dict(gen_array(draw, len(G), t=t, dims=list(a["dims"]), restrict=False, apis=(0, 1)), grp=1)
    ops = []
    nops = draw(I(1, 7))
    nd = 0
    for _ in range(nops):
        i, j = draw(I(0, len(arrs) - 1)), draw(I(0, len(arrs) - 1))
        a, b = arrs[i], arrs[j]
        m = draw(I(0, 9))
        o = dict(a=i, b=j, v=draw(I(0, 4)))
        gg = a.get("grp") or b.get("grp")
        if m <= 2 and i != j and a["dims"] == b["dims"]:
            o["op"] = "copy"
        elif m <= 4 and i != j and len(a["dims"]) == 2 and a["dims"] == b["dims"][::-1] and not gg:
            o["op"] = "transpose"
        elif m == 5 and nd < 2 and len(ops) and not a.get("grp"):
            o["op"] = "dup"
            o["s"] = 10 + nd
            nd += 1
        else:
            lo, hi = gen_patch(draw, b["dims"])
            cyc = a["kind"] > 2 or b["kind"] > 2
            o.update(op="copyp", tr=pick(draw, "nN" if cyc else "nNtTnN"), pb=[lo, hi])
            s = shp(lo, hi)
            tr = o["tr"] in "tT"
            if tr and len(a["dims"]) == len(s) and chance(draw, 2, 3) and all(x <= y for x, y in zip(s[::-1], a["dims"])):
                q = [draw(I(0, d - e)) for d, e in zip(a["dims"], s[::-1])]
                o["pa"] = [q, [x + e - 1 for x, e in zip(q, s[::-1])]]
            else:
                o["pa"] = fit(draw, s, a["dims"], o["pb"], not cyc)
            if o["pa"] is None:
                continue
            if i == j:
                ov = all(not (h1 < l2 or h2 < l1) for l1, h1, l2, h2 in zip(*o["pa"], *o["pb"]))
                if ov and (o["pa"] != o["pb"] or tr):
                    continue
        ops.append(o)
    return dict(t=t, arrs=arrs, ops=ops, G=G, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    for o in c["ops"]:
        if o["op"] != "copyp":
            return True
        if any(a < b for a, b in zip(*o["pb"])):
            return True
    return False


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    for o in c["ops"]:
        a, b = c["arrs"][o["a"]], c["arrs"][o["b"]]
        yield o["op"]
        if o["op"] == "copyp":
            if shp(*o["pa"]) != shp(*o["pb"]):
                yield "reshaped"
            if o["tr"] in "tT":
                yield "transposed_patch"
            if o["a"] == o["b"]:
                yield "within_one_array"
        if bool(a.get("grp")) != bool(b.get("grp")):
            yield "between_group_and_world"
        elif a.get("grp"):
            yield "within_group"
        if a["kind"] != b["kind"]:
            yield "different_layout_kinds"


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    t = c["t"]
    G = c["G"]
    ALL = (1 << P) - 1
    gm = bits(G)
    M, mask = {}, {}
    if G:
        p.op("pgcreate", c["seed"] % 3, 0, len(G), G)
    for i, a in enumerate(c["arrs"]):
        g = bool(a.get("grp"))
        mask[i] = gm if g else ALL
        emit_create(p, i, a, grp=0 if g else -1, mask=mask[i])
        gv = (c["seed"] + i, -9, 19)
        mem = G if g else list(range(P))
        if g:
            # one member writes, the group synchronises
            p.op("put", 1, i, [0] * len(a["dims"]), [d - 1 for d in a["dims"]], a["dims"][1:], gv, mask=1 << mem[c["pick"] % len(mem)])
            p.op("pgsync", 0, 0, mask=gm)
        else:
            p.op("init", i, gv, c["pick"] % P)
        M[i] = gen_vals(t, gv, a["dims"])
    dups = {}
    for o in c["ops"]:
        i, j = o["a"], o["b"]
        a, b = c["arrs"][i], c["arrs"][j]
        na, nb = (len(G) if x.get("grp") else P for x in (a, b))
        who = mask[i] if na <= nb else mask[j]
        if G and who == ALL and (a.get("grp") or b.get("grp")):
            who = gm
        if G:
            p.op("sync")
        if o["op"] == "copy":
            p.op("copy", o["v"], i, j, mask=who)
            M[j] = M[i].copy()
        elif o["op"] == "transpose":
            p.op("transpose", o["v"], i, j)
            M[j] = M[i].T.copy()
        elif o["op"] == "dup":
            s = o["s"]
            k = p.op("dup", s, i, 0, "dupl")
            for r in range(P):
                p.expect_ints(k, r, [1], "duplicate succeeds")
            M[s] = None         # contents unspecified until written
            dups[s] = i
            if not (a["kind"] > 2):
                k1 = p.op("dists", 1, i, P)
                k2 = p.op("dists", 1, s, P)
                p.post(lambda res, k1=k1, k2=k2: None if all(np.array_equal(res[(k1, r)][0][1], res[(k2, r)][0][1]) for r in range(P))
                       else "a duplicate has another distribution than its original")
            k = p.op("cmpdistr", i, s)
            for r in range(P):
                p.expect_ints(k, r, [0], "duplicate has the same distribution")
            k = p.op("inquire", s, 0)
            for r in range(P):
                p.expect_ints(k, r, [1, len(a["dims"])] + list(a["dims"]), "type and dimensions of the duplicate")
            gv = (c["seed"] + 100 + s, -9, 19)
            p.op("init", s, gv, c["pick"] % P)
            M[s] = gen_vals(t, gv, a["dims"])
            mask[s] = ALL
        else:
            p.op("copyp", o["v"], o["tr"], i, j, *o["pa"], *o["pb"], mask=who)
            x = M[i][sl(*o["pa"])]
            x = np.array(x.T if o["tr"] in "tT" else x, order="C")
            M[j][sl(*o["pb"])] = x.reshape(shp(*o["pb"]))
    p.op("sync")
    for i in M:
        mem = [r for r in range(P) if mask[i] >> r & 1]
        r = mem[(c["pick"] + i) % len(mem)]
        k = p.op("dump", i, mask=1 << r)
        p.expect_bytes(k, r, M[i], "contents of array %d after the operations" % i)
    p.op("sync")
    return p
