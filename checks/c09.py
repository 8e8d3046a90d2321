"""C09: dot products, norms, element selection, step lengths, global reductions and broadcasts."""
import numpy as np
from model import *
from engine import Prog

PROP = "C09"
RULE = ("A case creates 1-4 arrays of one type with the same or unrelated shapes and independent layouts, optionally a process "
        "group, and asks 2-7 of: whole or patch dot product (reshaped or transposed patches too), 1-norm, infinity norm, "
        "minimum or maximum element with its index, largest feasible step, step bounds, vector reduction over the world or the "
        "group with one of eleven operators, broadcast from any root; every process's answer is compared. Non-trivial: at "
        "least one question involves more than one element.")

GOPS = ["+", "*", "max", "min", "absmax", "absmin", "or", "&&", "||", "&", "|", "land", "lor", "band", "bor"]
BIG = {INT: 2147483647, LONG: 9223372036854775807, FLT: 1.0e37, DBL: 1.0e307}


def configs(tier):
    q = [dict(port="ts", np=4, n=1300), dict(port="ts", np=3, n=700), dict(port="ts", np=6, n=500), dict(port="pr", np=3, n=300),
         dict(port="ts", np=2, n=400), dict(port="ts", np=1, n=150), dict(port="mpi3", np=4, n=250)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2500), dict(port="ts", np=4, n=3000, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    t = draw(I(0, 6))
    G = gen_group(draw, P) if chance(draw, 1, 3) else []
    n = draw(I(1, 4))
    a0 = gen_array(draw, P, t=t, ghosts=True, nds=[1, 2] if chance(draw, 1, 2) else range(1, 8))
    arrs = [a0]
    for _ in range(n - 1):
        m = 0 if a0["gw"] and chance(draw, 1, 2) else draw(I(0, 5))
        d = list(a0["dims"])
        if m == 0:
            # the same distribution, with the same or narrower ghost cells
            arrs.append(dict(a0, gw=[draw(I(0, w)) for w in a0["gw"]]))
            if not any(arrs[-1]["gw"]):
                arrs[-1]["gw"] = []
        elif m <= 2:
            arrs.append(gen_array(draw, P, t=t, dims=d))
        elif m == 3:
            if chance(draw, 1, 2) and len(d) < 7:
                # the same shape and distribution with an additional dimension of extent one
                x = dict(a0, dims=[1] + d, gw=[0] + a0["gw"] if a0["gw"] else [])
                if a0["kind"] == 1:
                    x["a1"] = [-1] + a0["a1"]
                elif a0["kind"] == 2:
                    x["a1"], x["a2"] = [0] + a0["a1"], [1] + a0["a2"]
                if a0["kind"] < 3:
                    if chance(draw, 1, 2):
                        arrs[0], x = x, a0
                    arrs.append(x)
                    continue
            arrs.append(gen_array(draw, P, t=t, dims=d[::-1]))
        else:
            arrs.append(gen_array(draw, P, t=t, ghosts=True))
    ops = []
    for _ in range(draw(I(2, 7))):
        m = draw(I(0, 11))
        o = dict(v=draw(I(0, 4)), g=gseed(draw))
        i, j = draw(I(0, n - 1)), draw(I(0, n - 1))
        a, b = arrs[i], arrs[j]
        o.update(a=i, b=j)
        if m <= 1:
            if t == LLONG or len(a["dims"]) > 2:
                continue
            o.update(op="norm", w=draw(I(0, 1)), lo=draw(I(-20, 0)))
        elif m <= 3:
            o.update(op="sel", mode=pick(draw, ["min", "max"]), lo=pick(draw, [-100, -9, 1, -40]), span=pick(draw, [19, 5, 101, 40]))
        elif m == 4:
            if a["dims"] != b["dims"]:
                continue
            o.update(op="dot")
        elif m <= 6:
            lo, hi = gen_patch(draw, b["dims"])
            s = shp(lo, hi)
            cyc = a["kind"] > 2 or b["kind"] > 2
            o.update(op="dotp", pb=[lo, hi], tr=pick(draw, "nnnt") if not cyc else "n")
            if o["tr"] == "t" and len(a["dims"]) == len(s) and all(x <= y for x, y in zip(s[::-1], a["dims"])):
                q = [draw(I(0, d - e)) for d, e in zip(a["dims"], s[::-1])]
                o["pa"] = [q, [x + e - 1 for x, e in zip(q, s[::-1])]]
            else:
                o["pa"] = fit(draw, s, a["dims"], o["pb"], not cyc)
                if a["dims"] == [1] + b["dims"] and not cyc and chance(draw, 1, 2):
                    o["pa"] = [[0] + lo, [0] + hi]
                elif b["dims"] == [1] + a["dims"] and not cyc and lo[0] == hi[0] == 0 and chance(draw, 1, 2):
                    o["pa"] = [lo[1:], hi[1:]]
            if o["pa"] is None:
                continue
        elif m == 7:
            if t in (LLONG, SCPL, DCPL):
                continue
            o.update(op="stepmax", neg=chance(draw, 5, 6))
            if chance(draw, 1, 2):
                # both patches must have the same indices
                if len(a["dims"]) != len(b["dims"]):
                    continue
                pa = list(gen_patch(draw, [min(x, y) for x, y in zip(a["dims"], b["dims"])]))
                o["p"] = [pa, pa]
            elif a["dims"] != b["dims"]:
                continue
        elif m == 8:
            if t in (LLONG, SCPL, DCPL):
                continue
            # the four arrays must have the same distribution and the same patch
            if n + 4 > 12 or any(q["op"] == "stepbound" for q in ops):
                continue
            o.update(op="stepbound")
            if chance(draw, 1, 2):
                o["p"] = list(gen_patch(draw, a["dims"]))
        elif m <= 10:
            tt = draw(I(0, 6))
            op = pick(draw, GOPS[:6] if tt in (FLT, DBL) else GOPS[:1] if tt in CPX else GOPS)
            o.update(op="gop", t=tt, n=pick(draw, [1, 1, 2, 3, 7, 40, 700]), gop=op, grp=bool(G) and chance(draw, 1, 2), v=o["v"] % 3)
        else:
            g = bool(G) and chance(draw, 1, 2)
            o.update(op="brd", n=pick(draw, [1, 3, 8, 64, 1000, 9000]), grp=g, root=draw(I(0, (len(G) if g else P) - 1)),
                     v=pick(draw, [0, 2]))
        ops.append(o)
    return dict(t=t, arrs=arrs, ops=ops, G=G, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    return any(o["op"] in ("gop", "brd") and o["n"] > 1 or int(np.prod(c["arrs"][o["a"]]["dims"])) > 1 for o in c["ops"])


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    for o in c["ops"]:
        yield o["op"] if o["op"] != "gop" else "gop_" + o["gop"]
        if o.get("grp"):
            yield "on_group"
        if o.get("p"):
            yield o["op"] + "_patch"
        if o["op"] == "dotp":
            if o["tr"] == "t":
                yield "dot_transposed"
            if shp(*o["pa"]) != shp(*o["pb"]):
                yield "dot_reshaped"
        if c["arrs"][o["a"]]["gw"]:
            yield "ghost_layout"


def reduce_(op, x, t):
    """x: one row per process."""
    isf = t >= 3
    if op == "+":
        return x.sum(axis=0, dtype=x.dtype)
    if op == "*":
        return x.prod(axis=0, dtype=x.dtype)
    if op == "max":
        return x.max(axis=0)
    if op == "min":
        return x.min(axis=0)
    if op == "absmax":
        return abs(x).max(axis=0)
    if op == "absmin":
        return abs(x).min(axis=0)
    if op in ("or", "|", "bor"):
        return np.bitwise_or.reduce(x, axis=0)
    if op in ("&", "band"):
        return np.bitwise_and.reduce(x, axis=0)
    if op in ("&&", "land"):
        return (x != 0).all(axis=0).astype(x.dtype)
    return (x != 0).any(axis=0).astype(x.dtype)


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    t = c["t"]
    G = c["G"]
    gm = bits(G)
    if G:
        p.op("pgcreate", c["seed"] % 3, 0, len(G), G)
    M = {}
    D = dict(enumerate(c["arrs"]))

    def fill(i, s, lo, span):
        M[i] = gen_vals(t, (s, lo, span), D[i]["dims"])
        p.op("init", i, (s, lo, span), c["pick"] % P)

    for i, a in enumerate(c["arrs"]):
        emit_create(p, i, a)
        fill(i, c["seed"] + i, -9, 19)
    for o in c["ops"]:
        i, j, op, v = o["a"], o["b"], o["op"], o["v"]
        a, b = c["arrs"][i], c["arrs"][j]
        if op == "norm":
            fill(i, o["g"], o["lo"], 21)
            k = p.op("norm", v, o["w"], i)
            m = abs(M[i].astype("c16" if t in CPX else "f8"))
            want = m.sum() if o["w"] else m.max()
            for r in range(P):
                p.expect_close(k, r, [want], "%s norm" % ("one" if o["w"] else "infinity"), rtol=1e-5 if t == SCPL else 1e-12, atol=0, dtype="f8")
        elif op == "sel":
            fill(i, o["g"], o["lo"], o["span"])
            A = M[i]
            k = p.op("selelem", v, i, o["mode"])
            key = (A.real.astype("f8") ** 2 + A.imag.astype("f8") ** 2) if t in CPX else A
            ext = key.min() if o["mode"] == "min" else key.max()
            nd = len(a["dims"])

            def chk(res, k=k, A=A, key=key, ext=ext, nd=nd, mode=o["mode"]):
                first = None
                for r in range(P):
                    recs = res[(k, r)]
                    val = np.frombuffer(recs[0][1], dtype=DT[t])[0]
                    ix = [int(x) for x in recs[1][1]]
                    if first is None:
                        first = (val, ix)
                    elif (val, ix) != first:
                        return "select_elem %s differs between processes: %s and %s" % (mode, first, (val, ix))
                    if not all(0 <= x < d for x, d in zip(ix, A.shape)):
                        return "select_elem %s returned index %s outside %s" % (mode, ix, A.shape)
                    if A[tuple(ix)] != val:
                        return "select_elem %s: value %s but element %s is %s" % (mode, val, ix, A[tuple(ix)])
                    if key[tuple(ix)] != ext:
                        return "select_elem %s: %s at %s is not the extreme" % (mode, val, ix)
            p.post(chk)
        elif op in ("dot", "dotp"):
            if op == "dot":
                k = p.op("dot", v, i, j)
                x, y = M[i], M[j]
            else:
                ta, tb = ("n", o["tr"]) if o["g"] % 2 or o["tr"] == "n" else (o["tr"], "n")
                k = p.op("dotp", v, i, ta, j, tb, *o["pa"], *o["pb"])
                x, y = M[i][sl(*o["pa"])], M[j][sl(*o["pb"])]
                if o["tr"] == "t":
                    y = y.T
            x, y = np.array(x, order="C").ravel(), np.array(y, order="C").ravel()
            if t < 3:
                want = int((x.astype("i8") * y.astype("i8")).sum())
                for r in range(P):
                    p.expect_ints(k, r, [want], op)
            else:
                want = complex((x.astype("c16") * y.astype("c16")).sum())
                for r in range(P):
                    p.expect_close(k, r, [want.real, want.imag], op, rtol=0, atol=1e-9, dtype="f8")
        elif op == "stepmax":
            fill(i, o["g"], 0, 10)
            if i != j:
                fill(j, o["g"] + 1, -9 if o["neg"] else 0, 19)
            pa, pb = o.get("p") or [[[0] * len(x["dims"]), [d - 1 for d in x["dims"]]] for x in (a, b)]
            k = p.op("stepmax", v, i, j, 1 if "p" in o else 0, *([pa[0], pa[1], pb[0], pb[1]] if "p" in o else []))
            x, y = M[i][sl(*pa)].ravel(), M[j][sl(*pb)].ravel()
            n = y < 0
            if i == j or not n.any():
                want = BIG[t]
            elif t < 3:
                want = int((x[n] // -y[n]).min())
            else:
                want = float((x[n] / -y[n]).min())
            for r in range(P):
                p.expect_close(k, r, [want], "largest step", rtol=1e-5 if t == FLT else 1e-14, atol=0, dtype="f8")
        elif op == "stepbound":
            xs = [8, 9, 10, 11]
            for x in xs:
                emit_create(p, x, a)
                D[x] = a
            fill(xs[0], o["g"], 0, 10)
            fill(xs[1], o["g"] + 1, -5, 11)
            fill(xs[2], o["g"] + 2, -9, 10)
            fill(xs[3], o["g"] + 3, 9, 10)
            ps = [o.get("p") or [[0] * len(a["dims"]), [d - 1 for d in a["dims"]]]] * 4
            kk = p.op("stepbound", v % 2, *xs, 1 if "p" in o else 0, *([y for q in ps for y in q] if "p" in o else []))
            X, V, L, U = (M[x][sl(*q)].ravel() for x, q in zip(xs, ps))
            T = []
            W = []
            for x, vv, l, u in zip(X, V, L, U):
                def div(n_, d_):
                    if d_ <= 0:
                        return BIG[t]
                    return n_ // d_ if t < 3 else n_ / d_
                up, dn = div(u - x, vv), div(x - l, -vv)
                W += [up, dn]
                e = min(up, dn)
                if vv == 0 and (u == x or x == l):
                    e = 0
                T.append(e)
            for r in range(P):
                p.expect_close(kk, r, [min(T)], "bound min", rtol=1e-5 if t == FLT else 1e-14, atol=0, dtype="f8", k=0)
                p.expect_close(kk, r, [min(W)], "wolfe min", rtol=1e-5 if t == FLT else 1e-14, atol=0, dtype="f8", k=1)
                p.expect_close(kk, r, [max(T)], "bound max", rtol=1e-5 if t == FLT else 1e-14, atol=0, dtype="f8", k=2)
        elif op == "gop":
            tt = o["t"]
            who = G if o["grp"] else list(range(P))
            lo, span = (1, 3) if o["gop"] == "*" else (-2, 4) if o["gop"] in ("&&", "||", "land", "lor") else (-50, 101)
            if o["grp"]:
                p.op("sync")
            k = p.op("gop", v, 0 if o["grp"] else -1, tt, o["n"], o["gop"], (o["g"], lo, span), mask=bits(who))
            x = np.array([gen_vals(tt, (o["g"] + r, lo, span), [o["n"]]) for r in who])
            want = reduce_(o["gop"], x, tt)
            for r in who:
                if o["gop"] in ("&&", "||", "land", "lor"):     # any nonzero value means true
                    p.expect(k, r, 0, lambda rec, w=want: None if np.array_equal(np.frombuffer(rec[1], dtype=w.dtype) != 0, w != 0)
                             else "wrong truth values", "reduction %s" % o["gop"])
                else:
                    p.expect_bytes(k, r, want, "reduction %s" % o["gop"])
        else:
            who = sorted(G) if o["grp"] else list(range(P))
            if o["grp"]:
                p.op("sync")
            k = p.op("brdcst", v, 0 if o["grp"] else -1, o["n"], o["root"], (o["g"], 0, 1), mask=bits(who))
            want = gen_bytes((o["g"] + who[o["root"]],), [o["n"]], 1).ravel()
            for r in who:
                p.expect_bytes(k, r, want, "broadcast")
    p.op("sync")
    return p
