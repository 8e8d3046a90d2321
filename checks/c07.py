"""C07: elementwise operations on whole arrays and patches against numpy."""
import numpy as np
from model import *
from engine import Prog

PROP = "C07"
RULE = ("A case creates 2-4 arrays of one type (any layout, ghosts, restricted), fills them, and runs 1-8 whole-array or "
        "patch operations (zero, fill, scale, add constant, absolute value, reciprocal, add, multiply, divide, maximum, "
        "minimum) with operands of the same or different distributions, the same or reshaped patches, in-place or not, through "
        "C 32/64-bit, Fortran and C++ entry points; every array is compared in full afterwards. Non-trivial: at least "
        "one operation on more than one element.")
T2 = (INT, LONG, FLT, DBL, SCPL, DCPL)
LIM = {INT: 2 ** 24, LONG: 2 ** 40, LLONG: 2 ** 40, FLT: 2 ** 20, DBL: 2 ** 45, SCPL: 2 ** 18, DCPL: 2 ** 40}


def configs(tier):
    q = [dict(port="ts", np=4, n=900), dict(port="ts", np=3, n=600), dict(port="ts", np=6, n=350), dict(port="pr", np=3, n=250),
         dict(port="ts", np=1, n=120), dict(port="mpi3", np=4, n=250)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2000), dict(port="ts", np=4, n=3000, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    t = draw(I(0, 6))
    a0 = gen_array(draw, P, t=t, ghosts=True)
    arrs = [a0]
    for _ in range(draw(I(1, 3))):
        m = draw(I(0, 5))
        if m <= 2:
            arrs.append(dict(a0, api=draw(I(0, 1)) if a0["kind"] > 2 or a0["nr"] else draw(I(0, 3))))
        elif m <= 4:
            if a0["gw"]:      # another ghost width or none on the same dimensions
                g = dict(a0, gw=[] if chance(draw, 1, 2) else [min(w, draw(I(0, 2))) for w in a0["gw"]])
                if g["gw"] and not any(g["gw"]):
                    g["gw"] = []
                arrs.append(g)
            else:
                arrs.append(gen_array(draw, P, t=t, dims=list(a0["dims"])))
        else:
            arrs.append(gen_array(draw, P, t=t, ghosts=True))
    ops = []
    for _ in range(draw(I(1, 8))):
        if chance(draw, 1, 2):
            op = pick(draw, ["zero", "fill", "scale", "addc", "abs", "recip"] if t != LLONG else ["zero", "fill", "scale"])
            i = draw(I(0, len(arrs) - 1))
            o = dict(op=op, a=i, v=draw(I(0, 4)), al=gen_scal(draw, t))
            if chance(draw, 2, 3):
                o["p"] = gen_patch(draw, arrs[i]["dims"])
            if op == "recip" and t in (INT, LONG) and chance(draw, 1, 2):
                o["op"] = "scale"
        else:
            op = pick(draw, ["mul", "div", "max", "min", "add", "add"])
            if t == LLONG:
                op = "add"
            i, j, k = (draw(I(0, len(arrs) - 1)) for _ in range(3))
            o = dict(op=op, a=i, b=j, c=k, v=draw(I(0, 4)), al=gen_scal(draw, t), be=gen_scal(draw, t))
            whole = arrs[i]["dims"] == arrs[j]["dims"] == arrs[k]["dims"] and not chance(draw, 1, 2)
            if not whole:
                lo, hi = gen_patch(draw, arrs[k]["dims"])
                s = shp(lo, hi)
                o["pc"] = [lo, hi]
                for nm, q in (("pa", i), ("pb", j)):
                    # a change of shape is not supported for block-cyclic data
                    o[nm] = fit(draw, s, arrs[q]["dims"], [lo, hi], max(arrs[x]["kind"] for x in (i, j, k)) < 3)
                if o["pa"] is None or o["pb"] is None:
                    # no room: use one array for everything
                    o["a"], o["b"] = k, k
                    o["pa"], o["pb"] = [lo, hi], [lo, hi]
                # operands sharing the result array use the same patch
                for nm, q in (("pa", "a"), ("pb", "b")):
                    if o[q] == k and o[nm] != o["pc"]:
                        o[nm] = o["pc"]
        ops.append(o)
    return dict(t=t, arrs=arrs, ops=ops, seed=gseed(draw), root=draw(I(0, P - 1)), dump=draw(I(0, P - 1)))


def nontrivial(c, cfg):
    for o in c["ops"]:
        p = o.get("pc") or o.get("p")
        if not p or any(a < b for a, b in zip(*p)):
            return True
    return False


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    for o in c["ops"]:
        yield o["op"] + ("_patch" if "p" in o or "pc" in o else "")
        if "pc" in o and (shp(*o["pa"]) != shp(*o["pc"]) or shp(*o["pb"]) != shp(*o["pc"])):
            yield "reshaped"
        if "b" in o and c["arrs"][o["a"]] != c["arrs"][o["c"]]:
            yield "operand_distribution_differs"
    for a in c["arrs"]:
        yield "kind%d" % a["kind"]
        if a["gw"]:
            yield "ghosts"


def cmag(x):
    return x.real.astype(np.float64) ** 2 + x.imag.astype(np.float64) ** 2


def apply1(op, t, x, al):
    d = DT[t]
    if op == "zero":
        return np.zeros_like(x)
    if op == "fill":
        return np.full_like(x, al)
    if op == "scale":
        return x * al
    if op == "addc":
        return x + al
    if op == "abs":
        return np.abs(x).astype(d)
    if np.any(x == 0):
        return None
    if t in (INT, LONG):
        return np.trunc(1.0 / x.astype(np.float64)).astype(d)
    return (d.type(1) / x).astype(d)


def apply2(op, t, x, y, al, be):
    d = DT[t]
    if op == "mul":
        return x * y
    if op == "add":
        return al * x + be * y
    if op == "div":
        if np.any(y == 0):
            return None
        if t in (INT, LONG):
            q = np.abs(x) // np.abs(y)
            return (np.sign(x) * np.sign(y) * q).astype(d)
        return (x / y).astype(d)
    if t in CPX:
        mx, my = cmag(x), cmag(y)
        if np.any((mx == my) & (x != y)):
            return None     # equal magnitudes: which one is taken is not specified
        if op == "max":
            return np.where(mx > my, x, y)
        return np.where(mx < my, x, y)
    return np.maximum(x, y) if op == "max" else np.minimum(x, y)


def build(c, cfg):
    p = Prog(cfg["np"])
    t = c["t"]
    M, inexact = [], []
    for i, a in enumerate(c["arrs"]):
        emit_create(p, i, a)
        g = (c["seed"] + i, -9, 19)
        p.op("init", i, g, c["root"])
        M.append(gen_vals(t, g, a["dims"]))
        inexact.append(False)

    def ok(r):
        return np.all(np.isfinite(r)) and (r.size == 0 or float(np.max(np.abs(r))) < LIM[t])

    for o in c["ops"]:
        al = one(t, *o["al"])
        if "b" not in o:
            m = M[o["a"]]
            s = sl(*o["p"]) if "p" in o else tuple(slice(None) for _ in m.shape)
            r = apply1(o["op"], t, m[s], al)
            if r is None or not ok(r):
                continue
            m[s] = r
            inexact[o["a"]] |= o["op"] in ("recip",) or (o["op"] == "abs" and t in CPX)
            p.op("el1", o["v"], o["op"], o["a"], 1 if "p" in o else 0, *(o["p"] if "p" in o else []), o["al"])
        else:
            be = one(t, *o["be"])
            w = "pc" not in o
            sa, sb, sc = (tuple(slice(None) for _ in range(M[o[q]].ndim)) if w else sl(*o["p" + q]) for q in "abc")
            x, y, z = M[o["a"]][sa], M[o["b"]][sb], M[o["c"]][sc]
            x, y = np.array(x).reshape(z.shape), np.array(y).reshape(z.shape)
            ix = inexact[o["a"]] or inexact[o["b"]]
            if ix and t in CPX and o["op"] in ("max", "min"):
                continue
            r = apply2(o["op"], t, x, y, al, be)
            if r is None or not ok(r):
                continue
            M[o["c"]][sc] = r
            inexact[o["c"]] |= ix or (o["op"] == "div" and t not in (INT, LONG))
            if o["op"] == "add":
                p.op("gadd", o["v"], o["a"], o["b"], o["c"], o["al"], o["be"], 0 if w else 1, *([] if w else o["pa"] + o["pb"] + o["pc"]))
            else:
                p.op("el2", o["v"], o["op"], o["a"], o["b"], o["c"], 0 if w else 1, *([] if w else o["pa"] + o["pb"] + o["pc"]))
    p.op("sync")
    mx = max([1.0] + [float(np.max(np.abs(m))) for m in M])
    for i, a in enumerate(c["arrs"]):
        j = p.op("dump", i, mask=1 << c["dump"])
        what = "contents of array %d after the operations" % i
        if inexact[i] and t >= FLT:
            e = 1e-4 if t in (FLT, SCPL) else 1e-11
            p.expect_close(j, c["dump"], M[i], what, rtol=e, atol=e * mx)
        else:
            p.expect_bytes(j, c["dump"], M[i], what)
    p.op("sync")
    return p
