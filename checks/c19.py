"""C19: disk resident arrays against an in-memory model."""
import numpy as np
from model import *
from engine import Prog

PROP = "C19"
RULE = ("A case creates 1-3 disk arrays (type, 1-7 dimensions, request-size hints, number of files and of I/O processes, access mode, C or "
        "Fortran interface) and 2-3 global arrays of generated distribution, then runs up to 9 whole-array and section transfers (plain and "
        "transposed, up to 4 requests outstanding, completed by wait or by probing), closes and reopens arrays in other modes, and queries them. "
        "Finally every disk array is reopened and read back in full: every element ever written must hold the value written last, "
        "every element outside the read sections of the global arrays must be unchanged, and deletion must remove all files. "
        "Non-trivial: at least one section transfer or reopen, or an array of more than one chunk.")
RACY = False
RW, W, R = -1, -2, -3
TY = [0, 1, 3, 4, 5, 6]


def configs(tier):
    q = [dict(port="ts", np=4, n=260), dict(port="ts", np=3, n=220), dict(port="ts", np=1, n=120), dict(port="ts", np=6, n=130),
         dict(port="pr", np=3, n=120), dict(port="mpi3", np=3, n=90), dict(port="mt", np=2, n=90)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q] + [dict(port="ts", np=4, n=1200, variant="asan"), dict(port="pt", np=4, n=400)]
    return q


def gen_hint(draw, dims):
    m = draw(I(0, 4))
    if m == 0:
        return [-1] * len(dims)
    if m == 1:
        return list(dims)
    if m == 2:
        return [draw(I(1, d + 2)) for d in dims]
    return [pick(draw, [-1, draw(I(1, d)), draw(I(1, max(1, d // 2))), d]) for d in dims]


def gen_sec(draw, a, b, tr):
    """Equal-shape sections of arrays with extents a (global) and b (disk); tr: index order reversed."""
    a2 = a[::-1] if tr else a
    lo, hi, glo, ghi = [], [], [], []
    for x, y in zip(a2, b):
        m = min(x, y)
        n = m if chance(draw, 1, 4) else draw(I(1, m))
        d = draw(I(0, y - n))
        g = draw(I(0, x - n))
        lo.append(d)
        hi.append(d + n - 1)
        glo.append(g)
        ghi.append(g + n - 1)
    if tr:
        glo, ghi = glo[::-1], ghi[::-1]
    return [glo, ghi, lo, hi]


def gen(draw, cfg):
    P = cfg["np"]
    t = pick(draw, TY)
    nd = pick(draw, [1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7])
    big = nd <= 2 and chance(draw, 1, 20)
    dims = ([draw(I(120000, 200000))] if nd == 1 else [draw(I(200, 420)), draw(I(300, 500))]) if big else gen_dims(draw, nd, 1.5 if nd < 4 else 1)
    ga = [gen_array(draw, P, t=t, dims=list(dims))]
    for _ in range(draw(I(1, 2))):
        d2 = gen_dims(draw, nd, 1.2) if not chance(draw, 1, 3) else dims[::-1]
        ga.append(gen_array(draw, P, t=t, dims=d2))
    for a in ga:
        a["api"] = draw(I(0, 3)) if not a["nr"] else 0
    dr = []
    for k in range(draw(I(1, 1 if big else 3))):
        v = draw(I(0, 4))
        if t == 0 and v > 1:
            v = draw(I(0, 1))
        if v == 4 and nd != 2:
            v = 2 if t else 0
        dr.append(dict(v=v, dims=dims if k == 0 or chance(draw, 1, 2) else gen_dims(draw, nd, 1.2), nf=pick(draw, [1, 1, -1, draw(I(1, P + 1))]),
                       np=pick(draw, [1, -1, draw(I(1, P + 1))]), mode=pick(draw, [RW, RW, RW, W]), name=pick(draw, ["A", "disk_array", "x" * 71, "n%d" % k])))
        dr[-1]["req"] = gen_hint(draw, dr[-1]["dims"])
    mode = [d["mode"] for d in dr]
    ops = []
    if chance(draw, 2, 3):
        ops.append(dict(op="whole", rd=0, d=0, g=0, v=draw(I(0, 2)), c=draw(I(0, 4))))
    for _ in range(draw(I(1, 9 if not big else 3))):
        k = pick(draw, ["sec", "sec", "sec", "sec", "sec", "whole", "reopen", "init", "inq", "inq", "flick"])
        d = draw(I(0, len(dr) - 1))
        op = dict(op=k, d=d, v=draw(I(0, 2)))
        if k in ("sec", "whole"):
            rd = draw(I(0, 1))
            if mode[d] == W:
                rd = 0
            if mode[d] == R:
                rd = 1
            g = draw(I(0, len(ga) - 1))
            op.update(rd=rd, g=g, c=draw(I(0, 4)))
            if k == "whole" and ga[g]["dims"] != dr[d]["dims"]:
                k = op["op"] = "sec"
            if k == "sec":
                op["tr"] = draw(I(0, 1))
                op["s"] = gen_sec(draw, ga[g]["dims"], dr[d]["dims"], op["tr"])
            op["pend"] = chance(draw, 1, 3)
        elif k == "reopen":
            op["mode"] = mode[d] = pick(draw, [RW, RW, R, W])
            op["to"] = draw(I(0, 1))
        elif k == "init":
            op.update(g=draw(I(0, len(ga) - 1)), seed=gseed(draw))
        ops.append(op)
    return dict(t=t, ga=ga, dr=dr, ops=ops, max=pick(draw, [-1, -1, 16, 5]), seed=gseed(draw), pick=gseed(draw), cfgdef=[draw(I(1, P)), draw(I(1, P))], fin=[draw(I(0, 9)) for _ in range(4)],
                miss=chance(draw, 1, 6))


def nontrivial(c, cfg):
    return any(o["op"] in ("sec", "reopen") for o in c["ops"]) or any(any(0 < h < x for h, x in zip(d["req"], d["dims"])) for d in c["dr"])


def labels(c, cfg):
    yield "type_" + TN[c["t"]]
    yield "dims_%d" % len(c["ga"][0]["dims"])
    for d in c["dr"]:
        if d["v"] in (1, 3):
            yield "files_%s" % ("1" if d["nf"] == 1 else "many")
    for o in c["ops"]:
        yield o["op"] + ("_read" if o.get("rd") else "_write" if "rd" in o else "") + ("_trans" if o.get("tr") else "") + ("_pending" if o.get("pend") else "")


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    t = c["t"]
    G, GK, D, DK, open_ = [], [], [], [], []
    for s, a in enumerate(c["ga"]):
        emit_create(p, s, a)
        gv = (c["seed"] + s, -99, 199)
        p.op("init", s, gv, c["pick"] % P)
        G.append(gen_vals(t, gv, a["dims"]).copy())
        GK.append(np.ones(a["dims"], bool))

    def ok(k, val=0, what="result code"):
        for r in range(P):
            p.expect_ints(k, r, [val], what)
    ok(p.op("drainit", c["max"]))
    p.op("dradefcfg", c["pick"] % 2, *c["cfgdef"])
    if c["miss"]:
        k = p.op("draopen", c["pick"] % 2, 9, t, 1, [1], RW, "nofile")
        ok(k, -1, "opening a disk array that does not exist")
    for i, d in enumerate(c["dr"]):
        nd = len(d["dims"])
        k = p.op("dracreate", d["v"], i, t, nd, d["dims"], d["req"], d["nf"], d["np"], d["mode"], d["name"], "da%d" % i)
        if d["v"] < 2:
            ok(k, 0)
        else:
            ok(k)
        D.append(np.zeros(d["dims"], DT[t]))
        DK.append(np.zeros(d["dims"], bool))
    pend = []           # (request slot, disk array, global array, read?)
    nq = [0]

    def drain(pred, how=0):
        for x in list(pend):
            if pred(x):
                finish(x[0], x[4])
                pend.remove(x)

    def finish(q, how):
        # 0 wait C, 1 wait Fortran, 2 probe C, 3 probe Fortran, 4 one probe then wait
        if how == 4:
            ok(p.op("draprobe1", q % 2, q))
        if how in (2, 3):
            ok(p.op("draprobe", how - 2, q))
            p.op("sync")
        else:
            ok(p.op("drawait", how % 2, q))

    def reg(lo, hi):
        return tuple(slice(a, b + 1) for a, b in zip(lo, hi))

    def transfer(op, sec=None):
        d, g, rd = op["d"], op["g"], op["rd"]
        # an outstanding request may only coexist with requests that touch other arrays, or with reads of the same disk array
        drain(lambda x: x[2] == g and (rd or x[3]) or x[1] == d and not (rd and x[3]))
        if len(pend) >= 4:
            drain(lambda x: True)
        q = nq[0] % 16
        nq[0] += 1
        nd = len(c["ga"][g]["dims"])
        v = op["v"] if nd == 2 else min(op["v"], 1)
        if sec is None:
            ok(p.op("drawhole", v, rd, d, g, q))
            gs = ds = tuple(slice(0, n) for n in c["ga"][g]["dims"])
            tr = 0
        else:
            glo, ghi, lo, hi = sec
            tr = op["tr"]
            ok(p.op("drasec", v, rd, tr, d, g, q, glo, ghi, lo, hi))
            gs, ds = reg(glo, ghi), reg(lo, hi)
        if rd:
            x, k = D[d][ds], DK[d][ds]
            G[g][gs] = x.T if tr else x
            GK[g][gs] = k.T if tr else k
        else:
            x, k = G[g][gs], GK[g][gs]
            D[d][ds] = x.T if tr else x
            DK[d][ds] = k.T if tr else k
        if op.get("pend"):
            pend.append((q, d, g, rd, op["c"]))
        else:
            finish(q, op["c"])
            drain(lambda x: x[0] == q)

    def inq(d, v):
        nd = len(c["dr"][d]["dims"])
        k = p.op("drainq", v if v < 2 or nd == 2 else 1, d)
        for r in range(P):
            p.expect_ints(k, r, [0, 1, nd] + c["dr"][d]["dims"], "disk array inquiry")
            for j, w, what in ((1, c["dr"][d]["name"], "name"), (2, "da%d" % d, "file name")):
                p.expect(k, r, j, lambda v, w=w: None if v[1] == w else "got %r expected %r" % (v[1], w), "disk array " + what)

    def reopen(d, v, mode):
        drain(lambda x: x[1] == d)
        ok(p.op("draclose", v % 2, d))
        k = p.op("draopen", (v + 1) % 2, d, t, len(c["dr"][d]["dims"]), c["dr"][d]["dims"], mode, "da%d" % d)
        ok(k, 0, "reopening a disk array")

    for op in c["ops"]:
        k = op["op"]
        if k == "whole":
            transfer(op)
        elif k == "sec":
            transfer(op, op["s"])
        elif k == "inq":
            inq(op["d"], op["v"])
        elif k == "flick":
            p.op("draflick", op["v"] % 2)
        elif k == "reopen":
            reopen(op["d"], op["v"], op["mode"])
        elif k == "init":
            g = op["g"]
            drain(lambda x: x[2] == g)
            p.op("sync")
            gv = (op["seed"], -99, 199)
            p.op("init", g, gv, op["seed"] % P)
            G[g][...] = gen_vals(t, gv, c["ga"][g]["dims"])
            GK[g][...] = True
    drain(lambda x: True)
    p.op("sync")

    def cmp(s, want, known, r, what):
        k = p.op("dump", s, mask=1 << r)
        want, known = want.copy(), known.copy()

        def f(v):
            if v[0] != "b" or len(v[1]) != want.nbytes:
                return "unexpected record"
            got = np.frombuffer(v[1], dtype=want.dtype).reshape(want.shape)
            bad = np.argwhere((got != want) & known)
            if len(bad):
                i = tuple(int(x) for x in bad[0])
                return "%d of %d elements differ; first at %s: got %s expected %s" % (len(bad), int(known.sum()), i, got[i], want[i])
        p.expect(k, r, 0, f, what)
    for s in range(len(G)):
        cmp(s, G[s], GK[s], (c["pick"] + s) % P, "contents of global array %d" % s)
    for d in range(len(D)):
        x = c["fin"][d]
        reopen(d, x, R if x % 3 else RW)
        inq(d, x % 3)
        emit_create(p, 10 + d, dict(t=t, dims=c["dr"][d]["dims"], gw=[], nr=[], api=0, kind=0, a1=[], a2=[], a3=[]))
        p.op("init", 10 + d, (7, 500, 9), 0)
        ok(p.op("drawhole", x % 2, 1, d, 10 + d, 0))
        finish(0, x % 5)
        p.op("sync")
        cmp(10 + d, D[d], DK[d], (c["pick"] + d) % P, "contents of disk array %d" % d)
        p.op("sync")
        ok(p.op("dradelete", x % 2, d))
        k = p.op("fexist", "da%d" % d)
        for r in range(P):
            p.expect_ints(k, r, [0], "files left after deleting the disk array")
    ok(p.op("draterm"))
    p.op("sync")
    return p
