"""C16: segmented scans, packing, enumeration and binning against sequential models."""
import numpy as np
from model import *
from engine import Prog

PROP = "C16"
RULE = ("A case creates equally distributed 1-D source, destination and mask arrays of generated types (mask type independent "
        "of the data type), then runs 1-6 scan_copy / scan_add (inclusive and exclusive) / pack / unpack / patch_enum calls over "
        "generated ranges and compares every array in full; or it bins generated values contributed by all processes, with and "
        "without sorting, and compares the contents of every bin. Non-trivial: a range of at least two elements, or at least "
        "two values binned.")


def configs(tier):
    q = [dict(port="ts", np=4, n=1100), dict(port="ts", np=3, n=700), dict(port="ts", np=6, n=500), dict(port="pr", np=3, n=400),
         dict(port="ts", np=2, n=300), dict(port="ts", np=1, n=150), dict(port="mpi3", np=4, n=300)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2500), dict(port="ts", np=4, n=3500, variant="asan")]
    return q


def gen_mask(draw, n, lo=0):
    m = draw(I(0, 4))
    if m == 0:
        v = [0] * n
    elif m == 1:
        v = [1] * n
    elif m == 2:
        v = [0] * n
        for _ in range(draw(I(1, 3))):
            v[draw(I(0, n - 1))] = draw(I(1, 3))
    else:
        r = np.random.RandomState(gseed(draw))
        v = [int(x) for x in (r.randint(0, 9, n) < draw(I(1, 8))) * r.randint(-2, 3, n)]
    return v


def gen(draw, cfg):
    P = cfg["np"]
    if chance(draw, 1, 5):
        nb = draw(I(1, 8))
        vals = []
        for r in range(P):
            k = draw(I(0, 6))
            b = sorted(draw(I(0, nb - 1)) for _ in range(k))
            vals.append([b, [draw(I(-50, 50)) for _ in b]])
        # every bin receives at least one value
        cnt = [sum(b == j for v in vals for b in v[0]) for j in range(nb)]
        for j in range(nb):
            if not cnt[j]:
                r = draw(I(0, P - 1))
                vals[r][0] = sorted(vals[r][0] + [j])
                vals[r][1].append(draw(I(-50, 50)))
        return dict(m="bin", nb=nb, vals=vals, off=gen_dist(draw, [nb], P, (0, 1, 2)), cuts=gseed(draw), nblk=draw(I(1, P)),
                    sort=draw(I(0, 1)), apis=[draw(I(0, 3)) for _ in range(3)], pick=gseed(draw))
    n = draw(I(1, 12)) if chance(draw, 1, 3) else draw(I(1, 300))
    t = pick(draw, list(range(7)))
    tm = pick(draw, list(range(7)))
    a = gen_array(draw, P, t=t, dims=[n], kinds=(0, 1, 2))
    a["api"] = draw(I(0, 6)) if not a["nr"] else 0
    o = gen_array(draw, P, t=t, dims=[n])
    ops = []
    for _ in range(draw(I(1, 6))):
        k = pick(draw, ["copy", "copy", "add", "add", "pack", "unpack", "enum"])
        lo = draw(I(0, n - 1)) if not chance(draw, 1, 4) else 0
        hi = draw(I(lo, n - 1)) if not chance(draw, 1, 4) else n - 1
        op = dict(op=k, lo=lo, hi=hi, v=draw(I(0, 4)), sw=draw(I(0, 1)))
        if k == "add":
            op["ex"] = draw(I(0, 1))
        if k == "enum":
            op["s"], op["i"] = gen_scal(draw, t), gen_scal(draw, t)
        if k in ("pack", "unpack"):
            op["o"] = draw(I(0, 1))
        if chance(draw, 1, 2):
            op["mk"] = gen_mask(draw, n)
        ops.append(op)
    return dict(m="scan", t=t, tm=tm, a=a, other=o, mk=gen_mask(draw, n), ops=ops, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    if c["m"] == "bin":
        return sum(len(v[0]) for v in c["vals"]) > 1
    return any(o["lo"] < o["hi"] for o in c["ops"])


def labels(c, cfg):
    if c["m"] == "bin":
        yield "bin_sorted" if c["sort"] else "bin"
        return
    yield "type_" + TN[c["t"]]
    yield "mask_" + TN[c["tm"]]
    for o in c["ops"]:
        yield o["op"] + ("_excl" if o.get("ex") else "")


def build_bin(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    nb = c["nb"]
    cnt = [sum(b == j for v in c["vals"] for b in v[0]) for j in range(nb)]
    tot = sum(cnt)
    off = [sum(cnt[:j]) for j in range(nb)]
    # the array of bin contents is divided between processes at bin boundaries
    nblk = min(c["nblk"], nb, P)
    r = np.random.RandomState(c["cuts"])
    cuts = sorted(r.choice(np.arange(1, nb), nblk - 1, replace=False)) if nblk > 1 else []
    starts = [0] + [off[int(x)] for x in cuts]
    emit_create(p, 0, dict(t=1, dims=[tot], gw=[], nr=[], api=c["apis"][0], kind=2, a1=starts, a2=[nblk], a3=[]))
    for s in (1, 2):
        emit_create(p, s, dict(t=1, dims=[nb], gw=[], nr=[], api=c["apis"][s], **c["off"]))
    p.op("init", 0, (1, 999, 1), 0)
    p.op("putall", 1, 0, cnt)
    p.op("putall", 2, 0, off)
    p.op("binidxall", 0, 1, 2, c["sort"], *[[len(b)] + list(v) + [x + 1 for x in b] for b, v in c["vals"]])
    p.op("sync")
    want = [sorted(x for b, v in c["vals"] for y, x in zip(b, v) if y == j) for j in range(nb)]

    def f(v):
        g = np.frombuffer(v[1], dtype=np.int64)
        for j in range(nb):
            got = [int(x) for x in g[off[j]:off[j] + cnt[j]]]
            if (got if c["sort"] else sorted(got)) != want[j]:
                return "bin %d holds %s, expected %s" % (j + 1, got, want[j])
    k = p.op("dump", 0, mask=1 << (c["pick"] % P))
    p.expect(k, c["pick"] % P, 0, f, "contents of the bins")
    for s, w in ((1, cnt), (2, off)):
        k = p.op("dump", s, mask=1)
        p.expect_bytes(k, 0, np.array(w, np.int64), "bin %s unchanged" % ("counts" if s == 1 else "offsets"))
    # which bins each process holds
    p.op("sync")
    rg = p.op("binrange", 3, 0, 1, 2)
    p.op("sync")
    k = p.op("dump", 3, mask=1)
    fb = [0] + [int(x) for x in cuts] + [nb]

    def h(v):
        g = np.frombuffer(v[1], dtype=np.int64).reshape(P, 2) if len(v[1]) == 16 * P else None
        if g is None:
            return "bin range array has %d bytes" % len(v[1])
        for q in range(nblk):
            if list(g[q]) != [fb[q] + 1, fb[q + 1]]:
                return "process %d holds bins %s, expected %s" % (q, list(g[q]), [fb[q] + 1, fb[q + 1]])
    p.expect(k, 0, 0, h, "bin ranges")
    p.op("sync")
    return p


def build(c, cfg):
    if c["m"] == "bin":
        return build_bin(c, cfg)
    P = cfg["np"]
    p = Prog(P)
    t, tm, a, o = c["t"], c["tm"], c["a"], c["other"]
    n = a["dims"][0]
    emit_create(p, 0, a)
    emit_create(p, 1, a)
    emit_create(p, 2, dict(a, t=tm))
    emit_create(p, 3, o)
    M = []
    for s in (0, 1, 3):
        gv = (c["seed"] + s, -9, 19)
        p.op("init", s, gv, c["pick"] % P)
        M.append(gen_vals(t, gv, [n]).copy())
    M = {0: M[0], 1: M[1], 3: M[2]}
    mk = c["mk"]
    p.op("putall", 2, 0, mk)
    for op in c["ops"]:
        if "mk" in op:
            mk = op["mk"]
            p.op("putall", 2, 0, mk)
        k, lo, hi = op["op"], op["lo"], op["hi"]
        x, y = (0, 1) if op["sw"] else (1, 0)
        sel = [i for i in range(lo, hi + 1) if mk[i]]
        if k == "copy":
            p.op("scan", op["v"], "copy", x, y, 2, lo, hi, 0)
            last = np.zeros((), M[x].dtype)
            for i in range(lo, hi + 1):
                if mk[i]:
                    last = M[x][i]
                M[y][i] = last
        elif k == "add":
            if np.abs(M[x]).max() * n > (2 ** 23 if t in (3, 5) else 2 ** 30):
                continue
            p.op("scan", op["v"], "add", x, y, 2, lo, hi, op["ex"])
            if sel:
                for i in range(sel[0], hi + 1):
                    if op["ex"]:
                        M[y][i] = 0 if mk[i] else M[x][i - 1] + M[y][i - 1]
                    else:
                        M[y][i] = M[x][i] if mk[i] else M[x][i] + M[y][i - 1]
        elif k == "pack":
            if op["o"]:
                y = 3
            q = p.op("scan", op["v"], "pack", x, y, 2, lo, hi, 0)
            for r in range(P):
                p.expect_ints(q, r, [len(sel)], "number of packed elements")
            M[y][:len(sel)] = M[x][sel]
        elif k == "unpack":
            if op["o"]:
                x = 3
            q = p.op("scan", op["v"], "unpack", x, y, 2, lo, hi, 0)
            for r in range(P):
                p.expect_ints(q, r, [len(sel)], "number of unpacked elements")
            M[y][sel] = M[x][:len(sel)]
        else:
            p.op("enum", op["v"], x, lo, hi, op["s"], op["i"])
            s, i = one(t, *op["s"]), one(t, *op["i"])
            M[x][lo:hi + 1] = s + np.arange(hi - lo + 1).astype(M[x].dtype) * i
    p.op("sync")
    for j, s in enumerate((0, 1, 3)):
        r = (c["pick"] + j) % P
        k = p.op("dump", s, mask=1 << r)
        p.expect_bytes(k, r, M[s], "contents of array %d after the operations" % s)
    k = p.op("dump", 2, mask=1)
    w = np.array(mk).astype(DT[tm])
    p.expect_bytes(k, 0, w, "mask array unchanged")
    p.op("sync")
    return p
