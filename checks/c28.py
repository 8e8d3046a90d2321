"""C28: direct access pointers address exactly the process's own part of the array."""
import itertools
import numpy as np
from model import *
from engine import Prog
from c02 import nblocks_of, blocks_of

PROP = "C28"
RULE = ("A case creates one array of any layout (with or without ghost cells, on the world, a group or a restricted list of processes), "
        "fills it with one-sided puts and then runs 1-5 rounds, each either puts and accumulates of random patches by random processes "
        "or direct access by every process: a random sub-patch of its own block, of blocks addressed by index or by grid "
        "coordinates, or of its whole segment, read and/or rewritten through the pointer with the returned strides. Reads through the "
        "pointer and the whole array (by get) after each round are compared with a sequential model. Non-trivial: a direct write "
        "of less than the whole array was followed by a get of every element.")
ASSUMPTIONS = ["which block belongs to which process is taken from index modulo process count or GA_Get_proc_index, as documented"]


def configs(tier):
    q = [dict(port="ts", np=4, n=650), dict(port="ts", np=6, n=350), dict(port="ts", np=3, n=350), dict(port="pr", np=3, n=200),
         dict(port="ts", np=1, n=100), dict(port="mpi3", np=3, n=100), dict(port="pr", np=4, n=120, env=PR_SRV)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=1500), dict(port="pt", np=4, n=1500), dict(port="ts", np=7, n=4000),
                                                  dict(port="ts", np=4, n=2500, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    grp = None
    if chance(draw, 1, 6):
        grp = sorted(gen_group(draw, P))
        a = gen_array(draw, len(grp), ghosts=True, restrict=False, kinds=(0, 1, 2), apis=(0, 1))
    else:
        a = gen_array(draw, P, ghosts=True, apis=(0, 1, 2, 3, 4, 5, 6))
    M = len(grp) if grp else P
    nb = len(blocks_of(a)) if a["kind"] >= 3 else 0
    rounds = []
    for _ in range(draw(I(1, 5))):
        if chance(draw, 1, 3):
            lo, hi = gen_patch(draw, a["dims"])
            rounds.append(dict(k="put", r=draw(I(0, M - 1)), acc=int(a["t"] != LLONG and chance(draw, 1, 4)), lo=lo, hi=hi, v=draw(I(0, 1)),
                               g=[gseed(draw), -40, 81]))
        elif a["kind"] >= 3 and chance(draw, 1, 3):
            rounds.append(dict(k="seg", v=draw(I(0, 1)), f=[draw(I(0, 999)) for _ in range(2)], how=draw(I(1, 3)), g=[gseed(draw), -40, 81]))
        elif a["kind"] >= 3:
            pick_ = [draw(I(0, nb - 1)) for _ in range(draw(I(1, 6)))]
            B = blocks_of(a)
            ops = []
            for b in pick_:
                lo, hi = B[b]
                l, h = gen_patch(draw, shp(lo, hi), full=3)
                ops.append(dict(b=b, v=draw(I(0, 1)), mode=draw(I(0, 1)) if a["kind"] > 3 else 0, lo=[x + y for x, y in zip(lo, l)],
                                hi=[x + y for x, y in zip(lo, h)], how=draw(I(1, 3)), g=[gseed(draw), -40, 81]))
            rounds.append(dict(k="blk", ops=ops))
        else:
            full = chance(draw, 1, 4)
            rounds.append(dict(k="acc", v=draw(I(0, 1)), f=[[(0, 999)[i % 2] if full else draw(I(0, 999)) for i in range(2 * len(a["dims"]))] for _ in range(M)],
                               how=draw(I(1, 3)), twice=draw(I(0, 2)), g=[gseed(draw), -40, 81]))
    return dict(a=a, grp=grp, gdef=int(bool(grp) and chance(draw, 1, 2)), rounds=rounds, g=[gseed(draw), -3000000, 6000001])


def nontrivial(c, cfg):
    return any(r["k"] == "acc" and r["how"] & 2 or r["k"] == "seg" and r["how"] & 2 or r["k"] == "blk" and any(o["how"] & 2 for o in r["ops"]) for r in c["rounds"])


def labels(c, cfg):
    a = c["a"]
    yield "kind%d" % a["kind"]
    yield TN[a["t"]]
    yield "%dd" % len(a["dims"])
    if a["gw"]:
        yield "ghosts"
    if a["nr"]:
        yield "restricted"
    if c["grp"]:
        yield "group"
    for r in c["rounds"]:
        yield r["k"]


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    a, t = c["a"], c["a"]["t"]
    mask, mem = -1, list(range(P))
    if c["grp"]:
        mem = c["grp"]
        mask = bits(mem)
        p.op("pgcreate", 0, 0, len(mem), mem)
        if c["gdef"]:
            p.op("pgdefault", 0, 0, mask=mask)
    emit_create(p, 0, a, grp=0 if c["grp"] else -1, mask=mask)
    p.op("init", 0, c["g"], -1 - mem[0], mask=mask)
    sync = lambda: p.op("gsync", 0 if c["grp"] else -1, mask=mask)
    sync()
    A = gen_vals(t, c["g"], a["dims"])
    steps = []
    B = blocks_of(a) if a["kind"] >= 3 else None
    grid = {3: [0] * len(a["dims"]), 4: a["a2"], 5: a["a2"], 6: a["a3"]}.get(a["kind"])
    for r in c["rounds"]:
        k = r["k"]
        if k == "put":
            s = shp(r["lo"], r["hi"])
            if r["acc"]:
                p.op("acc", r["v"], 0, r["lo"], r["hi"], s[1:], r["g"], [1, 0], mask=1 << mem[r["r"]])
            else:
                p.op("put", r["v"], 0, r["lo"], r["hi"], s[1:], r["g"], mask=1 << mem[r["r"]])
            steps.append(("put", r, None))
        elif k == "acc":
            js = []
            for i, w in enumerate(mem):
                for n in range(1 + (r["twice"] == 1)):
                    g = [r["g"][0] + 13 * i + 1000 * n] + r["g"][1:]
                    js.append((w, g, r["how"] if not n else 1, p.op("dacc", r["v"], 0, r["f"][i], r["how"] if not n else 1, g, mask=1 << w)))
            steps.append(("acc", r, js))
        elif k == "blk":
            js = []
            for o in r["ops"]:
                ix = list(np.unravel_index(o["b"], nblocks_of(a)))
                js.append((o, p.op("blkacc", o["v"], 0, o["mode"], o["b"], ix, grid, B[o["b"]][0], B[o["b"]][1], o["lo"], o["hi"], o["how"], o["g"])))
            steps.append(("blk", r, js))
        else:
            js = []
            for i, w in enumerate(mem):
                g = [r["g"][0] + 13 * i] + r["g"][1:]
                js.append((w, g, p.op("segacc", r["v"], 0, r["f"], r["how"], g, mask=1 << w)))
            steps.append(("seg", r, js))
        sync()
        steps.append(("dump", p.op("dump", 0, mask=mask), mem[0]))
        sync()
    if c["gdef"]:
        p.op("pgdefault", 0, -1, mask=mask)
    dt = DT[t]

    def cells(x):
        return np.ascontiguousarray(x).astype(dt).tobytes()

    def f(res):
        cur = A.copy()
        segmap = {}
        for st, r, js in steps:
            if st == "put":
                v = gen_vals(t, r["g"], shp(r["lo"], r["hi"]))
                x = cur[sl(r["lo"], r["hi"])]
                with np.errstate(all="ignore"):
                    cur[sl(r["lo"], r["hi"])] = (x + v).astype(dt) if r["acc"] else v
            elif st == "acc":
                got = []
                for w, g, how, j in js:
                    rec = res[(j, w)]
                    q = rec[0][1]
                    if len(q) == 0:
                        continue
                    q = q.tolist()
                    nd = len(q) // 2
                    lo, hi = q[:nd], q[nd:]
                    if how & 1 and bytes(rec[1][1]) != cells(cur[sl(lo, hi)]):
                        return "rank %d reads %s..%s through its pointer: %s" % (w, lo, hi, diff(rec[1][1], cur[sl(lo, hi)], dt))
                    if how & 2:
                        cur[sl(lo, hi)] = gen_vals(t, g, shp(lo, hi))
                    got.append((w, lo, hi))
            elif st == "blk":
                for o, j in js:
                    own = [w for w in mem if len(res.get((j, w), [])) or (not o["how"] & 1 and False)]
                    if o["how"] & 1:
                        if len(own) != 1:
                            return "block %d has %d owners: %s" % (o["b"], len(own), own)
                        rec = res[(j, own[0])]
                        if bytes(rec[1][1]) != cells(cur[sl(o["lo"], o["hi"])]):
                            return "rank %d reads %s..%s of block %d: %s" % (own[0], o["lo"], o["hi"], o["b"], diff(rec[1][1], cur[sl(o["lo"], o["hi"])], dt))
                    if o["how"] & 2:
                        cur[sl(o["lo"], o["hi"])] = gen_vals(t, o["g"], shp(o["lo"], o["hi"]))
            elif st == "seg":
                flat = cur.reshape(-1)
                key = flat.view(np.dtype((np.void, dt.itemsize)))
                allb = b"".join(bytes(res[(j, w)][1][1]) for w, g, j in js)
                n = sum(int(res[(j, w)][0][1][0]) for w, g, j in js)
                if n != flat.size:
                    return "the segments hold %d elements, the array has %d" % (n, flat.size)
                segs = np.frombuffer(allb, dtype=np.dtype((np.void, dt.itemsize)))
                if sorted(x.tobytes() for x in segs) != sorted(x.tobytes() for x in key):
                    return "the elements of the segments are not those of the array"
                if not segmap:
                    w_ = {}
                    for i, x in enumerate(key):
                        w_.setdefault(x.tobytes(), []).append(i)
                    if any(len(x) > 1 for x in w_.values()):
                        segmap["dup"] = 1
                    else:
                        o = 0
                        for w, g, j in js:
                            m = int(res[(j, w)][0][1][0])
                            segmap[w] = [w_[x.tobytes()][0] for x in segs[o:o + m]]
                            o += m
                        for w in segmap:
                            bad = [i for i in segmap[w] if owner_model(a, P, i, B) not in (None, w)]
                            if bad:
                                return "element %s is in the segment of rank %d" % (np.unravel_index(bad[0], a["dims"]), w)
                elif "dup" not in segmap:
                    o = 0
                    for w, g, j in js:
                        m = int(res[(j, w)][0][1][0])
                        if segs[o:o + m].tobytes() != key[segmap[w]].tobytes():
                            return "the segment of rank %d changed its order or has stale elements" % w
                        o += m
                if r["how"] & 2:
                    if "dup" in segmap:
                        return None      # positions unknown: stop predicting
                    for w, g, j in js:
                        ln, x, y = res[(j, w)][0][1].tolist()
                        if ln:
                            flat[segmap[w][x:y + 1]] = gen_vals(t, g, [y - x + 1])
            else:
                got = res[(r, js)][0][1]
                if bytes(got) != cells(cur):
                    return "after the round, get sees: " + diff(got, cur, dt)
        return None
    p.post(f)
    return p


def owner_model(a, P, i, B):
    if a["kind"] != 3:
        return None
    x = np.unravel_index(i, a["dims"])
    nb = nblocks_of(a)
    ix = [int(v) // b for v, b in zip(x, a["a1"])]
    return int(np.ravel_multi_index(ix, nb)) % P


def diff(got, want, dt):
    g = np.frombuffer(bytes(got), dtype=dt)
    w = np.ascontiguousarray(want).reshape(-1)
    if g.size != w.size:
        return "%d elements instead of %d" % (g.size, w.size)
    b = [i for i in range(g.size) if g[i:i + 1].tobytes() != w[i:i + 1].tobytes()]
    i = b[0]
    return "%d of %d elements differ, first at %s: %s instead of %s" % (len(b), g.size, [int(x) for x in np.unravel_index(i, np.shape(want))], g[i], w[i])
