"""C22: the one-sided runtime (ComEx / ARMCI) on the five MPI-based ports."""
import numpy as np
from model import *
from engine import Prog

PROP = "C22"
TARGET = "comexdrv"
RACY = True
BYTE = 7
TD = DT + [np.dtype("u1")]
RULE = ("A case creates runtime groups (nested, permuted rank lists), collectively allocates 1-4 memory segments (world or group; any element "
        "type; per-process sizes, zero included), fills them and runs 1-4 phases. In a phase every (segment, owner) is either split into "
        "intervals used by one process each, or accumulated into by all, or fetch-and-added by all, or updated by all under a mutex, or "
        "read by all; processes issue contiguous, strided (up to 5 levels, arbitrary strides) and vector put/get/acc, value put/get and "
        "swap/fetch-and-add, blocking, non-blocking with handles (wait or polled test) and implicit (wait_all / wait_proc), through ComEx or "
        "ARMCI calls, with world or group ranks. Phases end in a barrier, or in fences followed by a meeting outside the runtime; segments are freed and "
        "re-allocated between phases. Oracle: byte-exact model of all segments, of every destination buffer and of untouched source "
        "buffers, stride and count arrays; fetch-and-add results form one serial history. Non-trivial: at least two processes, a remote "
        "strided or vector transfer and more than one operation in one phase.")

PRB = dict(COMEX_STATIC_BUFFER_SIZE="2097152")
SRV = dict(COMEX_ENABLE_PUT_SELF="0", COMEX_ENABLE_GET_SELF="0", COMEX_ENABLE_ACC_SELF="0", COMEX_ENABLE_PUT_SMP="0",
           COMEX_ENABLE_GET_SMP="0", COMEX_ENABLE_ACC_SMP="0")
IOV = dict(SRV, COMEX_ENABLE_PUT_PACKED="0", COMEX_ENABLE_GET_PACKED="0", COMEX_ENABLE_ACC_PACKED="0", COMEX_ENABLE_PUT_DATATYPE="0",
           COMEX_ENABLE_GET_DATATYPE="0")
DTY = dict(SRV, COMEX_PUT_DATATYPE_THRESHOLD="16", COMEX_GET_DATATYPE_THRESHOLD="16")
SMALL = dict(SRV, COMEX_MAX_MESSAGE_SIZE="256", COMEX_EAGER_THRESHOLD="64", COMEX_MAX_NB_OUTSTANDING="2")
SEG = dict(SRV, COMEX_ENABLE_PUT_IOV="0", COMEX_ENABLE_GET_IOV="0", COMEX_ENABLE_ACC_IOV="0", COMEX_ENABLE_PUT_PACKED="0",
           COMEX_ENABLE_GET_PACKED="0", COMEX_ENABLE_ACC_PACKED="0", COMEX_ENABLE_PUT_DATATYPE="0", COMEX_ENABLE_GET_DATATYPE="0")
BSIZE = dict(SRV, COMEX_STATIC_BUFFER_SIZE="1024", COMEX_EAGER_THRESHOLD="1")


def configs(tier):
    q = [dict(port="ts", np=4, n=220), dict(port="ts", np=7, n=60), dict(port="ts", np=2, n=100), dict(port="pr", np=4, n=150),
         dict(port="pr", np=4, n=150, env=SRV), dict(port="pr", np=4, n=100, env=DTY), dict(port="pr", np=3, n=100, env=IOV),
         dict(port="pr", np=4, n=100, env=SMALL), dict(port="pr", np=3, n=80, env=SEG), dict(port="mt", np=3, n=120),
         dict(port="pt", np=3, n=120), dict(port="mpi3", np=3, n=120),
         dict(port="mpi3", np=4, n=80, env=dict(OMPI_MCA_osc="pt2pt"))]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="pr", np=4, n=500, env=dict(SRV, COMEX_EAGER_THRESHOLD="1", COMEX_MAX_NB_OUTSTANDING="1")),
                                                  dict(port="ts", np=4, n=800, variant="asan"), dict(port="ts", np=12, n=200)]
    return [dict(c, timeout=40) for c in q]


def sizes(draw, n, t, scale):
    m = pick(draw, [0, 0, 1, 1, 2, 3] if scale < 2 else [2, 3, 4, 5])
    top = [12, 60, 400, 3000, 20000, 150000][m]
    return [0 if chance(draw, 1, 8) else draw(I(1, top)) for _ in range(n)]


def gen_seg(draw, P, groups, scale):
    g = draw(I(-1, len(groups) - 1))
    n = P if g < 0 else len(groups[g]["w"])
    t = pick(draw, [INT, LONG, LONG, FLT, DBL, DBL, SCPL, DCPL, BYTE, INT])
    return dict(g=g, t=t, n=sizes(draw, n, t, scale), v=draw(I(0, 2)), gen=[gseed(draw), -20, 41])


def gen_op(draw, c, own, scale):
    """One transfer within an interval of L elements: everything relative to the interval."""
    o = dict(how=pick(draw, ["x1", "xs", "xs", "xs", "xv", "xv", "val"]), kind=draw(I(0, 2)), v=draw(I(0, 1)), nb=pick(draw, [-1, -1, -1, 1, 1, 2, 3]),
             gs=draw(I(0, 1)), lm=draw(I(0, 3)) == 3, g=[gseed(draw), -20, 41], al=[draw(I(-2, 2)), draw(I(-1, 1))], s=draw(I(0, 10 ** 6)))
    if own and chance(draw, 1, 10):
        o.update(how="rmw", op=draw(I(0, 1)), ex=draw(I(-5, 5)), val=draw(I(-9, 9)))
    o["lev"] = pick(draw, [0, 1, 1, 1, 2, 2, 3, 4, 5])
    o["gap"] = pick(draw, [0, 0, 1, 3])
    return o


def gen(draw, cfg):
    P = cfg["np"]
    scale = pick(draw, [0, 0, 0, 1, 1, 2])
    groups = []
    for _ in range(pick(draw, [0, 0, 1, 1, 2])):
        pa = draw(I(-1, len(groups) - 1))
        base = list(range(P)) if pa < 0 else groups[pa]["w"]
        l = list(range(len(base)))
        n = draw(I(1, len(base)))
        if chance(draw, 1, 2):
            l = draw(st.permutations(l))
        else:
            l = sorted(draw(st.permutations(l))[:n])
        l = l[:n]
        groups.append(dict(pa=pa, l=list(l), w=[base[i] for i in l], v=draw(I(0, 1))))
    segs = [gen_seg(draw, P, groups, scale) for _ in range(draw(I(1, 3)))]
    mut = [draw(I(0, 3)) for _ in range(P)] if chance(draw, 1, 3) else None
    phases = []
    cur = list(segs)
    for _ in range(draw(I(1, 3))):
        ph = dict(plan=[], re=None)
        if phases and chance(draw, 1, 3):
            k = draw(I(0, len(cur) - 1))
            ph["re"] = [k, gen_seg(draw, P, groups, scale)]
            cur = list(cur)
            cur[k] = ph["re"][1]
        for si, s in enumerate(cur):
            mem = list(range(P)) if s["g"] < 0 else groups[s["g"]]["w"]
            for ti, n in enumerate(s["n"]):
                if not n or chance(draw, 1, 5):
                    continue
                modes = ["own", "own", "own", "read"] + (["acc"] * 2 if s["t"] not in (BYTE, LLONG) else []) + (["rmw"] if s["t"] in (INT, LONG) else [])
                if mut and sum(mut) and s["t"] in (INT, LONG):
                    modes.append("lock")
                m = pick(draw, modes)
                e = dict(s=si, t=ti, m=m)
                if m == "own":
                    k = draw(I(1, min(3, n)))
                    cuts = sorted(set([0, n] + [draw(I(0, n)) for _ in range(k - 1)]))
                    e["iv"] = [dict(a=a, b=b, r=pick(draw, mem), ops=[gen_op(draw, None, True, scale) for _ in range(draw(I(1, 4)))])
                               for a, b in zip(cuts, cuts[1:])]
                elif m == "read":
                    e["ops"] = [[pick(draw, mem), dict(gen_op(draw, None, False, scale), kind=1)] for _ in range(draw(I(1, 5)))]
                elif m == "acc":
                    e["ops"] = [[pick(draw, mem), dict(gen_op(draw, None, False, scale), kind=2)] for _ in range(draw(I(1, 6)))]
                elif m == "rmw":
                    cells = [draw(I(0, n - 1)) for _ in range(draw(I(1, 3)))]
                    e["ops"] = [[pick(draw, mem), pick(draw, cells), draw(I(1, 5)), draw(I(0, 1)), draw(I(0, 1))] for _ in range(draw(I(1, 12)))]
                elif m == "lock":
                    ow = pick(draw, [i for i in range(P) if mut[i]])
                    a = draw(I(0, n - 1))
                    e.update(own=ow, mu=draw(I(0, mut[ow] - 1)), a=a, n=draw(I(1, min(n - a, 50))),
                             ops=[[pick(draw, mem), draw(I(-4, 4)), draw(I(1, 4)), draw(I(0, 1))] for _ in range(draw(I(1, 6)))])
                ph["plan"].append(e)
        ph["ord"] = draw(I(0, 10 ** 6))
        ph["end"] = pick(draw, ["bar0", "bar0", "bar1", "fall0", "fall1", "fproc0", "fproc1"])
        ph["dump"] = draw(I(0, 2)) > 0
        phases.append(ph)
    return dict(groups=groups, segs=segs, mut=mut, phases=phases)


def shape(o, L, t):
    """Elements addressed by a transfer inside an interval of L elements -> (program arguments, remote index array, local length)"""
    rng = np.random.default_rng(o["s"])
    how = o["how"]
    if how == "x1" or (how == "xs" and L == 0):
        n = int(rng.integers(1, L + 1))
        off = int(rng.integers(0, L - n + 1))
        return dict(off=off, n=n), off + np.arange(n)
    if how == "xs":
        lev, gp = o["lev"], o["gap"]
        if lev >= 3:
            c0 = 1 + int(rng.integers(0, min(L, 6)))
        else:
            c0 = 1 + int(rng.integers(0, max(1, min(L, L // 2 + 1))))
            if rng.integers(0, 2):
                c0 = 1 + int(rng.integers(0, min(L, 9)))
        cnt, ds, ls, ext, lext = [c0], [], [], c0, c0
        for i in range(lev):
            d = ext + int(rng.integers(0, gp + 1))
            m = (L - ext) // d + 1          # how many fit
            k = 1 + int(rng.integers(0, max(1, min(m, 6 if i else 40))))
            k = max(1, min(k, m))
            l = lext + int(rng.integers(0, gp + 1))
            ds.append(d); ls.append(l); cnt.append(k)
            ext += d * (k - 1)
            lext += l * (k - 1)
        off = int(rng.integers(0, L - ext + 1))
        loff = int(rng.integers(0, 3))
        ix, q = np.arange(c0), None
        for i in range(lev):
            ix = (np.arange(cnt[i + 1])[:, None] * ds[i] + ix[None, :]).ravel()
        return dict(off=off, nl=loff + lext + int(rng.integers(0, 3)), loff=loff, lev=lev, ds=ds, ls=ls, cnt=cnt), off + ix
    if how == "xv":
        nd = 1 + int(rng.integers(0, 3))
        items, pos, lpos = [], 0, 0
        for i in range(nd):
            e = 1 + int(rng.integers(0, max(1, min(L // 3, 40))))
            for _ in range(1 + int(rng.integers(0, 9))):
                g = int(rng.integers(0, 3))
                if pos + g + e > L:
                    break
                items.append((i, e, pos + g))
                pos += g + e
        if not items:
            items = [(0, min(1, L), 0)]
        desc, ix, order = [], [], rng.permutation(len(items))
        loc, lp = {}, 0
        for j in rng.permutation(len(items)):
            lp += int(rng.integers(0, 3))
            loc[int(j)] = lp
            lp += items[int(j)][1]
        for i in range(nd):
            js = [int(j) for j in order if items[int(j)][0] == i]
            if not js:
                continue
            desc.append((items[js[0]][1], [(items[j][2], loc[j]) for j in js]))
        for e, prs in desc:
            for ro, lo in prs:
                ix.append(ro + np.arange(e))
        return dict(nl=lp, desc=desc), np.concatenate(ix)
    off = int(rng.integers(0, L))
    return dict(off=off), np.array([off])


def nontrivial(c, cfg):
    if cfg["np"] < 2:
        return False
    for ph in c["phases"]:
        n, hit = 0, False
        for e in ph["plan"]:
            ops = [(iv["r"], o) for iv in e.get("iv", []) for o in iv["ops"]] + [(x[0], x[1]) for x in e.get("ops", []) if e["m"] in ("read", "acc")]
            n += len(ops) + (len(e["ops"]) if e["m"] in ("rmw", "lock") else 0)
            hit |= any(o["how"] in ("xs", "xv") for _, o in ops)
        if hit and n > 1:
            return True
    return False


def labels(c, cfg):
    for s in c["segs"]:
        yield "type_%s" % (TN + ["byte"])[s["t"]]
        yield "seg_group" if s["g"] >= 0 else "seg_world"
    for ph in c["phases"]:
        yield "end_" + ph["end"]
        if ph["re"]:
            yield "realloc"
        for e in ph["plan"]:
            yield "mode_" + e["m"]
            for o in [o for iv in e.get("iv", []) for o in iv["ops"]] + [x[1] for x in e.get("ops", []) if e["m"] in ("read", "acc")]:
                yield "%s_%s%s_%s" % (o["how"], ["put", "get", "acc"][o["kind"]], "" if o["nb"] < 0 else "_nb", "armci" if o["v"] else "comex")


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    p.mem = False
    G = c["groups"]
    bit = lambda l: sum(1 << r for r in l)
    mem = lambda s: list(range(P)) if s["g"] < 0 else G[s["g"]]["w"]
    for i, g in enumerate(G):
        j = p.op("xgrp", g["v"], i, g["pa"], len(g["l"]), g["l"], mask=bit(g["w"]))
        for k, r in enumerate(g["w"]):
            p.expect_ints(j, r, [k, len(g["w"])] + g["w"], "group rank, size and translation to world ranks")
    S, M = list(c["segs"]), []

    def create(i):
        s = S[i]
        p.op("xseg", s["v"], i, s["g"], s["t"], s["n"], mask=bit(mem(s)))
        p.op("xfill", i, s["gen"], mask=bit(mem(s)))
        sd, lo, sp = s["gen"]
        return [gen_bytes((sd + k, 0, 0), (n,), 1).reshape(n) if s["t"] == BYTE else gen_vals(s["t"], (sd + k, lo, sp), (n,)).copy() for k, n in enumerate(s["n"])]

    for i in range(len(S)):
        M.append(create(i))
    if c["mut"]:
        for r in range(P):
            p.op("xmutex", r & 1, c["mut"][r], mask=1 << r)
    p.op("xbar", 0, -1)
    for ph in c["phases"]:
        if ph["re"]:
            k, s = ph["re"]
            p.op("xfree", k, mask=bit(mem(S[k])))
            S[k] = s
            M[k] = create(k)
            p.op("xbar", 0, -1)
        # per-process operation lists, mixed across segments
        per = {r: [] for r in range(P)}
        rmws = {}
        for e in ph["plan"]:
            s, A = S[e["s"]], M[e["s"]][e["t"]]
            if e["m"] == "own":
                for iv in e["iv"]:
                    for o in iv["ops"]:
                        per[iv["r"]].append(("x", e, iv["a"], iv["b"], o))
            elif e["m"] in ("read", "acc"):
                for r, o in e["ops"]:
                    per[r].append(("x", e, 0, len(A), o))
            elif e["m"] == "rmw":
                for r, cell, add, v, gs in e["ops"]:
                    per[r].append(("r", e, cell, add, (v, gs)))
            else:
                for r, add, reps, v in e["ops"]:
                    per[r].append(("l", e, add, reps, v))
        rng = np.random.default_rng(ph["ord"])
        for r in range(P):
            # operations on one interval keep their order; different ones are mixed
            keys = {}
            for x in per[r]:
                keys.setdefault((x[1]["s"], x[1]["t"], x[2] if x[0] == "x" else -1), []).append(x)
            seq = []
            while keys:
                k = sorted(keys)[int(rng.integers(0, len(keys)))]
                seq.append(keys[k].pop(0))
                if not keys[k]:
                    del keys[k]
            emit_rank(p, c, cfg, S, M, r, seq, rmws, rng)
            touched = sorted(set(mem(S[x[1]["s"]])[x[1]["t"]] for x in seq))
            mk = 1 << r
            if ph["end"].startswith("fall"):
                p.op("xfenceall", int(ph["end"][-1]), -1, mask=mk)
            elif ph["end"].startswith("fproc"):
                for w in touched:
                    p.op("xfence", int(ph["end"][-1]), -1, w, mask=mk)
        for (si, ti, cell), ops in rmws.items():
            A = M[si][ti]
            start, dt = int(A[cell]), A.dtype

            def f(res, ops=ops, start=start):
                olds = []
                for (oi, r, add) in ops:
                    v = res.get((oi, r))
                    if not v:
                        return "fetch-and-add produced no result"
                    olds.append((int(v[0][1][0]), add))
                cur = start
                left = list(olds)
                while left:
                    nx = [x for x in left if x[0] == cur]
                    if not nx:
                        return "fetch-and-add results form no serial history: start %d, (old, add) %s" % (start, olds)
                    left.remove(nx[0])
                    cur += nx[0][1]
                return None
            p.post(f)
            A[cell] += sum(x[2] for x in ops)
        if ph["end"].startswith("bar"):
            p.op("xbar", int(ph["end"][-1]), -1)
        else:
            p.op("xmeet")
        if ph["dump"] or ph is c["phases"][-1]:
            for i, s in enumerate(S):
                j = p.op("xdump", i, mask=bit(mem(s)))
                for k, r in enumerate(mem(s)):
                    p.expect_bytes(j, r, M[i][k], "memory of rank %d in segment %d after the phase" % (k, i))
            p.op("xbar", 0, -1)
    return p


def emit_rank(p, c, cfg, S, M, r, seq, rmws, rng):
    mk = 1 << r
    pend = {}          # slot -> (si, ti, ix, kind, expectation, implicit, world)
    dirty = []         # completed non-blocking writes not yet fenced: (si, ti, ix)
    slot = 0
    # MPI-3 over two-sided messages: local completion of a write does not order
    # it before a later transfer; a fence does.
    weak = "osc" in str(cfg.get("env", {}))

    def finish(k, opi, rec):
        si, ti, ix, kind, want, impl, w = pend.pop(k)
        if kind == 1:
            p.expect_bytes(opi, r, want, "data returned by a non-blocking get", k=rec)
        else:
            dirty.append((si, ti, ix))

    def wait(k):
        if pend[k][5]:
            v = int(rng.integers(0, 2))
            if rng.integers(0, 2):
                j = p.op("xwaitall", v, mask=mk)
                ks = [x for x in sorted(pend) if pend[x][5]]
            else:
                j = p.op("xwaitproc", v, pend[k][6], mask=mk)
                ks = [x for x in sorted(pend) if pend[x][5] and pend[x][6] == pend[k][6]]
            n = 0
            for x in ks:
                g = pend[x][3] == 1
                finish(x, j, n)
                n += g
        else:
            j = p.op("xtest" if rng.integers(0, 3) == 0 else "xwait", k, mask=mk)
            finish(k, j, 0)

    for x in seq:
        e = x[1]
        si, ti = e["s"], e["t"]
        s, A = S[si], M[si][ti]
        w = ti if s["g"] < 0 else c["groups"][s["g"]]["w"][ti]
        t = s["t"]
        if x[0] == "r":
            j = p.op("xrmw", x[4][0], si, x[4][1], w, x[2], 1, x[3], 0, mask=mk)
            rmws.setdefault((si, ti, x[2]), []).append((j, r, x[3]))
            continue
        if x[0] == "l":
            p.op("xlockinc", x[4], e["mu"], e["own"], si, w, e["a"], e["n"], x[2], x[3], mask=mk)
            A[e["a"]:e["a"] + e["n"]] += A.dtype.type(x[2] * x[3])
            continue
        o = dict(x[4])
        a, b = x[2], x[3]
        if b <= a:
            continue
        if o["kind"] == 2 and (t in (BYTE, LLONG) or o["how"] in ("val", "rmw")):
            if o["how"] in ("val", "rmw"):
                o["how"] = "x1"
            if t in (BYTE, LLONG):
                o["kind"] = 0
        if o["how"] == "rmw" and t not in (INT, LONG):
            o["how"] = "x1"
        if o["how"] == "val" and t not in (INT, LONG, FLT, DBL):
            o["how"] = "xs"
        if e["m"] == "read" and o["how"] == "rmw":
            o["how"] = "x1"
        sh, ix = shape(o, b - a, t)
        ix = ix + a
        nb = -1 if o["how"] in ("val", "rmw") else o["nb"]
        wr = o["kind"] != 1 or o["how"] == "rmw"
        # outstanding transfers that touch the same elements complete first
        for k in sorted(pend):
            if k in pend:
                q = pend[k]
                if q[:2] == (si, ti) and (wr or q[3] != 1) and not (o["kind"] == 2 and q[3] == 2) and len(np.intersect1d(q[2], ix)):
                    wait(k)
        if any(d[:2] == (si, ti) and len(np.intersect1d(d[2], ix)) for d in dirty) and e["m"] != "acc":
            p.op("xfence", o["v"], -1, w, mask=mk)
            dirty[:] = [d for d in dirty if d[:2] != (si, ti)]
        if o["how"] == "val":
            j = p.op("xval", o["kind"], si, w, a + sh["off"], o["g"], mask=mk)
            if o["kind"] == 1:
                p.expect_bytes(j, r, A[ix], "value returned by GetValue")
            else:
                A[ix] = gen_vals(t, o["g"], (1,))
                if weak:
                    dirty.append((si, ti, ix))
            continue
        if o["how"] == "rmw":
            j = p.op("xrmw", o["v"], si, o["gs"], w, a + sh["off"], o["op"], o["ex"], o["val"], mask=mk)
            p.expect_ints(j, r, [A[ix][0]], "old value returned by read-modify-write")
            A[ix] = A[ix] + A.dtype.type(o["ex"]) if o["op"] else A.dtype.type(o["val"])
            continue
        n = len(ix)
        if nb >= 0:
            impl = nb == 3
            k = slot
            slot = (slot + 1) % 100
            if k in pend:
                wait(k)
            nbarg = -2 - k if impl else k
        else:
            nbarg = -1
        head = [o["kind"], o["v"], nbarg, si, o["gs"], w, int(o["lm"])]
        tail = list(o["g"]) + (list(o["al"]) if o["kind"] == 2 else [])
        if o["how"] == "x1":
            j = p.op("x1", head, a + sh["off"], sh["n"], tail, mask=mk)
        elif o["how"] == "xs":
            j = p.op("xs", head, a + sh["off"], sh["nl"], sh["loff"], sh["lev"], sh["ds"], sh["ls"], sh["cnt"], tail, mask=mk)
        else:
            l = [sh["nl"], len(sh["desc"])]
            for el, prs in sh["desc"]:
                l += [el, len(prs)]
                for ro, lo in prs:
                    l += [a + ro, lo]
            j = p.op("xv", head, l, tail, mask=mk)
        want = None
        if o["kind"] == 1:
            want = A[ix].copy()
            if nbarg == -1:
                p.expect_bytes(j, r, want, "data returned by get")
        else:
            if nbarg == -1 and weak:
                dirty.append((si, ti, ix))
            v = gen_bytes(o["g"], (n,), 1).reshape(n) if t == BYTE else gen_vals(t, o["g"], (n,))
            if o["kind"] == 0:
                A[ix] = v
            else:
                A[ix] = A[ix] + one(t, *o["al"]) * v
        if nbarg != -1:
            pend[k] = (si, ti, ix, o["kind"], want, nbarg <= -2, w)
            if rng.integers(0, 4) == 0:
                wait(k)
    for k in sorted(pend):
        if k in pend:
            wait(k)
