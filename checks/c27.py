"""C27: what a fence, a sync or a synchronising collective completes is visible to whoever is told about it."""
import numpy as np
from model import *
from engine import Prog
from c07 import apply1, apply2, LIM, T2

PROP = "C27"
RACY = True
RULE = ("A case is a schedule in two interleaved parts. Channels: writers bracket generated updates (put, strided, periodic, field, scatter, "
        "non-blocking put, or accumulates of every form) of an array of any layout, possibly on a process group or a restricted list, "
        "with GA_Init_fence/GA_Fence (also nested), then raise an atomic flag; readers poll the flag, read the region and acknowledge; "
        "several channels with different writers, readers and rounds run at the same time with no barrier. Phases: one-sided updates, "
        "then GA_Sync, GA_Pgroup_sync or a collective (elementwise, copy, transpose, multiply, dot, duplicate, selection) relied upon "
        "for its synchronisation, or masked with GA_Mask_sync and synchronised explicitly, then reads; generated delays per process. "
        "The delivery of one-sided operations is either that of the port or an adversarial one that postpones each as long as the "
        "interface allows. Every value read is compared with the sequential model. Non-trivial: a process reads what another process "
        "wrote after the last barrier, or a collective without explicit synchronisation separates one-sided operations of different processes.")


def configs(tier):
    q = [dict(port="ts", np=4, n=330, chaos=1), dict(port="ts", np=6, n=130, chaos=1), dict(port="ts", np=5, emb=[4, 0, 2], n=130, chaos=1), dict(port="ts", np=3, n=120),
         dict(port="pr", np=5, n=80), dict(port="mpi3", np=3, n=50), dict(port="pr", np=4, n=50, env=PR_SRV), dict(port="ts", np=2, n=60, chaos=1)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q] + [dict(port="mt", np=4, n=900), dict(port="pt", np=4, n=600), dict(port="ts", np=8, n=800, chaos=1),
                                                  dict(port="pr", np=4, n=600, env=PR_DT), dict(port="ts", np=4, n=800, variant="asan", chaos=1)]
    return [dict(c, timeout=60) for c in q]


def gen(draw, cfg):
    P = cfg["np"]
    chans = []
    G = gen_group(draw, P, False) if chance(draw, 1, 3) else []
    if len(G) < 2:
        G = []
    for i in range(draw(I(0, 3)) if P > 1 else 0):
        on = 1 if G and chance(draw, 1, 2) else 0
        mem = sorted(G) if on else list(range(P))
        acc = draw(I(0, 1))
        a = gen_array(draw, len(mem), types=T2 if acc else range(7), ghosts=True)
        if chance(draw, 1, 3):
            a = gen_array(draw, len(mem), types=T2 if acc else range(7), ghosts=False, dims=pick(draw, [[300], [30, 25], [4, 90]]))
        w = draw(st.lists(I(0, len(mem) - 1), min_size=1, max_size=3, unique=True))
        r = draw(st.lists(I(0, len(mem) - 1), min_size=1, max_size=3, unique=True))
        chans.append(dict(a=a, g=on, acc=acc, w=[mem[x] for x in w], r=[mem[x] for x in r], k=draw(I(0, len(a["dims"]) - 1)),
                          rounds=draw(I(1, 3)), seed=gseed(draw)))
    phases = []
    if not chans or chance(draw, 2, 3):
        t = pick(draw, T2)
        same = chance(draw, 2, 3)
        a0 = gen_array(draw, P, t=t, nds=(1, 2, 2, 2, 3, 4), ghosts=True)
        if chance(draw, 1, 3):
            n = draw(I(2, 12))
            a0 = gen_array(draw, P, t=t, dims=[n, n])
        arrs = [a0] + [gen_array(draw, P, t=t, dims=list(a0["dims"])) if not same else dict(a0, api=draw(I(0, 1))) for _ in range(draw(I(1, 2)))]
        for _ in range(draw(I(1, 6))):
            phases.append(dict(seed=gseed(draw), wr=draw(I(0, 3)), bar=draw(I(0, 3)), mask=draw(I(0, 7)), op=draw(I(0, 11)), rd=draw(I(0, 3)), v=draw(I(0, 2))))
    else:
        arrs = []
    return dict(G=G, chans=chans, arrs=arrs, phases=phases, seed=gseed(draw), fl=gen_array(draw, P, t=LONG, dims=[3 * max(1, len(chans))], kinds=(0, 1, 2, 3)),
                t=arrs[0]["t"] if arrs else 0)


def nontrivial(c, cfg):
    return any(set(x["r"]) - set(x["w"]) for x in c["chans"]) or (any(x["wr"] for x in c["phases"]) and cfg["np"] > 1)


def labels(c, cfg):
    for x in c["chans"]:
        yield "channel_%s%s" % ("acc" if x["acc"] else "put", "_group" if x["g"] else "")
        yield "kind%d" % x["a"]["kind"]
        if len(x["w"]) > 1:
            yield "several_writers"
    for x in c["phases"]:
        yield "phase"
    if cfg.get("chaos"):
        yield "adversarial_delivery"


def rpatch(rng, lo, hi):
    a, b = [], []
    for l, h in zip(lo, hi):
        x, y = sorted(int(v) for v in rng.integers(l, h + 1, 2))
        a.append(x)
        b.append(y)
    return a, b


def put_update(p, rng, s, a, A, lo, hi, mk, nb, raw=False):
    """One update of some elements inside lo..hi; A follows."""
    t, nd = a["t"], len(a["dims"])
    g = [int(rng.integers(0, 9999)), -9, 19]
    how = int(rng.integers(0, 7))
    L, H = rpatch(rng, lo, hi) if rng.integers(0, 2) else (list(lo), list(hi))
    s_ = shp(L, H)
    v = int(rng.integers(0, 3))
    if how == 1:
        sk = [int(rng.integers(1, 3)) for _ in range(nd)]
        q = [(h - l) // k + 1 for l, h, k in zip(L, H, sk)]
        p.op("sput", v, s, L, H, sk, q[1:], g, mask=mk)
        A[tuple(slice(l, h + 1, k) for l, h, k in zip(L, H, sk))] = gen_vals(t, g, q)
        return
    if how == 2:
        p.op("pput", v, s, L, H, s_[1:], g, mask=mk)
    elif how == 3:
        n = int(rng.integers(1, 9))
        subs = sorted({tuple(int(rng.integers(l, h + 1)) for l, h in zip(lo, hi)) for _ in range(n)})
        p.op("scatter", int(rng.integers(0, 6)), s, len(subs), [x for y in subs for x in y], g, mask=mk)
        for y, x in zip(subs, gen_vals(t, g, (len(subs),))):
            A[y] = x
        return
    elif how == 4:
        p.op("nbput", v, nb, s, L, H, s_[1:], g, mask=mk)
        p.op("nbwait", nb, 0, mask=mk)
    elif how == 5 and raw:
        # the leading half of every element
        fs = A.dtype.itemsize // 2
        B = A.view(np.uint8).reshape(A.shape + (A.dtype.itemsize,))
        p.op("fput", s, L, H, 0, fs, s_[1:], g, int(rng.integers(0, 4)), mask=mk)
        B[sl(L, H) + (slice(0, fs),)] = gen_bytes(g, s_, fs)
        return
    else:
        p.op("put", v, s, L, H, s_[1:], g, mask=mk)
    A[sl(L, H)] = gen_vals(t, g, s_)


def acc_update(p, rng, s, a, A, mk, nb):
    t, nd = a["t"], len(a["dims"])
    g = [int(rng.integers(0, 9999)), -9, 19]
    al = [int(rng.integers(-2, 3)), int(rng.integers(-2, 3)) if t in CPX else 0]
    how = int(rng.integers(0, 6))
    lo, hi = [0] * nd, [x - 1 for x in a["dims"]]
    L, H = rpatch(rng, lo, hi) if rng.integers(0, 3) else (lo, hi)
    s_ = shp(L, H)
    f = one(t, *al)
    v = int(rng.integers(0, 3))
    if how == 1:
        sk = [int(rng.integers(1, 3)) for _ in range(nd)]
        q = [(h - l) // k + 1 for l, h, k in zip(L, H, sk)]
        p.op("sacc", v, s, L, H, sk, q[1:], g, al, mask=mk)
        A[tuple(slice(l, h + 1, k) for l, h, k in zip(L, H, sk))] += f * gen_vals(t, g, q)
        return
    if how == 3:
        n = int(rng.integers(1, 9))
        subs = [tuple(int(rng.integers(0, x)) for x in a["dims"]) for _ in range(n)]
        p.op("scatacc", int(rng.integers(0, 6)), s, n, [x for y in subs for x in y], g, al, mask=mk)
        for y, x in zip(subs, f * gen_vals(t, g, (n,))):
            A[y] += x
        return
    if how == 2:
        p.op("pacc", v, s, L, H, s_[1:], g, al, mask=mk)
    elif how == 4:
        p.op("nbacc", v, nb, s, L, H, s_[1:], g, al, mask=mk)
        p.op("nbwait", nb, 0, mask=mk)
    else:
        p.op("acc", v, s, L, H, s_[1:], g, al, mask=mk)
    A[sl(L, H)] += f * gen_vals(t, g, s_)


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    ALL = (1 << P) - 1
    if c["G"]:
        p.op("pgcreate", c["seed"] % 3, 0, len(c["G"]), c["G"])
    FL, D0 = 4, 5           # flag array, slots of the phase arrays
    emit_create(p, FL, c["fl"])
    p.op("init", FL, (0, 0, 1), 0)
    M = []
    for i, x in enumerate(c["chans"]):
        mk = bits(c["G"]) if x["g"] else ALL
        emit_create(p, i, x["a"], grp=0 if x["g"] else -1, mask=mk)
        g = (c["seed"] + i, -9, 19)
        p.op("init", i, g, -1 - x["w"][0], mask=mk)
        M.append(gen_vals(x["a"]["t"], g, x["a"]["dims"]).copy())
    p.op("sync")
    # ---- channels: per channel the list of its emitters, merged at random in program order
    rng = np.random.default_rng(c["seed"])
    todo = [0] * len(c["chans"])
    while True:
        live = [i for i, x in enumerate(c["chans"]) if todo[i] < x["rounds"]]
        if not live:
            break
        i = live[int(rng.integers(0, len(live)))]
        x, k = c["chans"][i], todo[i]
        todo[i] += 1
        a, d, t = x["a"], x["a"]["dims"], x["a"]["t"]
        r = np.random.default_rng((x["seed"], k))
        flag, ack = [3 * i], [3 * i + 1]
        A = M[i]
        n = d[x["k"]]
        cut = [0] + sorted(int(r.integers(0, n + 1)) for _ in x["w"][1:]) + [n]
        for j, w in enumerate(x["w"]):
            mk = 1 << w
            if k:
                p.op("waitge", FL, ack, k * len(x["r"]), mask=mk)
            nest = int(r.integers(0, 4)) == 0
            p.op("initfence", mask=mk)
            if nest:
                p.op("initfence", mask=mk)
            lo, hi = [0] * len(d), [y - 1 for y in d]
            lo[x["k"]], hi[x["k"]] = cut[j], cut[j + 1] - 1
            for u in range(int(r.integers(1, 4))):
                if x["acc"]:
                    acc_update(p, r, i, a, A, mk, 10 + i)
                elif lo[x["k"]] <= hi[x["k"]]:
                    put_update(p, r, i, a, A, lo, hi, mk, 10 + i, True)
                if nest and u == 0:
                    p.op("fence", mask=mk)
                    nest = False
            if nest:
                p.op("fence", mask=mk)
            p.op("fence", mask=mk)
            p.op("readinc", int(r.integers(0, 3)), FL, 1, flag, 1, mask=mk)
        for w in x["r"]:
            mk = 1 << w
            p.op("waitge", FL, flag, (k + 1) * len(x["w"]), mask=mk)
            L, H = rpatch(r, [0] * len(d), [y - 1 for y in d]) if r.integers(0, 2) else ([0] * len(d), [y - 1 for y in d])
            q = p.op("get", int(r.integers(0, 3)), i, L, H, shp(L, H)[1:], mask=mk)
            p.expect_bytes(q, w, A[sl(L, H)].copy(), "channel %d round %d read by rank %d after the flag" % (i, k, w))
            p.op("readinc", 0, FL, 1, ack, 1, mask=mk)
    if c["chans"]:
        p.op("sync")
    # ---- phases
    t = c["t"]
    X = []
    for i, a in enumerate(c["arrs"]):
        emit_create(p, D0 + i, a)
        g = (c["seed"] + 50 + i, -4, 9)
        p.op("init", D0 + i, g, c["seed"] % P)
        X.append(gen_vals(t, g, a["dims"]).copy())
    n = len(X)
    ok = lambda r: r is not None and np.all(np.isfinite(r)) and float(np.max(np.abs(r))) < LIM[t]

    def delay(r):
        for w in range(P):
            if r.integers(0, 6) == 0:
                p.op("usleep", int(r.integers(1, 400)), mask=1 << w)

    def barrier(r):
        z = int(r.integers(0, 4))
        delay(r)
        if z == 0:
            p.op("gsync", -1)
        elif z == 1:
            i = int(r.integers(0, n))
            al = [int(r.integers(-1, 2)), 0]
            y = apply1("addc" if t != LLONG else "scale", t, X[i], one(t, *al))
            if ok(y):
                p.op("el1", int(r.integers(0, 3)), "addc", D0 + i, 0, al)
                X[i][...] = y
            else:
                p.op("sync")
        else:
            p.op("sync")

    def reads(r, m):
        for w in range(P):
            if r.integers(0, 3) < m:
                for i in r.permutation(n)[:int(r.integers(1, n + 1))]:
                    i = int(i)
                    d = c["arrs"][i]["dims"]
                    L, H = rpatch(r, [0] * len(d), [y - 1 for y in d]) if r.integers(0, 2) else ([0] * len(d), [y - 1 for y in d])
                    q = p.op("get", int(r.integers(0, 3)), D0 + i, L, H, shp(L, H)[1:], mask=1 << w)
                    p.expect_bytes(q, w, X[i][sl(L, H)].copy(), "phase %d: array %d read by rank %d" % (ph, i, w))

    for ph, f in enumerate(c["phases"]):
        r = np.random.default_rng((f["seed"], 7))
        if f["wr"] or f["bar"] == 0:
            barrier(r)
        if f["wr"]:
            i = int(r.integers(0, n))
            d = c["arrs"][i]["dims"]
            if f["wr"] == 3:
                for w in range(P):
                    if r.integers(0, 2):
                        acc_update(p, r, D0 + i, c["arrs"][i], X[i], 1 << w, 10 + w)
            else:
                k = int(r.integers(0, len(d)))
                m = d[k]
                cut = [0] + sorted(int(r.integers(0, m + 1)) for _ in range(P - 1)) + [m]
                perm = r.permutation(P)
                for w in range(P):
                    w = int(w)
                    j = int(perm[w])
                    lo, hi = [0] * len(d), [y - 1 for y in d]
                    lo[k], hi[k] = cut[j], cut[j + 1] - 1
                    if lo[k] <= hi[k] and r.integers(0, 3):
                        put_update(p, r, D0 + i, c["arrs"][i], X[i], lo, hi, 1 << w, 10 + w)
        if f["bar"] == 1:
            barrier(r)
            reads(r, f["rd"])
            continue
        delay(r)
        m = f["mask"]
        b, e = (m & 1, m >> 1 & 1) if m < 4 else (1, 1)
        if not b:
            p.op("sync")
        if m < 4:
            p.op("masksync", b, e)
        i, j, k = (int(z) for z in r.integers(0, n, 3))
        al, be = one(t, 1), one(t, int(r.integers(-1, 2)))
        v = f["v"]
        op = f["op"]
        dim = c["arrs"][0]["dims"]
        whole = [[0] * len(dim), [y - 1 for y in dim]]
        pt = rpatch(r, *whole)
        ps = sl(*pt)
        a = D0
        done = True
        if op == 0:
            p.op("el1", v, "fill", a + i, 0, [3, 0])
            X[i][...] = one(t, 3)
        elif op == 1:
            y = apply1("scale", t, X[i], be)
            p.op("el1", v, "scale", a + i, 0, [int(be.real), 0])
            X[i][...] = y
        elif op == 2:
            y = apply1("addc", t, X[i][ps], be)
            if ok(y):
                p.op("el1", v, "addc", a + i, 1, *pt, [int(be.real), 0])
                X[i][ps] = y
            else:
                done = False
        elif op == 3:
            y = apply2("add", t, X[i], X[j], al, be)
            if ok(y):
                p.op("gadd", v, a + i, a + j, a + k, [1, 0], [int(be.real), 0], 0)
                X[k][...] = y
            else:
                done = False
        elif op == 4:
            y = apply2("mul", t, X[i][ps], X[j][ps], al, be)
            if ok(y) and float(np.max(np.abs(y))) < 2 ** 15:
                p.op("el2", v, "mul", a + i, a + j, a + k, 1, *pt, *pt, *pt)
                X[k][ps] = y
            else:
                done = False
        elif op == 5 and i != j:
            p.op("copy", v, a + i, a + j)
            X[j][...] = X[i]
        elif op == 6 and i != j and len(dim) == 2 and dim[0] == dim[1]:
            p.op("transpose", v, a + i, a + j)
            X[j][...] = X[i].T.copy()
        elif op == 7 and i != j:
            p.op("copyp", v, "n", a + i, a + j, *pt, *pt)
            X[j][ps] = X[i][ps]
        elif op == 8:
            p.op("el1", v, "zero", a + i, 1, *pt, [0, 0])
            X[i][ps] = 0
        elif op == 9:
            # the result of a dot product depends on the entry synchronisation
            q = p.op("dot", v, a + i, a + j)
            z = np.sum(X[i].astype(np.complex128) * X[j].astype(np.complex128))
            if float(np.sum(np.abs(X[i].astype(np.complex128)) * np.abs(X[j].astype(np.complex128)))) < LIM[t]:
                for w in range(P):
                    p.expect(q, w, 0, lambda x, z=z: None if abs(complex(x[1][0], x[1][1] if len(x[1]) > 1 else 0) - z) <= 1e-5 * (1 + abs(z)) else "got %s expected %s" % (list(x[1]), z), "dot product")
        elif op == 10 and t not in CPX:
            q = p.op("selelem", v, a + i, "max")
            for w in range(P):
                p.expect_bytes(q, w, np.array([np.max(X[i])]), "largest element")
        elif op == 11 and i != j and j != k and i != k and len(dim) == 2 and dim[0] == dim[1] and t in (DBL, DCPL, FLT, SCPL):
            y = X[i] @ X[j]
            if ok(y) and float(np.max(np.abs(y))) < 2 ** 15:
                p.op("gemm", v % 2 * 2, "n", "n", dim[0], dim[0], dim[0], a + i, a + j, a + k, [1, 0], [0, 0])
                X[k][...] = y
            else:
                done = False
        else:
            done = False
        if not done:
            p.op("el1", v, "scale", a + i, 0, [1, 0])
        if not e:
            p.op("sync")
        reads(r, f["rd"])
    p.op("sync")
    for i, x in enumerate(c["chans"]):
        w = x["r"][0]
        q = p.op("dump", i, mask=1 << w)
        p.expect_bytes(q, w, M[i], "final contents of channel array %d" % i)
    for i in range(n):
        q = p.op("dump", D0 + i, mask=1 << (c["seed"] + i) % P)
        p.expect_bytes(q, (c["seed"] + i) % P, X[i], "final contents of phase array %d" % i)
    p.op("sync")
    for i in range(n):
        p.op("destroy", D0 + i)
    for i, x in enumerate(c["chans"]):
        p.op("destroy", i, mask=bits(c["G"]) if x["g"] else ALL)
    p.op("destroy", FL)
    if c["G"]:
        p.op("pgdestroy", c["seed"] % 3, 0, mask=bits(c["G"]))
    return p
