"""C04: concurrent accumulates, fetch-and-add and critical sections."""
import numpy as np
from model import *
from engine import Prog

PROP = "C04"
RACY = True
RULE = ("A case creates an accumulate target (any type and layout), a counter array (int or long) and a lock-protected long array with a "
        "generated number of mutexes; then every process runs, without any synchronisation, its own generated mix of repeated blocking, "
        "non-blocking and scattered accumulates into overlapping regions, fetch-and-adds on few counters and critical sections (some "
        "nested in ascending order). Oracle: final values equal the initial value plus every contribution; the values returned by "
        "fetch-and-add form one serial history; locked read-modify-write cycles lose no update. Non-trivial: at least two processes "
        "touch a common element, counter or lock.")


def configs(tier):
    q = [dict(port="ts", np=4, n=160, chaos=1), dict(port="ts", np=7, n=50), dict(port="pr", np=5, n=90), dict(port="mpi3", np=3, n=90),
         dict(port="pr", np=4, n=70, env=PR_SRV), dict(port="pr", np=4, n=50, env=PR_DT), dict(port="pr", np=4, n=40, env=PR_IOV), dict(port="ts", np=2, n=100)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 15) for c in q] + [dict(port="mt", np=4, n=800), dict(port="pt", np=4, n=800), dict(port="ts", np=10, n=150),
                                                  dict(port="ts", np=4, n=500, variant="asan")]
    return [dict(c, timeout=60) for c in q]


def gen(draw, cfg):
    P = cfg["np"]
    a = gen_array(draw, P, types=[INT, LONG, FLT, DBL, SCPL, DCPL], ghosts=True)
    if chance(draw, 1, 4):
        a = gen_array(draw, P, types=[INT, LONG, FLT, DBL, SCPL, DCPL], dims=pick(draw, [[1], [700], [40, 40], [3, 500], [12, 12, 12]]), kinds=(0, 1, 2, 3))
    b = gen_array(draw, P, types=[INT, LONG], ghosts=True)
    c = gen_array(draw, P, t=LONG, kinds=(0, 1, 2, 3))
    nm = draw(I(1, 2 * P + 1))
    hot = [[draw(I(0, x - 1)) for x in b["dims"]] for _ in range(draw(I(1, 3)))]
    # one protected patch per mutex: a slab of the first dimension
    k = draw(I(1, min(nm, c["dims"][0])))
    tasks = []
    reps = pick(draw, [2, 5, 20])
    patches = [gen_patch(draw, a["dims"], 3) for _ in range(draw(I(1, 3)))]
    for r in range(P):
        l = []
        for _ in range(draw(I(0, 5))):
            m = pick(draw, ["acc", "acc", "sacc", "inc", "inc", "lock", "lock", "nest"])
            o = dict(m=m, g=[gseed(draw), -20, 41])
            if m == "acc":
                o["p"] = pick(draw, patches) if chance(draw, 2, 3) else gen_patch(draw, a["dims"])
                o["n"], o["al"], o["how"] = draw(I(1, reps)), gen_scal(draw, a["t"], -2, 2), draw(I(0, 1))
                o["ld"] = gen_ld(draw, shp(*o["p"]))
            elif m == "sacc":
                o["n"], o["al"], o["v"] = draw(I(1, 12)), gen_scal(draw, a["t"], -2, 2), draw(I(0, 5))
            elif m == "inc":
                o["v"], o["e"], o["n"], o["inc"] = draw(I(0, 4)), draw(I(0, len(hot) - 1)), draw(I(1, 3 * reps)), draw(I(0, 5))
            else:
                o["k"], o["n"], o["how"] = draw(I(0, k - 1)), draw(I(1, max(2, reps // 2))), draw(I(0, 1)) * 2
                if m == "nest" and nm > k:
                    o["outer"] = draw(I(k, nm - 1))
            l.append(o)
        tasks.append(l)
    return dict(a=a, b=b, c=c, nm=nm, hot=hot, k=k, tasks=tasks, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    s = {}
    for r, l in enumerate(c["tasks"]):
        for o in l:
            key = ("a",) if o["m"] in ("acc", "sacc") else ("i", o["e"]) if o["m"] == "inc" else ("l", o["k"])
            s.setdefault(key, set()).add(r)
    return any(len(v) > 1 for v in s.values())


def labels(c, cfg):
    yield TN[c["a"]["t"]]
    yield "kind%d" % c["a"]["kind"]
    for l in c["tasks"]:
        for o in l:
            yield o["m"] + ("_nb" if o["m"] == "acc" and o["how"] else "")


def slab(c, k):
    d = c["c"]["dims"]
    K = c["k"]
    lo, hi = [0] * len(d), [x - 1 for x in d]
    lo[0], hi[0] = k * d[0] // K, (k + 1) * d[0] // K - 1
    return lo, hi


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    for i, n in enumerate("abc"):
        j = emit_create(p, i, c[n])
        for r in range(P):
            p.expect_ints(j, r, [1, 0], "creation succeeds")
    gs = [(c["seed"] + i, -100, 201) for i in range(3)]
    M = [gen_vals(c[n]["t"], g, c[n]["dims"]).copy() for n, g in zip("abc", gs)]
    for i, g in enumerate(gs):
        p.op("init", i, g, c["pick"] % P)
    q = p.op("mutexes", c["nm"])
    for r in range(P):
        p.expect(q, r, 0, lambda v: None if v[1][0] else "mutex creation reports failure", "mutexes")
    p.op("sync")
    A = M[0]
    ta = c["a"]["t"]
    hist = {}
    for r in range(P):
        mk = 1 << r
        for o in c["tasks"][r]:
            m = o["m"]
            if m == "acc":
                lo, hi = o["p"]
                p.op("accn", 0, lo, hi, o["ld"], o["n"], o["g"], o["al"], o["how"], mask=mk)
                A[sl(lo, hi)] += DT[ta].type(o["n"]) * (one(ta, *o["al"]) * gen_vals(ta, o["g"], shp(lo, hi)))
            elif m == "sacc":
                rng = np.random.default_rng(o["g"][0])
                subs = [[int(rng.integers(0, x)) for x in c["a"]["dims"]] for _ in range(o["n"])]
                p.op("scatacc", o["v"], 0, o["n"], [x for s in subs for x in s], o["g"], o["al"], mask=mk)
                v = one(ta, *o["al"]) * gen_vals(ta, o["g"], (o["n"],))
                for s, x in zip(subs, v):
                    A[tuple(s)] += x
            elif m == "inc":
                e = c["hot"][o["e"]]
                q = p.op("readinc", o["v"], 1, o["n"], e, o["inc"], mask=mk)
                hist.setdefault(tuple(e), []).append((q, r, o["n"], o["inc"]))
                M[1][tuple(e)] += o["n"] * o["inc"]
            else:
                lo, hi = slab(c, o["k"])
                if "outer" in o:
                    # nested: the inner lock has the smaller number on every process, so the order is the same everywhere
                    p.op("lock", o["outer"], mask=mk)
                p.op("lockrmw", o["k"], 2, lo, hi, o["n"], o["how"], mask=mk)
                if "outer" in o:
                    p.op("unlock", o["outer"], mask=mk)
                M[2][sl(lo, hi)] += o["n"]
    p.op("sync")
    init_b = gen_vals(c["b"]["t"], gs[1], c["b"]["dims"])
    for e, l in hist.items():
        def chk(res, e=e, l=l):
            ev = []
            for q, r, n, inc in l:
                v = [int(x) for x in res[(q, r)][0][1]]
                if any(y < x for x, y in zip(v, v[1:])) or (inc > 0 and any(y == x for x, y in zip(v, v[1:]))):
                    return "fetch-and-add of rank %d on %s returns a non-increasing sequence %s" % (r, e, v)
                ev += [(x, inc) for x in v]
            cur = int(init_b[e])
            pts = {cur}
            for x, inc in sorted(t for t in ev if t[1] > 0):
                if x != cur:
                    return "values returned for %s are not one serial history: expected a return of %d, next is %d (increment %d)" % (e, cur, x, inc)
                cur += inc
                pts.add(cur)
            for x, inc in ev:
                if x not in pts:
                    return "a read of %s returned %d, which the counter never held" % (e, x)
        p.post(chk)
    rr = c["pick"] % P
    for i, n in enumerate(("accumulated array", "counters", "lock-protected array")):
        q = p.op("dump", i, rr)
        p.expect_bytes(q, rr, M[i], n)
    p.op("sync")
    p.op("nomutexes")
    for i in range(3):
        p.op("destroy", i)
    return p
