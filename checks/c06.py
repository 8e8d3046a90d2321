"""C06: non-blocking transfers complete with the results of the blocking ones."""
import numpy as np
from model import *
from engine import Prog

PROP = "C06"
RULE = ("A case creates one array and runs 1-3 phases. In every phase each process issues its own generated stream of up to several "
        "hundred non-blocking gets, puts or accumulates (puts and the gets beside them on disjoint cells, accumulates and pure reads "
        "overlapping freely), completing them in a random order by wait, repeated wait or test, with a random number outstanding, "
        "and leaving some until after the closing sync or for ever. Buffers are checked on completion and the array after each "
        "phase. Non-trivial: at least 4 handles were outstanding at once in some process, or one was left over a sync.")
NB = 590


def configs(tier):
    S4, S16 = {"COMEX_MAX_NB_OUTSTANDING": "4"}, {"COMEX_MAX_NB_OUTSTANDING": "16"}
    q = [dict(port="ts", np=4, n=400), dict(port="ts", np=3, n=250, env=S4), dict(port="ts", np=6, n=120, env=S16),
         dict(port="pr", np=4, n=120), dict(port="pr", np=3, n=120, env=PR_SRV), dict(port="pr", np=4, n=100, env=dict(PR_DT, **S4)),
         dict(port="pr", np=3, n=80, env=dict(PR_IOV, **S16)), dict(port="mpi3", np=3, n=150), dict(port="mpi3", np=3, n=100, env=S4)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=1000), dict(port="pt", np=4, n=1000), dict(port="ts", np=1, n=600),
                                                  dict(port="mt", np=3, n=600, env=S4), dict(port="pt", np=3, n=600, env=S4),
                                                  dict(port="ts", np=4, n=1500, variant="asan"), dict(port="ts", np=3, n=800, env=S4, variant="asan")]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    if chance(draw, 1, 3):
        nd = draw(I(1, 2))
        a = gen_array(draw, P, dims=[draw(I(1, {1: 900, 2: 30}[nd])) for _ in range(nd)], ghosts=True)
    else:
        a = gen_array(draw, P, ghosts=True)
    ph = []
    for _ in range(draw(I(1, 3))):
        m = pick(draw, ["put", "put", "read", "acc" if a["t"] != LLONG else "put"])
        d = dict(m=m, seed=gseed(draw), win=pick(draw, [1, 3, 8, 40, 600]), left=draw(I(0, 3)), ov=draw(I(0, 5)) == 0)
        if m == "put":
            k = draw(I(0, len(a["dims"]) - 1))
            d["k"] = k
            d["cut"] = sorted(draw(I(0, a["dims"][k])) for _ in range(P - 1))
            d["grid"] = [draw(I(1, min(x, 30 if len(a["dims"]) == 1 else 5))) for x in a["dims"]]
            if len(a["dims"]) == 1 and chance(draw, 1, 2):
                d["grid"] = [a["dims"][0]]
            d["gets"] = draw(I(0, 4))
        else:
            d["n"] = [draw(I(0, pick(draw, [3, 12, 60]))) if r == 0 or chance(draw, 2, 3) else draw(I(0, 3)) for r in range(P)]
            if chance(draw, 1, 6):
                d["n"][draw(I(0, P - 1))] = draw(I(100, 400))
        ph.append(d)
    return dict(a=a, ph=ph, seed=gseed(draw), pick=gseed(draw))


def cells(lo, hi, grid, rng):
    out = [[]]
    for l, h, g in zip(lo, hi, grid):
        n = h - l + 1
        g = min(g, n)
        c = np.sort(rng.choice(np.arange(1, n), g - 1, replace=False)) if g > 1 else []
        b = [l] + [l + int(x) for x in c] + [h + 1]
        out = [o + [(b[i], b[i + 1] - 1)] for o in out for i in range(g)]
    out = [([x[0] for x in o], [x[1] for x in o]) for o in out]
    return [out[i] for i in rng.permutation(len(out))]


def patch(dims, rng, small=False):
    lo, hi = [], []
    for d in dims:
        x, y = sorted(int(v) for v in rng.integers(0, d, 2))
        if small:
            y = min(y, x + 2)
        lo.append(x)
        hi.append(y)
    return lo, hi


def schedule(c, P):
    """-> per phase: per rank list of (k, lo, hi, v, g, al, ld) and event list [(0, i) issue, (1, i, how) complete], left-over set"""
    d = c["a"]["dims"]
    t = c["a"]["t"]
    res = []
    for ph in c["ph"]:
        rng = np.random.default_rng(ph["seed"])
        allr = []
        for r in range(P):
            ops = []
            if ph["m"] == "put":
                lo, hi = [0] * len(d), [x - 1 for x in d]
                b = [0] + ph["cut"] + [d[ph["k"]]]
                lo[ph["k"]], hi[ph["k"]] = b[r], b[r + 1] - 1
                if lo[ph["k"]] <= hi[ph["k"]]:
                    for l, h in cells(lo, hi, ph["grid"], rng)[:NB]:
                        x = int(rng.integers(0, 6))
                        ops.append(["get" if x < ph["gets"] else "put", l, h])
            else:
                for _ in range(ph["n"][r]):
                    l, h = patch(d, rng, ph["n"][r] > 30)
                    ops.append(["get" if ph["m"] == "read" else "acc", l, h])
            for o in ops:
                s = shp(o[1], o[2])
                o += [int(rng.integers(0, 3)), [int(rng.integers(0, 9999)), -50, 101],
                      [int(rng.integers(-3, 4)), int(rng.integers(-3, 4)) if t in CPX else 0],
                      [x + (int(rng.integers(1, 4)) if rng.integers(0, 5) == 0 else 0) for x in s[1:]]]
            ev, out = [], []
            for i in range(len(ops)):
                ev.append((0, i))
                out.append(i)
                while len(out) > ph["win"] or (out and rng.integers(0, 6) == 0 and ph["win"] < 600):
                    j = out.pop(int(rng.integers(0, len(out))))
                    ev.append((1, j, int(rng.integers(0, 4))))
            rng.shuffle(out)
            keep = set()
            if ph["left"]:
                n = len(out) if ph["left"] == 3 else int(rng.integers(0, len(out) + 1))
                keep = set(out[:n])
            for j in out:
                if j not in keep:
                    ev.append((1, j, int(rng.integers(0, 4))))
            late = sorted(keep)
            rng.shuffle(late)
            allr.append((ops, ev, late))
        res.append(allr)
    return res


def nontrivial(c, cfg):
    for allr in schedule(c, cfg["np"]):
        for ops, ev, late in allr:
            n = mx = 0
            for e in ev:
                n += 1 if e[0] == 0 else -1
                mx = max(mx, n)
            if mx >= 4 or late:
                return True
    return False


def labels(c, cfg):
    a = c["a"]
    yield "kind%d" % a["kind"]
    yield TN[a["t"]]
    if a["gw"]:
        yield "ghosts"
    for ph, allr in zip(c["ph"], schedule(c, cfg["np"])):
        yield ph["m"]
        mx = max(len(o[0]) for o in allr)
        yield "ops>256" if mx > 256 else "ops>64" if mx > 64 else "ops>16" if mx > 16 else "ops<=16"
        if any(o[2] for o in allr):
            yield "left_over_sync"


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    a = c["a"]
    d, t = a["dims"], a["t"]
    j = emit_create(p, 0, a)
    for r in range(P):
        p.expect_ints(j, r, [1, 0], "creation succeeds")
    g = (c["seed"], -1000, 2001)
    p.op("init", 0, g, c["pick"] % P)
    M = gen_vals(t, g, d).copy()
    p.op("sync")
    held = [set() for _ in range(P)]      # handle variables still in use
    pend = [[] for _ in range(P)]
    for pi, allr in enumerate(schedule(c, P)):
        old = M.copy()
        for r in range(P):
            ops, ev, late = allr[r]
            mk = 1 << r
            free = [i for i in range(NB) if i not in held[r]]
            where = {}

            def done(i, how):
                o = ops[i]
                q = p.op("nbwait", where[i], how & 1, mask=mk) if how < 2 else p.op("nbtest", where[i], how & 1, mask=mk)
                if o[0] == "get":
                    p.expect_bytes(q, r, old[sl(o[1], o[2])], "values of the non-blocking get")
            for e in ev:
                i = e[1]
                k, lo, hi, v, gg, al, ld = ops[i]
                if e[0] == 0:
                    if not free:         # every handle variable is in use
                        where[i] = -1
                        q = None
                        if k == "get":
                            q = p.op("get", v, 0, lo, hi, ld, mask=mk)
                            p.expect_bytes(q, r, old[sl(lo, hi)], "get")
                        elif k == "put":
                            p.op("put", v, 0, lo, hi, ld, gg, mask=mk)
                        else:
                            p.op("acc", v, 0, lo, hi, ld, gg, al, mask=mk)
                    else:
                        where[i] = free.pop(0)
                        if k == "get":
                            p.op("nbget", v, where[i], 0, lo, hi, ld, mask=mk)
                        elif k == "put":
                            p.op("nbput", v, where[i], 0, lo, hi, ld, gg, mask=mk)
                        else:
                            p.op("nbacc", v, where[i], 0, lo, hi, ld, gg, al, mask=mk)
                    if k == "put":
                        M[sl(lo, hi)] = gen_vals(t, gg, shp(lo, hi))
                    elif k == "acc":
                        M[sl(lo, hi)] += one(t, *al) * gen_vals(t, gg, shp(lo, hi))
                elif where[i] >= 0:
                    done(i, e[2])
                    free.insert(len(free) // 2, where[i])
            pend[r] = [(i, where[i]) for i in late if where[i] >= 0]
        p.op("sync")
        # handles left over the sync: completed now, or (accumulates and puts) some of them never
        for r in range(P):
            ops, ev, late = allr[r]
            for n, (i, w) in enumerate(pend[r]):
                o = ops[i]
                if o[0] != "get" and n % 3 == 2:
                    held[r].add(w)
                    continue
                q = p.op("nbwait", w, n & 1, mask=1 << r) if n % 2 else p.op("nbtest", w, 0, mask=1 << r)
                if o[0] == "get":
                    p.expect_bytes(q, r, old[sl(o[1], o[2])], "values of the non-blocking get completed after a sync")
        q = p.op("dump", 0, (c["pick"] + pi) % P)
        p.expect_bytes(q, (c["pick"] + pi) % P, M, "array after phase %d" % pi)
        p.op("sync")
    p.op("destroy", 0)
    return p
