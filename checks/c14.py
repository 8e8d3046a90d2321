"""C14: process groups number their members consistently and confine collectives and arrays to them."""
import numpy as np
from model import *
from engine import Prog
from c09 import reduce_, gen_bytes

PROP = "C14"
RULE = ("A case is a program over a tree of process groups: groups made from member lists in any order, duplicates, singletons, "
        "splits into n parts or by colour (C, Fortran and C++ entry points), queries of ranks and members from members and "
        "non-members, reductions, broadcasts and barriers on several disjoint groups at once, arrays on groups (transfers, "
        "layout queries, copies between a group array and a parent array), and switches of the default group inside which "
        "each disjoint group runs its own generated program (arrays, fill, scale, add, dot, matrix multiply, reductions, nested "
        "groups) concurrently with the others. Every answer is compared with a model that knows only member lists. "
        "Non-trivial: some group other than the whole world with at least two members does collective work.")
GOPS = ["+", "*", "max", "min", "absmax", "absmin"]


def configs(tier):
    q = [dict(port="ts", np=4, n=420), dict(port="ts", np=6, n=260), dict(port="ts", np=3, n=150), dict(port="pr", np=4, n=110),
         dict(port="ts", np=8, n=150), dict(port="mpi3", np=4, n=90), dict(port="ts", np=1, n=40), dict(port="pr", np=5, n=70, env=PR_SRV)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=5, n=1200), dict(port="pt", np=5, n=1000), dict(port="ts", np=12, n=1000),
                                                  dict(port="ts", np=5, n=1500, variant="asan")]
    return q


GS, AS = 4, 3            # group and array slots per level


def gen_steps(draw, C, depth, budget):
    """C: world ranks of the default group, ascending."""
    n = len(C)
    st = []
    slots = {}           # group slot -> {world rank: members}
    cxx = set()
    for _ in range(budget):
        free = [s for s in range(GS) if s not in slots]
        use = sorted(slots)
        x = draw(I(0, 19))
        if free and (x < 6 or not use):
            s = free[0]
            k = draw(I(0, 9))
            if k < 4:
                l = gen_group(draw, n)
                v = draw(I(0, 3))
                st.append(dict(k="create", s=s, v=v, l=l))
                m = sorted(C[i] for i in l)
                slots[s] = {r: m for r in C}
                if v == 3:
                    cxx.add(s)
            elif k < 5:
                # of the world, or of a group all the callers know
                par = -1
                if depth == 0 and chance(draw, 1, 2):
                    m = {r: C for r in C}
                elif use:
                    par = pick(draw, use)
                    m = dict(slots[par])
                else:
                    continue
                who = [r for r in C if r in m and (par == -1 or r in m[r])]
                m = {r: m[r] for r in who}
                if not m:
                    continue
                st.append(dict(k="dup", s=s, v=pick(draw, [0, 2, 3]) if par in cxx else pick(draw, [0, 2]), par=par, who=who))
                slots[s] = m
            elif k < 6:
                st.append(dict(k="self", s=s, v=draw(I(0, 3))))
                slots[s] = {r: [r] for r in C}
            else:
                # split the default group or a sub-group (called by its members)
                par, grps = -1, [C]
                if use and chance(draw, 1, 3):
                    par = pick(draw, use)
                    grps = distinct(slots[par])
                if not grps:
                    continue
                m = {}
                if k < 8:
                    num = draw(I(1, max(1, min(len(g) for g in grps))))
                    for g in grps:
                        q = -(-len(g) // num)
                        for i, r in enumerate(g):
                            m[r] = g[i // q * q:i // q * q + q]
                    st.append(dict(k="split", s=s, v=draw(I(0, 2)), par=par, num=num))
                else:
                    nc = draw(I(1, 3))
                    base = pick(draw, [0, 0, 5, 1000000])
                    col = {r: base + draw(I(0, nc)) for g in grps for r in g}
                    for g in grps:
                        for r in g:
                            m[r] = [q for q in g if col[q] == col[r]]
                    st.append(dict(k="splitc", s=s, v=draw(I(0, 2)), par=par, col=[col.get(r, 0) for r in range(max(C) + 1)]))
                slots[s] = m
        elif x < 7 and use:
            s = pick(draw, use)
            st.append(dict(k="destroy", s=s, v=draw(I(0, 2))))
            del slots[s]
            cxx.discard(s)
        elif x < 9 and use:
            st.append(dict(k="info", s=pick(draw, use), v=draw(I(0, 2))))
        elif x < 12 and use:
            s = pick(draw, use)
            g = distinct(slots[s])
            if g:
                w = draw(I(0, 2))
                e = dict(k=["gop", "brd", "psync"][w], s=s, v=draw(I(0, 3)) if w == 2 else pick(draw, [0, 2]), g=gseed(draw), reps=pick(draw, [1, 1, 2, 5]))
                if w == 0:
                    e.update(t=draw(I(0, 4)), n=pick(draw, [1, 2, 7, 60]), gop=pick(draw, GOPS))
                elif w == 1:
                    e.update(n=pick(draw, [1, 8, 100, 3000]), root=draw(I(0, min(len(y) for y in g) - 1)))
                st.append(e)
        elif x < 15 and use:
            s = pick(draw, use)
            g = distinct(slots[s])
            if g:
                one_ = len(g) == 1
                a = gen_array(draw, len(g[0]) if one_ else 1, nds=range(1, 5), kinds=(0, 1, 2, 3) if one_ else (0, 1, 3), ghosts=False, restrict=False, apis=range(4))
                puts = [[draw(I(0, 7)), *gen_patch(draw, a["dims"]), gseed(draw)] for _ in range(draw(I(0, 3)))]
                cp = None
                if one_ and chance(draw, 1, 2):
                    cp = gen_array(draw, n, nds=[len(a["dims"])], kinds=(0, 1, 2), restrict=False, dims=a["dims"], t=a["t"])
                    cp = [cp, draw(I(0, 1)), gseed(draw), draw(I(0, 1))]
                st.append(dict(k="array", s=s, a=a, puts=puts, cp=cp, g=gseed(draw)))
        elif x < 18 and use and depth < 3:
            s = pick(draw, use)
            g = distinct(slots[s])
            # disjoint groups only (they are, by construction, unless made by different callers)
            if g:
                sub = [[y, gen_steps(draw, y, depth + 1, draw(I(2, 5 if depth == 0 else 3)))] for y in g]
                st.append(dict(k="enter", s=s, v=draw(I(0, 3)), sub=sub))
        else:
            st.append(gen_work(draw, n))
    return st


def gen_work(draw, n):
    w = pick(draw, ["ids", "gop", "brd", "arr", "arr", "arr", "gemm"])
    e = dict(k="w" + w, g=gseed(draw), v=draw(I(0, 2)))
    if w == "gop":
        e.update(t=draw(I(0, 4)), n=pick(draw, [1, 2, 7, 60]), gop=pick(draw, GOPS))
    elif w == "brd":
        e.update(n=pick(draw, [1, 8, 100, 3000]), root=draw(I(0, n - 1)), v=pick(draw, [0, 2]))
    elif w == "arr":
        e.update(a=gen_array(draw, n, nds=range(1, 5), types=(0, 1, 3, 4, 6), restrict=False), al=draw(I(-3, 3)), dup=draw(I(0, 1)), puts=[])
        e["puts"] = [[draw(I(0, 7)), *gen_patch(draw, e["a"]["dims"]), gseed(draw)] for _ in range(draw(I(0, 2)))]
    elif w == "gemm":
        e.update(d=[draw(I(1, 6)) for _ in range(3)], t=pick(draw, [3, 4]))
    return e


def distinct(m):
    """Groups of the slot, as member lists (only ranks that belong to the group they hold)."""
    out = []
    for r in sorted(m):
        if r in m[r] and m[r] not in out:
            out.append(m[r])
    return out


def gen(draw, cfg):
    P = cfg["np"]
    return dict(steps=gen_steps(draw, list(range(P)), 0, draw(I(3, 9))))


def walk(steps, C, f):
    for s in steps:
        f(s, C)
        if s["k"] == "enter":
            for m, sub in s["sub"]:
                walk(sub, m, f)


def nontrivial(c, cfg):
    hit = []

    def f(s, C):
        if s["k"] in ("wgop", "wbrd", "warr", "wgemm") and 1 < len(C) < cfg["np"]:
            hit.append(1)
        if s["k"] in ("gop", "brd", "array"):
            hit.append(1)
    walk(c["steps"], list(range(cfg["np"])), f)
    return bool(hit) and cfg["np"] > 1


def labels(c, cfg):
    out = []

    def f(s, C):
        out.append(s["k"])
        if s["k"] == "enter" and len(s["sub"]) > 1:
            out.append("concurrent_default_groups")
        if s["k"] == "array" and s["cp"]:
            out.append("copy_between_groups")
    walk(c["steps"], list(range(cfg["np"])), f)
    return out


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    run(p, c["steps"], list(range(P)), 0, -1)
    p.op("sync")
    return p


def initval(p, slot, a, g, C, root, sync):
    p.op("init", slot, (g, -20, 41), -1 - root, mask=bits(C))
    sync()
    return gen_vals(a["t"], (g, -20, 41), a["dims"]).copy()


def run(p, steps, C, depth, cur):
    """cur: the group slot that is the default, -1 for the world."""
    mask = bits(C)
    n = len(C)
    G0, A0 = depth * GS, depth * AS
    slots, cxx = {}, set()
    for s in steps:
        k = s["k"]
        if "s" in s:
            gs = G0 + s["s"]
            m = slots.get(s["s"])
        if k == "create":
            p.op("pgcreate", s["v"], gs, len(s["l"]), s["l"], mask=mask)
            mm = sorted(C[i] for i in s["l"])
            slots[s["s"]] = {r: mm for r in C}
        elif k == "dup":
            p.op("pgdup", s["v"], gs, -1 if s["par"] < 0 else G0 + s["par"], mask=bits(s["who"]))
            src = {r: C for r in C} if s["par"] < 0 else slots[s["par"]]
            slots[s["s"]] = {r: src[r] for r in s["who"]}
        elif k == "self":
            p.op("pgself", s["v"], gs, mask=mask)
            slots[s["s"]] = {r: [r] for r in C}
        elif k in ("split", "splitc"):
            grps = [C] if s["par"] < 0 else distinct(slots[s["par"]])
            par = cur if s["par"] < 0 else G0 + s["par"]
            who = sorted(r for g in grps for r in g)
            mm = {}
            if k == "split":
                p.op("pgsplit", s["v"], gs, par, s["num"], mask=bits(who))
                for g in grps:
                    q = -(-len(g) // s["num"])
                    for i, r in enumerate(g):
                        mm[r] = g[i // q * q:i // q * q + q]
            else:
                p.op("pgsplitc", s["v"], gs, par, len(s["col"]), s["col"], mask=bits(who))
                for g in grps:
                    for r in g:
                        mm[r] = [q for q in g if s["col"][q] == s["col"][r]]
            slots[s["s"]] = mm
        elif k == "destroy":
            j = p.op("pgdestroy", s["v"], gs, mask=bits(m))
            for r in m:
                p.expect_ints(j, r, [1], "destroying a group")
            del slots[s["s"]]
        elif k == "info":
            j = p.op("pginfo", s["v"], gs, mask=bits(m))
            for r in m:
                l = m[r]
                p.expect_ints(j, r, [l.index(r) if r in l else -1, len(l)] + l, "rank, size and members of the group")
        elif k in ("gop", "brd", "psync"):
            for g in distinct(m):
                for i in range(s["reps"]):
                    if k == "gop":
                        gop(p, s, gs, g, s["g"] + i)
                    elif k == "brd":
                        brd(p, s, gs, g, s["g"] + i)
                    else:
                        p.op("pgsync", s["v"], gs, mask=bits(g))
        elif k == "array":
            for g in distinct(m):
                garray(p, s, gs, g, C, A0)
        elif k == "enter":
            gm = distinct(m)
            sub = {tuple(x): y for x, y in s["sub"]}
            for g in gm:
                if tuple(g) not in sub:
                    continue
                j = p.op("pgdefault", s["v"], gs, mask=bits(g))
                for r in g:
                    p.expect(j, r, 0, lambda v: None if int(v[1][0]) == 1 else "it is another group", "the default group is the one that was set")
                j = p.op("nodeids", mask=bits(g))
                for r in g:
                    p.expect_ints(j, r, [g.index(r), len(g)], "rank in the default group")
                run(p, sub[tuple(g)], g, depth + 1, gs)
                p.op("pgdefault", 0, cur, mask=bits(g))
        else:
            work(p, s, C, A0)
    for q, m in sorted(slots.items()):
        p.op("pgdestroy", 0, G0 + q, mask=bits(m))


def gop(p, s, gs, g, seed):
    lo, span = (1, 3) if s["gop"] == "*" else (-50, 101)
    nn = s["n"] if s["gop"] != "*" or len(g) < 9 else 1
    j = p.op("gop", s["v"], gs, s["t"], nn, s["gop"], (seed, lo, span), mask=bits(g))
    want = reduce_(s["gop"], np.array([gen_vals(s["t"], (seed + r, lo, span), [nn]) for r in g]), s["t"])
    for r in g:
        p.expect_bytes(j, r, want, "reduction %s over the group" % s["gop"])


def brd(p, s, gs, g, seed):
    j = p.op("brdcst", s["v"], gs, s["n"], s["root"], (seed, 0, 1), mask=bits(g))
    want = gen_bytes((seed + g[s["root"]],), [s["n"]], 1).ravel()
    for r in g:
        p.expect_bytes(j, r, want, "broadcast over the group")


def puts(p, s, slot, a, M, C, sync):
    for w, lo, hi, g in s["puts"]:
        q = shp(lo, hi)
        p.op("put", 1, slot, lo, hi, q[1:], (g, -20, 41), mask=1 << C[w % len(C)])
        M[sl(lo, hi)] = gen_vals(a["t"], (g, -20, 41), q)
        sync()


def garray(p, s, gs, g, C, A0):
    a, mask = s["a"], bits(g)
    j = emit_create(p, A0, a, grp=gs, mask=mask)
    for r in g:
        p.expect_ints(j, r, [1, 0], "creation on a group succeeds")
    sync = lambda: p.op("gsync", gs, mask=mask)
    M = initval(p, A0, a, s["g"] + g[0], g, g[s["g"] % len(g)], sync)
    puts(p, s, A0, a, M, g, sync)
    j = p.op("dump", A0, mask=mask)
    for r in g:
        p.expect_bytes(j, r, M, "array on a group")
    sync()
    if s["cp"]:
        b, way, g2, v = s["cp"]
        emit_create(p, A0 + 1, b, mask=bits(C))
        B = initval(p, A0 + 1, b, g2, C, C[-1], lambda: p.op("gsync", -1, mask=bits(C)))
        x, y = (A0, A0 + 1) if way else (A0 + 1, A0)
        p.op("copy", 2 * v, x, y, mask=mask)
        sync()
        p.op("gsync", -1, mask=bits(C))
        X = M if way else B
        j = p.op("dump", A0, mask=mask)
        for r in g:
            p.expect_bytes(j, r, X if not way else M, "group array after copying between groups")
        j = p.op("dump", A0 + 1, mask=bits(C))
        for r in C:
            p.expect_bytes(j, r, X if way else B, "parent array after copying between groups")
        p.op("gsync", -1, mask=bits(C))
        p.op("destroy", A0 + 1, mask=bits(C))
    p.op("destroy", A0, mask=mask)


def work(p, s, C, A0):
    k, mask = s["k"], bits(C)
    sync = lambda: p.op("gsync", -1, mask=mask)
    if k == "wids":
        j = p.op("nodeids", mask=mask)
        for i, r in enumerate(C):
            p.expect_ints(j, r, [i, len(C)], "rank in the default group")
    elif k == "wgop":
        gop(p, s, -1, C, s["g"])
    elif k == "wbrd":
        brd(p, s, -1, C, s["g"])
    elif k == "warr":
        a = s["a"]
        t = a["t"]
        j = emit_create(p, A0, a, mask=mask)
        for r in C:
            p.expect_ints(j, r, [1, 0], "creation in the default group succeeds")
        M = initval(p, A0, a, s["g"] + C[0], C, C[-1], sync)
        puts(p, s, A0, a, M, C, sync)
        p.op("el1", 2 if s["v"] == 2 else 1, "scale", A0, 0, [s["al"], 0], mask=mask)
        M *= one(t, s["al"])
        j = p.op("dot", s["v"], A0, A0, mask=mask)
        want = (M.astype("i8" if t < 3 else "c16") ** 2).sum()
        for r in C:
            if t < 3:
                p.expect_ints(j, r, [int(want)], "dot product in the default group")
            else:
                p.expect(j, r, 0, lambda v: None if complex(*v[1][:2]) == complex(want) else "got %s expected %s" % (v[1], want), "dot product in the default group")
        D = A0
        if s["dup"]:
            D = A0 + 1
            j = p.op("dup", D, A0, 0, "copy", mask=mask)
            p.op("el1", 1, "fill", D, 0, [7, 0], mask=mask)
            p.op("copy", 0, A0, D, mask=mask)
            sync()
        j = p.op("dump", D, mask=mask)
        for r in C:
            p.expect_bytes(j, r, M, "array in the default group")
        sync()
        if D != A0:
            p.op("destroy", D, mask=mask)
        p.op("destroy", A0, mask=mask)
    else:
        m, n, kk = s["d"]
        t = s["t"]
        X = []
        for i, d in enumerate(([m, kk], [kk, n], [m, n])):
            a = dict(t=t, dims=d, gw=[], nr=[], api=0, kind=0, a1=[], a2=[], a3=[])
            emit_create(p, A0 + i, a, mask=mask)
            X.append(initval(p, A0 + i, a, s["g"] + i + C[0], C, C[0], sync))
        p.op("gemm", 2 * (s["v"] == 2), "n", "n", m, n, kk, A0, A0 + 1, A0 + 2, [2, 0], [1, 0], mask=mask)
        W = (2 * X[0] @ X[1] + X[2]).astype(DT[t])
        sync()
        j = p.op("dump", A0 + 2, mask=mask)
        for r in C:
            p.expect_bytes(j, r, W, "matrix product in the default group")
        sync()
        for i in range(3):
            p.op("destroy", A0 + i, mask=mask)
