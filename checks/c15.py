"""C15: lifetimes of arrays, names, memory accounting, overlays and properties."""
import numpy as np
from model import *
from engine import Prog

PROP = "C15"
RULE = ("A case is a history of 6-40 steps over eight array slots: create (any type, layout, ghosts, restricted, on a generated group), duplicate, "
        "overlay, deallocate and allocate again, destroy, partial writes and reads, shape/type/name/validity inquiries, read-only and "
        "read-cache properties set, read through and removed, memory inquiries, memory limits that differ per process around a creation "
        "or duplication, and bursts of many short-lived arrays. After every destroy or write some other live array is read back; at the end "
        "all are, and the accounted memory is back where it began. Non-trivial: at least two arrays are live at once and one of them "
        "is destroyed, deallocated, duplicated or overlaid.")
NS = 8


def configs(tier):
    q = [dict(port="ts", np=4, n=300), dict(port="ts", np=3, n=170), dict(port="ts", np=6, n=150), dict(port="pr", np=4, n=110), dict(port="mpi3", np=3, n=90),
         dict(port="ts", np=1, n=70)] + embedded(80)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q] + [dict(port="mt", np=4, n=1200), dict(port="pt", np=4, n=800), dict(port="ts", np=4, n=1500, variant="asan"),
                                                  dict(port="pr", np=5, n=600, env=PR_SRV)]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    G = gen_group(draw, P) if chance(draw, 1, 3) else []
    steps = []
    live = {}           # slot -> dict(a, g, prop, par)
    dead = {}           # deallocated
    n = draw(I(6, 40))
    for _ in range(n):
        x = draw(I(0, 27))
        free = [s for s in range(NS) if s not in live and s not in dead]
        use = sorted(live)
        kids = lambda s: [k for k, v in live.items() if v.get("par") == s]
        if not use or (x < 6 and free):
            if not free:
                continue
            g = 1 if G and chance(draw, 1, 4) else 0
            a = gen_array(draw, len(G) if g else P, ghosts=True)
            s = pick(draw, free)
            nm = "".join(pick(draw, ["a", "Z", "9", "_", " x"]) for _ in range(draw(I(1, 15)))) + "q"
            if a["api"] in (0, 1) and chance(draw, 1, 8):
                nm = "n" * 31
            steps.append(dict(k="create", s=s, a=a, g=g, name=nm, seed=gseed(draw)))
            live[s] = dict(a=a, g=g, prop="")
        elif x < 9 and free:
            o = pick(draw, use)
            s = pick(draw, free)
            steps.append(dict(k="dup", s=s, o=o, name="d%d_%s" % (draw(I(0, 99)), "y" * draw(I(0, 25))), seed=gseed(draw)))
            live[s] = dict(live[o], par=None)
        elif x < 12:
            s = pick(draw, use)
            if kids(s):
                continue
            steps.append(dict(k="destroy", s=s))
            del live[s]
        elif x < 13:
            s = pick(draw, use)
            if kids(s) or live[s].get("par") is not None or live[s]["prop"]:
                continue
            steps.append(dict(k="dealloc", s=s))
            dead[s] = live.pop(s)
        elif x < 15 and dead:
            s = pick(draw, sorted(dead))
            steps.append(dict(k="realloc", s=s, seed=gseed(draw)))
            live[s] = dead.pop(s)
        elif x < 16 and free:
            o = [s for s in use if live[s]["a"]["kind"] == 0 and not live[s]["a"]["gw"] and not live[s]["a"]["nr"] and not live[s]["g"] and not live[s]["prop"]]
            if not o:
                continue
            o = pick(draw, o)
            t = pick(draw, [t for t in range(7) if DT[t].itemsize == DT[live[o]["a"]["t"]].itemsize])
            s = pick(draw, free)
            steps.append(dict(k="overlay", s=s, o=o, t=t))
            live[s] = dict(a=dict(live[o]["a"], t=t), g=0, prop="", par=o)
        elif x < 20:
            s = pick(draw, use)
            if live[s]["prop"]:
                continue
            steps.append(dict(k="put", s=s, r=draw(I(0, 99)), p=gen_patch(draw, live[s]["a"]["dims"]), g=gseed(draw)))
        elif x < 22:
            s = pick(draw, use)
            for _ in range(draw(I(1, 4)) if live[s]["prop"] else 1):
                p = gen_patch(draw, live[s]["a"]["dims"])
                steps.append(dict(k="get", s=s, r=draw(I(0, 99)), p=p, ld=gen_ld(draw, shp(*p)), v=draw(I(0, 2))))
        elif x < 23:
            steps.append(dict(k="info", s=pick(draw, use), v=draw(I(0, 1))))
        elif x < 25:
            s = pick(draw, use)
            L = live[s]
            if L["prop"]:
                steps.append(dict(k="unset", s=s))
                L["prop"] = ""
            elif L.get("par") is None and not kids(s):
                ro = L["a"]["kind"] <= 2 and not L["g"] and not L["a"]["gw"] and not L["a"]["nr"] and not cfg.get("emb")
                L["prop"] = "read_only" if ro and chance(draw, 1, 2) else "read_cache"
                steps.append(dict(k="set", s=s, prop=L["prop"]))
                for _ in range(draw(I(0, 5))):
                    p = gen_patch(draw, L["a"]["dims"], 4)
                    steps.append(dict(k="get", s=s, r=draw(I(0, 99)), p=p, ld=gen_ld(draw, shp(*p)), v=draw(I(0, 2))))
        elif x < 26 and free:
            a = gen_array(draw, P, kinds=(0, 1, 2, 3, 4))
            steps.append(dict(k="limit", s=free[0], a=a, lim=[draw(I(-5, 40)) for _ in range(P)], dup=draw(I(0, 1)), seq=[draw(I(0, 500)) for _ in range(draw(I(0, 3)))]))
        elif x < 27 and free:
            steps.append(dict(k="burst", s=free[0], a=gen_array(draw, P, scale=0.3), n=draw(I(5, 40)), dup=draw(I(0, 1))))
        else:
            steps.append(dict(k="memory"))
    return dict(G=G, steps=steps, seed=gseed(draw))


def nontrivial(c, cfg):
    n, hit = 0, False
    for s in c["steps"]:
        k = s["k"]
        if k in ("dup", "overlay") or (k in ("destroy", "dealloc") and n > 1):
            hit = True
        n += k in ("create", "dup", "overlay", "realloc")
        n -= k in ("destroy", "dealloc")
    return hit


def labels(c, cfg):
    for s in c["steps"]:
        yield s["k"]
        if s["k"] == "set":
            yield s["prop"]
        if s["k"] == "create" and s["g"]:
            yield "on_group"


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    ALL = (1 << P) - 1
    G = c["G"]
    gm = bits(G)
    if G:
        p.op("pgcreate", c["seed"] % 3, 0, len(G), G)
    m0 = p.op("memory")
    live, dead = {}, {}

    def mem(L):
        return sorted(G) if L["g"] else list(range(P))

    def fill(s, seed):
        L = live[s]
        g = (seed, -50, 101)
        p.op("init", s, g, -1 - mem(L)[seed % len(mem(L))], mask=L["m"])
        p.op("gsync", 0 if L["g"] else -1, mask=L["m"])
        L["M"] = gen_vals(L["a"]["t"], g, L["a"]["dims"]).copy()

    def read(s, why, salt=0):
        L = live[s]
        r = mem(L)[(c["seed"] + s + salt) % len(mem(L))]
        p.op("gsync", 0 if L["g"] else -1, mask=L["m"])
        q = p.op("dump", s, mask=1 << r)
        p.expect_bytes(q, r, L["M"], "contents of array %d %s" % (s, why))

    def info(s, v=0):
        L = live[s]
        q = p.op("inquire", s, v, mask=L["m"])
        q2 = p.op("getname", s, mask=L["m"])
        for r in mem(L):
            p.expect_ints(q, r, [1, len(L["a"]["dims"])] + list(L["a"]["dims"]), "type and shape of array %d" % s)
            if L["name"] is not None:
                p.expect(q2, r, 0, lambda x, w=L["name"]: None if x[1] == w else "name is %r, expected %r" % (x[1], w), "name of array %d" % s)

    def other(k):
        u = sorted(live)
        if u:
            s = u[k % len(u)]
            read(s, "after work on other arrays", k)
            info(s)

    def footprint():
        """Memory inquiry: sum over the live arrays of what each process holds (derived from the layout)."""
        q = p.op("memory")
        parts = []
        for s, L in live.items():
            a = L["a"]
            if a["gw"] or L["prop"] == "read_only":
                w = np.array(a["gw"] or [0] * len(a["dims"]))
                j = p.op("dists", 1, s, len(mem(L)), mask=L["m"])
                parts.append((s, L["m"], j, w, DT[a["t"]].itemsize, mem(L)[0], len(mem(L)), L["prop"]))
            else:
                parts.append((s, L["m"], None, None, int(np.prod(a["dims"])) * DT[a["t"]].itemsize, 0, 0, ""))

        def f(res):
            tot = sum(int(res[(q, r)][0][1][0]) for r in range(P))
            base = sum(int(res[(m0, r)][0][1][0]) for r in range(P))
            want = 0
            for s, m, j, w, es, r0, n, prop in parts:
                if j is None:
                    want += es
                    continue
                D = res[(j, r0)][0][1].reshape(n, 2, -1)
                for lo, hi in D:
                    e = hi - lo + 1
                    if (e > 0).all():
                        want += int(np.prod(e + 2 * w)) * es
                    elif w.any():
                        return None     # the ghost shell of an empty block is not specified
            return None if tot - base == want else "accounted memory over all processes is %d bytes, the live arrays hold %d" % (tot - base, want)
        p.post(f)
        return q

    for i, st in enumerate(c["steps"]):
        k = st["k"]
        if k == "create":
            m = gm if st["g"] else ALL
            q = emit_create(p, st["s"], st["a"], grp=0 if st["g"] else -1, name=st["name"].replace(" ", "."), mask=m)
            live[st["s"]] = L = dict(a=st["a"], g=st["g"], m=m, name=st["name"].replace(" ", "."), prop="", par=None)
            for r in mem(L):
                p.expect_ints(q, r, [1, 0], "creation succeeds")
            fill(st["s"], st["seed"])
            info(st["s"], st["seed"] % 2)
        elif k == "dup":
            O = live[st["o"]]
            p.op("gsync", 0 if O["g"] else -1, mask=O["m"])
            q = p.op("dup", st["s"], st["o"], 0, st["name"], mask=O["m"])
            live[st["s"]] = L = dict(O, name=st["name"], par=None)
            for r in mem(O):
                p.expect_ints(q, r, [1], "duplication succeeds")
            info(st["s"])
            if L["prop"]:
                # only the removal of the property makes it writable
                p.op("unsetprop", st["s"], mask=L["m"])
                L["prop"] = ""
            fill(st["s"], st["seed"])
            read(st["o"], "after its duplicate was written")
            if L["a"]["gw"] or 1:
                read(st["s"], "(a duplicate)")
            # later steps generated for it assume the property of the original
            if O["prop"]:
                p.op("setprop", st["s"], O["prop"], mask=L["m"])
                L["prop"] = O["prop"]
        elif k == "destroy":
            L = live.pop(st["s"])
            p.op("destroy", st["s"], mask=L["m"])
            q, q2 = p.op("valid", st["s"], mask=L["m"]), p.op("verify", st["s"], mask=L["m"])
            for r in mem(L):
                p.expect_ints(q, r, [0], "a destroyed handle is not valid")
                p.expect_ints(q2, r, [0], "a destroyed handle does not verify")
            other(i)
        elif k == "dealloc":
            L = live.pop(st["s"])
            q = p.op("dealloc", st["s"], mask=L["m"])
            q2 = p.op("valid", st["s"], mask=L["m"])
            for r in mem(L):
                p.expect_ints(q, r, [1], "deallocation succeeds")
                p.expect_ints(q2, r, [0], "a deallocated handle is not valid")
            dead[st["s"]] = L
            other(i)
        elif k == "realloc":
            L = live[st["s"]] = dead.pop(st["s"])
            q = p.op("realloc", st["s"], mask=L["m"])
            for r in mem(L):
                p.expect_ints(q, r, [1], "allocation after deallocation succeeds")
            fill(st["s"], st["seed"])
            info(st["s"])
        elif k == "overlay":
            O = live[st["o"]]
            q = p.op("overlay", st["s"], st["o"], st["t"], len(O["a"]["dims"]), O["a"]["dims"])
            for r in range(P):
                p.expect_ints(q, r, [1], "overlay succeeds")
            live[st["s"]] = dict(a=dict(O["a"], t=st["t"]), g=0, m=ALL, name=None, prop="", par=st["o"], M=O["M"].view(DT[st["t"]]))
        elif k == "put":
            L = live[st["s"]]
            r = mem(L)[st["r"] % len(mem(L))]
            p.op("gsync", 0 if L["g"] else -1, mask=L["m"])
            g = (st["g"], -50, 101)
            s = shp(*st["p"])
            p.op("put", st["g"] % 3, st["s"], *st["p"], s[1:], g, mask=1 << r)
            L["M"][sl(*st["p"])] = gen_vals(L["a"]["t"], g, s)
            other(i)
        elif k == "get":
            L = live[st["s"]]
            r = mem(L)[st["r"] % len(mem(L))]
            p.op("gsync", 0 if L["g"] else -1, mask=L["m"])
            q = p.op("get", st["v"], st["s"], *st["p"], st["ld"], mask=1 << r)
            p.expect_bytes(q, r, L["M"][sl(*st["p"])].copy(), "patch of array %d (%s)" % (st["s"], L["prop"] or "no property"))
        elif k == "info":
            info(st["s"], st["v"])
        elif k == "set":
            L = live[st["s"]]
            p.op("setprop", st["s"], st["prop"], mask=L["m"])
            L["prop"] = st["prop"]
            read(st["s"], "after setting " + st["prop"])
        elif k == "unset":
            L = live[st["s"]]
            p.op("unsetprop", st["s"], mask=L["m"])
            L["prop"] = ""
            read(st["s"], "after removing its property")
        elif k == "limit":
            s = st["s"]
            qs = [p.op("memory")]
            emit_create(p, s, st["a"])
            qs.append(p.op("memory"))
            p.op("destroy", s)
            qs.append(p.op("memory"))
            p.op("sync")
            last = None
            for x in st["seq"]:
                p.op("memlimit", 1000000 + 1000 * x)
                last = 1000000 + 1000 * x
            ql = p.op("memory")
            # the limit of each process, relative to an even share
            share = int(np.prod(st["a"]["dims"])) * DT[st["a"]["t"]].itemsize // P
            lims = [max(0, share + x * max(1, share // 8)) for x in st["lim"]]
            if st["dup"]:
                # the original exists before the limit is set
                emit_create(p, s, st["a"])
            p.op("memlimit", -1)
            for r in range(P):
                p.op("memlimit", lims[r], mask=1 << r)
            p.op("sync")
            t = NS + 1 if st["dup"] else s
            qs.append(p.op("memory"))
            qc = p.op("dup", t, s, 0, "limited") if st["dup"] else emit_create(p, t, st["a"])
            qs.append(p.op("memory"))
            p.op("destroyx", t)
            qs.append(p.op("memory"))
            p.op("memlimit", -1)
            if st["dup"]:
                p.op("destroy", s)
            qs.append(p.op("memory"))

            def f(res, qs=qs, qc=qc, lims=lims, ql=ql, last=last):
                v = lambda j, r: [int(x) for x in res[(qs[j], r)][0][1]]
                loc = [v(1, r)[0] - v(0, r)[0] for r in range(P)]
                ok = [int(res[(qc, r)][0][1][0]) for r in range(P)]
                want = int(all(l <= x for l, x in zip(loc, lims)))
                if any(x != want for x in ok):
                    return "creation under limits %s with local sizes %s: results %s, expected %d everywhere" % (lims, loc, ok, want)
                for r in range(P):
                    if v(2, r)[0] != v(0, r)[0]:
                        return "memory in use after destroy is %d, was %d" % (v(2, r)[0], v(0, r)[0])
                    if last is not None:
                        x = [int(y) for y in res[(ql, r)][0][1]]
                        if x[1] != 1 or x[2] != last:
                            return "after setting the limit to %d: limited %d, available %d" % (last, x[1], x[2])
                    if v(3, r)[1:] != [1, lims[r]]:
                        return "limit %d set: limited, available are %s" % (lims[r], v(3, r)[1:])
                    if v(4, r)[2] != lims[r] - want * loc[r] or v(4, r)[0] != v(3, r)[0] + want * loc[r]:
                        return "rank %d: in use and available go from %s to %s by a %s creation of %d bytes" % (r, v(3, r), v(4, r), "successful" if want else "failed", loc[r])
                    if v(5, r) != v(3, r):
                        return "rank %d: in use, limited, available are %s after the destroy, were %s" % (r, v(5, r), v(3, r))
                    if v(6, r)[1] != 0:
                        return "still limited after removing the limit"
                    if v(6, r)[0] != v(0, r)[0]:
                        return "memory in use at the end is %d, was %d" % (v(6, r)[0], v(0, r)[0])
            p.post(f)
            other(i)
        elif k == "burst":
            q0 = p.op("memory")
            s = st["s"]
            for x in range(st["n"]):
                emit_create(p, s, st["a"])
                if st["dup"]:
                    p.op("dup", NS + 1, s, 0, "burst")
                    p.op("destroy", s if x % 2 else NS + 1)
                    p.op("destroy", NS + 1 if x % 2 else s)
                else:
                    p.op("destroy", s)
            q1 = p.op("memory")

            def f(res, q0=q0, q1=q1):
                for r in range(P):
                    if res[(q0, r)][0][1][0] != res[(q1, r)][0][1][0]:
                        return "memory in use changes over balanced creations and destructions"
            p.post(f)
            other(i)
        else:
            footprint()
    for s in sorted(live):
        read(s, "at the end")
    footprint()
    p.op("sync")
    for s in sorted(live, key=lambda s: live[s]["par"] is None):
        p.op("destroy", s, mask=live[s]["m"])
    for s in sorted(dead):
        p.op("realloc", s, mask=dead[s]["m"])       # a deallocated array can only be allocated again
        p.op("destroy", s, mask=dead[s]["m"])
    m1 = p.op("memory")

    def f(res):
        for r in range(P):
            a, b = ([int(x) for x in res[(m, r)][0][1]] for m in (m0, m1))
            if a != b:
                return "rank %d: memory in use, limited, available are %s after destroying everything, were %s" % (r, b, a)
    p.post(f)
    if G:
        p.op("pgdestroy", c["seed"] % 3, 0, mask=gm)
    return p
