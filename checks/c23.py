"""C23: repeated sessions on the world or on communicators, with or without limit."""
import importlib
from model import *
from engine import Prog

PROP = "C23"
RULE = ("A case is a job that runs 1-3 sessions of the library one after the other: initialised on the world (three entry points), with a memory limit, or over one or two disjoint "
        "communicators made of any processes in any order (the others stay outside), each session running a generated program of another property's check with group-relative ranks, "
        "judged by that check's model, then terminated with everything destroyed or with arrays, groups and mutexes left over. Ids, counts, the communicator, limits, initialised flags, "
        "left-over shared memory files, mappings and descriptors are compared. Non-trivial: two or more sessions, or a communicator that is not the world in order.")
ASSUMPTIONS = ["On the progress-rank port, sessions over communicators only (a session on the world ends the progress processes by design); the last process of each communicator serves",
               "GA_Terminate after every session; MPI stays initialised throughout"]
MODS = ["c01", "c01", "c03", "c04", "c06", "c07", "c08", "c09", "c13", "c14", "c15", "c16", "c12"]


def configs(tier):
    e = {"GADRV_NOINIT": "1"}
    q = [dict(port="ts", np=4, n=350, env=e), dict(port="ts", np=3, n=350, env=e), dict(port="ts", np=5, n=150, env=e), dict(port="pr", np=4, n=220, env=e), dict(port="mpi3", np=3, n=150, env=e),
         dict(port="mt", np=3, n=150, env=e), dict(port="pt", np=3, n=150, env=e)]
    q = [dict(c, noinit=1) for c in q]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q]
    return q


def mod(name):
    return importlib.import_module(name)


def gen(draw, cfg):
    pr = cfg["port"] == "pr"
    T = cfg["np"] + (1 if pr else 0)
    ss = []
    for _ in range(draw(I(1, 3))):
        kind = 2 if pr else pick(draw, [0, 1, 2, 2, 2, 3])
        lim = draw(I(0, 1))
        if kind == 1:
            lim = pick(draw, [5000001, 80000000])
        if kind == 2:
            p = list(draw(st.permutations(list(range(T)))))
            m = 2 if pr else 1
            a = draw(I(m, T))
            g = [p[:a]]
            if T - a >= m and chance(draw, 2, 3):
                b = draw(I(m, T - a))
                g.append(p[a:a + b])
        else:
            g = [list(range(T))]
        progs = []
        for l in g:
            n = len(l) - (1 if pr else 0)
            name = pick(draw, MODS)
            if kind == 1:
                name = pick(draw, ["c01", "c03", "c06"])
            progs.append([name, mod(name).gen(draw, dict(cfg, np=n))])
        ss.append(dict(kind=kind, lim=lim, g=g, p=progs, end=draw(I(0, 15))))
    return dict(s=ss)


def nontrivial(c, cfg):
    T = cfg["np"] + (1 if cfg["port"] == "pr" else 0)
    return len(c["s"]) > 1 or any(s["kind"] == 2 and s["g"][0] != list(range(T)) for s in c["s"])


def labels(c, cfg):
    yield "sessions_%d" % len(c["s"])
    for s in c["s"]:
        yield "kind_%d_groups_%d" % (s["kind"], len(s["g"]))
        for p in s["p"]:
            yield "program_" + p[0]


def build(c, cfg):
    pr = cfg["port"] == "pr"
    T = cfg["np"] + (1 if pr else 0)
    p = Prog(T)
    p.mem = False
    ends = []
    for s in c["s"]:
        k = p.op("session", s["kind"], s["lim"], len(s["g"]), *[[len(l)] + l for l in s["g"]])
        where = {}
        for l in s["g"]:
            w = l[:-1] if pr else l
            for i, q in enumerate(l):
                where[q] = (i, len(w)) if i < len(w) else None
        for q in range(T):
            if q not in where:
                p.expect(k, q, 0, lambda v: None if v[1][0] == -1 and v[1][1] == 0 else "process outside the session: %s" % list(v[1]), "state of a process outside")
            elif where[q] is None:
                p.expect(k, q, 0, lambda v: None if v[1][0] == 0 and v[1][1] == 0 else "got %s" % list(v[1]), "result of initialisation on a serving process")
            else:
                i, n = where[q]
                lim = s["kind"] == 1
                p.expect_ints(k, q, [1, 0, 3, i, n, i, n, int(lim), s["lim"] if lim else -1, 0, 1, i], "state at the start of a session (result, initialised before, after, id, count, "
                              "communicator rank and size, limited, available, in use, default group, position)")
        for ci, l in enumerate(s["g"]):
            w = l[:-1] if pr else l
            p.op("sesssel", ci)
            name, case = s["p"][ci]
            sub = mod(name).build(case, dict(cfg, np=len(w)))
            if sub is None:
                continue
            off = len(p.lines)
            p.lines += sub.lines
            for op, rk, kk, fn, what in sub.exp:
                p.expect(op + off, w[rk], kk, fn, what)
            inv = {q: i for i, q in enumerate(w)}
            hi = len(p.lines)
            for fn in sub.posts:
                p.post(lambda res, fn=fn, off=off, hi=hi, inv=inv: fn({(o - off, inv[r]): v for (o, r), v in res.items() if off <= o < hi and r in inv}))
        ends.append(p.op("sessend", s["end"]))
        for q in range(T):
            p.expect(ends[-1], q, 0, lambda v: None if list(v[1][:3]) == [0, 0, 0] else "initialised flags, left-over files, left-over mappings: %s" % list(v[1][:3]), "state after termination")
    return p
