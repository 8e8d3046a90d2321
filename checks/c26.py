"""C26: invalid requests are reported by the call itself and leave every array as it was."""
import numpy as np
from model import *
from engine import Prog

PROP = "C26"
RULE = ("A case creates arrays of generated type, shape, distribution and interface (a working array, one of the same type and shape, one of "
        "another shape, one of another type, square and vector arrays for linear algebra, on the world or a process group), fills them, and "
        "then issues one to six invalid requests, each a single-fault mutation of a valid one: a bound below zero, beyond the extent or "
        "inverted; a subscript out of range in a list of valid ones; a zero or negative stride; a destroyed, negative, far too large or never "
        "issued handle; a patch of another shape, an array of another type or shape, or out of range, in each operand position of elementwise, copy, "
        "transpose, dot, multiply, median, diagonal, scan and solver operations; a lock that does not exist; an impossible creation "
        "request - through all interfaces, one-sided ones by generated subsets of the processes. The error handler is intercepted: a "
        "request must raise an error inside the call on every caller; afterwards every array must be unchanged and a valid request must "
        "work. Non-trivial: every case with an attack. Distinct by content.")


def configs(tier):
    q = [dict(port="ts", np=4, n=420), dict(port="ts", np=2, n=130), dict(port="ts", np=5, n=180), dict(port="ts", np=5, emb=[4, 0, 2], n=60),
         dict(port="pr", np=5, n=180), dict(port="mpi3", np=3, n=40), dict(port="ts", np=1, n=60), dict(port="ts", np=3, n=60)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 20) for c in q] + [dict(port="mt", np=4, n=900), dict(port="pt", np=4, n=600), dict(port="ts", np=8, n=900),
                                                  dict(port="pr", np=4, n=600, env=PR_SRV), dict(port="ts", np=4, n=900, variant="asan")]
    return [dict(c, timeout=60, restart_every=60) for c in q]


A, B, C, D, M, N, X, V, W, STALE, BAD = range(11)
T2 = (INT, LONG, LLONG, FLT, DBL, SCPL, DCPL)


def badpatch(r, d, modes=("lo", "hi", "inv", "far")):
    """lo, hi with exactly one bad dimension."""
    lo, hi = [], []
    for e in d:
        a = int(r.integers(0, e))
        lo.append(a)
        hi.append(int(r.integers(a, e)))
    k = int(r.integers(0, len(d)))
    m = modes[int(r.integers(0, len(modes)))]
    if m == "lo":
        lo[k] = -1 - int(r.integers(0, 2))
    elif m == "hi":
        hi[k] = d[k] + int(r.integers(0, 2))
    elif m == "far":
        lo[k], hi[k] = d[k] + int(r.integers(0, 2)), d[k] + 2
    else:
        a = int(r.integers(0, d[k] + 1))
        lo[k], hi[k] = a, a - 1
        if not 0 <= a - 1 or a >= d[k]:
            lo[k], hi[k] = (1, 0) if d[k] > 1 else (0, -1)
    return lo, hi


def okpatch(r, d):
    lo, hi = [], []
    for e in d:
        a = int(r.integers(0, e))
        lo.append(a)
        hi.append(int(r.integers(a, e)))
    return lo, hi


def full(d):
    return [0] * len(d), [e - 1 for e in d]


def badsub(r, d):
    s = [int(r.integers(0, e)) for e in d]
    k = int(r.integers(0, len(d)))
    s[k] = (-1, d[k], d[k] + 2)[int(r.integers(0, 3))]
    return s


def ext(lo, hi):
    return [max(1, b - a + 1) for a, b in zip(lo, hi)]


G = (7, -20, 41)


class At:
    """Everything an attack may refer to."""

    def __init__(self, c, rng, P):
        self.c, self.r, self.P = c, rng, P

    def I(self, a, b):
        return int(self.r.integers(a, b + 1))

    def pick(self, l):
        return l[self.I(0, len(l) - 1)]

    def d(self, s):
        return self.c["dims"][str(s)]

    def t(self, s):
        return self.c["types"][str(s)]

    def al(self):
        return [self.I(1, 3), 0]


def tgt(a, bad):
    """slot to attack and whether the handle itself is the fault"""
    return (a.pick([STALE, BAD]), True) if bad else (A, False)


# one-sided -----------------------------------------------------------------
def o_patch(name, nv, acc=False, nb=False, src=True):
    def f(a, bad):
        s, h = tgt(a, bad)
        lo, hi = okpatch(a.r, a.d(A)) if h else badpatch(a.r, a.d(A))
        ld = ext(lo, hi)[1:]
        x = [name, a.pick(nv)] + ([a.I(0, 3)] if nb else []) + [s, lo, hi, ld]
        if src:
            x += [G]
        if acc:
            x += [a.al()]
        return x
    return f


def o_strided(name, acc=False, src=True):
    def f(a, bad):
        s, h = tgt(a, bad)
        d = a.d(A)
        sk = [a.I(1, 3) for _ in d]
        lo, hi = okpatch(a.r, d)
        if not h:
            if a.I(0, 2):
                lo, hi = badpatch(a.r, d)
            else:
                sk[a.I(0, len(d) - 1)] = a.pick([0, -1, -2])
        ld = [max(1, e) for e in ext(lo, hi)[1:]]
        return [name, a.I(0, 2), s, lo, hi, sk, ld] + ([G] if src else []) + ([a.al()] if acc else [])
    return f


def o_subs(name, acc=False, src=True):
    def f(a, bad):
        s, h = tgt(a, bad)
        d = a.d(A)
        n = a.I(1, 6)
        subs = [[a.I(0, e - 1) for e in d] for _ in range(n)]
        if not h:
            subs[a.I(0, n - 1)] = badsub(a.r, d)
        return [name, a.I(0, 5), s, n, sum(subs, [])] + ([G] if src else []) + ([a.al()] if acc else [])
    return f


def o_readinc(a, bad):
    s, h = tgt(a, bad)
    if not h and a.t(A) in (INT, LONG, LLONG) and a.I(0, 1):
        return ["readinc", a.I(0, 3), A, 1, badsub(a.r, a.d(A)), 1]
    if not h:
        # element type without read-increment
        k = [i for i in (A, D) if a.t(i) not in (INT, LONG, LLONG)]
        if not k:
            return None
        s = a.pick(k)
    return ["readinc", a.I(0, 3), s, 1, [a.I(0, e - 1) for e in a.d(A)], 1]


def o_lock(a, bad):
    if bad or a.P == 1:                            # on one process locks do nothing
        return None
    return [a.pick(["lock", "unlock"]), a.pick([-1, 3, 4, 1000])]


# collective ------------------------------------------------------------------
def c_el1(a, bad):
    s, h = tgt(a, bad)
    op = a.pick(["zero", "fill", "scale", "addc", "abs", "recip"])
    if h and a.I(0, 1):
        return ["el1", a.I(0, 4), op, s, 0, a.al()]
    if h:
        return ["el1", a.I(0, 4), op, s, 1, *okpatch(a.r, a.d(A)), a.al()]
    lo, hi = badpatch(a.r, a.d(A))
    return ["el1", a.I(0, 4), "zero", A, 1, lo, hi, a.al()]


def three(a, bad):
    """Operands (slots, patches or None) of a three-array operation with one fault."""
    s = [A, B, A]
    k = a.I(0, 2)
    m = a.I(0, 5)
    if bad:
        s[k] = a.pick([STALE, BAD])
        return s, None
    if m == 0:
        s[k] = D                                   # other type
        return s, None
    if m == 1:
        s[k] = C                                   # other shape
        return s, None
    f = full(a.d(A))
    p = [f, f, f]
    if m == 2:
        s[k] = D
    elif m == 3:
        p[k] = badpatch(a.r, a.d(A))
    elif m == 4:                                   # fewer elements
        lo, hi = list(f[0]), list(f[1])
        j = max(range(len(lo)), key=lambda i: hi[i])
        hi[j] -= 1
        if hi[j] < lo[j]:
            p[k] = badpatch(a.r, a.d(A))
        else:
            p[k] = (lo, hi)
    else:                                          # an operand with too few elements
        s[k], p[k] = C, full(a.d(C))
    return s, p


def flat(p):
    return [] if p is None else sum([list(x[0]) + list(x[1]) for x in p], [])


def c_el2(a, bad):
    s, p = three(a, bad)
    return ["el2", a.I(0, 4), a.pick(["mul", "div", "max", "min"]), s, 0 if p is None else 1, flat(p)]


def c_gadd(a, bad):
    s, p = three(a, bad)
    v = a.I(0, 2)
    return ["gadd", v, s, a.al(), a.al(), 0 if p is None else 1, flat(p)]


def two(a, bad, patch=True):
    s = [A, B]
    k = a.I(0, 1)
    if bad:
        s[k] = a.pick([STALE, BAD])
        return s, [full(a.d(A))] * 2
    f = full(a.d(A))
    p = [f, f]
    m = a.I(0, 4 if patch else 1)
    if m == 0:
        s[k] = D
    elif m in (1, 4):
        s[k], p[k] = C, full(a.d(C))
    elif m == 2:
        p[k] = badpatch(a.r, a.d(A))
    else:
        lo, hi = list(f[0]), list(f[1])
        j = max(range(len(lo)), key=lambda i: hi[i])
        hi[j] -= 1
        p[k] = (lo, hi) if hi[j] >= lo[j] else badpatch(a.r, a.d(A))
    return s, p


def c_copy(a, bad):
    s, p = two(a, bad, False)
    return ["copy", a.I(0, 3), s]


def c_copyp(a, bad):
    s, p = two(a, bad)
    return ["copyp", a.I(0, 4), "N", s, flat(p)]


def c_dot(a, bad):
    s, p = two(a, bad, False)
    if s[0] in (STALE, BAD) or s[0] == D and False:
        return ["dot", a.I(0, 2), s]
    return ["dot", a.I(0, 2), s]


def c_dotp(a, bad):
    s, p = two(a, bad)
    return ["dotp", a.I(0, 2), s[0], "n", s[1], "n", flat(p)]


def c_transpose(a, bad):
    s = [M, N]
    if bad:
        s[a.I(0, 1)] = a.pick([STALE, BAD])
        return ["transpose", a.I(0, 3), s]
    k = a.I(0, 1)
    s[k] = a.pick([X, V])
    return ["transpose", a.I(0, 3), s]


def c_gemm(a, bad):
    n = a.d(M)[0]
    s = [M, N, W]
    m, nn, k = n, n, n
    if bad:
        s[a.I(0, 2)] = a.pick([STALE, BAD])
    else:
        j = a.I(0, 3)
        if j == 0:
            s[a.I(0, 2)] = V
        else:
            m, nn, k = a.pick([(n + 1, n, n), (n, n + 1, n), (n, n, n + 1)])
    return ["gemm", a.I(0, 1), a.pick("nt"), a.pick("nt"), m, nn, k, s, a.al(), a.al()]


def c_matmulp(a, bad):
    n = a.d(M)[0]
    s = [M, N, W]
    f = ([0, 0], [n - 1, n - 1])
    p = [f, f, f]
    if bad:
        s[a.I(0, 2)] = a.pick([STALE, BAD])
    else:
        k = a.I(0, 2)
        if a.I(0, 2) == 0:
            s[k] = X
            p[k] = full(a.d(X))
        else:
            p[k] = badpatch(a.r, [n, n])
    return ["matmulp", a.pick([0, 1, 2, 5, 6]), "n", "n", s, a.al(), a.al(), flat(p)]


def c_median(a, bad):
    s = [A, B, A, B]
    k = a.I(0, 3)
    f = full(a.d(A))
    p = [f] * 4
    if bad:
        s[k] = a.pick([STALE, BAD])
        if a.I(0, 1):
            p = None
    else:
        m = a.I(0, 2)
        if m == 0:
            s[k] = D
            if a.I(0, 1):
                p = None
        elif m == 1:
            s[k] = C
            p = None
        else:
            p[k] = badpatch(a.r, a.d(A))
    return ["median", a.I(0, 3), s, 0 if p is None else 1, flat(p)]


def c_diagop(a, bad):
    op = a.pick(["get", "set", "add", "zero", "shift", "rows", "cols"])
    two_ = op in ("get", "set", "add", "rows", "cols")
    if bad:
        if two_ and a.I(0, 1):
            return ["diagop", a.I(0, 3), op, M, a.pick([STALE, BAD]), a.al()]
        return ["diagop", a.I(0, 3), op, a.pick([STALE, BAD]), V if two_ else -1, a.al()]
    if not two_:
        if len(a.d(A)) == 2:
            return None
        return ["diagop", a.I(0, 3), op, A, -1, a.al()]
    m = a.I(0, 1)
    return ["diagop", a.I(0, 3), op, M, a.pick([X, W]) if m else (A if len(a.d(A)) != 1 else X), a.al()]


def c_scan(a, bad):
    n = a.d(V)[0]
    op = a.pick(["copy", "add", "pack", "unpack"])
    if bad:
        s = [V, V, V]
        s[a.I(0, 2)] = a.pick([STALE, BAD])
        return ["scan", a.I(0, 2), op, s, 0, n - 1, 0]
    return ["scan", a.I(0, 2), op, V, M, V, 0, n - 1, 0]


def c_lin(a, bad):
    op = a.pick(["sym", "lu", "solve", "llt", "spd"])
    s = [M, N]
    if bad:
        s[0 if op in ("sym", "spd") else a.I(0, 1)] = a.pick([STALE, BAD])
    else:
        s[0] = X
    return ["lin", a.I(0, 2), op, s[0], s[1], -1, ord("n") if op.startswith("lu") else 0, 0]


def c_handle(a, bad):
    if not bad:
        return None
    s = a.pick([STALE, BAD])
    op = a.pick(["destroy", "dup", "inquire", "getname", "nblock", "dists", "locates", "hasghosts", "gupd", "norm", "verify",
                 "setprop", "topo", "memquery"])
    if op == "destroy":
        return ["destroy", s]
    if op == "dup":
        return ["dup", 20, s, 0, "zz"]
    if op == "inquire":
        return ["inquire", s, a.I(0, 1)]
    if op == "dists":
        return ["dists", a.I(0, 2), s, 1]
    if op == "locates":
        return ["locates", a.I(0, 2), s, 1, [0] * len(a.d(A))]
    if op == "gupd":
        return ["gupd", s, a.I(0, 2)]
    if op == "norm":
        return ["norm", a.I(0, 2), a.I(0, 1), s]
    if op == "topo":
        return ["topo", s, 1]
    if op == "setprop":
        return ["setprop", s, "read_only"]
    if op in ("memquery", "verify", "hasghosts"):
        return None
    return [op, s]


def c_create(a, bad):
    if bad:
        return None
    m = a.I(0, 3)
    t, d = a.pick([INT, DBL]), [4, 5]
    if m == 0:
        t = 99
    elif m == 1:
        d = a.pick([[0, 4], [4, -1], [-3], [0]])
    elif m == 2:
        d = [2] * 8
    else:
        d = []
    return ["create", 21, t, len(d), d, 0, 0, 0, 0, 0, -1, 0, 1, a.pick([0, 1, 2, 3, 4]), "zz"]


ATT = {
    "put": (0, o_patch("put", range(5))), "get": (0, o_patch("get", range(5), src=False)), "acc": (0, o_patch("acc", range(5), acc=True)),
    "sput": (0, o_strided("sput")), "sget": (0, o_strided("sget", src=False)), "sacc": (0, o_strided("sacc", acc=True)),
    "pput": (0, None), "scatter": (0, o_subs("scatter")), "gather": (0, o_subs("gather", src=False)), "scatacc": (0, o_subs("scatacc", acc=True)),
    "readinc": (0, o_readinc), "lock": (0, o_lock),
    "nbput": (0, o_patch("nbput", range(3), nb=True)), "nbget": (0, o_patch("nbget", range(3), nb=True, src=False)),
    "nbacc": (0, o_patch("nbacc", range(3), acc=True, nb=True)),
    "el1": (1, c_el1), "el2": (1, c_el2), "gadd": (1, c_gadd), "copy": (1, c_copy), "copyp": (1, c_copyp), "dot": (1, c_dot), "dotp": (1, c_dotp),
    "transpose": (1, c_transpose), "gemm": (1, c_gemm), "matmulp": (1, c_matmulp), "median": (1, c_median), "diagop": (1, c_diagop),
    "scan": (1, c_scan), "lin": (1, c_lin), "handle": (1, c_handle), "create": (1, c_create),
}
ATT.pop("pput")
MAT = ("transpose", "gemm", "matmulp", "diagop", "scan", "lin")


def gen(draw, cfg):
    P = cfg["np"]
    t = pick(draw, T2)
    a = gen_array(draw, P, t=t, nds=(1, 2, 2, 3, 4), ghosts=False)
    d = list(a["dims"])
    b = gen_array(draw, P, t=t, dims=d, ghosts=False)
    dc = list(d)
    k = draw(I(0, len(d) - 1))
    dc[k] += draw(I(1, 2))
    if chance(draw, 1, 3):
        dc = dc + [draw(I(2, 3))]
    cc = gen_array(draw, P, t=t, dims=dc, ghosts=False)
    td = pick(draw, [x for x in T2 if x != t])
    dd = gen_array(draw, P, t=td, dims=d, ghosts=False)
    tm = pick(draw, (FLT, DBL, SCPL, DCPL))
    n = draw(I(2, 7))
    sq = [gen_array(draw, P, t=tm, dims=[n, n], kinds=(0, 1, 2)) for _ in range(3)]
    x = gen_array(draw, P, t=tm, dims=[n, n + 1], kinds=(0, 1))
    v = gen_array(draw, P, t=tm, dims=[n], kinds=(0, 1))
    att = []
    for _ in range(draw(I(1, 6))):
        att.append(dict(k=pick(draw, sorted(ATT)), bad=chance(draw, 1, 4), seed=gseed(draw), who=draw(I(1, (1 << P) - 1))))
    return dict(arrs={"0": a, "1": b, "2": cc, "3": dd, "4": sq[0], "5": sq[1], "6": x, "7": v, "8": sq[2]}, att=att, seed=gseed(draw),
                bad=pick(draw, [-1, -800, -1001, 0, 5, 100000, -500, 31000, -2147483648, 2147483647]))


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    S = sorted(int(k) for k in c["arrs"])
    M_ = {}
    for s in S:
        a = c["arrs"][str(s)]
        emit_create(p, s, a)
        g = (hsh(c["seed"], s) % 10 ** 6, -9, 19)
        p.op("init", s, g, 0)
        M_[s] = gen_vals(a["t"], g, a["dims"])
    d = c["arrs"]["0"]["dims"]
    t = c["arrs"]["0"]["t"]
    # a handle that was valid and no longer is
    p.op("create", 9, t, len(d), d, 0, 0, 0, 0, 0, -1, 0, 1, 0, "old")
    p.op("destroy", 9)
    p.op("fake", 9, t, len(d), d, 1, 9)
    p.op("fake", 10, t, len(d), d, 0, c["bad"])
    dm, tm = c["arrs"]["4"]["dims"], c["arrs"]["4"]["t"]
    info = dict(dims={str(s): c["arrs"][str(s)]["dims"] for s in S}, types={str(s): c["arrs"][str(s)]["t"] for s in S})
    done = []
    for x in c["att"]:
        col, f = ATT[x["k"]]
        l = f(At(info, np.random.default_rng(x["seed"]), P), x["bad"])
        if l is None:
            continue
        mask = -1 if col else x["who"]
        if x["bad"]:
            # the driver takes the shape of its buffers from the slot
            e = (tm, 2, dm) if x["k"] in MAT else (t, len(d), d)
            p.op("fake", 9, *e, 1, 9)
            p.op("fake", 10, *e, 0, c["bad"])
        j = p.op("!" + l[0], *l[1:], mask=mask)
        done.append((j, x["k"], x["bad"], l))
        if l[0] == "el1" and not x["bad"]:
            # these clip the patch to the array on some distributions: report, or touch exactly the part inside
            p.op("sync")
            q = p.op("dump", 0)
            z = M_[0].copy()
            z[tuple(slice(max(0, u), max(0, w + 1)) for u, w in zip(l[5], l[6]))] = 0

            def chk(res, j=j, q=q, l=l, z=z):
                e = [res[j, r][-1][0] == "E" if res.get((j, r)) else False for r in range(P)]
                if any(e) != all(e):
                    return "only some processes report the invalid request %s" % l
                got = bytes(res[q, 0][0][1])
                if got != (M_[0] if e[0] else z).tobytes():
                    return "%s %s, and the array is not %s" % (l, "was reported" if e[0] else "raised no error",
                                                               "unchanged" if e[0] else "the one with the part of the patch inside it zeroed")
            p.post(chk)
            p.op("init", 0, (hsh(c["seed"], 0) % 10 ** 6, -9, 19), 0)
            continue
        if l[0] in ("create", "dup"):
            p.op("fake", l[1], 0, 1, 1, 0, 0)
        for r in range(P):
            if mask < 0 or mask >> r & 1:
                p.post(lambda res, j=j, r=r, l=l: None if (res.get((j, r)) or [("", b"")])[-1][0] == "E" or
                       l[0] == "create" and np.frombuffer(res[j, r][0][1], "<i8")[0] == 0 else
                       "an invalid request was not reported: %s -> %s" % (" ".join(map(str, l)), [q[0] for q in res.get((j, r), [])]))
        p.op("sync")
    for s in S:
        j = p.op("dump", s)
        p.expect_bytes(j, 0, M_[s], "contents of array %d after the invalid requests" % s)
    lo, hi = full(d)
    j = p.op("get", 1, 0, lo, hi, d[1:], mask=1)
    p.expect_bytes(j, 0, M_[0], "a valid get after the invalid requests")
    p.info = done
    return p


def nontrivial(c, cfg):
    return len(c["att"]) > 0


def labels(c, cfg):
    return ["%s%s" % (x["k"], "-handle" if x["bad"] else "") for x in c["att"]]
