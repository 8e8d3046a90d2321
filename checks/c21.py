"""C21: one program through every interface; arrays of one interface used through the others."""
import copy
import importlib
from model import *
from engine import Prog

PROP = "C21"
RULE = ("A case is a program generated by the generator of another property (creation of every distribution, one-sided, gather/scatter, elementwise, copy, reduction, matrix, diagonal, "
        "one-dimensional, ghost, group, direct-access and counter operations, each with that property's model), run four times in one job with its entry points forced: C 32-bit, C 64-bit, "
        "Fortran symbols (reversed indices, base one), C++ 32-bit, C++ 64-bit, or mixed so that an array made through one interface is used through others; each run also chooses "
        "whether the GA_/NGA_ (ga_/nga_) synonyms of all routines are used and, for Fortran, the typed and two-dimensional routines. Every run must give the values of the one model. "
        "Non-trivial: the runs use at least two different interfaces or names.")
ASSUMPTIONS = ["Where an interface has no entry point for an operation, the C one takes its place", "Synonyms are selected at link level for the 162 pairs with equal signatures (tools/mksyn.py)"]
MODS = ["c01", "c01", "c02", "c03", "c03", "c04", "c05", "c06", "c07", "c07", "c07", "c07", "c08", "c08", "c09", "c09", "c10", "c12", "c13", "c14", "c15", "c16", "c28"]
APIS = ("c01", "c03", "c05", "c07", "c09", "c12")
WHO = ["C32", "C64", "Fortran", "CXX32", "CXX64", "mixed"]


def configs(tier):
    q = [dict(port="ts", np=4, n=1500), dict(port="ts", np=3, n=1200), dict(port="ts", np=1, n=300), dict(port="pr", np=3, n=400)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q] + [dict(port="ts", np=6, n=1500), dict(port="mt", np=3, n=1500), dict(port="mpi3", np=2, n=1200)]
    return q


def mod(name):
    return importlib.import_module(name)


def gen(draw, cfg):
    name = pick(draw, MODS)
    k = [2] + list(draw(st.permutations([0, 1, 2, 3, 4, 5])))[:3]      # Fortran has the most names: always there
    return dict(m=name, k=k, s=[pick(draw, [0, 1, 2, 2]) for _ in k], c=mod(name).gen(draw, cfg))


def new_v(m, o, K):
    """The entry-point selector of one operation for interface K."""
    v = o["v"]
    if m in ("c01", "c07", "c08", "c10", "c12", "c16"):
        return K if v <= 4 else v
    if m in ("c02", "c05"):
        return K % 3
    if m == "c03":
        return (0, 1, 4, 5, 3)[K]
    if m == "c04":
        return K if "e" in o else v
    if m == "c09":
        return K % 3 if o.get("op") == "gop" else (0, 0, 2, 0, 2)[K] if o.get("op") == "brd" else K
    if m in ("c13", "c28"):
        return K & 1
    if m == "c15":
        return K if o.get("k") == "get" else v
    return v


def force(m, x, K):
    if isinstance(x, list):
        for y in x:
            force(m, y, K)
    elif isinstance(x, dict):
        if isinstance(x.get("v"), int) and not isinstance(x["v"], bool):
            x["v"] = new_v(m, x, K)
        if isinstance(x.get("api"), int) and "dims" in x:
            if m in APIS and x["kind"] <= 2 and not x["nr"]:
                x["api"] = (0, 1, 4, 5, 6)[K]
            elif x["api"] < 2:
                x["api"] = K & 1
        for y in x.values():
            force(m, y, K)


def nontrivial(c, cfg):
    return len(set(zip(c["k"], c["s"]))) > 1


def labels(c, cfg):
    yield "program_" + c["m"]
    for k, s in zip(c["k"], c["s"]):
        yield WHO[k]
        yield "names_%d" % s


def build(c, cfg):
    p = Prog(cfg["np"])
    for K, s in zip(c["k"], c["s"]):
        case = copy.deepcopy(c["c"])
        if K < 5:
            force(c["m"], case, K)
        p.op("newprog")
        p.op("syn", s)
        sub = mod(c["m"]).build(case, cfg)
        if sub is None:
            return None
        off = len(p.lines)
        p.lines += sub.lines
        for op, rk, kk, fn, what in sub.exp:
            p.expect(op + off, rk, kk, fn, "%s (%s, names %d)" % (what, WHO[K], s))
        hi = len(p.lines)
        for fn in sub.posts:
            p.post(lambda res, fn=fn, off=off, hi=hi: fn({(o - off, r): v for (o, r), v in res.items() if off <= o < hi}))
    return p
