"""C18: the MA stack/heap allocator against a model of its live blocks."""
from model import *
from engine import Prog

PROP = "C18"
TARGET = "madrv"
TECHNIQUE = "Property-based testing: Hypothesis-generated operation sequences on the real allocator, judged by a model of the live blocks"
RULE = ("A case initializes the allocator in a process of its own with generated heap and stack sizes, then runs 3-60 generated "
        "operations: heap allocations and pushes (C and Fortran interfaces, every data type, sizes absolute, relative to what "
        "one of the seven inquiries reports, negative and overflowing), frees, partial frees, pops, chops (also of the wrong "
        "kind, out of order and of released handles), alignment changes, size conversions and probes. After every operation "
        "every live block must be intact, disjoint from the others, aligned, inside the segment and reachable by pointer and "
        "both indices; refused requests must change nothing; inquiries must be truthful; releasing everything must restore the "
        "initial state. Non-trivial: at least three operations allocate or release after initialization.")


def configs(tier):
    q = [dict(port="ts", np=1, n=1200, salt=s) for s in range(3)] + [dict(port="ts", np=1, n=700, variant="asan", salt=9, env=dict(ASAN_OPTIONS="allocator_may_return_null=1:detect_leaks=0"))]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 25) for c in q]
    return q


def gen_n(draw):
    k = draw(I(0, 15))
    if k < 5:
        return draw(I(0, 12))
    if k < 10:
        return draw(I(0, 120))
    if k < 13:
        return draw(I(0, 1500))
    if k == 13:
        return -draw(I(1, 5))
    return draw(I(0, 40)) * 8


HUGE = [2 ** 63 - 1, 2 ** 62, 2 ** 61, 2 ** 60, 2 ** 59, 2 ** 58, 2 ** 57, 2 ** 40, 2 ** 32, 2 ** 31]


def gen(draw, cfg):
    t0 = draw(I(0, 16))
    big = chance(draw, 1, 5)
    hp, st = [pick(draw, [0, 1, 5]) if chance(draw, 1, 10) else draw(I(0, 20000 if big else 700)) for _ in range(2)]
    if chance(draw, 1, 25):
        hp = -1
    if chance(draw, 1, 25):
        st = -1
    ops = []
    pre = []
    if chance(draw, 1, 10):
        pre.append(["alloc", 0, draw(I(0, 1)), draw(I(0, 1)), draw(I(0, 1)), draw(I(1000, 1016)), -1, draw(I(0, 5)), 3])
    if chance(draw, 1, 10):
        pre.append(["init", draw(I(0, 1)), pick(draw, [999, 1017, 0, -1]), 5, 5])
    if chance(draw, 1, 12):
        pre.append(["init", draw(I(0, 1)), draw(I(1000, 1016)), pick(draw, HUGE[:7]) - draw(I(0, 9)), pick(draw, HUGE[:7] + [1, 10])])
    nxt = 1
    live = []         # (slot, stack)
    tsmall = [draw(I(0, 16)) for _ in range(draw(I(1, 4)))]
    for _ in range(draw(I(3, 25)) if chance(draw, 1, 2) else draw(I(10, 60))):
        k = draw(I(0, 19))
        if k < 8 or not nxt > 1:
            stack = draw(I(0, 1))
            t = pick(draw, tsmall) if chance(draw, 2, 3) else draw(I(0, 16))
            t += 1000
            mode, n = -1, gen_n(draw)
            if chance(draw, 1, 4):
                mode, n = draw(I(0, 6)), pick(draw, [0, 0, 0, -1, -2, -3, -9, 1, 1, 2, 70])
            elif chance(draw, 1, 16):
                n = pick(draw, HUGE) + draw(I(-40, 0))
            elif chance(draw, 1, 30):
                t = pick(draw, [999, 1017, 0, -1, 2000])
            ops.append(["alloc", nxt, draw(I(0, 1)), stack, draw(I(0, 1)), t, mode, n, draw(I(0, 69))])
            live.append((nxt, stack))
            nxt += 1
        elif k < 15 and live:
            if chance(draw, 1, 8):
                ops.append(["rel", draw(I(0, 1)), draw(I(0, 3)), draw(I(1, nxt - 1)), draw(I(-1, 60))])
            elif chance(draw, 1, 2) and any(s for _, s in live):
                ss = [x for x in live if x[1]]
                x = ss[-1] if chance(draw, 2, 3) else pick(draw, ss)
                how = draw(I(2, 3))
                ops.append(["rel", draw(I(0, 1)), how, x[0], 0])
                live = [y for y in live if not y[1] or y[0] < x[0] or (how == 2 and y != x and x != ss[-1])]
            else:
                x = pick(draw, live)
                how = draw(I(0, 1))
                n = draw(I(0, 200)) if how else 0
                ops.append(["rel", draw(I(0, 1)), how, x[0], n])
                if how == 0:
                    live.remove(x)
        elif k < 17:
            ops.append(["probe", draw(I(1000, 1016)), draw(I(0, 6)), draw(I(0, 1)), draw(I(0, 1))])
        elif k == 17:
            ops.append(["align", draw(I(0, 1)), draw(I(0, 9)) if chance(draw, 5, 6) else pick(draw, [-1, 31, 12])])
        elif k == 18:
            ops.append(["sizeof", draw(I(0, 1)), draw(I(1000, 1016)), draw(I(0, 3000)), draw(I(1000, 1016))])
        else:
            ops.append(["init", draw(I(0, 1)), draw(I(1000, 1016)), 50, 50])
    end = draw(I(0, 2))
    return dict(pre=pre, init=[draw(I(0, 1)), 1000 + t0, st, hp], ops=ops, slots=nxt, end=end)


def build(case, cfg):
    p = Prog(1)
    p.mem = False
    for o in case["pre"]:
        p.op(*o)
    p.op("init", *case["init"])
    for o in case["ops"]:
        p.op(*o)
    if case["end"]:
        r = list(range(1, case["slots"]))
        if case["end"] == 1:
            r.reverse()
        for s in r:
            p.op("rel", 0, 0, s, 0)
            p.op("rel", 0, 3, s, 0)
    p.op("sum", 0)
    return p


def nontrivial(case, cfg):
    return sum(o[0] in ("alloc", "rel", "probe") for o in case["ops"]) >= 3


def labels(case, cfg):
    return sorted({o[0] + ("-stack" if o[0] == "alloc" and o[3] else "") for o in case["ops"]})
