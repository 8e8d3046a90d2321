"""C25: TCGMSG messages, broadcast, global operations, shared counter, file copy."""
import numpy as np
from model import *
from engine import Prog

PROP = "C25"
RULE = ("A case runs 1-7 rounds of TCGMSG calls through the C and Fortran interfaces: point-to-point traffic of 1-30 messages between generated pairs "
        "(blocking and asynchronous on either side, selected or any sender, equal and different types, lengths 0 to 200000, waits at generated points, buffers reused after a wait, "
        "probes), broadcast, integer and floating-point global operations of every kind with lengths around the internal buffer, the shared counter with uneven demand and resets, "
        "barrier, file copy, conversions, clock, random numbers. Message contents, lengths, sources and order, all reduction results and every counter value are compared with the model. "
        "Non-trivial: a round with at least one message between two processes, a collective or counter round.")
ASSUMPTIONS = ["tcg_pend and abnormal termination are not exercised; at most 200 messages outstanding"]


def configs(tier):
    q = [dict(port="ts", np=3, n=450), dict(port="ts", np=4, n=350, chaos=1), dict(port="ts", np=1, n=250), dict(port="ts", np=7, n=100), dict(port="pr", np=3, n=150), dict(port="mpi3", np=3, n=150)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q] + [dict(port="ts", np=3, n=3000, variant="asan"), dict(port="mt", np=3, n=1500), dict(port="pt", np=2, n=500)]
    return q


IOPS = ["+", "*", "max", "min", "absmax", "absmin", "or", "&&", "land", "||", "lor", "&", "band", "|", "bor"]
LOG = ("&&", "land", "||", "lor")
DOPS = ["+", "*", "max", "min", "absmax", "absmin"]


def gen_len(draw):
    return pick(draw, [0, 1, draw(I(2, 64)), draw(I(2, 64)), draw(I(65, 3000)), draw(I(4000, 4200)), draw(I(60000, 200000))])


def gen(draw, cfg):
    P = cfg["np"]
    rounds = []
    for _ in range(draw(I(1, 7))):
        k = pick(draw, ["msg", "msg", "msg", "brd", "gop", "gop", "nxt", "nxt", "sync", "pf", "info", "rnd"])
        r = dict(k=k, v=draw(I(0, 1)))
        if k == "msg":
            big = draw(I(0, 3))
            ms = []
            for _ in range(draw(I(1, 30 if big else 5))):
                m = dict(s=draw(I(0, P - 1)), d=draw(I(0, P - 1)), ty=pick(draw, [0, 0, 1, 2, 32000]), n=gen_len(draw), sb=draw(I(0, 1)), rb=draw(I(0, 1)),
                         any=chance(draw, 1, 5), x=draw(I(0, 40)), seed=gseed(draw), su=pick(draw, [0, 0, 0, 500]), ru=pick(draw, [0, 0, 0, 500]), v=draw(I(0, 3)), w=draw(I(0, 9)), pr=chance(draw, 1, 6))
                ms.append(m)
            r.update(ms=ms)
        elif k == "brd":
            r.update(ty=draw(I(0, 100)), root=draw(I(0, P - 1)), n=gen_len(draw), seed=gseed(draw))
        elif k == "gop":
            kd = draw(I(0, 1))
            lo = pick(draw, [-3, 0, 1, -50, -1000])
            r.update(kd=kd, op=pick(draw, DOPS if kd else IOPS), n=pick(draw, [0, 1, draw(I(2, 9)), draw(I(2, 500)), draw(I(65530, 65540)), draw(I(65537, 140000))]), seed=gseed(draw), lo=lo, span=pick(draw, [1, 2, -2 * lo + 1 if lo < 0 else 5, 7]))
        elif k == "nxt":
            r.update(cnt=[draw(I(0, 25)) for _ in range(P)], us=pick(draw, [0, 0, 100]), us2=draw(I(0, P - 1)), reset=draw(I(0, 1)))
        elif k == "sync":
            r.update(us=[pick(draw, [0, 0, draw(I(1, 3000))]) for _ in range(P)])
        elif k == "pf":
            r.update(root=draw(I(0, P - 1)), n=pick(draw, [0, 1, draw(I(2, 5000)), 32768, 65536, draw(I(32000, 70000))]), seed=gseed(draw))
        elif k == "info":
            r.update(n=pick(draw, [0, 1, draw(I(0, 10 ** 9))]))
        elif k == "rnd":
            r.update(seed=draw(I(0, 2 ** 31 - 1)), n=draw(I(1, 50)))
        rounds.append(r)
    return dict(r=rounds)


def nontrivial(c, cfg):
    return any(r["k"] in ("brd", "gop", "nxt", "sync", "pf") or r["k"] == "msg" and any(m["s"] != m["d"] for m in r["ms"]) for r in c["r"])


def labels(c, cfg):
    for r in c["r"]:
        yield r["k"] + ("_" + "id"[r["kd"]] + r["op"] if r["k"] == "gop" else "")
        if r["k"] == "msg":
            for m in r["ms"]:
                yield "snd_" + ("blocking" if m["sb"] else "async") + " rcv_" + ("blocking" if m["rb"] else "async") + (" any" if m["any"] else "")


def data(seed, n):
    return hsh(seed, np.arange(n, dtype=np.uint64)).astype(np.uint8)


def red(op, vals, kd):
    x = [np.abs(v) if op.startswith("abs") else v for v in vals]
    a = x[0].copy()
    if op in LOG:
        b = [y != 0 for y in x]
        return (np.all(b, axis=0) if op in ("&&", "land") else np.any(b, axis=0)).astype(a.dtype)
    f = {"+": np.add, "*": np.multiply, "max": np.maximum, "absmax": np.maximum, "min": np.minimum, "absmin": np.minimum,
         "or": np.bitwise_or, "|": np.bitwise_or, "bor": np.bitwise_or, "&": np.bitwise_and, "band": np.bitwise_and}[op]
    for y in x[1:]:
        a = f(a, y)
    return a


def msgs(r, P, p, rnd):
    """Messages are executed in list order by both partners; asynchronous operations never block, so no schedule deadlocks."""
    out = {i: [] for i in range(P)}         # outstanding keys: (key, snd, peer selector, message)
    key = [0] * P
    ms = []
    for m in r["ms"]:
        m = dict(m, ty=m["ty"] + 1)
        if m["any"]:
            m["ty"] = 1000 + m["d"]        # messages of this type to this process come from any sender
        ms.append(m)
    anyq = []                               # received with any sender: compared as a set

    def wait(q, node, v):
        ks = [o for o in out[q] if node == -1 or o[2] == node]
        k = p.op("tcgwait", v, node, len(ks), *[o[0] for o in ks], mask=1 << q)
        i = 0
        for o in ks:
            out[q].remove(o)
            if not o[1]:
                m = o[3]
                if not m["any"]:
                    w = np.full(m["n"] + m["x"], 0xA5, np.uint8)
                    w[:m["n"]] = data(m["seed"], m["n"])
                    p.expect_bytes(k, q, w, "asynchronously received message", k=i)
                i += 1
        return ks

    def newkey(q):
        key[q] += 1
        return key[q] % 200

    for m in [m for m in ms if not m["any"]]:
        s, d, sb, rb = m["s"], m["d"], m["sb"], m["rb"]
        if s == d:
            sb = 0

        def snd():
            k = newkey(s)
            p.op("tcgsnd", m["v"] & 1, k, m["ty"], m["n"], d, sb, m["seed"], m["su"], mask=1 << s)
            if not sb:
                out[s].append((k, 1, d, m))

        def rcv():
            k = newkey(d)
            if m["pr"] and rb:
                q = p.op("tcgprobe", m["v"] & 1, m["ty"], s if m["w"] & 1 else -1, 1, mask=1 << d)
                p.expect_ints(q, d, [1], "probe for a message that was sent")
            o = p.op("tcgrcv", m["v"] >> 1, k, m["ty"], m["n"] + m["x"], s, rb, m["ru"], mask=1 << d)
            if rb:
                p.expect_ints(o, d, [m["n"], s], "length and source of a received message")
                p.expect_bytes(o, d, data(m["seed"], m["n"]), "received message", k=1)
            else:
                out[d].append((k, 0, s, m))
        if not rb and (m["w"] & 1):
            rcv()
            snd()
        else:
            snd()
            rcv()
        if m["w"] >= 7:
            q = (s, d)[m["w"] & 1]
            wait(q, pick_node(m, out[q]), m["v"] & 1)
    # messages received with any sender: all sent asynchronously before the first receive, compared as a set
    for m in [m for m in ms if m["any"]]:
        k = newkey(m["s"])
        p.op("tcgsnd", m["v"] & 1, k, m["ty"], m["n"], m["d"], 0, m["seed"], m["su"], mask=1 << m["s"])
        out[m["s"]].append((k, 1, m["d"], m))
    for m in [m for m in ms if m["any"]]:
        d = m["d"]
        cap = max(x["n"] for x in ms if x["any"] and x["d"] == d) + m["x"]
        anyq.append((p.op("tcgrcv", m["v"] >> 1, newkey(d), m["ty"], cap, -1, 1, m["ru"], mask=1 << d), d, m))
    for q in range(P):
        if out[q]:
            wait(q, -1, r["v"])
    for d in range(P):
        k = p.op("tcgprobe", r["v"], 77, -1, 0, mask=1 << d)
        p.expect_ints(k, d, [0], "probe for a type nobody sends")

    # any-sender receives: every message exactly once, in order per sender, under the right source
    if anyq:
        def check(res, anyq=anyq):
            for d in range(P):
                want = {s: [m for m in ms if m["any"] and m["d"] == d and m["s"] == s] for s in range(P)}
                for o, q, m in anyq:
                    if q != d:
                        continue
                    v = [x for x in res.get((o, d), []) if x[0] in "ib"]
                    ln, src = int(v[0][1][0]), int(v[0][1][1])
                    if src not in want or not want[src]:
                        return "op %d rank %d: " % (o, d) + "received a message from process %d, which has none left to deliver" % src
                    w = want[src].pop(0)
                    if ln != w["n"] or v[1][1] != data(w["seed"], w["n"]).tobytes():
                        return "op %d rank %d: " % (o, d) + "message received from process %d (length %d) differs from the one it sent (length %d)" % (src, ln, w["n"])
            return None
        p.post(check)
    p.op("tcgsync", 0, 5, 0)


def pick_node(m, lst):
    return -1 if not lst or m["w"] == 9 else lst[0][2]


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    cnt = 0
    used = False
    for n, r in enumerate(c["r"]):
        k, v = r["k"], r["v"]
        if k == "msg":
            msgs(r, P, p, n)
        elif k == "brd":
            o = p.op("tcgbrd", v, r["ty"], r["root"], r["n"], r["seed"])
            for q in range(P):
                p.expect_bytes(o, q, data(r["seed"], r["n"]), "broadcast of %d bytes from %d" % (r["n"], r["root"]))
        elif k == "gop":
            lo, span = (-2, 4) if r["op"] == "*" else (r["lo"], r["span"])
            o = p.op("tcgop", v, r["kd"], r["op"], r["n"], r["seed"], lo, span)
            t = 4 if r["kd"] else 1
            x = [gen_vals(t, [r["seed"] + q, lo, span], (r["n"],)) for q in range(P)]
            w = red(r["op"], x, r["kd"])
            for q in range(P):
                if r["op"] in LOG:          # only the truth of the result is specified
                    p.expect(o, q, 0, lambda v, w=w: None if v[0] == "b" and np.array_equal(np.frombuffer(v[1], np.int64) != 0, w != 0) else "wrong truth values",
                             "global operation " + r["op"])
                    continue
                p.expect_bytes(o, q, w, "global operation %s on %d %s values" % (r["op"], r["n"], ["integer", "real"][r["kd"]]))
        elif k == "nxt":
            if not used or r["reset"]:
                p.op("tcgnxt0", v)
                used, cnt = True, 0
            ops = [p.op("tcgnxt", v, r["cnt"][q], r["us"] if q == r["us2"] else 0, mask=1 << q) for q in range(P)]

            def check(res, ops=ops, a=cnt, r=r):
                allv = []
                for q in range(P):
                    x = [int(y) for y in res[(ops[q], q)][0][1]]
                    if any(b <= a_ for a_, b in zip(x, x[1:])):
                        return "op %d rank %d: " % (ops[q], q) + "values of the shared counter are not increasing: %s" % x
                    allv += x
                if sorted(allv) != list(range(a, a + sum(r["cnt"]))):
                    return "op %d rank %d: " % (ops[0], 0) + "shared counter values are not exactly %d..%d: %s" % (a, a + sum(r["cnt"]) - 1, sorted(allv)[:40])
                return None
            p.post(check)
            cnt += sum(r["cnt"])
            nx = c["r"][n + 1:n + 2]
            if nx and not (nx[0]["k"] == "nxt" and nx[0]["reset"]):
                p.op("sync")            # a process in MPI_Barrier does not answer counter requests on every port
        elif k == "sync":
            ops = [p.op("tcgsync", v, 7, r["us"][q], mask=1 << q) for q in range(P)]

            def check(res, ops=ops):
                t = [res[(ops[q], q)][0][1] for q in range(P)]
                i = max(range(P), key=lambda q: t[q][0])
                for q in range(P):
                    if t[q][1] < t[i][0]:
                        return "op %d rank %d: " % (ops[q], q) + "left the barrier %.0f us before process %d entered it" % (t[i][0] - t[q][1], i)
                return None
            p.post(check)
        elif k == "pf":
            o = p.op("tcgpf", v, r["root"], r["n"], r["seed"])
            for q in range(P):
                p.expect_bytes(o, q, data(r["seed"], r["n"]), "copied file of %d bytes" % r["n"])
            p.op("tcgsync", v, 3, 0)
        elif k == "info":
            o = p.op("tcginfo", r["n"])
            for q in range(P):
                p.expect_ints(o, q, [q, q, P, P, 1, 1, 8 * r["n"], 8 * r["n"], r["n"], r["n"], 8 * r["n"], 8 * r["n"], r["n"], r["n"]], "nodes and size conversions")
        elif k == "rnd":
            p.op("tcgrnd", r["seed"], r["n"])
    return p
