"""C20: exclusive-access and shared files against an in-memory model."""
import numpy as np
from model import *
from engine import Prog

PROP = "C20"
RULE = ("A case runs 3-25 operations either on exclusive-access files (one set per process, disk files and in-memory files: open in every mode, "
        "blocking and asynchronous reads and writes at generated offsets, length, truncation, reopening, deletion, and requests that must fail: "
        "reads past the end, writes to a read-only file, closed descriptors, non-integer offsets, missing files) or on shared files (disjoint writes by "
        "all processes, reads of what other processes wrote, several requests outstanding, close, open, read-only, destroy). Every byte read, every length and "
        "every result code is compared with the model; at the end every file is read back in full. Non-trivial: at least one write and one read.")
RW, W, R = -1, -2, -3
EXT = 2047 * 1024 * 1024


def configs(tier):
    q = [dict(port="ts", np=3, n=450), dict(port="ts", np=1, n=500), dict(port="ts", np=4, n=300), dict(port="pr", np=3, n=150), dict(port="mpi3", np=2, n=150)]
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 14) for c in q] + [dict(port="ts", np=3, n=3000, variant="asan"), dict(port="mt", np=3, n=1500)]
    return q


def gen_n(draw):
    return pick(draw, [1, draw(I(1, 16)), draw(I(1, 600)), draw(I(1, 600)), draw(I(1, 9000)), 4096, draw(I(60000, 140000))])


def gen(draw, cfg):
    if chance(draw, 1, 3):
        ops = []
        for _ in range(draw(I(3, 20))):
            k = pick(draw, ["w", "w", "w", "r", "r", "r", "r", "close", "rwtor", "destroy", "create"])
            ops.append(dict(op=k, f=draw(I(0, 2)), v=draw(I(0, 1)), off=pick(draw, [0, draw(I(0, 50)), draw(I(0, 9000))]), n=gen_n(draw), seed=gseed(draw), shift=draw(I(0, cfg["np"] - 1)),
                            pend=chance(draw, 1, 2), w=draw(I(0, 3))))
        return dict(m="sf", ops=ops, sx=[pick(draw, [-1, -1, 0, 7, 123]) for _ in range(3)], max=draw(I(1, 3)))
    ops = []
    for _ in range(draw(I(3, 25))):
        k = pick(draw, ["open", "open", "io", "io", "io", "io", "io", "io", "io", "len", "trunc", "close", "delete", "bad", "stat", "wait"])
        op = dict(op=k, f=draw(I(0, 3)), v=draw(I(0, 1)))
        if k == "open":
            op.update(name=draw(I(0, 4)), mode=pick(draw, [RW, RW, RW, W, R]), mb=draw(I(1, 2)))
        elif k == "io":
            op.update(rd=draw(I(0, 1)), a=draw(I(0, 1)), at=draw(I(0, 9)), x=gseed(draw), n=gen_n(draw), seed=gseed(draw), pr=draw(I(0, 1)), pend=chance(draw, 1, 3), ext=chance(draw, 1, 25))
        elif k == "trunc":
            op.update(x=gseed(draw), ext=chance(draw, 1, 6))
        elif k == "bad":
            op.update(w=draw(I(0, 6)))
        elif k == "delete":
            op.update(name=draw(I(0, 5)))
        ops.append(op)
    return dict(m="eaf", ops=ops)


def nontrivial(c, cfg):
    k = [o.get("rd", dict(w=0, r=1).get(o["op"])) for o in c["ops"]]
    return 0 in k and 1 in k


def labels(c, cfg):
    yield c["m"]
    for o in c["ops"]:
        yield c["m"] + "_" + o["op"] + ("_%d" % o["w"] if o["op"] == "bad" else "")
        if o["op"] == "io":
            yield "io_" + ("r" if o["rd"] else "w") + ("_async" if o["a"] else "") + ("_pending" if o["pend"] else "") + ("_extent" if o["ext"] else "")


def data(seed, i0, n):
    return hsh(seed, np.arange(i0, i0 + n, dtype=np.uint64)).astype(np.uint8)


class File:
    """Sparse model of a file: length and written pieces; everything else reads as zero (in-memory files: undefined)."""

    def __init__(self, size=0, mem=False):
        self.len, self.mem, self.p = size, mem, []

    def write(self, off, mk, n):
        self.p.append((off, n, mk))
        self.len = max(self.len, off + n)

    def read(self, r, off, n):
        x, k = np.zeros(n, np.uint8), np.full(n, not self.mem)
        for o, m, mk in self.p:
            a, b = max(off, o), min(off + n, o + m)
            if a < b:
                x[a - off:b - off] = mk(r, a - o, b - a)
                k[a - off:b - off] = True
        return x, k

    def trunc(self, n):
        self.p = [(o, min(m, n - o), mk) for o, m, mk in self.p if o < n]
        self.len = n


def cmpb(want, known, what):
    def f(v):
        if v[0] != "b" or len(v[1]) != len(want):
            return "%s: unexpected record %r" % (what, v[0] if v[0] != "b" else len(v[1]))
        got = np.frombuffer(v[1], np.uint8)
        bad = np.flatnonzero((got != want) & known)
        if len(bad):
            return "%s: %d of %d bytes differ, first at %d: got %d expected %d" % (what, len(bad), len(want), bad[0], got[bad[0]], want[bad[0]])
    return f


def build_eaf(c, P, p):
    files, fd = {}, {}              # name index -> File; slot -> (name, mode)
    pend, nq = {}, [0]              # request -> (slot, off, n, file, rd)
    NM = ["fa", "fb", "longer_name.dat", "mem_a", "mem_b", "nosuch"]

    def code(k, fail=0, eof=None, what="result code"):
        for r in range(P):
            if eof is None:
                p.expect(k, r, 0, lambda v: None if v[0] == "i" and v[1][0] == fail else "failed=%s expected %s" % (v[1][0], fail), what)
            else:
                p.expect_ints(k, r, [fail, eof], what + " (failure, end of file)")

    def wait(q, v=0, pr=0):
        F, off, n, rd, snap = pend.pop(q)
        k = p.op("eafwait", v, q, pr)
        code(k, 0, 0, "waiting for a request")
        if rd:
            for r in range(P):
                p.expect(k, r, 1, cmpb(*snap[r], "asynchronous read"), "data")

    def drain(f=None):
        for q in list(pend):
            if f is None or pend[q][0] == f:
                wait(q, q % 2, q // 2 % 2)

    def close(f, v=0):
        drain(f)
        code(p.op("eafclose", v, f), 0, 0, "closing a file")
        del fd[f]

    def opn(f, name, mode, v, mb=1):
        mem = name in (3, 4)
        for g in list(fd):
            if g == f or mem and fd[g][0] == name or fd[g][0] == name and (mode == W or fd[g][1] == W):
                close(g, v)
        F = files.get(name)
        if not mem and F and F.len >= EXT and mode == W:
            mode = RW
        k = p.op("eafopen", v, f, 1, mb if mem else mode, NM[name])
        if not mem and mode == R and F is None:
            code(k, 1, 0, "opening a missing file for reading")
            return
        code(k, 0, 0, "opening a file")
        if F is None:
            F = files[name] = File(mb << 20, True) if mem else File()
        if mode == W and not mem:
            F.trunc(0)
        fd[f] = (name, RW if mem else mode)

    def io(op):
        f = op["f"]
        if f not in fd:
            if not fd:
                opn(f, op["x"] % 5, RW, op["v"])
            else:
                f = sorted(fd)[op["x"] % len(fd)]
        name, mode = fd[f]
        F = files[name]
        rd, n = op["rd"], op["n"]
        L, at, x = F.len, op["at"], op["x"]
        off = [0, 0, x % (L + 1), x % (L + 1), x % (L + 1), x % 5000, L, L + x % 9000, 4096 * (x % 20), max(0, L - n)][at]
        if rd and at in (2, 3, 4) and L > 0:
            off = x % L
            n = min(n, L - off)
        if op["ext"] and not F.mem:
            off = EXT - x % (n + 1)
            if off == EXT or off + n <= EXT or rd and L <= off:
                off = EXT - 1
                n = max(n, 2)
            if rd and L <= EXT:
                off, n = 0, 1
        elif not F.mem and L > EXT:
            off %= EXT          # no holes beyond the first extent
            n = min(n, EXT - off)
        over = off + n > F.len and (rd or F.mem)
        if F.mem and not over:
            n = min(n, F.len - off)
        bad = (mode == R and not rd) or (mode == W and rd) or over
        a = op["a"]
        q = nq[0] % 32
        nq[0] += 1
        if q in pend:
            wait(q)
        # outstanding requests must not overlap
        for y in list(pend):
            G, o, m, rr, _ = pend[y]
            if G in fd and fd[G][0] == name and not (rd and rr) and o < off + n and off < o + m:
                wait(y, y % 2)
        k = p.op("eafio", op["v"], rd, a, f, "%d" % off, n, op["seed"], q)
        if bad:
            eof = None if F.mem or a or mode != RW and mode != R or not rd else 1
            code(k, 1, eof, "read past the end" if over and rd else "transfer that must fail")
            return
        code(k, 0, 0, "starting a transfer" if a else "transfer")
        snap = None
        if rd:
            snap = [F.read(r, off, n) for r in range(P)]
        else:
            s = op["seed"]
            F.write(off, lambda r, i, m, s=s: data(s + r, i, m), n)
        if a:
            pend[q] = (f, off, n, rd, snap)
            if not op["pend"]:
                wait(q, op["v"], op["pr"])
        elif rd:
            for r in range(P):
                p.expect(k, r, 1, cmpb(*snap[r], "read of %d bytes at %d" % (n, off)), "data")

    def length(f, v):
        k = p.op("eaflen", v, f)
        code(k, 0, 0, "inquiring the length")
        for r in range(P):
            p.expect(k, r, 1, lambda v, w=float(files[fd[f][0]].len): None if v[0] == "d" and v[1][0] == w else "got %s expected %s" % (v[1][0], w), "file length")

    for op in c["ops"]:
        k, f, v = op["op"], op["f"], op["v"]
        if k == "open":
            opn(f, op["name"], op["mode"], v, op["mb"])
        elif k == "io":
            io(op)
        elif k == "wait":
            drain()
        elif k == "len" and f in fd:
            drain()
            length(f, v)
        elif k == "close" and f in fd:
            close(f, v)
        elif k == "trunc" and f in fd:
            drain()
            name, mode = fd[f]
            F = files[name]
            n = op["x"] % (F.len + 1 + (0 if F.len > 100000 else op["x"] % 3000))
            if F.len >= EXT:
                n = min(n, EXT - 1)
            kk = p.op("eaftrunc", v, f, "%d" % n)
            if F.mem or mode == R:
                code(kk, 1, 0, "truncating a file that cannot be truncated")
            else:
                code(kk, 0, 0, "truncating a file")
                F.trunc(n)
            length(f, v)
        elif k == "delete":
            for g in list(fd):
                if fd[g][0] == op["name"]:
                    close(g, v)
            kk = p.op("eafdelete", v, 1, NM[op["name"]])
            code(kk, 0, 0, "deleting a file")
            for r in range(P):
                p.expect_ints(kk, r, [0], "file exists after deletion", k=1)
            files.pop(op["name"], None)
        elif k == "stat":
            kk = p.op("eafstat", v)
            code(kk, 0, 0, "file system status")
            for r in range(P):
                p.expect_ints(kk, r, [1, 1], "file system status", k=1)
        elif k == "bad":
            w = op["w"]
            g = sorted(fd)[0] if fd else None
            if w in (0, 1):
                kk = p.op("eafio", v, w, v ^ 1, -1, "0", 5, 1, 40)
            elif w == 2:
                kk = p.op("eaflen", v, -1)
            elif w == 3:
                kk = p.op("eaftrunc", v, -1, "3")
            elif w == 4:
                kk = p.op("eafclose", v, -1)
            elif w == 5:
                kk = p.op("eafopen", v, 9, 1, R, NM[5])
            elif g is not None:
                kk = p.op("eafio", 1, f % 2, v, g, "%d.5" % (f * 3), 5, 1, 40)
            else:
                continue
            code(kk, 1, 0, "request that must fail")
    drain()
    for name, F in sorted(files.items()):
        opn(8, name, R, name % 2)
        length(8, name % 2)
        segs = [(0, F.len)] if F.len < 3000000 else [(0, 200000), (EXT - 300, F.len - EXT + 300)] if F.len > EXT else [(F.len - 300, 300)]
        for o, n in segs:
            while n > 0:
                m = min(n, 1 << 20)
                k = p.op("eafio", name % 2, 1, 0, 8, "%d" % o, m, 1, 41)
                code(k, 0, 0, "reading a file back")
                for r in range(P):
                    p.expect(k, r, 1, cmpb(*F.read(r, o, m), "final contents of %s at %d" % (NM[name], o)), "data")
                o, n = o + m, n - m
    for g in list(fd):
        close(g)
    for name in sorted(files):
        k = p.op("eafdelete", name % 2, 1, NM[name])
        code(k, 0, 0, "deleting a file")
        for r in range(P):
            p.expect_ints(k, r, [0], "file exists after deletion", k=1)


def build_sf(c, P, p):
    F, mode, pend, nq = {}, {}, {}, [0]
    read = False

    def ok(k, what):
        for r in range(P):
            p.expect_ints(k, r, [0], what)

    def drain(f=None, w=0):
        l = [q for q in pend if f is None or pend[q][0] == f]
        if not l:
            return
        for part in [l] if w >= 2 else [[q] for q in l]:
            k = p.op("sfwait", w, len(part), *part)
            ok(k, "waiting for shared file requests")
            i = 1
            for q in part:
                _, rd, snap = pend.pop(q)
                if rd:
                    for r in range(P):
                        p.expect(k, r, i, cmpb(*snap[r], "shared file read"), "data")
                    i += 1

    for op in c["ops"]:
        k, f, v = op["op"], op["f"] % c["max"], op["v"]
        if k == "create" or f not in F:
            if f in F:
                continue
            ok(p.op("sfcreate", v, f, c["sx"][f], "sf%d" % f), "creating a shared file")
            F[f], mode[f] = File(), RW
            if k == "create":
                continue
        if k in ("w", "r"):
            rd, n, off = k == "r", op["n"], op["off"]
            if rd:
                if F[f].len < P:
                    continue
                n = min(n, F[f].len // P)
                off = off % (F[f].len - n * P + 1)
            elif mode[f] == R:
                continue
            if not all((rd and x[1]) or x[0] != f for x in pend.values()):
                drain(f, op["w"])
                p.op("sync")
            elif not rd and read:
                p.op("sync")            # other processes may still be reading
            read = rd
            q = nq[0] % 32
            nq[0] += 1
            if q in pend:
                drain()
                p.op("sync")
            sh = op["shift"]
            ok(p.op("sfio", v, int(rd), f, "%d" % off, "%d" % n, op["seed"], q, sh), "shared file transfer")
            if rd:
                snap = [F[f].read(0, off + (r + sh) % P * n, n) for r in range(P)]
            else:
                snap = None
                F[f].write(off, lambda r, i, m, s=op["seed"]: data(s, i, m), n * P)
            pend[q] = (f, rd, snap)
            if not op["pend"]:
                drain(None, op["w"])
                if not rd:
                    p.op("sync")
        else:
            drain(f, op["w"])
            p.op("sync")
            if k == "close":
                ok(p.op("sfctl", v, 0, f), "closing a shared file")
                p.op("sync")
                ok(p.op("sfctl", v ^ 1, 1, f), "opening a shared file")
                mode[f] = RW
            elif k == "rwtor":
                ok(p.op("sfctl", v, 2, f), "making a shared file read-only")
                mode[f] = R
            elif k == "destroy":
                ok(p.op("sfctl", v, 3, f), "destroying a shared file")
                del F[f]
    drain(None, 2)
    p.op("sync")
    for f in sorted(F):
        n = F[f].len // P
        if n:
            ok(p.op("sfio", 0, 1, f, "0", "%d" % n, 1, 50, 0), "shared file transfer")
            k = p.op("sfwait", 0, 1, 50)
            ok(k, "waiting")
            for r in range(P):
                p.expect(k, r, 1, cmpb(*F[f].read(0, r * n, n), "final contents of shared file %d" % f), "data")
        p.op("sync")
        ok(p.op("sfctl", f % 2, 3, f), "destroying a shared file")
    p.op("sync")


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    (build_eaf if c["m"] == "eaf" else build_sf)(c, P, p)
    return p
