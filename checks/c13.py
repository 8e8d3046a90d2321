"""C13: ghost cells hold the wrapped-around values of the array after an update, and never leak into it."""
import itertools
import numpy as np
from model import *
from engine import Prog

PROP = "C13"
RULE = ("A case creates a ghost array (all types, 1-7 dimensions, widths 0-3 or as wide as a block, regular, chunked or irregular "
        "layouts, corner flag, world or group, optionally duplicated) and runs 1-5 rounds: change the array (put, accumulate or fill), "
        "overwrite every ghost cell with a marker, run one update (GA_Update_ghosts in C and Fortran, non-blocking, the "
        "selectable algorithms, one direction with or without corners, one mask), and compare the extended block of "
        "every process, elements of it, ghost blocks read by NGA_Get_ghost_block, and the visible array with the model. "
        "Non-trivial: some update method that applied filled at least one ghost cell with a value owned by another process.")
HOW = ["update", "update", "update", "nb", "update1", "update2", "update3", "update4", "update44", "update6", "update5", "update55", "update7"]
METHODS = [0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 12]     # update5, 55 and 6 need ARMCI_PutS_flag, which ComEx does not implement (it aborts)


def configs(tier):
    q = [dict(port="ts", np=4, n=500), dict(port="ts", np=6, n=300), dict(port="ts", np=3, n=300), dict(port="pr", np=4, n=150),
         dict(port="ts", np=1, n=80), dict(port="mpi3", np=4, n=100), dict(port="pr", np=3, n=100, env=PR_SRV), dict(port="ts", np=8, n=150)]
    q += embedded(90)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=1500), dict(port="pt", np=4, n=1500), dict(port="ts", np=12, n=1500),
                                                  dict(port="ts", np=4, n=2500, variant="asan"), dict(port="pr", np=4, n=1500, env=PR_DT)]
    return q


def gen(draw, cfg):
    P = cfg["np"]
    grp = None
    if chance(draw, 1, 6):
        grp = sorted(gen_group(draw, P))
    M = len(grp) if grp else P
    nd = draw(I(1, 7))
    while True:
        g = gen_ghost(draw, M, nd, width=3 if nd < 4 else 2)
        if g:
            break
        nd = draw(I(1, 7))
    dims, gw, d = g
    a = dict(t=draw(I(0, 6)), dims=dims, gw=gw, nr=[], api=pick(draw, [0, 1, 2, 3, 4]) if not grp else draw(I(0, 1)), **d)
    rounds = []
    for _ in range(draw(I(1, 5))):
        lo, hi = gen_patch(draw, dims)
        r = dict(ch=pick(draw, ["put", "put", "acc" if a["t"] != LLONG else "put", "fill", "none"]), r=draw(I(0, M - 1)), lo=lo, hi=hi,
                 g=[gseed(draw), -40, 81], b32=draw(I(0, 1)), mask=draw(I(0, 9)) == 0)
        x = draw(I(0, 9))
        if x < 6:
            r.update(k="upd", how=pick(draw, METHODS))
        elif x < 8:
            r.update(k="dir", dim=draw(I(0, nd - 1)), dir=pick(draw, [-1, 1]), fl=draw(I(0, 1)), v=draw(I(0, 1)))
        else:
            r.update(k="nbdir", m=[draw(I(-1, 1)) for _ in dims], v=draw(I(0, 1)))
        # a ghost block request per process: relative to the process's block, or anywhere
        r["gb"] = [[[draw(I(0, 999)) for _ in range(2 * nd)], draw(I(0, 2)), draw(I(0, 2))] for _ in range(M)] if chance(draw, 1, 2) else []
        r["cor"] = draw(I(0, 1)) if chance(draw, 1, 5) else -1
        rounds.append(r)
    return dict(a=a, grp=grp, gdef=int(bool(grp) and chance(draw, 1, 2)), rounds=rounds, corner=int(chance(draw, 3, 4)), dup=int(chance(draw, 1, 6)), g=[gseed(draw), -300, 601])


def blocks(a, M):
    """Blocks of the layout, by process (row-major over the grid); None when the library chooses."""
    if a["kind"] != 2:
        return None
    st, o = [], 0
    for n in a["a2"]:
        st.append(a["a1"][o:o + n])
        o += n
    out = []
    for ix in itertools.product(*[range(n) for n in a["a2"]]):
        out.append(([st[k][i] for k, i in enumerate(ix)], [(st[k][i + 1] if i + 1 < a["a2"][k] else a["dims"][k]) - 1 for k, i in enumerate(ix)]))
    return out


def nontrivial(c, cfg):
    return (len(c["grp"]) if c["grp"] else cfg["np"]) > 1 and any(c["a"]["gw"])


def labels(c, cfg):
    a = c["a"]
    yield "kind%d" % a["kind"]
    yield TN[a["t"]]
    yield "%dd" % len(a["dims"])
    yield "corners" if c["corner"] else "no-corners"
    if c["grp"]:
        yield "group-default" if c["gdef"] else "group"
    for r in c["rounds"]:
        yield HOW[r["how"]] if r["k"] == "upd" else r["k"]


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    a, t, dims, gw = c["a"], c["a"]["t"], c["a"]["dims"], c["a"]["gw"]
    nd = len(dims)
    mask, mem = -1, list(range(P))
    if c["grp"]:
        mem = c["grp"]
        mask = bits(mem)
        p.op("pgcreate", 0, 0, len(mem), mem)
        if c["gdef"]:
            p.op("pgdefault", 0, 0, mask=mask)
    emit_create(p, 0, a, grp=0 if c["grp"] else -1, mask=mask, corner=c["corner"])
    S = 0
    if c["dup"]:
        p.op("dup", 1, 0, 0, "copy", mask=mask)
        S = 1
    sync = lambda: p.op("gsync", 0 if c["grp"] else -1, mask=mask)
    j = p.op("hasghosts", S, mask=mask)
    for w in mem:
        p.expect_ints(j, w, [1, 1], "has ghosts")
    jd0 = p.op("ghdump", S, 0, mask=mask)
    p.op("init", S, c["g"], -1 - mem[0], mask=mask)
    sync()
    A = gen_vals(t, c["g"], dims)
    dt = DT[t]
    corner = c["corner"]
    junk = np.frombuffer(b"\xa5" * dt.itemsize, dtype=np.dtype((np.void, dt.itemsize)))[0]
    st = []
    cur = A.copy()
    for r in c["rounds"]:
        if r["cor"] >= 0:
            p.op("gcorner", 0 if not c["grp"] else 1, S, r["cor"], mask=mask)
            corner = r["cor"]
            sync()
        s = shp(r["lo"], r["hi"])
        if r["ch"] == "put":
            p.op("put", 1, S, r["lo"], r["hi"], s[1:], r["g"], mask=1 << mem[r["r"]])
            cur[sl(r["lo"], r["hi"])] = gen_vals(t, r["g"], s)
        elif r["ch"] == "acc":
            p.op("acc", 0, S, r["lo"], r["hi"], s[1:], r["g"], [1, 0], mask=1 << mem[r["r"]])
            cur[sl(r["lo"], r["hi"])] = (cur[sl(r["lo"], r["hi"])] + gen_vals(t, r["g"], s)).astype(dt)
        elif r["ch"] == "fill" and (not c["grp"] or c["gdef"]):
            v = r["g"][0] % 50
            p.op("el1", 0, "fill", S, 0, [v, 0], mask=mask)
            cur[...] = one(t, v)
        sync()
        p.op("ghfill", S, gw, mask=mask)
        sync()
        if r["k"] == "upd":
            ju = p.op("gupd", S, r["how"], mask=mask)
        elif r["k"] == "dir":
            if r["mask"]:
                p.op("masksync", 0, 0, mask=mask)
            ju = p.op("gdir", r["v"], S, r["dim"], r["dir"], r["fl"], mask=mask)
        else:
            ju = None
            p.op("gnbdir", r["v"], S, r["m"], mask=mask)
        sync()
        jd = p.op("ghdump", S, r["b32"], mask=mask)
        jv = p.op("dump", S, mask=mask)
        p.op("ghelem", S, r["b32"], r["g"][0], mask=mask)
        gb = []
        B = blocks(a, len(mem))
        for i, w in enumerate(mem):
            if not r["gb"] or B is None:
                continue
            f, how, v = r["gb"][i]
            lo, hi = [], []
            for k in range(nd):
                l0, h0 = B[i][0][k] - gw[k], B[i][1][k] + gw[k]
                if how == 2:      # possibly beyond the extended block: a periodic get, at most one period
                    l0, h0 = l0 - 1, min(h0 + 1, l0 + dims[k] - 2)
                n = h0 - l0 + 1
                l = l0 + f[2 * k] * n // 1000
                h = l + f[2 * k + 1] * (h0 - l + 1) // 1000
                lo.append(l)
                hi.append(h)
            ld = [x + (f[0] % 3 if k == 0 else 0) for k, x in enumerate(shp(lo, hi)[1:])]
            gb.append((i, w, lo, hi, p.op("ggb", v, S, lo, hi, ld, mask=1 << w)))
        sync()
        st.append((r, cur.copy(), ju, jd, jv, gb, corner))
    if c["gdef"]:
        p.op("pgdefault", 0, -1, mask=mask)

    def ext(lo, hi, cur):
        ix = [np.arange(l - w, h + w + 1) % d for l, h, w, d in zip(lo, hi, gw, dims)]
        return cur[np.ix_(*ix)]

    def kinds(lo, hi):
        """per dimension: -1, 0, 1 for every index of the extended block"""
        return [np.array([-1] * w + [0] * (h - l + 1) + [1] * w) for l, h, w in zip(lo, hi, gw)]

    def f(res):
        applied = {}
        for n, (r, cur, ju, jd, jv, gb, corner) in enumerate(st):
            what = "%s" % (HOW[r["how"]] if r["k"] == "upd" else ("direction dim %d dir %d corners %d" % (r["dim"], r["dir"], r["fl"]) if r["k"] == "dir" else "mask %s" % r["m"]))
            rets = [int(res[(ju, w)][0][1][0]) for w in mem] if ju is not None else [1] * len(mem)
            if len(set(rets)) != 1:
                return "%s: processes disagree on whether it applies: %s" % (what, rets)
            if r["k"] == "upd" and r["how"] < 4 and not rets[0]:
                return "the update reports failure"
            exts = {}
            for w in mem:
                got = res[(jv, w)][0][1]
                if bytes(got) != np.ascontiguousarray(cur).tobytes():
                    return "round %d (%s): rank %d: the visible array is wrong: %s" % (n, what, w, cmp_(got, cur, dt))
                rec = res[(jd, w)]
                q = rec[0][1].tolist()
                if not q:
                    return "rank %d has no block" % w
                lo, hi, ed = q[:nd], q[nd:2 * nd], q[2 * nd:]
                if ed != [h - l + 1 + 2 * g for l, h, g in zip(lo, hi, gw)]:
                    return "rank %d: the extended block of %s..%s has extents %s for widths %s" % (w, lo, hi, ed, gw)
                V = np.frombuffer(bytes(rec[2][1]), dtype=np.dtype((np.void, dt.itemsize))).reshape(ed)
                W = np.ascontiguousarray(ext(lo, hi, cur)).view(np.dtype((np.void, dt.itemsize))).reshape(ed)
                exts[w] = (lo, hi, V)
                K = np.meshgrid(*kinds(lo, hi), indexing="ij")
                nz = sum((np.abs(k) for k in K))
                must = nz == 0
                keep = np.zeros(ed, bool)      # must still hold the marker
                if rets[0]:
                    if r["k"] == "upd":
                        full = r["how"] < 10 and corner
                        must = must | ((nz >= 1) if full else (nz == 1))
                    elif r["k"] == "dir":
                        m = (K[r["dim"]] == r["dir"])
                        sel = m if r["fl"] else m & (nz == 1)
                        must = must | sel
                        keep = ~(must | m)
                    else:
                        m = np.ones(ed, bool)
                        for k, x in zip(K, r["m"]):
                            m &= k == x
                        must = must | m
                        keep = ~must
                bad = must & (V != W)
                if bad.any():
                    i = [int(x) for x in np.argwhere(bad)[0]]
                    return ("round %d (%s): rank %d, block %s..%s widths %s: %d of %d cells wrong, first at local %s: %s instead of %s"
                            % (n, what, w, lo, hi, gw, int(bad.sum()), int(must.sum()), i, val(V[tuple(i)], dt), val(W[tuple(i)], dt)))
                bad = keep & (V != junk)
                if bad.any():
                    i = [int(x) for x in np.argwhere(bad)[0]]
                    return "round %d (%s): rank %d, block %s..%s: ghost cell %s outside the updated part was changed" % (n, what, w, lo, hi, i)
                bad = ~must & ~keep & (V != W) & (V != junk)
                if bad.any():
                    i = [int(x) for x in np.argwhere(bad)[0]]
                    return "round %d (%s): rank %d, block %s..%s: ghost cell %s got the value of another element" % (n, what, w, lo, hi, i)
            for i, w, lo, hi, j in gb:
                l, h, V = exts[w]
                if (l, h) != tuple(list(x) for x in blocks(a, 0)[i]):
                    return "rank %d: block %s..%s is not the requested one" % (w, l, h)
                if all(x >= y - g and z <= u + g for x, z, y, u, g in zip(lo, hi, l, h, gw)):
                    want = V[tuple(slice(x - y + g, z - y + g + 1) for x, z, y, g in zip(lo, hi, l, gw))]
                    how = "locally"
                else:
                    want = cur[np.ix_(*[np.arange(x, z + 1) % d for x, z, d in zip(lo, hi, dims)])]
                    how = "periodically"
                got = res[(j, w)][0][1]
                if bytes(got) != np.ascontiguousarray(want).tobytes():
                    return "round %d: rank %d: ghost block %s..%s read %s is wrong (block %s..%s widths %s)" % (n, w, lo, hi, how, l, h, gw)
        return None
    p.post(f)
    return p


def val(x, dt):
    return np.frombuffer(x.tobytes(), dtype=dt)[0]


def cmp_(got, want, dt):
    g = np.frombuffer(bytes(got), dtype=dt)
    w = np.ascontiguousarray(want).reshape(-1)
    i = [k for k in range(w.size) if g[k:k + 1].tobytes() != w[k:k + 1].tobytes()][0]
    return "element %s is %s instead of %s" % ([int(x) for x in np.unravel_index(i, np.shape(want))], g[i], w[i])
