"""Reference-model pieces shared by the checks: data generation, array specs, patches."""
import numpy as np
from hypothesis import strategies as st

DT = [np.dtype("<i4"), np.dtype("<i8"), np.dtype("<i8"), np.dtype("<f4"), np.dtype("<f8"),
      np.dtype("<c8"), np.dtype("<c16")]
TN = ["int", "long", "longlong", "float", "double", "scomplex", "dcomplex"]
INT, LONG, LLONG, FLT, DBL, SCPL, DCPL = range(7)
CPX = (SCPL, DCPL)

_C1, _C2, _C3, _C4 = (np.uint64(x) for x in (0x9E3779B97F4A7C15, 0xD1B54A32D192ED03,
                                             0xBF58476D1CE4E5B9, 0x94D049BB133111EB))


def hsh(seed, k):
    with np.errstate(over="ignore"):
        k = np.asarray(k, dtype=np.uint64)
        z = np.uint64(seed) * _C1 + (k + np.uint64(1)) * _C2
        z = (z ^ (z >> np.uint64(30))) * _C3
        z = (z ^ (z >> np.uint64(27))) * _C4
        return z ^ (z >> np.uint64(31))


def gen_vals(t, g, shape):
    """Values the harness generates for g = (seed, lo, span), in row-major order."""
    seed, lo, span = g
    n = int(np.prod(shape, dtype=np.int64))
    if t in CPX:
        v = (hsh(seed, np.arange(2 * n)) % np.uint64(span)).astype(np.int64) + lo
        return (v[0::2] + 1j * v[1::2]).astype(DT[t]).reshape(shape)
    v = (hsh(seed, np.arange(n)) % np.uint64(span)).astype(np.int64) + lo
    return v.astype(DT[t]).reshape(shape)


def gen_bytes(g, shape, es):
    n = int(np.prod(shape, dtype=np.int64))
    return (hsh(g[0], np.arange(n * es)) & np.uint64(255)).astype(np.uint8).reshape(tuple(shape) + (es,))


def one(t, re, im=0):
    return DT[t].type(complex(re, im) if t in CPX else re)


I = st.integers


def ints(draw, a, b):
    return draw(I(a, b))


def chance(draw, num, den):
    return draw(I(0, den - 1)) >= den - num


def pick(draw, seq):
    return seq[draw(I(0, len(seq) - 1))]


def gseed(draw):
    return draw(I(0, 9999))


MAXD = {1: 60, 2: 14, 3: 7, 4: 5, 5: 4, 6: 3, 7: 3}


def gen_dims(draw, nd, scale=1):
    return [draw(I(1, max(1, int(MAXD[nd] * scale)))) for _ in range(nd)]


def factorizations(n, k):
    if k == 1:
        return [[n]]
    out = []
    for f in range(1, n + 1):
        if n % f == 0:
            out += [[f] + r for r in factorizations(n // f, k - 1)]
    return out


def gen_map(draw, dim, nb):
    """nb strictly increasing zero-based block starts beginning with 0."""
    if nb == 1:
        return [0]
    cuts = draw(st.lists(I(1, dim - 1), min_size=nb - 1, max_size=nb - 1, unique=True))
    return [0] + sorted(cuts)


def gen_dist(draw, dims, nproc, kinds=(0, 1, 2, 3, 4, 5, 6)):
    """-> dict(kind, a1, a2, a3) in C order and zero-based maps."""
    nd = len(dims)
    kind = pick(draw, list(kinds))
    a1, a2, a3 = [], [], []
    if kind == 1:
        a1 = [draw(I(-1, d)) for d in dims]
        a1 = [x if x else -1 for x in a1]
    elif kind == 2:
        left = nproc
        for d in dims:
            nb = draw(I(1, max(1, min(left, d))))
            left //= nb
            a1 += gen_map(draw, d, nb)
            a2.append(nb)
    elif kind == 3:
        a1 = [draw(I(1, d + 1)) for d in dims]
    elif kind in (4, 5):
        a1 = [draw(I(1, d + 1)) for d in dims]
        a2 = pick(draw, factorizations(nproc, nd))
    elif kind == 6:
        a3 = pick(draw, factorizations(nproc, nd))
        for i, d in enumerate(dims):
            nb = draw(I(1, min(d, 5)))
            a1 += gen_map(draw, d, nb)
            a2.append(nb)
    return dict(kind=kind, a1=a1, a2=a2, a3=a3)


def gen_ghost(draw, nproc, nd, ok=True, width=2):
    """Ghost arrays need data on every process and blocks at least as wide as the ghost cells."""
    if not ok:
        return None
    gw = [draw(I(0, width)) for _ in range(nd)]
    if not any(gw):
        return None
    if nd <= 3 and chance(draw, 1, 3) and nproc <= 5:
        m = max(gw)
        dims = [nproc * draw(I(max(1, m), m + 1)) for _ in range(nd)]
        kind = draw(I(0, 1))
        a1 = []
        if kind:
            a1 = [pick(draw, [-1, x]) for x in dims]
            if all(a == x for a, x in zip(a1, dims)):
                a1[draw(I(0, nd - 1))] = -1
        return dims, gw, dict(kind=kind, a1=a1, a2=[], a3=[])
    nb = pick(draw, factorizations(nproc, nd))
    a1, dims = [], []
    for n, w in zip(nb, gw):
        s = 0
        for _ in range(n):
            a1.append(s)
            s += draw(I(max(1, w), max(1, w) + (2 if nd < 5 else 1)))
        dims.append(s)
    return dims, gw, dict(kind=2, a1=a1, a2=nb, a3=[])


def gen_array(draw, nproc, types=range(7), nds=range(1, 8), kinds=(0, 1, 2, 3, 4, 5, 6),
              ghosts=False, restrict=True, apis=(0, 1, 2, 3), scale=1, dims=None, t=None):
    nd = len(dims) if dims else pick(draw, list(nds))
    free_dims = dims is None
    if dims is None:
        dims = gen_dims(draw, nd, scale)
    if t is None:
        t = pick(draw, list(types))
    d = gen_dist(draw, dims, nproc, kinds)
    gw = []
    if ghosts and d["kind"] in (0, 1, 2) and chance(draw, 1, 3):
        g = gen_ghost(draw, nproc, nd, free_dims)
        if g:
            dims, gw, d = g
    nr = []
    if restrict and not gw and d["kind"] in (0, 1) and nproc > 1 and chance(draw, 1, 6):
        nr = draw(st.lists(I(0, nproc - 1), min_size=1, max_size=nproc, unique=True))
    api = pick(draw, list(apis))
    if api in (2, 3) and (d["kind"] > 2 or nr):
        api -= 2
    if api >= 5 and (d["kind"] > 2 or nr):
        api = 0
    return dict(t=t, dims=dims, gw=gw, nr=nr, api=api, **d)


def emit_create(p, slot, a, grp=-1, name="arr", mask=-1, corner=1):
    return p.op("create", slot, a["t"], len(a["dims"]), a["dims"], 1 if a["gw"] else 0, a["gw"],
                a["kind"], len(a["a1"]), a["a1"], len(a["a2"]), a["a2"], len(a["a3"]), a["a3"],
                grp, len(a["nr"]), a["nr"], corner, a["api"], name, mask=mask)


def gen_patch(draw, dims, full=8):
    """Non-empty patch inside dims; about 1 in `full` is the whole array."""
    if chance(draw, 1, full):
        return [0] * len(dims), [d - 1 for d in dims]
    lo, hi = [], []
    for d in dims:
        a = draw(I(0, d - 1))
        b = draw(I(a, d - 1))
        lo.append(a)
        hi.append(b)
    return lo, hi


def gen_ld(draw, shape):
    """Leading dimensions: extents of dimensions 1.. of the caller's buffer."""
    return [s + (draw(I(1, 3)) if chance(draw, 1, 4) else 0) for s in shape[1:]]


def gen_ldx(draw, shape, wide=False):
    if wide and chance(draw, 1, 2):
        return [s + draw(I(0, 3)) for s in shape[1:]]
    return list(shape[1:])


def sl(lo, hi):
    return tuple(slice(a, b + 1) for a, b in zip(lo, hi))


def shp(lo, hi):
    return [b - a + 1 for a, b in zip(lo, hi)]


def gen_scal(draw, t, a=-3, b=3):
    re = draw(I(a, b))
    im = draw(I(a, b)) if t in CPX else 0
    return [re, im]


def fit(draw, s, dims, same, reshape=True):
    """A patch of dims with the same number of elements as shape s (or None)."""
    c = []
    if len(dims) == len(s) and all(a <= b for a, b in zip(s, dims)):
        c.append(list(s))
        if all(h < d for h, d in zip(same[1], dims)) and chance(draw, 1, 2):
            return [list(same[0]), list(same[1])]
    n = int(np.prod(s))
    if reshape and (not c or chance(draw, 1, 3)):
        cand = []

        def rec(i, left, cur):
            if len(cand) > 40:
                return
            if i == len(dims):
                if left == 1:
                    cand.append(list(cur))
                return
            for f in range(1, min(left, dims[i]) + 1):
                if left % f == 0:
                    rec(i + 1, left // f, cur + [f])
        rec(0, n, [])
        c += cand
    if not c:
        return None
    q = c[0] if len(c) == 1 else pick(draw, c)
    lo = [draw(I(0, d - e)) for d, e in zip(dims, q)]
    return [lo, [a + e - 1 for a, e in zip(lo, q)]]


def gen_group(draw, nproc, full=True):
    """A non-empty list of ranks in any order (about 1 in 6 all of them)."""
    if full and chance(draw, 1, 6):
        return draw(st.permutations(list(range(nproc))))
    return draw(st.lists(I(0, nproc - 1), min_size=1, max_size=nproc, unique=True))


def bits(lst):
    return sum(1 << r for r in lst)


# the progress-rank port on one host normally copies through shared memory; these settings take its server paths
PR_SRV = {"COMEX_ENABLE_PUT_SMP": "0", "COMEX_ENABLE_GET_SMP": "0", "COMEX_ENABLE_ACC_SMP": "0"}
PR_DT = dict(PR_SRV, COMEX_PUT_DATATYPE_THRESHOLD="16", COMEX_GET_DATATYPE_THRESHOLD="16", COMEX_MAX_MESSAGE_SIZE="256")
PR_IOV = dict(PR_SRV, COMEX_ENABLE_PUT_DATATYPE="0", COMEX_ENABLE_GET_DATATYPE="0", COMEX_ENABLE_PUT_PACKED="0",
              COMEX_ENABLE_GET_PACKED="0", COMEX_ENABLE_ACC_PACKED="0", COMEX_STATIC_BUFFER_SIZE="128")


def embedded(n):
    """Configurations that run a check's programs inside a process group of a larger job (engine.vcfg), one of them with adversarial delivery."""
    return [dict(port="ts", np=5, emb=[1, 2, 4], n=n, chaos=1), dict(port="ts", np=6, emb=[5, 0, 3, 2], n=max(1, n * 2 // 3)),
            dict(port="pr", np=4, emb=[3, 1], n=max(1, n // 3))]
