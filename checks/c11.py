"""C11: symmetrization, linear solves and eigenproblems against numpy."""
import numpy as np
from model import *
from engine import Prog
from c10 import mkarray

PROP = "C11"
RULE = ("A case runs 1-3 of: symmetrize (2-d to 4-d arrays, any layout), LU solve (plain or transposed, several right-hand "
        "sides), generalized and standard symmetric eigenproblem, on double precision arrays with independent layouts and "
        "generated well-conditioned integer matrices; routines that this build cannot perform must be diagnosed. Results are "
        "compared in full (eigenvectors through residual and normalisation). Non-trivial: an order above 1 is solved.")


def configs(tier):
    q = [dict(port="ts", np=4, n=800), dict(port="ts", np=3, n=500), dict(port="ts", np=6, n=300), dict(port="pr", np=3, n=200),
         dict(port="ts", np=2, n=250), dict(port="ts", np=1, n=200), dict(port="mpi3", np=4, n=200)]
    q += embedded(150)
    if tier == "thorough":
        q = [dict(c, n=c["n"] * 12) for c in q] + [dict(port="mt", np=4, n=2000), dict(port="ts", np=4, n=2500, variant="asan")]
    return q


UNAV = ["lu_c", "solve", "llt", "spd", "diag", "diagr", "std"]


def gen(draw, cfg):
    P = cfg["np"]
    ops, arrs = [], []

    def arr(dims, cyc=True, t=4):
        a = mkarray(draw, P, t, list(dims), cyc, False)
        if cyc and chance(draw, 1, 4):
            a = mkarray(draw, P, t, list(dims), False, True)
            if a["dims"] != list(dims):
                a = mkarray(draw, P, t, list(dims), True, False)
        arrs.append(a)
        return len(arrs) - 1

    for _ in range(draw(I(1, 3))):
        k = pick(draw, ["sym", "sym", "lu", "lu", "lus", "diags", "stds", "no", "bad"])
        m = draw(I(0, 9))
        n = draw(I(1, 6)) if m < 4 else draw(I(2, 25)) if m < 8 else draw(I(20, 45))
        o = dict(op=k, n=n, g=gseed(draw), v=draw(I(0, 4)))
        if k == "sym":
            nd = pick(draw, [2, 2, 2, 3, 4])
            dims = [n, n] + ([draw(I(1, 4)) for _ in range(nd - 2)])
            if nd > 2:
                dims[0] = dims[1] = min(n, 9)
            if nd == 2 and chance(draw, 1, 3):
                a = mkarray(draw, P, 4, dims, False, True)     # ghost cells: the extents may grow
                if a["gw"]:
                    if a["dims"][0] != a["dims"][1]:
                        e = max(a["dims"])
                        nb = a["a2"]
                        # widen the last block of the shorter dimension
                        a["dims"] = [e, e]
                arrs.append(a)
                o["A"] = len(arrs) - 1
            else:
                o["A"] = arr(dims, nd == 2)
        elif k in ("lu", "lus"):
            nr = draw(I(1, 7))
            o.update(A=arr([n, n]), B=arr([nr, n]), tr=pick(draw, "nNtT"))
        elif k in ("diags", "stds"):
            o.update(A=arr([n, n]), V=arr([n, n]))
            if k == "diags":
                o["S"] = arr([n, n])
        elif k == "no":
            o.update(A=arr([n, n]), B=arr([n, n]), C=arr([n, n]), what=pick(draw, UNAV))
        else:
            o.update(A=arr([n, n + 1 + draw(I(0, 2))]), B=arr([n, n]), what=pick(draw, ["lu", "lus", "sym", "stds", "dims", "type"]))
            if o["what"] == "dims":
                arrs[o["A"]] = mkarray(draw, P, 4, [n, n], True, False)
                arrs[o["B"]] = mkarray(draw, P, 4, [n, n + 1], True, False)
            if o["what"] == "type":
                arrs[o["A"]] = mkarray(draw, P, 3, [n, n], True, False)
            if o["what"] == "sym":
                arrs[o["A"]] = mkarray(draw, P, 4, [n, n + 1], False, False)
        ops.append(o)
    return dict(arrs=arrs, ops=ops, seed=gseed(draw), pick=gseed(draw))


def nontrivial(c, cfg):
    return any(o["op"] not in ("no", "bad") and max(c["arrs"][o["A"]]["dims"][:2]) > 1 for o in c["ops"])


def labels(c, cfg):
    for o in c["ops"]:
        yield o["op"]
        a = c["arrs"][o["A"]]
        if a["kind"] > 2:
            yield "block_cyclic"
        if a["gw"]:
            yield "ghosts"
        if o["n"] > 15:
            yield "order_above_15"
        if o["op"] == "sym" and len(a["dims"]) > 2:
            yield "sym_nd"
        if o["op"] in ("lu", "lus"):
            yield "transposed_solve" if o["tr"] in "tT" else "plain_solve"


def build(c, cfg):
    P = cfg["np"]
    p = Prog(P)
    for i, a in enumerate(c["arrs"]):
        emit_create(p, i, a)
    one = c["pick"] % P

    def put(i, m):
        p.op("putall", i, c["pick"] % P, [int(x) for x in np.asarray(m).ravel()])

    for o in c["ops"]:
        r = np.random.default_rng(o["g"])
        k, n, A = o["op"], o["n"], o["A"]
        da = c["arrs"][A]["dims"]
        if k == "sym":
            M = r.integers(-20, 21, da).astype(float)
            put(A, M)
            p.op("lin", o["v"], "sym", A, -1, -1, 0, 0)
            W = (M + M.swapaxes(0, 1)) / 2
            d = p.op("dump", A, mask=1 << one)
            p.expect_bytes(d, one, W, "symmetrized array")
        elif k in ("lu", "lus"):
            B = o["B"]
            M = r.integers(-3, 4, da).astype(float)
            M += np.diag([x for x in r.choice([-1, 1], n) * (4 * n + 1)])
            M = M[r.permutation(n)]             # pivoting is needed
            X = r.integers(-5, 6, c["arrs"][B]["dims"]).astype(float)
            F = M.T                             # the Fortran view of the array
            R = X @ (F.T if o["tr"] in "nN" else F)
            put(A, M)
            put(B, R)
            p.op("lin", 2, k, A, B, -1, ord(o["tr"]), 0)
            d = p.op("dump", B, mask=1 << one)
            p.expect_close(d, one, X, "solution of the linear system", rtol=1e-8, atol=1e-8)
            d = p.op("dump", A, mask=1 << one)
            p.expect_bytes(d, one, M, "coefficient matrix after the solve")
        elif k in ("diags", "stds"):
            M = r.integers(-9, 10, (n, n)).astype(float)
            M = np.tril(M) + np.tril(M, -1).T
            S = np.eye(n)
            put(A, M)
            if k == "diags":
                S = r.integers(-2, 3, (n, n)).astype(float)
                S = np.tril(S) + np.tril(S, -1).T + np.eye(n) * (3 * n + 1)
                put(o["S"], S)
            L = np.linalg.cholesky(S)
            Li = np.linalg.inv(L)
            ev = np.linalg.eigvalsh(Li @ M @ Li.T)
            d = p.op("lin", o["v"], k, A, o.get("S", -1), o["V"], 0, n)
            tol = 1e-9 * max(1.0, float(np.abs(M).sum()))
            for q in range(P):
                p.expect_close(d, q, ev, "eigenvalues", k=1, rtol=0, atol=tol)
            d = p.op("dump", o["V"], mask=1 << one)

            def vec(v, M=M, S=S, ev=ev, tol=tol):
                V = np.frombuffer(v[1]).reshape(n_(M), n_(M)).T       # Fortran columns
                e = np.abs(M @ V - S @ V * ev).max()
                if not e < 10 * tol:
                    return "eigenvectors: residual %g" % e
                e = np.abs(V.T @ S @ V - np.eye(n_(M))).max()
                if not e < 1e-8:
                    return "eigenvectors: not orthonormal with respect to the metric (%g)" % e
            p.expect(d, one, 0, vec, "eigenvectors")
        else:
            put(A, np.zeros(da))
            w = o["what"]
            B, C = o["B"], o.get("C", -1)
            if k == "no":
                v = o["v"]
                args = {"lu_c": (0, "lu", A, B, -1, ord("n"), 0), "solve": (v, "solve", A, B, -1, 0, 0), "llt": (v, "llt", A, B, -1, 0, 0),
                        "spd": (v, "spd", A, -1, -1, 0, 0), "diag": (v, "diag", A, B, C, 0, n), "diagr": (v, "diagr", A, B, C, 0, n),
                        "std": (v, "std", A, -1, C, 0, n)}[w]
            else:
                args = {"lu": (2, "lu", A, B, -1, ord("n"), 0), "lus": (2, "lus", A, B, -1, ord("n"), 0), "sym": (o["v"], "sym", A, -1, -1, 0, 0),
                        "stds": (2, "lus", A, B, -1, ord("n"), 0), "dims": (2, "lus", A, B, -1, ord("n"), 0), "type": (2, "lu", A, B, -1, ord("n"), 0)}[w]
            d = p.op("!lin", *args)
            for q in range(P):
                p.expect(d, q, 0, lambda v: None if v[0] == "E" else "the request was not diagnosed", w)
        p.op("sync")
    return p


def n_(M):
    return M.shape[0]
