#!/usr/bin/env python3
"""Compile GlobalArrays (from the working tree at $GA_SRC, default /repo) and the
harness servers without the project's own build system.

Objects live in /verif/build/<variant>/ (git-ignored), named by a hash of
(command line, source text, text of every header of the tree), so that a changed
tree is always recompiled and an unchanged one is not.
"""
import glob, hashlib, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("GA_SRC", "/repo")
BUILD = os.environ.get("GA_VBUILD", os.path.join(V, "build"))
J = os.cpu_count() or 4
PORTS = ("ts", "pr", "mt", "pt", "mpi3")

LAPACK = """cgemm daxpy dcabs1 dcopy ddot dgemm dgemv dger dgetf2 dgetrf dgetrs disnan dlacpy dlae2
dlaev2 dlaisnan dlamch dlanst dlansy dlapy2 dlarfb dlarf dlarfg dlarft dlartg dlascl dlaset dlasr
dlasrt dlassq dlaswp dlatrd dnrm2 dorg2l dorg2r dorgql dorgqr dorgtr dpotf2 dpotrf dscal dsteqr
dsterf dswap dsyev dsygs2 dsygst dsygv dsymm dsymv dsyr2 dsyr2k dsyrk dsytd2 dsytrd dtrmm dtrmv
dtrsm dtrsv idamax ieeeck iladlc iladlr ilaenv iparmq lsame sgemm xerbla zaxpy zgemm""".split()

GA_C = """compat/random.c ma/error.c ma/f2c.c ma/ma.c ma/string-util.c ma/table.c
LinAlg/lapack+blas/xgemm.c
global/src/base.c global/src/capi.c global/src/collect.c global/src/datatypes.c global/src/decomp.c
global/src/DP.c global/src/elem_alg.c global/src/fapi.c global/src/ga_diag_seqc.c
global/src/ga_malloc.c global/src/ga_solve_seq.c global/src/ga_symmetr.c global/src/ga_trace.c
global/src/ghosts.c global/src/global.nalg.c global/src/global.npatch.c global/src/global.periodic.c
global/src/global.util.c global/src/hsort.scat.c global/src/iterator.c global/src/sparse.array.c
global/src/sketch.c global/src/mtwister.c global/src/matmul.c global/src/matrix.c
global/src/nbutil.c global/src/onesided.c global/src/peigstubs.c global/src/sclstubs.c
global/src/select.c global/src/sparse.c global/src/thread-safe.c
pario/dra/buffers.c pario/dra/capi.c pario/dra/disk.arrays.c pario/dra/disk.param.c
pario/dra/env.c pario/dra/fortran.c pario/dra/patch.util.c pario/eaf/eaf.c pario/eaf/eaf_f2c.c
pario/elio/elio.c pario/elio/stat.c pario/sf/sf_capi.c pario/sf/sf_fortran.c
pario/sf/shared.files.c gaf2c/gaf2c.c gaf2c/drand.c tcgmsg/capi.c tcgmsg/fapi.c
tcgmsg/tcgmsg-mpi/checkbyte.c tcgmsg/tcgmsg-mpi/clustercheck.c tcgmsg/tcgmsg-mpi/collect.c
tcgmsg/tcgmsg-mpi/drand48.c tcgmsg/tcgmsg-mpi/evlog.c tcgmsg/tcgmsg-mpi/evon.c
tcgmsg/tcgmsg-mpi/llog.c tcgmsg/tcgmsg-mpi/misc.c tcgmsg/tcgmsg-mpi/niceftn.c
tcgmsg/tcgmsg-mpi/nxtval-armci.c tcgmsg/tcgmsg-mpi/p2p.c tcgmsg/tcgmsg-mpi/pbeginf.c
tcgmsg/tcgmsg-mpi/pfilecopy.c tcgmsg/tcgmsg-mpi/sizeof.c""".split()
GA_F = ["ma/maf.F", "global/src/complex.F", "global/src/ga_diag_seq.F", "gaf2c/farg.F"] + \
       ["LinAlg/lapack+blas/gal_%s.f" % n for n in LAPACK]
GP_C = ["gparrays/src/gpbase.c", "gparrays/src/gpcapi.c", "gparrays/src/gpfapi.c",
        "gparrays/src/gponesided.c"]
GAPP = ["ga++/src/%s.cc" % n for n in
        "GAServices GlobalArray PGroup init_term overload services".split()]
COMEX = {"ts": ("src-mpi", ["comex.c", "groups.c"]),
         "mt": ("src-mpi-mt", ["comex.c", "groups.c"]),
         "pr": ("src-mpi-pr", ["comex.c", "groups.c", "reg_cache.c"]),
         "pt": ("src-mpi-pt", ["comex.c", "groups.c", "reg_cache.c"]),
         "mpi3": ("src-mpi3", ["comex.c", "groups.c", "reg_win.c"])}
ARMCI = ["armci.c", "capi.c", "groups.c", "iterator.c", "message.c"]

VARIANTS = {
    "opt": ["-g", "-O1", "-fno-strict-aliasing"],
    "asan": ["-g", "-O1", "-fno-strict-aliasing", "-fno-omit-frame-pointer",
             "-fsanitize=address", "-fsanitize-recover=address"],
}
COMMON = ["-fno-aggressive-loop-optimizations", "-fno-tree-slp-vectorize", "-w"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_digest():
    h = hashlib.sha256()
    for d in ("global/src", "global/testing", "ma", "gaf2c", "comex", "comex/src-common",
              "comex/src-armci", "comex/src-mpi", "comex/src-mpi-mt", "comex/src-mpi-pr",
              "comex/src-mpi-pt", "comex/src-mpi3", "pario/dra", "pario/eaf", "pario/elio",
              "pario/sf", "tcgmsg", "tcgmsg/tcgmsg-mpi", "ga++/src", "gparrays/src",
              "LinAlg/lapack+blas", "armci/src", "armci"):
        for f in sorted(glob.glob(os.path.join(R, d, "*"))):
            if f.endswith((".h", ".fh", ".in", ".hh", ".hpp", ".inc", ".def")) or \
               os.path.basename(f) in ("dcopy2.c",):
                h.update(f[len(R):].encode()); h.update(_read(f))
    for root, _, fs in sorted(os.walk(os.path.join(V, "cfg"))):
        for f in sorted(fs):
            h.update(f.encode()); h.update(_read(os.path.join(root, f)))
    return h.hexdigest()


def gen_headers():
    """Headers that configure/make would generate, made from the tree's own templates."""
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    subst = {"MA_LONG_DOUBLE": "long double", "MA_ACCESS_INDEX_TYPE_C": "long",
             "MA_ACCESS_INDEX_TYPE": "integer*8", "GA_ACCESS_INDEX_TYPE": "integer*8",
             "F2C_INTEGER_C_TYPE": "long", "F2C_REAL_C_TYPE": "float",
             "F2C_DOUBLE_PRECISION_C_TYPE": "double", "C_POINTER_AS_INTEGER": "long",
             "F2C_GETARG": "f2c_getarg_", "F2C_IARGC": "f2c_iargc_"}
    for t in ("ma/matypes.h.in", "ma/mafdecls.fh.in", "global/src/global.fh.in",
              "gaf2c/typesf2c.h.in", "gaf2c/farg.h.in"):
        s = _read(os.path.join(R, t)).decode()
        s = re.sub(r"@([A-Za-z0-9_]+)@", lambda m: subst.get(m.group(1), m.group(0)), s)
        _put(os.path.join(g, os.path.basename(t)[:-3]), s)
    for src, dst, up, low in (("global/src/ga-papi.h", "ga-wapi", "PAPI", "nga"),
                              ("gparrays/src/gp-papi.h", "gp-wapi", "GPPAPI", "gp")):
        s = _read(os.path.join(R, src)).decode()
        w = "WAPI" if up == "PAPI" else "GPWAPI"
        a = s.replace(up, w).replace("p%s_" % low, "w%s_" % low)
        a = "".join(l for l in a.splitlines(True) if "typedef" not in l)
        _put(os.path.join(g, dst + ".h"), a)
        out = []
        for l in s.replace(up, w + "DEFS").splitlines(True):
            l = re.sub(r"^.*p(%s_.*)\(.*$" % low, r"#define w\1 p\1", l)
            if l.startswith((" ", "/*", " *")) or "typedef" in l:
                continue
            out.append(l)
        _put(os.path.join(g, dst + "defs.h"), "".join(out))
    return g


def _put(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    with open(p, "w") as f:
        f.write(s)


def ga_includes(g):
    inc = [os.path.join(V, "cfg/ga"), g]
    inc += [os.path.join(R, d) for d in
            ("ma", "LinAlg/lapack+blas", "global/src", "global/testing", "pario/dra", "pario/eaf",
             "pario/elio", "pario/sf", "ga++/src", "gaf2c", "tcgmsg", "tcgmsg/tcgmsg-mpi",
             "comex/src-armci", "gparrays/src")]
    return ["-I" + i for i in inc]


def comex_includes(port):
    return ["-I" + i for i in (os.path.join(V, "cfg/comex-" + port), os.path.join(R, "comex"),
                               os.path.join(R, "comex/src-common"),
                               os.path.join(R, "comex/src-armci"),
                               os.path.join(R, "comex", COMEX[port][0]))]


class Builder:
    def __init__(self, variant="opt"):
        self.variant = variant
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        self.g = gen_headers()
        self.hd = headers_digest()
        self.jobs = {}

    def obj(self, src, cmd, extra=b""):
        text = _read(src)
        key = hashlib.sha256(repr((cmd, self.hd)).encode() + text + extra).hexdigest()[:24]
        out = os.path.join(self.dir, os.path.basename(src).replace("+", "_") + "." + key + ".o")
        self.jobs[out] = cmd + ["-c", src, "-o"]
        return out

    def ga_objs(self, with_f=True):
        fl = VARIANTS[self.variant]
        cc = ["mpicc", "-std=gnu17", "-DHAVE_CONFIG_H"] + fl + COMMON + ga_includes(self.g)
        fc = ["mpif77", "-g", "-O1", "-w", "-fdefault-integer-8", "-fallow-argument-mismatch",
              "-fno-aggressive-loop-optimizations", "-fno-tree-slp-vectorize",
              "-DHAVE_CONFIG_H"] + ga_includes(self.g)
        o = [self.obj(os.path.join(R, s), cc) for s in GA_C]
        o += [self.obj(os.path.join(R, s), fc) for s in GA_F]
        return o

    def gapp_objs(self):
        cx = ["mpicxx", "-DHAVE_CONFIG_H"] + VARIANTS[self.variant] + COMMON + ga_includes(self.g)
        return [self.obj(os.path.join(R, s), cx) for s in GAPP]

    def gp_objs(self):
        cc = ["mpicc", "-std=gnu17", "-DHAVE_CONFIG_H"] + VARIANTS[self.variant] + COMMON + \
            ga_includes(self.g)
        return [self.obj(os.path.join(R, s), cc) for s in GP_C]

    def comex_objs(self, port):
        d, srcs = COMEX[port]
        cc = ["mpicc", "-DHAVE_CONFIG_H"] + VARIANTS[self.variant] + ["-w"] + comex_includes(port)
        o = [self.obj(os.path.join(R, "comex", d, s), cc) for s in srcs]
        o += [self.obj(os.path.join(R, "comex/src-armci", s), cc) for s in ARMCI]
        return o

    def harness(self, name, extra_inc=(), cxx=False, flags=()):
        src = os.path.join(V, "harness", name)
        hx = b"".join(_read(f) for f in sorted(glob.glob(os.path.join(V, "harness", "*.h"))))
        cmd = [("mpicxx" if cxx else "mpicc"), "-DHAVE_CONFIG_H"] + \
            ([] if cxx else ["-std=gnu17"]) + VARIANTS[self.variant] + ["-w"] + list(flags) + \
            ga_includes(self.g) + list(extra_inc) + ["-I" + os.path.join(V, "harness")]
        return self.obj(src, cmd, hx)

    def run(self):
        todo = [(o, c) for o, c in self.jobs.items() if not os.path.exists(o)]
        big = ("npatch", "capi.c", "base.c", "onesided", "matmul", "nalg", "sparse.array",
               "GlobalArray", "ghosts", "fapi", "gadrv")
        todo.sort(key=lambda oc: 0 if any(b in os.path.basename(oc[0]) for b in big) else 1)

        def one(oc):
            o, c = oc
            t = o + ".tmp%d" % os.getpid()
            p = subprocess.run(c + [t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                return (o, c, p.stdout.decode(errors="replace"))
            os.rename(t, o)
        with ThreadPoolExecutor(J) as ex:
            bad = [r for r in ex.map(one, todo) if r]
        if bad:
            raise BuildError("compile failed:\n%s\n%s" % (" ".join(bad[0][1]), bad[0][2]))
        self.jobs = {}

    def link(self, name, objs, libs=("-lgfortran", "-lm", "-lpthread", "-lrt"), cxx=False,
             ldflags=()):
        key = hashlib.sha256(repr((sorted(objs), libs, ldflags)).encode()).hexdigest()[:24]
        out = os.path.join(self.dir, name + "." + key)
        if os.path.exists(out):
            return out
        t = out + ".tmp%d" % os.getpid()
        cmd = [("mpicxx" if cxx else "mpicc")] + \
            [f for f in VARIANTS[self.variant] if f.startswith("-fsan")] + \
            ["-g", "-o", t] + list(objs) + list(ldflags) + list(libs)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("link failed: %s\n%s" % (name, p.stdout.decode(errors="replace")[-4000:]))
        os.rename(t, out)
        return out


def _libmpi_f():
    return ("-lmpi_mpifh",)


WRAPS = ["-Wl,--wrap=pnga_error", "-Wl,--wrap=GA_Internal_Threadsafe_Lock", "-Wl,--wrap=GA_Internal_Threadsafe_Unlock"]
CHAOS = ["-Wl,--wrap=comex_" + f for f in (
    "put puts putv nbput nbputs nbputv acc accs accv nbacc nbaccs nbaccv get gets getv nbget nbgets nbgetv "
    "rmw fence_proc fence_all barrier malloc free wait test wait_all wait_proc").split()]


def build(targets, variant="opt"):
    """targets: iterable of 'gadrv-<port>', 'comexdrv-<port>', 'mafuzz', ... -> {target: path}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _prune()
        b = Builder(variant)
        plan = []
        for t in targets:
            kind, _, port = t.partition("-")
            if kind == "gadrv":
                objs = [b.harness("gadrv.c"), b.harness("gaops.cc", cxx=True),
                        b.harness("chaos.c", extra_inc=["-I" + os.path.join(R, "comex/src-common")])] + \
                    b.ga_objs() + b.gapp_objs() + b.comex_objs(port)
                objs.append(b.harness("syn.c"))
                syn = ["-Wl,--wrap=" + n for n in _read(os.path.join(V, "harness/syn.ld")).decode().split()]
                plan.append((t, objs, True, WRAPS + CHAOS + syn))
            elif kind == "gpdrv":
                objs = [b.harness("gpdrv.c")] + b.ga_objs() + b.gp_objs() + b.comex_objs(port)
                plan.append((t, objs, False, WRAPS))
            elif kind == "comexdrv":
                inc = comex_includes(port)
                objs = [b.harness("comexdrv.c", extra_inc=inc)] + b.comex_objs(port)
                plan.append((t, objs, False, []))
            elif kind == "madrv":
                objs = [b.harness("madrv.c")] + b.ga_objs() + b.comex_objs("ts")
                plan.append((t, objs, False, ["-Wl,--wrap=malloc"]))
            else:
                raise BuildError("unknown target " + t)
        b.run()
        res = {}
        with ThreadPoolExecutor(J) as ex:
            futs = {t: ex.submit(b.link, t, objs, ("-lgfortran", "-lm", "-lpthread", "-lrt"), cxx,
                                 tuple(ld)) for t, objs, cxx, ld in plan}
            for t, f in futs.items():
                res[t] = f.result()
        return res


def _prune(limit=3 << 30):
    """Drop the oldest build products when the cache grows beyond the limit."""
    fs = []
    for root, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(root, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit:
            break
        if p.endswith(".lock"):
            continue
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    t0 = time.time()
    for k, v in build(sys.argv[1:] or ["gadrv-ts"], os.environ.get("GA_VARIANT", "opt")).items():
        print(k, v)
    print("%.1fs" % (time.time() - t0))
