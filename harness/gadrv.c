/* Interpreter of generated Global Arrays programs, run by every rank of an MPI job. */
#include "drvcore.h"
#include "ga.h"
#include "ga-mpi.h"
#include "macdecls.h"

typedef long Integer_;
#define MAXS 160
#define MAXDIM_ 7
static const int TYS[] = { C_INT, C_LONG, C_LONGLONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL };
static const int ESZ[] = { 4, 8, 8, 4, 8, 8, 16 };
typedef struct { int live, h, t, gt, nd, es; int64_t d[7]; void *cx; } Slot;
static Slot SL[MAXS];
static int RT[16], RTB[16];
static int GRP[32], GRPL[32];
static int NMUTEX;

/* ---------------------------------------------------------------- scalars and buffers */
static void putval(void *p, int t, double re, double im) {
    switch (t) {
    case 0: *(int*)p = (int)re; break;
    case 1: *(long*)p = (long)re; break;
    case 2: *(long long*)p = (long long)re; break;
    case 3: *(float*)p = (float)re; break;
    case 4: *(double*)p = re; break;
    case 5: ((float*)p)[0] = (float)re; ((float*)p)[1] = (float)im; break;
    case 6: ((double*)p)[0] = re; ((double*)p)[1] = im; break;
    }
}
static double SCB[8][4]; static int SCN;
static void *scal(int t) { double re = drv_D(), im = drv_D(); void *p = SCB[SCN++ & 7]; putval(p, t, re, im); return p; }

typedef struct { unsigned long long seed; long long lo, span; } Gen;
static Gen rdgen(void) { Gen g; g.seed = (unsigned long long)drv_I(); g.lo = drv_I(); g.span = drv_I(); return g; }
static void genval(void *p, int t, int es, Gen g, int64_t k) {
    if (t >= 100) { for (int b = 0; b < es; b++) ((unsigned char*)p)[b] = drv_hash(g.seed, (uint64_t)k * es + b) & 0xff; return; }
    if (t >= 5) {
        double re = (double)(g.lo + (long long)(drv_hash(g.seed, 2 * k) % (uint64_t)g.span));
        double im = (double)(g.lo + (long long)(drv_hash(g.seed, 2 * k + 1) % (uint64_t)g.span));
        putval(p, t, re, im);
    } else putval(p, t, (double)(g.lo + (long long)(drv_hash(g.seed, k) % (uint64_t)g.span)), 0);
}

#define GUARD 64
typedef struct { char *base, *p, *copy; int nd, es; int64_t s[7], ld[7]; size_t bytes; } Buf;
static void buf_new(Buf *b, int nd, const int64_t *s, const int64_t *ld, int es) {
    /* ld[i] (i<nd-1): physical extent of dimension i+1 */
    /* extents below one occur in deliberately invalid requests only */
    size_t n = s[0] < 1 ? 1 : s[0];
    b->nd = nd; b->es = es;
    for (int i = 0; i < nd; i++) b->s[i] = s[i] < 1 && (nd > 1 || s[i] < 0) ? 1 : s[i];
    for (int i = 0; i < nd - 1; i++) { b->ld[i] = ld[i] < b->s[i + 1] ? b->s[i + 1] : ld[i]; n *= b->ld[i]; }
    b->bytes = n * es;
    b->base = malloc(b->bytes + 2 * GUARD); memset(b->base, 0xA5, b->bytes + 2 * GUARD);
    b->p = b->base + GUARD; b->copy = 0;
}
static int64_t buf_count(Buf *b) { int64_t n = 1; for (int i = 0; i < b->nd; i++) n *= b->s[i]; return n; }
static char *buf_at(Buf *b, int64_t k) {      /* address of logical element k (row major) */
    int64_t ix[7], off = 0;
    for (int i = b->nd - 1; i >= 0; i--) { ix[i] = k % b->s[i]; k /= b->s[i]; }
    for (int i = 0; i < b->nd; i++) off = (i ? off * b->ld[i - 1] : 0) + ix[i];
    return b->p + off * b->es;
}
static void buf_gen(Buf *b, int t, Gen g) {
    int64_t n = buf_count(b);
    for (int64_t k = 0; k < n; k++) genval(buf_at(b, k), t, b->es, g, k);
    b->copy = malloc(b->bytes + 2 * GUARD); memcpy(b->copy, b->base, b->bytes + 2 * GUARD);
}
static void buf_unchanged(Buf *b, const char *what) {
    if (memcmp(b->base, b->copy, b->bytes + 2 * GUARD)) drv_fail("%s modified the caller's source buffer", what);
}
static void buf_free(Buf *b) { free(b->base); free(b->copy); b->base = b->copy = 0; }
/* record the logical contents of a destination buffer; check gaps and guards */
static void buf_out(Buf *b, const char *what) {
    int64_t n = buf_count(b);
    char *pk = malloc(n * b->es + 1), *m = calloc(1, b->bytes + 2 * GUARD);
    for (int64_t k = 0; k < n; k++) { char *q = buf_at(b, k); memcpy(pk + k * b->es, q, b->es); memset(m + (q - b->base), 1, b->es); }
    for (size_t i = 0; i < b->bytes + 2 * GUARD; i++)
        if (!m[i] && (unsigned char)b->base[i] != 0xA5) { drv_fail("%s wrote outside the requested patch of the caller's buffer", what); break; }
    drv_rec('b', pk, n * b->es);
    free(pk); free(m);
}

/* ---------------------------------------------------------------- helpers */
static Slot *slot(void) { int s = (int)drv_I(); return &SL[s]; }
static int grp(void) { int g = (int)drv_I(); return g < 0 ? -1 : GRP[g]; }
static void rdn(int64_t *a, int n) { for (int i = 0; i < n; i++) a[i] = drv_I(); }
static void to32(int *o, const int64_t *a, int n) { for (int i = 0; i < n; i++) o[i] = (int)a[i]; }
static void toF(long *o, const int64_t *a, int n, int add) { for (int i = 0; i < n; i++) o[i] = a[n - 1 - i] + add; }
static void set_slot(Slot *s, int h, int t, int nd, const int64_t *d) {
    s->live = 1; s->h = h; s->t = t; s->nd = nd;
    s->gt = t == 99 ? 1234567 : t >= 100 ? RT[t - 100] : TYS[t]; s->es = t == 99 ? 8 : t >= 100 ? RTB[t - 100] : ESZ[t];
    for (int i = 0; i < nd && i < 7; i++) s->d[i] = d[i];
}
typedef struct { int64_t lo[7], hi[7], ld[7], s[7]; int lo32[7], hi32[7], ld32[7]; long loF[7], hiF[7], ldF[7]; } Patch;
static void rdpatch(Patch *p, int nd) {
    rdn(p->lo, nd); rdn(p->hi, nd);
    for (int i = 0; i < nd; i++) p->s[i] = p->hi[i] - p->lo[i] + 1;
    to32(p->lo32, p->lo, nd); to32(p->hi32, p->hi, nd);
    toF(p->loF, p->lo, nd, 1); toF(p->hiF, p->hi, nd, 1);
}
static void rdld(Patch *p, int nd) {
    rdn(p->ld, nd - 1); to32(p->ld32, p->ld, nd - 1); toF(p->ldF, p->ld, nd - 1, 0);
    if (nd == 1) { p->ld[0] = 1; p->ld32[0] = 1; p->ldF[0] = 1; }
}
/* C++ bridge (gaops.cc) */
extern int cxx_create(int t, int nd, int64_t *d, int64_t *w, int kind, int64_t *a1, int64_t *a2, int b32, void **obj);
extern void cxx_init(void);
extern int cxx_dup(void *o, void **obj);
extern void cxx_destroy(void *o);
extern void cxx_put(int h, int b32, int64_t *lo, int64_t *hi, void *p, int64_t *ld);
extern void cxx_get(int h, int b32, int64_t *lo, int64_t *hi, void *p, int64_t *ld);
extern void cxx_acc(int h, int b32, int64_t *lo, int64_t *hi, void *p, int64_t *ld, void *al);
extern long cxx_readinc(int h, int b32, int64_t *s, long inc);
extern void cxx_gatscat(int h, int b32, int which, void *v, int64_t **subs, int n, void *al);

/* Fortran symbols */
typedef long FI;
extern void nga_put_(FI*, FI*, FI*, void*, FI*), nga_get_(FI*, FI*, FI*, void*, FI*), nga_acc_(FI*, FI*, FI*, void*, FI*, void*);
extern FI nga_create_(FI*, FI*, FI*, char*, FI*, FI*, int), nga_create_irreg_(FI*, FI*, FI*, char*, FI*, FI*, FI*, int);
extern FI nga_create_ghosts_(FI*, FI*, FI*, FI*, char*, FI*, FI*, int);
extern FI ga_create_handle_(void), ga_allocate_(FI*);
extern void ga_set_data_(FI*, FI*, FI*, FI*), ga_set_chunk_(FI*, FI*), ga_set_ghosts_(FI*, FI*), ga_set_pgroup_(FI*, FI*),
    ga_set_block_cyclic_(FI*, FI*), ga_set_block_cyclic_proc_grid_(FI*, FI*, FI*), ga_set_irreg_distr_(FI*, FI*, FI*),
    ga_set_tiled_proc_grid_(FI*, FI*, FI*), ga_set_tiled_irreg_proc_grid_(FI*, FI*, FI*, FI*), ga_set_array_name_(FI*, char*, int), ga_set_restricted_(FI*, FI*, FI*);
extern FI nga_read_inc_(FI*, FI*, FI*);
extern void nga_gather_(FI*, void*, FI*, FI*), nga_scatter_(FI*, void*, FI*, FI*), nga_scatter_acc_(FI*, void*, FI*, FI*, void*);
extern void nga_strided_put_(FI*,FI*,FI*,FI*,void*,FI*), nga_strided_get_(FI*,FI*,FI*,FI*,void*,FI*), nga_strided_acc_(FI*,FI*,FI*,FI*,void*,FI*,void*);
extern void nga_periodic_put_(FI*,FI*,FI*,void*,FI*), nga_periodic_get_(FI*,FI*,FI*,void*,FI*), nga_periodic_acc_(FI*,FI*,FI*,void*,FI*,void*);
extern void nga_distribution_(FI*,FI*,FI*,FI*);
extern FI nga_locate_(FI*,FI*,FI*), nga_locate_region_(FI*,FI*,FI*,FI*,FI*,FI*);
extern void nga_nbput_(FI*, FI*, FI*, void*, FI*, FI*), nga_nbget_(FI*, FI*, FI*, void*, FI*, FI*), nga_nbacc_(FI*, FI*, FI*, void*, FI*, void*, FI*), nga_nbwait_(FI*);
extern FI nga_nbtest_(FI*);

/* names: SYNV (syn.c) 0 the usual ones, 1 the synonyms of every routine that has one, 2 also typed and two-dimensional Fortran routines */
extern int SYNV;
#define F2D(v, nd) ((v) == 2 && SYNV == 2 && (nd) == 2)
#include "ops_core.h"
#include "ops_alg.h"
#include "ops_misc.h"
#include "ops_sparse.h"
#include "ops_pario.h"
#include "ops_tcg.h"
#include "ops_sess.h"

static drv_op ALLOPS[] = {
#define X(n) { #n, op_##n },
#include "oplist.h"
#undef X
};

static size_t MEM0;
static void case_begin(void) { }
static void ga_cleanup(void) {
    nb_reset();
    sparse_reset();
    pario_reset();
    tcg_reset();
    GA_Pgroup_set_default(GA_Pgroup_get_world());
    for (int i = MAXS - 1; i >= 0; i--) if (SL[i].live == 1) {
        if (SL[i].cx) cxx_destroy(SL[i].cx); else GA_Destroy(SL[i].h);
        SL[i].live = 0; SL[i].cx = 0; SL[i].h = 0;
    }
    for (int i = 31; i >= 0; i--) if (GRPL[i]) { if (GRPX[i]) cx_pgdestroy(GRPX[i]); else GA_Pgroup_destroy(GRP[i]); GRPL[i] = 0; GRPX[i] = 0; }
    emb_destroy();
    if (NMUTEX) { GA_Destroy_mutexes(); NMUTEX = 0; }
    for (int i = 0; i < 16; i++) if (RT[i]) { NGA_Deregister_type(RT[i]); RT[i] = 0; }
    misc_reset();
}
static void case_end(void) {
    if (NOINIT) return;
    emb_reset();
    SYNV = 0;
    GA_Sync(); chaos_set(0, 0, 0, WME);
    ga_cleanup();
    GA_Sync();
    drv_rec_i((long long)GA_Inquire_memory());
}
static void pre_gather(void) { if (!NOINIT) GA_Sync(); }

extern void __real_pnga_error(char *s, long code);
/* the library reports errors while holding its internal lock; an intercepted one leaves the call by longjmp and must give it back */
static int LOCKED;
extern void __real_GA_Internal_Threadsafe_Lock(void) __attribute__((weak)), __real_GA_Internal_Threadsafe_Unlock(void) __attribute__((weak));
void __wrap_GA_Internal_Threadsafe_Lock(void) { if (__real_GA_Internal_Threadsafe_Lock) __real_GA_Internal_Threadsafe_Lock(); LOCKED++; }
void __wrap_GA_Internal_Threadsafe_Unlock(void) { LOCKED--; if (__real_GA_Internal_Threadsafe_Unlock) __real_GA_Internal_Threadsafe_Unlock(); }
void __wrap_pnga_error(char *s, long code) {
    if (TRAP) { snprintf(TRAPMSG, sizeof TRAPMSG, "%s", s ? s : ""); while (LOCKED > 0) __wrap_GA_Internal_Threadsafe_Unlock(); longjmp(TRAPJ, 1); }
    fprintf(stderr, "GAERROR rank %d op %d (%s): %s (%ld)\n", ME, OPI, OPNAME, s, code);
    fflush(stderr);
    if (getenv("DRV_BT")) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
    MPI_Abort(MPI_COMM_WORLD, 91);
}

int main(int argc, char **argv) {
    int prov;
    MPI_Init_thread(&argc, &argv, getenv("DRV_SINGLE") ? MPI_THREAD_SINGLE : MPI_THREAD_MULTIPLE, &prov);
    const char *lim = getenv("GADRV_LIMIT");
    NOINIT = getenv("GADRV_NOINIT") != 0;
    if (NOINIT) { MPI_Comm_rank(MPI_COMM_WORLD, &WME); MPI_Comm_size(MPI_COMM_WORLD, &WNP); ME = WME; NP = WNP; }
    else if (lim) GA_Initialize_ltd((size_t)atoll(lim)); else GA_Initialize();
    if (!NOINIT) { WME = ME = GA_Nodeid(); WNP = NP = GA_Nnodes(); }
    MA_init(MT_DBL, 2000000, 2000000);
    MPI_Comm_dup(NOINIT ? MPI_COMM_WORLD : GA_MPI_Comm(), &DCOMM);
    cxx_init();
    OPS = ALLOPS; NOPS = sizeof ALLOPS / sizeof *ALLOPS;
    qsort(OPS, NOPS, sizeof *OPS, opcmp);
    CASE_BEGIN = case_begin; CASE_END = case_end; PRE_GATHER = pre_gather;
    drv_open(argc, argv);
    drv_loop();
    if (!NOINIT) GA_Terminate();
    MPI_Finalize();
    return 0;
}
