/* Memory allocator (MA) server: every program runs in a process of its own, because MA initializes once per
 * process.  The model is the list of live blocks; after every operation each one is checked. */
#include "drvcore.h"
#include <sys/wait.h>
#include <signal.h>
#include "macdecls.h"

typedef long Fint;
static int OUTFD_CHILD = -1;
static void leave(void) { if (OUTFD_CHILD >= 0) { wrall(OUTFD_CHILD, OUTB, OUTN); _exit(0); } }    /* nothing is trusted after a failure */
#define drv_fail(...) (drv_fail(__VA_ARGS__), leave())
extern Fint ma_alloc_get_(Fint*, Fint*, char*, Fint*, Fint*, size_t), ma_allocate_heap_(Fint*, Fint*, char*, Fint*, size_t),
    ma_push_get_(Fint*, Fint*, char*, Fint*, Fint*, size_t), ma_push_stack_(Fint*, Fint*, char*, Fint*, size_t),
    ma_init_(Fint*, Fint*, Fint*), ma_free_heap_(Fint*), ma_free_heap_piece_(Fint*, Fint*), ma_pop_stack_(Fint*),
    ma_chop_stack_(Fint*), ma_get_index_(Fint*, Fint*), ma_inquire_avail_(Fint*), ma_inquire_heap_(Fint*),
    ma_inquire_heap_check_stack_(Fint*), ma_inquire_heap_no_partition_(Fint*), ma_inquire_stack_(Fint*),
    ma_inquire_stack_check_heap_(Fint*), ma_inquire_stack_no_partition_(Fint*), ma_sizeof_(Fint*, Fint*, Fint*),
    ma_sizeof_overhead_(Fint*), ma_set_numalign_(Fint*), ma_get_numalign_(Fint*), ma_initialized_(void);

#define NT 17
static const int TSZ[NT] = { 1, sizeof(int), sizeof(long), sizeof(float), sizeof(double), sizeof(long double), 8, 16, 32,
                             1, 8, 8, 4, 8, 8, 16, sizeof(long long) };
/* the Fortran sizes follow the integer size of the build (8 bytes) */
typedef struct { int live, stack, t; Fint h, n; char *p; uint64_t seed; int shrunk; } Blk;
#define MAXB 600
static Blk BK[MAXB];
static int STK[MAXB], NSTK, INITED;
static Fint NA;
static char *LO, *HI;                 /* extent the allocator may hand out: the segment it obtained */

extern void *__real_malloc(size_t);
static int WATCH;
void *__wrap_malloc(size_t n) {
    void *p = __real_malloc(n);
    if (WATCH && (char*)p && (LO == 0 || n > (size_t)(HI - LO))) { LO = p; HI = LO + n; }
    return p;
}

static Fint inq(int v, int k, Fint dt) {
    if (v) switch (k) {
        case 0: return ma_inquire_avail_(&dt); case 1: return ma_inquire_heap_(&dt);
        case 2: return ma_inquire_heap_check_stack_(&dt); case 3: return ma_inquire_heap_no_partition_(&dt);
        case 4: return ma_inquire_stack_(&dt); case 5: return ma_inquire_stack_check_heap_(&dt);
        default: return ma_inquire_stack_no_partition_(&dt);
    }
    switch (k) {
        case 0: return MA_inquire_avail(dt); case 1: return MA_inquire_heap(dt);
        case 2: return MA_inquire_heap_check_stack(dt); case 3: return MA_inquire_heap_no_partition(dt);
        case 4: return MA_inquire_stack(dt); case 5: return MA_inquire_stack_check_heap(dt);
        default: return MA_inquire_stack_no_partition(dt);
    }
}
static const char *IQ[] = { "inquire_avail", "inquire_heap", "inquire_heap_check_stack", "inquire_heap_no_partition",
                            "inquire_stack", "inquire_stack_check_heap", "inquire_stack_no_partition" };
typedef struct { Fint v[NT][7]; } Snap;
static void snap(Snap *s) { memset(s, 0, sizeof *s); if (INITED) for (int t = 0; t < NT; t++) for (int k = 0; k < 7; k++) s->v[t][k] = inq(0, k, MT_FIRST + t); }
static void same(const char *what, Snap *a) {
    Snap b; snap(&b);
    for (int t = 0; t < NT; t++) for (int k = 0; k < 7; k++) if (a->v[t][k] != b.v[t][k]) {
        drv_fail("%s: MA_%s of type %d changed from %ld to %ld", what, IQ[k], MT_FIRST + t, a->v[t][k], b.v[t][k]); return; }
}
static void fill(Blk *b) { size_t n = (size_t)b->n * TSZ[b->t]; for (size_t i = 0; i < n; i++) b->p[i] = (char)drv_hash(b->seed, i >> 3) ^ (char)(i * 37); }
static int intact(Blk *b) { size_t n = (size_t)b->n * TSZ[b->t]; for (size_t i = 0; i < n; i++) if (b->p[i] != (char)((char)drv_hash(b->seed, i >> 3) ^ (char)(i * 37))) { drv_fail("block of %ld elements of type %d: byte %ld of its contents changed", b->n, MT_FIRST + b->t, (long)i); return 0; } return 1; }
static Snap S0[32]; static int S0K[32];     /* the empty state, per requested alignment */

static void check_all(void) {
    int any = 0;
    for (int i = 0; i < MAXB; i++) if (BK[i].live) {
        Blk *b = &BK[i]; any = 1;
        if (!intact(b)) return;
        MA_AccessIndex ix = -1; char *p = 0;
        if (!MA_get_index(b->h, &ix)) { drv_fail("MA_get_index fails for a live block (slot %d)", i); return; }
        if (!MA_get_pointer(b->h, &p)) { drv_fail("MA_get_pointer fails for a live block (slot %d)", i); return; }
        if (p != b->p) { drv_fail("MA_get_pointer returns another address than before (slot %d)", i); return; }
        if (MA_get_mbase(MT_FIRST + b->t) + ix * TSZ[b->t] != b->p) { drv_fail("index %ld of slot %d does not address its block", (long)ix, i); return; }
        Fint fx = -7;
        if (!ma_get_index_(&b->h, &fx) || fx != ix + 1) { drv_fail("Fortran index %ld, C index %ld (slot %d)", fx, (long)ix, i); return; }
    }
    if (!any && INITED) { if (S0K[NA]) same("all blocks released", &S0[NA]); else { snap(&S0[NA]); S0K[NA] = 1; } }
}
static void adopt(int s, int stack, int t, Fint n, Fint h, int get, MA_AccessIndex ix) {
    Blk *b = &BK[s]; memset(b, 0, sizeof *b);
    b->live = 1; b->stack = stack; b->t = t; b->n = n; b->h = h; b->seed = drv_hash(s, h + n);
    if (!MA_get_pointer(h, &b->p)) { drv_fail("MA_get_pointer fails for a new block"); b->live = 0; return; }
    size_t by = (size_t)n * TSZ[t]; int bad = 0;
    char *base = MA_get_mbase(MT_FIRST + t);
    if ((size_t)(b->p - base) % TSZ[t]) { drv_fail("new block is not aligned with the base of its type"); bad = 1; }
    if (get && base + ix * TSZ[t] != b->p) { drv_fail("index %ld returned with the block is not the block's", (long)ix); bad = 1; }
    if (b->p < LO || b->p + by > HI) { drv_fail("block [%ld,%ld) lies outside the segment of %ld bytes", (long)(b->p - LO), (long)(b->p + by - LO), (long)(HI - LO)); bad = 1; }
    if (NA > 0) {
        size_t m = 1UL << NA, q = m < (size_t)TSZ[t] ? m : (size_t)TSZ[t];
        if ((size_t)base % q == 0 && (size_t)b->p % m) { drv_fail("block is not aligned on 2^%ld bytes", NA); bad = 1; }
    }
    for (int j = 0; j < MAXB && !bad; j++) if (j != s && BK[j].live) {
        size_t bj = (size_t)BK[j].n * TSZ[BK[j].t];
        if (BK[j].h == h) { drv_fail("handle %ld already belongs to a live block", h); bad = 1; }
        if (by && bj && b->p < BK[j].p + bj && BK[j].p < b->p + by) { drv_fail("new block overlaps the block in slot %d", j); bad = 1; }
    }
    if (bad) { b->live = 0; return; }
    if (stack) STK[NSTK++] = s;
    fill(b);
}
static Fint call_alloc(int v, int stack, int get, Fint dt, Fint n, int nm, Fint *h, MA_AccessIndex *ix) {
    char name[80]; int l = nm % 70; memset(name, 'a' + nm % 20, sizeof name); name[l] = 0;
    if (v) {
        Fint fx = -9, r; for (int i = l; i < 70; i++) name[i] = ' ';
        if (stack) r = get ? ma_push_get_(&dt, &n, name, h, &fx, 70) : ma_push_stack_(&dt, &n, name, h, 70);
        else r = get ? ma_alloc_get_(&dt, &n, name, h, &fx, 70) : ma_allocate_heap_(&dt, &n, name, h, 70);
        *ix = fx - 1; return r;
    }
    if (stack) return get ? MA_push_get(dt, n, name, h, ix) : MA_push_stack(dt, n, name, h);
    return get ? MA_alloc_get(dt, n, name, h, ix) : MA_allocate_heap(dt, n, name, h);
}
static void op_init(void) {
    int v = drv_I(); Fint dt = drv_I(), st = drv_I(), hp = drv_I();
    int was = INITED;
    LO = HI = 0; WATCH = !was; char *lo = LO, *hi = HI;
    static char *KLO, *KHI;
    Fint r = v ? ma_init_(&dt, &st, &hp) : MA_init(dt, st, hp); WATCH = 0;
    if (was) { LO = KLO; HI = KHI; if (r) drv_fail("MA_init succeeds twice"); return; }
    int valid = dt >= MT_FIRST && dt <= MT_LAST;
    if (!valid) { if (r) drv_fail("MA_init accepts type %ld", dt); return; }
    if (!!MA_initialized() != !!r || !!ma_initialized_() != !!r) drv_fail("MA_initialized says %ld after MA_init returned %ld", (long)MA_initialized(), r);
    drv_rec_i(!!r);
    if (!r) { LO = HI = 0; return; }
    KLO = LO; KHI = HI; INITED = 1; snap(&S0[0]); S0K[0] = 1;
    int t = dt - MT_FIRST;
    for (int k = 1; k < 7; k++) {
        Fint want = k < 4 ? hp : st;
        if (k == 0) continue;
        if (want > S0[0].v[t][k]) drv_fail("MA_init(type %ld, stack %ld, heap %ld), then MA_%s says %ld", dt, st, hp, IQ[k], S0[0].v[t][k]);
    }
}
/* alloc slot v stack get dt mode n name: mode -1: n elements; mode k >= 0: what inquiry k reports, plus n */
static void op_alloc(void) {
    int s = drv_I(), v = drv_I(), stack = drv_I(), get = drv_I(); Fint dt = drv_I(); int mode = drv_I(); Fint n = drv_I(); int nm = drv_I();
    int valid = dt >= MT_FIRST && dt <= MT_LAST, must = 0, mustnot = 0;
    if (BK[s].live) return;
    if (mode >= 0) {
        if (!INITED || !valid) return;
        Fint q = inq(v, mode, dt), q2 = inq(!v, mode, dt), d = n;
        if (q != q2) drv_fail("MA_%s: C and Fortran answers differ: %ld, %ld", IQ[mode], q, q2);
        n = q + d; if (n < 0) n = 0;
        /* which inquiry promises what: the ones that look at both regions promise success; the ones that ignore
           the partition are also maxima for the region they describe */
        if (d <= 0 && n > 0) {
            if (!stack && (mode == 0 || mode == 2 || mode == 3)) must = 1;
            if (stack && (mode == 0 || mode == 5 || mode == 6)) must = 1;
        }
        if (d > 0) {
            if (!stack && mode == 3) mustnot = 1;
            if (stack && d > 64 && (mode == 0 || mode == 6)) mustnot = 1;
        }
    }
    if (!valid || n < 0 || !INITED) mustnot = 1;
    if (valid && INITED && n > 0 && (unsigned long)n > (unsigned long)(HI - LO) / TSZ[dt - MT_FIRST]) mustnot = 1;
    Snap before; snap(&before);
    Fint h = -5; MA_AccessIndex ix = -77;
    Fint r = call_alloc(v, stack, get, dt, n, nm, &h, &ix);
    drv_rec_i2(!!r, n);
    if (r && mustnot) { drv_fail("%s of %ld elements of type %ld succeeds%s", stack ? "push" : "heap allocation", n, dt,
                                 mode >= 0 ? " although more than reported available" : ""); if (!valid || n < 0 || mode < 0) return; }
    if (!r && must) drv_fail("%s of %ld elements of type %ld fails although MA_%s reports as many", stack ? "push" : "heap allocation", n, dt, IQ[mode]);
    if (r) adopt(s, stack, dt - MT_FIRST, n, h, get, ix); else same("failed allocation", &before);
    check_all();
}
static void forget(int s) { BK[s].live = 0; }
/* rel v how slot n: how 0 free, 1 free a piece, 2 pop, 3 chop */
static void op_rel(void) {
    int v = drv_I(), how = drv_I(), s = drv_I(); Fint n = drv_I(); Blk *b = &BK[s];
    if (!b->h && !b->live) return;
    int ok = b->live;
    if (!b->live) for (int j = 0; j < MAXB; j++) if (BK[j].live && BK[j].h == b->h) return;   /* number in use again */
    if (how < 2 && b->stack) ok = 0;
    if (how >= 2 && !b->stack) ok = 0;
    if (how == 2 && ok && STK[NSTK - 1] != s) ok = 0;
    if (how == 1 && n < 0) ok = 0;
    if (how == 1 && n > 0 && ok && n < b->n) n = 1 + (n - 1) % b->n;
    Snap before; snap(&before);
    Fint h = b->h, r;
    switch (how) {
    case 0: r = v ? ma_free_heap_(&h) : MA_free_heap(h); break;
    case 1: r = v ? ma_free_heap_piece_(&h, &n) : MA_free_heap_piece(h, n); break;
    case 2: r = v ? ma_pop_stack_(&h) : MA_pop_stack(h); break;
    default: r = v ? ma_chop_stack_(&h) : MA_chop_stack(h);
    }
    drv_rec_i2(!!r, ok);
    if (!!r != ok) { drv_fail("release %d of slot %d (%s, %s): returned %ld, expected %d", how, s, b->live ? "live" : "released", b->stack ? "stack" : "heap", r, ok); return; }
    if (!ok) same("refused release", &before);
    else if (how == 1 && n < b->n) { b->n -= n; }
    else if (how < 2) forget(s);
    else if (how == 2) { NSTK--; forget(s); }
    else { while (NSTK) { int q = STK[--NSTK]; forget(q); if (q == s) break; } }
    check_all();
    if (!b->live) {
        for (int j = 0; j < MAXB; j++) if (BK[j].live && BK[j].h == h) return;
        char *p; MA_AccessIndex ix;
        if (MA_get_pointer(h, &p) || MA_get_index(h, &ix)) drv_fail("a released block can still be accessed");
    }
}
static void op_align(void) {
    int v = drv_I(); Fint a = drv_I(), g = -3, g2 = -3, ok = a >= 0 && a <= 30;
    Fint r = v ? ma_set_numalign_(&a) : MA_set_numalign(a);
    if (!!r != ok) drv_fail("MA_set_numalign(%ld) returned %ld", a, r);
    if (ok) NA = a;
    MA_get_numalign(&g); ma_get_numalign_(&g2);
    if (g != NA || g2 != NA) drv_fail("MA_get_numalign says %ld / %ld, set to %ld", g, g2, NA);
    check_all();
}
static void op_sizeof(void) {
    int v = drv_I(); Fint a = drv_I(), n = drv_I(), c = drv_I();
    Fint r = v ? ma_sizeof_(&a, &n, &c) : MA_sizeof(a, n, c);
    unsigned long by = (unsigned long)n * TSZ[a - MT_FIRST]; int z = TSZ[c - MT_FIRST];
    if (r != (Fint)(by / z + (by % z != 0))) drv_fail("MA_sizeof(%ld, %ld, %ld) = %ld", a, n, c, r);
    Fint o = v ? ma_sizeof_overhead_(&c) : MA_sizeof_overhead(c), o1 = MA_sizeof_overhead(MT_CHAR);
    if (o != o1 / z + (o1 % z != 0)) drv_fail("overhead is %ld elements of type %ld but %ld bytes", o, c, o1);
}
/* probe dt k v stack: take what the inquiry reports, release it, everything is as before */
static void op_probe(void) {
    Fint dt = drv_I(); int k = drv_I(), v = drv_I(), stack = drv_I();
    if (!INITED) return;
    Snap before; snap(&before);
    Fint n = inq(v, k, dt), h; MA_AccessIndex ix; int s = MAXB - 1;
    if (n < 0 || (size_t)n > (size_t)(HI - LO) / TSZ[dt - MT_FIRST]) { drv_fail("MA_%s reports %ld elements of type %ld in a segment of %ld bytes", IQ[k], n, dt, (long)(HI - LO)); return; }
    Fint r = call_alloc(v, stack, k & 1, dt, n, 5, &h, &ix);
    if (!r) {
        int must = n > 0 && (stack ? k == 0 || k == 5 || k == 6 : k == 0 || k == 2 || k == 3);
        if (must) drv_fail("%s of %ld elements of type %ld fails although MA_%s reports as many", stack ? "push" : "heap allocation", n, dt, IQ[k]);
    } else {
        adopt(s, stack, dt - MT_FIRST, n, h, k & 1, ix); check_all();
        if (BK[s].live) { r = stack ? MA_pop_stack(h) : MA_free_heap(h); if (!r) drv_fail("release after a probe fails"); if (stack) NSTK--; BK[s].live = 0; }
    }
    same("allocation followed by its release", &before); check_all();
    drv_rec_i2(!!r, n);
}
static void op_sum(void) { int k = drv_I(); (void)k; check_all(); }

static drv_op OPTAB[] = { {"align", op_align}, {"alloc", op_alloc}, {"init", op_init}, {"probe", op_probe}, {"rel", op_rel},
                          {"sizeof", op_sizeof}, {"sum", op_sum} };
int main(int argc, char **argv) {
    WNP = NP = 1; OPS = OPTAB; NOPS = sizeof OPTAB / sizeof *OPTAB; qsort(OPS, NOPS, sizeof *OPS, opcmp);
    IN_FD = open(argv[1], O_RDONLY); OUT_FD = open(argv[2], O_WRONLY);
    if (IN_FD < 0 || OUT_FD < 0) { perror("fifo"); return 78; }
    signal(SIGPIPE, SIG_IGN);
    for (;;) {
        int32_t n; if (!rdall(IN_FD, &n, 4) || n < 0) return 0;
        PROG = realloc(PROG, n + 1); if (!rdall(IN_FD, PROG, n)) return 0;
        PROG[n] = 0; OUTN = 0;
        int pp[2]; if (pipe(pp)) return 4;
        fflush(0);
        pid_t k = fork();
        if (k == 0) {
            close(pp[0]); alarm(4); OUTFD_CHILD = pp[1];
            MA_set_error_print(0); MA_set_hard_fail(0);
            run_program();
            wrall(pp[1], OUTB, OUTN); fflush(0); _exit(0);
        }
        close(pp[1]);
        char buf[65536]; ssize_t r;
        while ((r = read(pp[0], buf, sizeof buf)) > 0 || (r < 0 && errno == EINTR)) if (r > 0) outadd(buf, r);
        close(pp[0]);
        int st = 0; waitpid(k, &st, 0);
        OPI = 1 << 20;
        size_t o = 0;
        while (o + 12 <= OUTN) { int32_t *q = (int32_t*)(OUTB + o); if (q[2] < 0 || q[2] > (int)(OUTN - o - 12) || q[1] >> 8) break; o += 12 + q[2]; }
        if (o != OUTN) { OUTN = 0; drv_fail("the memory of the process is corrupted"); }
        if (st) drv_fail(WIFSIGNALED(st) ? "the process died with signal %d" : "the process ended with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        int32_t t = OUTN; wrall(OUT_FD, &t, 4); wrall(OUT_FD, OUTB, OUTN);
    }
}
