/* Interpreter of generated programs over the one-sided runtime (ComEx and its ARMCI interface). */
#include "drvcore.h"
#include "comex.h"
#include "armci.h"

#define MAXSEG 24
#define MAXG 16
#define MAXNB 128
#define MAXP 64
/* element types: 0 int 1 long 2 long long 3 float 4 double 5 single complex 6 double complex 7 byte */
static const int ESZ[] = { 4, 8, 8, 4, 8, 8, 16, 1 };
static const int ACCOP[] = { COMEX_ACC_INT, COMEX_ACC_LNG, COMEX_ACC_LNG, COMEX_ACC_FLT, COMEX_ACC_DBL, COMEX_ACC_CPL, COMEX_ACC_DCP, 0 };

typedef struct { int live, id, n, mem[MAXP], me; } Grp;      /* mem: world ranks */
static Grp G[MAXG];
typedef struct { int live, g, t, es, v; long n[MAXP]; void *ptr[MAXP]; } Seg;   /* indexed by rank in the group */
static Seg S[MAXSEG];
typedef struct { char *base, *p, *copy; size_t bytes; int lm; } Buf;
typedef struct { int live, kind, v, es, impl, w; comex_request_t rq; Buf b; long n; long *ix; } Nb;
static Nb NB[MAXNB];
static int NMUT;

static void putval(void *p, int t, double re, double im) {
    switch (t) {
    case 0: *(int*)p = (int)re; break;
    case 1: *(long*)p = (long)re; break;
    case 2: *(long long*)p = (long long)re; break;
    case 3: *(float*)p = (float)re; break;
    case 4: *(double*)p = re; break;
    case 5: ((float*)p)[0] = (float)re; ((float*)p)[1] = (float)im; break;
    case 6: ((double*)p)[0] = re; ((double*)p)[1] = im; break;
    }
}
typedef struct { unsigned long long seed; long long lo, span; } Gen;
static Gen rdgen(void) { Gen g; g.seed = (unsigned long long)drv_I(); g.lo = drv_I(); g.span = drv_I(); return g; }
static void genval(void *p, int t, Gen g, int64_t k) {
    if (t == 7) { *(unsigned char*)p = drv_hash(g.seed, k) & 0xff; return; }
    if (t >= 5) {
        double re = (double)(g.lo + (long long)(drv_hash(g.seed, 2 * k) % (uint64_t)g.span));
        double im = (double)(g.lo + (long long)(drv_hash(g.seed, 2 * k + 1) % (uint64_t)g.span));
        putval(p, t, re, im);
    } else putval(p, t, (double)(g.lo + (long long)(drv_hash(g.seed, k) % (uint64_t)g.span)), 0);
}

#define GUARD 64
static Buf buf_new(size_t bytes, int lm) {
    Buf b; b.bytes = bytes; b.lm = lm; b.copy = 0;
    size_t n = bytes + 2 * GUARD;
    b.base = lm ? comex_malloc_local(n) : malloc(n);
    if (!b.base) { drv_fail("local memory allocation returned NULL"); b.base = malloc(n); b.lm = 0; }
    memset(b.base, 0xA5, n);
    b.p = b.base + GUARD;
    return b;
}
static void buf_free(Buf *b) { if (b->lm) comex_free_local(b->base); else free(b->base); free(b->copy); b->base = 0; b->copy = 0; }

static int translate(int g, int w) {     /* world rank -> rank in group slot g (-1 = world) */
    if (g < 0) return w;
    for (int i = 0; i < G[g].n; i++) if (G[g].mem[i] == w) return i;
    return -1;
}
static int gid(int g) { return g < 0 ? COMEX_GROUP_WORLD : G[g].id; }
static void chk(int rc, const char *what) { if (rc != 0) drv_fail("%s returned %d", what, rc); }

/* the source buffer must be as it was; a destination buffer: record the elements, check everything else */
static void finish(int kind, Buf *b, int es, long n, long *ix) {
    if (kind == 1) {
        char *pk = malloc(n * es + 1), *m = calloc(1, b->bytes + 2 * GUARD);
        for (long k = 0; k < n; k++) { char *q = b->p + ix[k] * es; memcpy(pk + k * es, q, es); memset(m + (q - b->base), 1, es); }
        for (size_t i = 0; i < b->bytes + 2 * GUARD; i++)
            if (!m[i] && (unsigned char)b->base[i] != 0xA5) { drv_fail("get wrote outside the requested locations of the caller's buffer (byte %ld)", (long)i - GUARD); break; }
        drv_rec('b', pk, n * es);
        free(pk); free(m);
    } else if (memcmp(b->base, b->copy, b->bytes + 2 * GUARD)) drv_fail("transfer modified the caller's source buffer");
    buf_free(b); free(ix);
}
static void fin_nb(Nb *x) { x->live = 0; finish(x->kind, &x->b, x->es, x->n, x->ix); }

typedef struct { int kind, v, nb, g, w, p, lm; Seg *s; } Hd;
/* "kind v nb s gsel tgt lm": kind 0 put 1 get 2 acc; v 0 comex 1 armci; nb -1 blocking, -2.. implicit in slot -2-nb, else slot */
static Hd head(void) {
    Hd h; h.kind = (int)drv_I(); h.v = (int)drv_I(); h.nb = (int)drv_I(); h.s = &S[drv_I()]; int gs = (int)drv_I(); h.w = (int)drv_I(); h.lm = (int)drv_I();
    h.g = gs ? h.s->g : -1; h.p = translate(h.g, h.w);
    return h;
}
static char *rem(Hd *h, long off) { return (char*)h->s->ptr[translate(h->s->g, h->w)] + off * h->s->es; }
static double SCB[4];
static void *scal(int t) { double re = drv_D(), im = drv_D(); putval(SCB, t, re, im); return SCB; }
static comex_request_t *hdl(Hd *h, Nb **x, comex_request_t *dummy) {
    int k = h->nb <= -2 ? -2 - h->nb : h->nb;
    *x = &NB[k];
    memset(*x, 0, sizeof **x);
    (*x)->impl = h->nb <= -2; (*x)->v = h->v; (*x)->w = h->w; (*x)->kind = h->kind; (*x)->es = h->s->es;
    return (*x)->impl ? NULL : &(*x)->rq;
}
static void fill(Hd *h, Buf *b, Gen g, long n, long *ix) {
    if (h->kind == 1) return;
    for (long k = 0; k < n; k++) genval(b->p + ix[k] * h->s->es, h->s->t, g, k);
    b->copy = malloc(b->bytes + 2 * GUARD); memcpy(b->copy, b->base, b->bytes + 2 * GUARD);
}
static void done(Hd *h, Nb *x, Buf b, long n, long *ix) {
    if (h->nb == -1) finish(h->kind, &b, h->s->es, n, ix);
    else { x->live = 1; x->b = b; x->n = n; x->ix = ix; }
}

static void op_x1(void) {        /* head off n gen [alpha] */
    Hd h = head(); long off = drv_I(), n = drv_I(); Gen g = rdgen(); void *al = h.kind == 2 ? scal(h.s->t) : 0;
    int es = h.s->es, by = (int)(n * es), op = ACCOP[h.s->t]; char *r = rem(&h, off);
    Buf b = buf_new(by, h.lm); long *ix = malloc(sizeof(long) * (n + 1));
    for (long k = 0; k < n; k++) ix[k] = k;
    fill(&h, &b, g, n, ix);
    Nb *x = 0;
    if (h.nb == -1) {
        if (h.v) chk(h.kind == 0 ? ARMCI_Put(b.p, r, by, h.w) : h.kind == 1 ? ARMCI_Get(r, b.p, by, h.w) : ARMCI_Acc(op, al, b.p, r, by, h.w), "transfer");
        else chk(h.kind == 0 ? comex_put(b.p, r, by, h.p, gid(h.g)) : h.kind == 1 ? comex_get(r, b.p, by, h.p, gid(h.g)) : comex_acc(op, al, b.p, r, by, h.p, gid(h.g)), "transfer");
    } else {
        comex_request_t *q = hdl(&h, &x, 0);
        if (h.v && h.kind != 2) chk(h.kind == 0 ? ARMCI_NbPut(b.p, r, by, h.w, q) : ARMCI_NbGet(r, b.p, by, h.w, q), "transfer");
        else chk(h.kind == 0 ? comex_nbput(b.p, r, by, h.p, gid(h.g), q) : h.kind == 1 ? comex_nbget(r, b.p, by, h.p, gid(h.g), q) : comex_nbacc(op, al, b.p, r, by, h.p, gid(h.g), q), "transfer");
    }
    done(&h, x, b, n, ix);
}
static void op_xs(void) {        /* head off nl loff lev ds[lev] ls[lev] cnt[lev+1] gen [alpha]; elements everywhere */
    Hd h = head(); long off = drv_I(), nl = drv_I(), lo = drv_I(); int lev = (int)drv_I(), ds[9], ls[9], ct[10], es = h.s->es; long c[10], d[9], l[9], n = 1;
    for (int i = 0; i < lev; i++) { d[i] = drv_I(); ds[i] = (int)(d[i] * es); }
    for (int i = 0; i < lev; i++) { l[i] = drv_I(); ls[i] = (int)(l[i] * es); }
    for (int i = 0; i <= lev; i++) { c[i] = drv_I(); ct[i] = (int)c[i]; n *= c[i]; }
    ct[0] *= es;
    Gen g = rdgen(); void *al = h.kind == 2 ? scal(h.s->t) : 0;
    int op = ACCOP[h.s->t]; char *r = rem(&h, off);
    Buf b = buf_new(nl * es, h.lm); long *ix = malloc(sizeof(long) * (n + 1));
    for (long k = 0; k < n; k++) { long q = k, a = lo + q % c[0]; q /= c[0]; for (int i = 1; i <= lev; i++) { a += (q % c[i]) * l[i - 1]; q /= c[i]; } ix[k] = a; }
    fill(&h, &b, g, n, ix);
    char *p = b.p + lo * es; Nb *x = 0;
    if (h.nb == -1) {
        if (h.v) chk(h.kind == 0 ? ARMCI_PutS(p, ls, r, ds, ct, lev, h.w) : h.kind == 1 ? ARMCI_GetS(r, ds, p, ls, ct, lev, h.w) : ARMCI_AccS(op, al, p, ls, r, ds, ct, lev, h.w), "strided transfer");
        else chk(h.kind == 0 ? comex_puts(p, ls, r, ds, ct, lev, h.p, gid(h.g)) : h.kind == 1 ? comex_gets(r, ds, p, ls, ct, lev, h.p, gid(h.g)) : comex_accs(op, al, p, ls, r, ds, ct, lev, h.p, gid(h.g)), "strided transfer");
    } else {
        comex_request_t *q = hdl(&h, &x, 0);
        if (h.v) chk(h.kind == 0 ? ARMCI_NbPutS(p, ls, r, ds, ct, lev, h.w, q) : h.kind == 1 ? ARMCI_NbGetS(r, ds, p, ls, ct, lev, h.w, q) : ARMCI_NbAccS(op, al, p, ls, r, ds, ct, lev, h.w, q), "strided transfer");
        else chk(h.kind == 0 ? comex_nbputs(p, ls, r, ds, ct, lev, h.p, gid(h.g), q) : h.kind == 1 ? comex_nbgets(r, ds, p, ls, ct, lev, h.p, gid(h.g), q) : comex_nbaccs(op, al, p, ls, r, ds, ct, lev, h.p, gid(h.g), q), "strided transfer");
    }
    for (int i = 0; i < lev; i++) if (ds[i] != (int)(d[i] * es) || ls[i] != (int)(l[i] * es)) { drv_fail("strided transfer modified the caller's stride array"); break; }
    for (int i = 0; i <= lev; i++) if (ct[i] != (int)(c[i] * (i ? 1 : es))) { drv_fail("strided transfer modified the caller's count array"); break; }
    done(&h, x, b, n, ix);
}
static void op_xv(void) {        /* head nl nd { elems npairs {roff loff}* }* gen [alpha] */
    Hd h = head(); long nl = drv_I(); int nd = (int)drv_I(), es = h.s->es; long n = 0, cap = 64, *ix = malloc(cap * sizeof(long));
    comex_giov_t *cv = calloc(nd + 1, sizeof *cv); armci_giov_t *av = calloc(nd + 1, sizeof *av);
    Buf b = buf_new(nl * es, h.lm);
    for (int i = 0; i < nd; i++) {
        long e = drv_I(); int np = (int)drv_I();
        void **R = malloc((np + 1) * sizeof(void*)), **L = malloc((np + 1) * sizeof(void*));
        for (int j = 0; j < np; j++) {
            long ro = drv_I(), lo = drv_I();
            R[j] = rem(&h, ro); L[j] = b.p + lo * es;
            for (long k = 0; k < e; k++) { if (n + 1 >= cap) ix = realloc(ix, (cap *= 2) * sizeof(long)); ix[n++] = lo + k; }
        }
        cv[i].src = h.kind == 1 ? R : L; cv[i].dst = h.kind == 1 ? L : R; cv[i].count = np; cv[i].bytes = (int)(e * es);
        av[i].src_ptr_array = cv[i].src; av[i].dst_ptr_array = cv[i].dst; av[i].ptr_array_len = np; av[i].bytes = (int)(e * es);
    }
    Gen g = rdgen(); void *al = h.kind == 2 ? scal(h.s->t) : 0; int op = ACCOP[h.s->t];
    fill(&h, &b, g, n, ix);
    Nb *x = 0;
    if (h.nb == -1) {
        if (h.v) chk(h.kind == 0 ? ARMCI_PutV(av, nd, h.w) : h.kind == 1 ? ARMCI_GetV(av, nd, h.w) : ARMCI_AccV(op, al, av, nd, h.w), "vector transfer");
        else chk(h.kind == 0 ? comex_putv(cv, nd, h.p, gid(h.g)) : h.kind == 1 ? comex_getv(cv, nd, h.p, gid(h.g)) : comex_accv(op, al, cv, nd, h.p, gid(h.g)), "vector transfer");
    } else {
        comex_request_t *q = hdl(&h, &x, 0);
        if (h.v) chk(h.kind == 0 ? ARMCI_NbPutV(av, nd, h.w, q) : h.kind == 1 ? ARMCI_NbGetV(av, nd, h.w, q) : ARMCI_NbAccV(op, al, av, nd, h.w, q), "vector transfer");
        else chk(h.kind == 0 ? comex_nbputv(cv, nd, h.p, gid(h.g), q) : h.kind == 1 ? comex_nbgetv(cv, nd, h.p, gid(h.g), q) : comex_nbaccv(op, al, cv, nd, h.p, gid(h.g), q), "vector transfer");
    }
    for (int i = 0; i < nd; i++) { free(cv[i].src); free(cv[i].dst); }
    free(cv); free(av);
    done(&h, x, b, n, ix);
}
static void op_xval(void) {      /* kind s tgt off gen : value put / get through ARMCI */
    int kind = (int)drv_I(); Seg *s = &S[drv_I()]; int w = (int)drv_I(); long off = drv_I(); Gen g = rdgen();
    char *r = (char*)s->ptr[translate(s->g, w)] + off * s->es; double v[2]; genval(v, s->t, g, 0);
    if (kind == 0) {
        if (s->t == 0) chk(ARMCI_PutValueInt(*(int*)v, r, w), "PutValue");
        else if (s->t == 1) chk(ARMCI_PutValueLong(*(long*)v, r, w), "PutValue");
        else if (s->t == 3) chk(ARMCI_PutValueFloat(*(float*)v, r, w), "PutValue");
        else chk(ARMCI_PutValueDouble(*v, r, w), "PutValue");
    } else {
        if (s->t == 0) { int x = ARMCI_GetValueInt(r, w); drv_rec('b', &x, 4); }
        else if (s->t == 1) { long x = ARMCI_GetValueLong(r, w); drv_rec('b', &x, 8); }
        else if (s->t == 3) { float x = ARMCI_GetValueFloat(r, w); drv_rec('b', &x, 4); }
        else { double x = ARMCI_GetValueDouble(r, w); drv_rec('b', &x, 8); }
    }
}
static void op_xwait(void) {     /* slot */
    Nb *x = &NB[drv_I()]; if (!x->live) return;
    chk(x->v ? ARMCI_Wait(&x->rq) : comex_wait(&x->rq), "wait");
    fin_nb(x);
}
static void op_xtest(void) {     /* slot: poll until complete */
    Nb *x = &NB[drv_I()]; if (!x->live) return;
    int st = 1;
    for (long k = 0; k < 20000000 && st; k++) { if (x->v) st = ARMCI_Test(&x->rq); else chk(comex_test(&x->rq, &st), "test"); if (k > 100) sched_yield(); }
    if (st) drv_fail("a non-blocking transfer never tests complete");
    fin_nb(x);
}
static void op_xwaitall(void) {  /* v: completes the implicit ones */
    int v = (int)drv_I();
    chk(v ? ARMCI_WaitAll() : comex_wait_all(COMEX_GROUP_WORLD), "wait_all");
    for (int i = 0; i < MAXNB; i++) if (NB[i].live && NB[i].impl) fin_nb(&NB[i]);
}
static void op_xwaitproc(void) { /* v p */
    int v = (int)drv_I(), p = (int)drv_I();
    chk(v ? ARMCI_WaitProc(p) : comex_wait_proc(p, COMEX_GROUP_WORLD), "wait_proc");
    for (int i = 0; i < MAXNB; i++) if (NB[i].live && NB[i].impl && NB[i].w == p) fin_nb(&NB[i]);
}
static void op_xrmw(void) {      /* v s gsel tgt off op extra val */
    int v = (int)drv_I(); Seg *s = &S[drv_I()]; int gs = (int)drv_I(), w = (int)drv_I(); long off = drv_I(); int o = (int)drv_I(), ex = (int)drv_I(); long val = drv_I();
    int g = gs ? s->g : -1; char *r = (char*)s->ptr[translate(s->g, w)] + off * s->es; int lg = s->es == 8; long b[3]; int ib[3];
    memset(b, 0xA5, sizeof b); memset(ib, 0xA5, sizeof ib); b[1] = val; ib[1] = (int)val;
    int op = o ? (lg ? COMEX_FETCH_AND_ADD_LONG : COMEX_FETCH_AND_ADD) : (lg ? COMEX_SWAP_LONG : COMEX_SWAP);
    void *p = lg ? (void*)&b[1] : (void*)&ib[1];
    chk(v ? ARMCI_Rmw(op, p, r, ex, w) : comex_rmw(op, p, r, ex, translate(g, w), gid(g)), "rmw");
    int bad = 0; for (int i = 0; i < 3; i += 2) if (ib[i] != (int)0xA5A5A5A5 || b[i] != (long)0xA5A5A5A5A5A5A5A5L) bad = 1;
    if (bad) drv_fail("rmw wrote beyond the caller's variable");
    drv_rec_i(lg ? b[1] : ib[1]);
}
static void op_xfence(void) { int v = (int)drv_I(), g = (int)drv_I(), w = (int)drv_I(); if (v) ARMCI_Fence(w); else chk(comex_fence_proc(translate(g, w), gid(g)), "fence_proc"); }
static void op_xfenceall(void) { int v = (int)drv_I(), g = (int)drv_I(); if (v) ARMCI_AllFence(); else chk(comex_fence_all(gid(g)), "fence_all"); }
static void op_xbar(void) { int v = (int)drv_I(), g = (int)drv_I(); if (v) ARMCI_Barrier(); else chk(comex_barrier(gid(g)), "barrier"); }
static void op_xmeet(void) {     /* meet without any runtime barrier; keeps the runtime progressing while waiting */
    MPI_Request rq; int d = 0; MPI_Ibarrier(DCOMM, &rq);
    while (!d) { MPI_Test(&rq, &d, MPI_STATUS_IGNORE); if (!d) { comex_wait_all(COMEX_GROUP_WORLD); sched_yield(); } }
}
static void op_xmutex(void) { int v = (int)drv_I(), n = (int)drv_I(); chk(v ? ARMCI_Create_mutexes(n) : comex_create_mutexes(n), "create_mutexes"); NMUT = 1; }
static void op_xnomutex(void) { int v = (int)drv_I(); chk(v ? ARMCI_Destroy_mutexes() : comex_destroy_mutexes(), "destroy_mutexes"); NMUT = 0; }
static void op_xlockinc(void) {  /* v mutex owner s tgt off n add reps */
    int v = (int)drv_I(), m = (int)drv_I(), o = (int)drv_I(); Seg *s = &S[drv_I()]; int w = (int)drv_I(); long off = drv_I(), n = drv_I(); long add = drv_I(); int reps = (int)drv_I();
    char *r = (char*)s->ptr[translate(s->g, w)] + off * s->es; char *b = malloc(n * s->es);
    while (reps-- > 0) {
        if (v) ARMCI_Lock(m, o); else chk(comex_lock(m, o), "lock");
        chk(comex_get(r, b, (int)(n * s->es), w, COMEX_GROUP_WORLD), "get");
        for (long k = 0; k < n; k++) if (s->es == 8) ((long*)b)[k] += add; else ((int*)b)[k] += (int)add;
        chk(comex_put(b, r, (int)(n * s->es), w, COMEX_GROUP_WORLD), "put");
        comex_fence_proc(w, COMEX_GROUP_WORLD);
        if (v) ARMCI_Unlock(m, o); else chk(comex_unlock(m, o), "unlock");
    }
    free(b);
}
static void op_xgrp(void) {      /* v slot parent n list : members only; list in ranks of the parent */
    int v = (int)drv_I(); Grp *g = &G[drv_I()]; int pa = (int)drv_I(), n = (int)drv_I(), l[MAXP], k;
    for (int i = 0; i < n; i++) { l[i] = (int)drv_I(); g->mem[i] = pa < 0 ? l[i] : G[pa].mem[l[i]]; }
    g->live = 1; g->n = n; g->id = -77;
    if (v) { ARMCI_Group pg = gid(pa), ng; ARMCI_Group_create_child(n, l, &ng, &pg); g->id = ng; }
    else chk(comex_group_create(n, l, gid(pa), &g->id), "group_create");
    int64_t out[3 + MAXP]; int r = -9, sz = -9;
    chk(comex_group_rank(g->id, &r), "group_rank"); chk(comex_group_size(g->id, &sz), "group_size");
    out[0] = r; out[1] = sz; k = 2;
    for (int i = 0; i < n; i++) { int q = -9; if (v) q = ARMCI_Absolute_id((ARMCI_Group*)&g->id, i); else chk(comex_group_translate_world(g->id, i, &q), "translate_world"); out[k++] = q; }
    g->me = r;
    drv_rec('i', out, k * 8);
}
static void op_xgrpfree(void) { Grp *g = &G[drv_I()]; chk(comex_group_free(g->id), "group_free"); g->live = 0; }
static void op_xseg(void) {      /* v s g t n_0..  (g -1 world; sizes by rank in the group) */
    int v = (int)drv_I(); Seg *s = &S[drv_I()]; s->g = (int)drv_I(); s->t = (int)drv_I(); s->es = ESZ[s->t]; s->v = v;
    int n = s->g < 0 ? NP : G[s->g].n, me = s->g < 0 ? ME : G[s->g].me;
    for (int i = 0; i < n; i++) s->n[i] = drv_I();
    for (int i = 0; i < n; i++) s->ptr[i] = (void*)-1;
    size_t by = s->n[me] * s->es;
    if (v == 0) chk(comex_malloc(s->ptr, by, gid(s->g)), "malloc");
    else if (v == 1 && s->g < 0) chk(ARMCI_Malloc(s->ptr, by), "malloc");
    else { ARMCI_Group ag = gid(s->g); chk(ARMCI_Malloc_group(s->ptr, by, &ag), "malloc"); }
    s->live = 1;
    for (int i = 0; i < n; i++) if (s->n[i] && (!s->ptr[i] || s->ptr[i] == (void*)-1)) drv_fail("allocation gave no address for rank %d", i);
    if (by) memset(s->ptr[me], 0x3C, by);
}
static void freeseg(Seg *s) {
    int me = s->g < 0 ? ME : G[s->g].me;
    if (s->v == 0) chk(comex_free(s->ptr[me], gid(s->g)), "free");
    else if (s->v == 1 && s->g < 0) chk(ARMCI_Free(s->ptr[me]), "free");
    else { ARMCI_Group ag = gid(s->g); chk(ARMCI_Free_group(s->ptr[me], &ag), "free"); }
    s->live = 0;
}
static void op_xfree(void) { freeseg(&S[drv_I()]); }
static void op_xfill(void) {     /* s gen : own part, seed + rank in the group */
    Seg *s = &S[drv_I()]; Gen g = rdgen(); int me = s->g < 0 ? ME : G[s->g].me; g.seed += me;
    for (long k = 0; k < s->n[me]; k++) genval((char*)s->ptr[me] + k * s->es, s->t, g, k);
}
static void op_xdump(void) { Seg *s = &S[drv_I()]; int me = s->g < 0 ? ME : G[s->g].me; drv_rec('b', s->ptr[me], s->n[me] * s->es); }
static void op_xmpibar(void) { MPI_Barrier(DCOMM); }
static void op_usleep(void) { usleep((int)drv_I()); }

static drv_op ALLOPS[] = {
#define X(n) { #n, op_##n },
X(x1) X(xs) X(xv) X(xval) X(xwait) X(xtest) X(xwaitall) X(xwaitproc) X(xrmw) X(xfence) X(xfenceall) X(xbar) X(xmeet) X(xmutex) X(xnomutex)
X(xlockinc) X(xgrp) X(xgrpfree) X(xseg) X(xfree) X(xfill) X(xdump) X(xmpibar) X(usleep)
};
static void case_end(void) {
    int impl = 0;
    for (int i = 0; i < MAXNB; i++) if (NB[i].live) { if (NB[i].impl) impl = 1; else { comex_wait(&NB[i].rq); fin_nb(&NB[i]); } }
    if (impl) { comex_wait_all(COMEX_GROUP_WORLD); for (int i = 0; i < MAXNB; i++) if (NB[i].live) fin_nb(&NB[i]); }
    comex_barrier(COMEX_GROUP_WORLD);
    if (NMUT) { comex_destroy_mutexes(); NMUT = 0; }
    for (int i = MAXSEG - 1; i >= 0; i--) if (S[i].live) freeseg(&S[i]);
    for (int i = MAXG - 1; i >= 0; i--) if (G[i].live) { comex_group_free(G[i].id); G[i].live = 0; }
    comex_barrier(COMEX_GROUP_WORLD);
}
int main(int argc, char **argv) {
    int prov; MPI_Comm c;
    MPI_Init_thread(&argc, &argv, getenv("DRV_SINGLE") ? MPI_THREAD_SINGLE : MPI_THREAD_MULTIPLE, &prov);
    if (ARMCI_Init() != 0) { fprintf(stderr, "harness: ARMCI_Init failed\n"); MPI_Abort(MPI_COMM_WORLD, 79); }
    comex_group_rank(COMEX_GROUP_WORLD, &ME); comex_group_size(COMEX_GROUP_WORLD, &NP);
    comex_group_comm(COMEX_GROUP_WORLD, &c);
    MPI_Comm_dup(c, &DCOMM);
    WME = ME; WNP = NP;
    OPS = ALLOPS; NOPS = sizeof ALLOPS / sizeof *ALLOPS;
    qsort(OPS, NOPS, sizeof *OPS, opcmp);
    CASE_END = case_end;
    drv_open(argc, argv);
    drv_loop();
    comex_barrier(COMEX_GROUP_WORLD);
    MPI_Comm_free(&DCOMM);
    ARMCI_Finalize();
    MPI_Finalize();
    return 0;
}
