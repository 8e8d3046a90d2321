/* An adversarial but legal delivery schedule for the one-sided layer.
 *
 * Linked in front of ComEx (--wrap).  When switched on, remote puts and accumulates are held back in a per-process
 * queue and handed to the real layer only when the interface obliges it (fence, barrier, a later get or atomic of the
 * same process on the same target) or when a seeded generator says so; the source of a non-blocking put is read, and
 * the destination of a non-blocking get is written, as late as its wait.  The order of one process's operations on one
 * target is kept.  Code that relies on more than the interface promises shows it deterministically. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <mpi.h>
#include "comex.h"

#define DECL(ret, name, args) extern ret __real_##name args; ret __wrap_##name args
typedef struct Ent {
    struct Ent *next;
    int kind;                       /* 0 put 1 acc 2 get */
    int op, proc, world; comex_group_t grp;
    char scale[16];
    int lev, cnt[COMEX_MAX_STRIDE_LEVEL + 1], ss[COMEX_MAX_STRIDE_LEVEL + 1], ds[COMEX_MAX_STRIDE_LEVEL + 1];
    char *src, *dst;
    int len; comex_giov_t *v;       /* vector form when v is set */
    char *own;                      /* private copy of the data */
    int hdl;                        /* handle of a non-blocking call, -1 */
} Ent;
static Ent *Q, **QT = &Q;
static int ON, P16, ME_ = -1, BUSY;
static uint64_t RS;
long chaos_held, chaos_flushed;
static unsigned rnd(void) { RS = RS * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(RS >> 40); }
static int scsz(int op) { switch (op) { case COMEX_ACC_INT: case COMEX_ACC_FLT: return 4; case COMEX_ACC_DCP: return 16; default: return 8; } }

DECL(int, comex_put, (void *s, void *d, int n, int p, comex_group_t g));
DECL(int, comex_puts, (void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g));
DECL(int, comex_putv, (comex_giov_t *v, int n, int p, comex_group_t g));
DECL(int, comex_nbput, (void *s, void *d, int n, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_nbputs, (void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_nbputv, (comex_giov_t *v, int n, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_acc, (int o, void *a, void *s, void *d, int n, int p, comex_group_t g));
DECL(int, comex_accs, (int o, void *a, void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g));
DECL(int, comex_accv, (int o, void *a, comex_giov_t *v, int n, int p, comex_group_t g));
DECL(int, comex_nbacc, (int o, void *a, void *s, void *d, int n, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_nbaccs, (int o, void *a, void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_nbaccv, (int o, void *a, comex_giov_t *v, int n, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_get, (void *s, void *d, int n, int p, comex_group_t g));
DECL(int, comex_gets, (void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g));
DECL(int, comex_getv, (comex_giov_t *v, int n, int p, comex_group_t g));
DECL(int, comex_nbget, (void *s, void *d, int n, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_nbgets, (void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_nbgetv, (comex_giov_t *v, int n, int p, comex_group_t g, comex_request_t *h));
DECL(int, comex_fence_proc, (int p, comex_group_t g));
DECL(int, comex_fence_all, (comex_group_t g));
DECL(int, comex_barrier, (comex_group_t g));
DECL(int, comex_rmw, (int o, void *l, void *r, int x, int p, comex_group_t g));
DECL(int, comex_wait, (comex_request_t *h));
DECL(int, comex_test, (comex_request_t *h, int *st));
DECL(int, comex_wait_all, (comex_group_t g));
DECL(int, comex_wait_proc, (int p, comex_group_t g));
DECL(int, comex_malloc, (void **a, size_t n, comex_group_t g));
DECL(int, comex_free, (void *a, comex_group_t g));

static int wrank(int p, comex_group_t g) { int w = p; if (g != COMEX_GROUP_WORLD) comex_group_translate_world(g, p, &w); return w; }

/* walk the pieces of a strided section */
static void pieces(Ent *e, void (*f)(char *s, char *d, int n, void *), void *a) {
    int ix[COMEX_MAX_STRIDE_LEVEL + 1] = {0};
    for (;;) {
        long so = 0, dd = 0; for (int i = 0; i < e->lev; i++) { so += (long)ix[i] * e->ss[i]; dd += (long)ix[i] * e->ds[i]; }
        f(e->src + so, e->dst + dd, e->cnt[0], a);
        int i = 0; while (i < e->lev && ++ix[i] == e->cnt[i + 1]) ix[i++] = 0;
        if (i == e->lev) return;
    }
}
static void cp(char *s, char *d, int n, void *a) { char **o = a; memcpy(*o, s, n); *o += n; }
/* take a private copy of the source */
static void localise(Ent *e) {
    if (e->kind == 2 || e->own) return;
    if (e->v) {
        size_t n = 0; for (int i = 0; i < e->len; i++) n += (size_t)e->v[i].count * e->v[i].bytes;
        char *o = e->own = malloc(n + 1);
        for (int i = 0; i < e->len; i++) for (int k = 0; k < e->v[i].count; k++) { memcpy(o, e->v[i].src[k], e->v[i].bytes); e->v[i].src[k] = o; o += e->v[i].bytes; }
    } else {
        size_t n = e->cnt[0]; for (int i = 0; i < e->lev; i++) n *= e->cnt[i + 1];
        char *o = e->own = malloc(n + 1); pieces(e, cp, &o);
        e->src = e->own; int s = e->cnt[0]; for (int i = 0; i < e->lev; i++) { e->ss[i] = s; s *= e->cnt[i + 1]; }
    }
}
static void done(Ent *e) {
    if (e->v) { for (int i = 0; i < e->len; i++) { free(e->v[i].src); free(e->v[i].dst); } free(e->v); }
    free(e->own); free(e);
}
static void issue(Ent *e) {
    localise(e); chaos_flushed++;
    switch (e->kind) {
    case 0: if (e->v) __real_comex_putv(e->v, e->len, e->proc, e->grp); else if (e->lev) __real_comex_puts(e->src, e->ss, e->dst, e->ds, e->cnt, e->lev, e->proc, e->grp); else __real_comex_put(e->src, e->dst, e->cnt[0], e->proc, e->grp); break;
    case 1: if (e->v) __real_comex_accv(e->op, e->scale, e->v, e->len, e->proc, e->grp); else if (e->lev) __real_comex_accs(e->op, e->scale, e->src, e->ss, e->dst, e->ds, e->cnt, e->lev, e->proc, e->grp); else __real_comex_acc(e->op, e->scale, e->src, e->dst, e->cnt[0], e->proc, e->grp); break;
    default: if (e->v) __real_comex_getv(e->v, e->len, e->proc, e->grp); else if (e->lev) __real_comex_gets(e->src, e->ss, e->dst, e->ds, e->cnt, e->lev, e->proc, e->grp); else __real_comex_get(e->src, e->dst, e->cnt[0], e->proc, e->grp);
    }
}
/* hand over the queued operations on a target (-1: every target), in order, up to and including `last` */
static void flush(int world, Ent *last) {
    for (Ent **p = &Q; *p;) {
        Ent *e = *p; int stop = e == last;
        if (world < 0 || e->world == world) {
            *p = e->next; if (QT == &e->next) QT = p;
            issue(e); done(e);
        } else p = &e->next;
        if (stop) return;
    }
}
static void maybe(void) {
    if (!Q || (int)(rnd() & 15) >= P16) return;
    int n = 0; for (Ent *e = Q; e; e = e->next) n++;
    n = rnd() % n; Ent *e = Q; while (n--) e = e->next;
    flush(e->world, e);
}
static Ent *hold(int kind, int op, void *scale, int p, comex_group_t g) {
    if (!ON) return 0;
    maybe();
    int w = wrank(p, g); if (w == ME_) return 0;
    Ent *e = calloc(1, sizeof *e); e->kind = kind; e->op = op; e->proc = p; e->grp = g; e->world = w; e->hdl = -1;
    if (kind == 1) memcpy(e->scale, scale, scsz(op));
    return e;
}
static int put_queue(Ent *e, comex_request_t *h, int nb) {
    static char a, b;
    chaos_held++;
    e->next = 0; *QT = e; QT = &e->next;
    if (nb && h) { __real_comex_nbget(&a, &b, 1, ME_, COMEX_GROUP_WORLD, h); e->hdl = *h; }
    else if (e->kind == 2) flush(e->world, e);
    else localise(e);
    return COMEX_SUCCESS;
}
static int strided(Ent *e, void *s, int *ss, void *d, int *ds, int *c, int l, comex_request_t *h, int nb) {
    e->src = s; e->dst = d; e->lev = l;
    for (int i = 0; i <= l; i++) e->cnt[i] = c[i];
    for (int i = 0; i < l; i++) { e->ss[i] = ss[i]; e->ds[i] = ds[i]; }
    return put_queue(e, h, nb);
}
static int contig(Ent *e, void *s, void *d, int n, comex_request_t *h, int nb) { e->src = s; e->dst = d; e->cnt[0] = n; return put_queue(e, h, nb); }
static int vec(Ent *e, comex_giov_t *v, int n, comex_request_t *h, int nb) {
    e->len = n; e->v = malloc(sizeof *v * n);
    for (int i = 0; i < n; i++) {
        size_t z = sizeof(void*) * v[i].count; e->v[i] = v[i];
        e->v[i].src = malloc(z + 1); memcpy(e->v[i].src, v[i].src, z); e->v[i].dst = malloc(z + 1); memcpy(e->v[i].dst, v[i].dst, z);
    }
    return put_queue(e, h, nb);
}
#define H(k, o, a) Ent *e = hold(k, o, a, p, g); if (e)
int __wrap_comex_put(void *s, void *d, int n, int p, comex_group_t g) { H(0, 0, 0) return contig(e, s, d, n, 0, 0); return __real_comex_put(s, d, n, p, g); }
int __wrap_comex_puts(void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g) { H(0, 0, 0) return strided(e, s, ss, d, ds, c, l, 0, 0); return __real_comex_puts(s, ss, d, ds, c, l, p, g); }
int __wrap_comex_putv(comex_giov_t *v, int n, int p, comex_group_t g) { H(0, 0, 0) return vec(e, v, n, 0, 0); return __real_comex_putv(v, n, p, g); }
int __wrap_comex_nbput(void *s, void *d, int n, int p, comex_group_t g, comex_request_t *h) { H(0, 0, 0) return contig(e, s, d, n, h, 1); return __real_comex_nbput(s, d, n, p, g, h); }
int __wrap_comex_nbputs(void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g, comex_request_t *h) { H(0, 0, 0) return strided(e, s, ss, d, ds, c, l, h, 1); return __real_comex_nbputs(s, ss, d, ds, c, l, p, g, h); }
int __wrap_comex_nbputv(comex_giov_t *v, int n, int p, comex_group_t g, comex_request_t *h) { H(0, 0, 0) return vec(e, v, n, h, 1); return __real_comex_nbputv(v, n, p, g, h); }
int __wrap_comex_acc(int o, void *a, void *s, void *d, int n, int p, comex_group_t g) { H(1, o, a) return contig(e, s, d, n, 0, 0); return __real_comex_acc(o, a, s, d, n, p, g); }
int __wrap_comex_accs(int o, void *a, void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g) { H(1, o, a) return strided(e, s, ss, d, ds, c, l, 0, 0); return __real_comex_accs(o, a, s, ss, d, ds, c, l, p, g); }
int __wrap_comex_accv(int o, void *a, comex_giov_t *v, int n, int p, comex_group_t g) { H(1, o, a) return vec(e, v, n, 0, 0); return __real_comex_accv(o, a, v, n, p, g); }
int __wrap_comex_nbacc(int o, void *a, void *s, void *d, int n, int p, comex_group_t g, comex_request_t *h) { H(1, o, a) return contig(e, s, d, n, h, 1); return __real_comex_nbacc(o, a, s, d, n, p, g, h); }
int __wrap_comex_nbaccs(int o, void *a, void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g, comex_request_t *h) { H(1, o, a) return strided(e, s, ss, d, ds, c, l, h, 1); return __real_comex_nbaccs(o, a, s, ss, d, ds, c, l, p, g, h); }
int __wrap_comex_nbaccv(int o, void *a, comex_giov_t *v, int n, int p, comex_group_t g, comex_request_t *h) { H(1, o, a) return vec(e, v, n, h, 1); return __real_comex_nbaccv(o, a, v, n, p, g, h); }
static void before_get(int p, comex_group_t g) { if (ON) { maybe(); flush(wrank(p, g), 0); } }
int __wrap_comex_get(void *s, void *d, int n, int p, comex_group_t g) { before_get(p, g); return __real_comex_get(s, d, n, p, g); }
int __wrap_comex_gets(void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g) { before_get(p, g); return __real_comex_gets(s, ss, d, ds, c, l, p, g); }
int __wrap_comex_getv(comex_giov_t *v, int n, int p, comex_group_t g) { before_get(p, g); return __real_comex_getv(v, n, p, g); }
int __wrap_comex_nbget(void *s, void *d, int n, int p, comex_group_t g, comex_request_t *h) { H(2, 0, 0) return contig(e, s, d, n, h, 1); return __real_comex_nbget(s, d, n, p, g, h); }
int __wrap_comex_nbgets(void *s, int *ss, void *d, int *ds, int *c, int l, int p, comex_group_t g, comex_request_t *h) { H(2, 0, 0) return strided(e, s, ss, d, ds, c, l, h, 1); return __real_comex_nbgets(s, ss, d, ds, c, l, p, g, h); }
int __wrap_comex_nbgetv(comex_giov_t *v, int n, int p, comex_group_t g, comex_request_t *h) { H(2, 0, 0) return vec(e, v, n, h, 1); return __real_comex_nbgetv(v, n, p, g, h); }
int __wrap_comex_rmw(int o, void *l, void *r, int x, int p, comex_group_t g) { before_get(p, g); return __real_comex_rmw(o, l, r, x, p, g); }
int __wrap_comex_fence_proc(int p, comex_group_t g) { if (Q) flush(wrank(p, g), 0); return __real_comex_fence_proc(p, g); }
int __wrap_comex_fence_all(comex_group_t g) { if (Q) flush(-1, 0); return __real_comex_fence_all(g); }
int __wrap_comex_barrier(comex_group_t g) { if (Q) flush(-1, 0); return __real_comex_barrier(g); }
int __wrap_comex_malloc(void **a, size_t n, comex_group_t g) { if (Q) flush(-1, 0); return __real_comex_malloc(a, n, g); }
int __wrap_comex_free(void *a, comex_group_t g) { if (Q) flush(-1, 0); return __real_comex_free(a, g); }
static void complete(int hdl) {             /* -1: every outstanding non-blocking call */
    for (;;) {
        Ent *e = Q; while (e && (e->hdl < 0 || (hdl >= 0 && e->hdl != hdl))) e = e->next;
        if (!e) return;
        if (e->kind == 2) { flush(e->world, e); continue; }
        localise(e); e->hdl = -1;
    }
}
int __wrap_comex_wait(comex_request_t *h) { if (Q && h) complete(*h); if (ON) maybe(); return __real_comex_wait(h); }
int __wrap_comex_test(comex_request_t *h, int *st) { if (Q && h) complete(*h); return __real_comex_test(h, st); }
int __wrap_comex_wait_all(comex_group_t g) { if (Q) complete(-1); return __real_comex_wait_all(g); }
int __wrap_comex_wait_proc(int p, comex_group_t g) { if (Q) complete(-1); return __real_comex_wait_proc(p, g); }

/* on: 0 off, else 1; p16: sixteenths of the calls that release something */
void chaos_set(int on, int p16, uint64_t seed, int me) { flush(-1, 0); ON = on; P16 = p16; ME_ = me; RS = seed * 2654435761ULL + (uint64_t)me * 977 + 1; if (on) chaos_held = chaos_flushed = 0; }
