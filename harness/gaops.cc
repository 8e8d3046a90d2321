// C++ class interface bridge used by the interpreter (gadrv.c).
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <mpi.h>
#include "ga.h"
#define private public
#include "ga++.h"
#undef private
typedef GA::GlobalArray A;
static A *P(void *o) { return (A *)o; }
// view of an existing handle as a C++ object (never destroyed, so the array stays owned by the interpreter)
static A *W(int h) { alignas(16) static char raw[8][sizeof(A)]; static int n; A *a = (A *)raw[n++ & 7]; memset((void *)a, 0, sizeof(A)); a->mHandle = h; return a; }
struct I32 { int v[1024]; I32(const int64_t *a, int n) { for (int i = 0; i < n; i++) v[i] = (int)a[i]; } operator int *() { return v; } };
static int nd(int h) { return GA_Ndim(h); }
#define X(p) I32(p, 7)
extern "C" {
void cxx_init(void) {}
int cxx_create(int t, int n, int64_t *d, int64_t *w, int kind, int64_t *a1, int64_t *a2, int b32, void **obj) {
    char name[] = "cxxarr"; A *o = 0;
    // kind 2: a1 = nblock, a2 = map
    int tot = 0; if (kind == 2) for (int i = 0; i < n; i++) tot += (int)a1[i];
    I32 d32(d, n), w32(w ? w : d, n), c32(kind ? a1 : d, n), m32(kind == 2 ? a2 : d, kind == 2 ? tot : n);
    if (kind == 2 && !w) o = b32 ? new A(t, n, (int *)d32, name, (int *)c32, (int *)m32) : new A(t, n, d, name, a1, a2);
    else if (kind == 2) o = b32 ? new A(t, n, (int *)d32, (int *)w32, name, (int *)c32, (int *)m32, 'g') : new A(t, n, d, w, name, a1, a2, 'g');
    else if (w) o = b32 ? new A(t, n, (int *)d32, (int *)w32, name, kind == 1 ? (int *)c32 : (int *)0, 'g') : new A(t, n, d, w, name, kind == 1 ? a1 : (int64_t *)0, 'g');
    else o = b32 ? new A(t, n, (int *)d32, name, kind == 1 ? (int *)c32 : (int *)0) : new A(t, n, d, name, kind == 1 ? a1 : (int64_t *)0);
    *obj = o; return o->handle();
}
int cxx_dup(void *o, void **obj) { A *n = new A(*P(o)); *obj = n; return n->handle(); }
void cxx_destroy(void *o) { delete P(o); }
void cxx_put(int h, int b, int64_t *lo, int64_t *hi, void *p, int64_t *ld) {
    int n = nd(h); if (b) W(h)->put(I32(lo, n), I32(hi, n), p, I32(ld, n > 1 ? n - 1 : 1)); else W(h)->put(lo, hi, p, ld); }
void cxx_get(int h, int b, int64_t *lo, int64_t *hi, void *p, int64_t *ld) {
    int n = nd(h); if (b) W(h)->get(I32(lo, n), I32(hi, n), p, I32(ld, n > 1 ? n - 1 : 1)); else W(h)->get(lo, hi, p, ld); }
void cxx_acc(int h, int b, int64_t *lo, int64_t *hi, void *p, int64_t *ld, void *al) {
    int n = nd(h); if (b) W(h)->acc(I32(lo, n), I32(hi, n), p, I32(ld, n > 1 ? n - 1 : 1), al); else W(h)->acc(lo, hi, p, ld, al); }
long cxx_readinc(int h, int b, int64_t *s, long inc) { return b ? W(h)->readInc(I32(s, nd(h)), inc) : W(h)->readInc(s, inc); }
void cxx_gatscat(int h, int b, int which, void *v, int64_t **subs, int n, void *al) {
    A *o = W(h);
    if (which == 0) o->gather(v, subs, (int64_t)n); else if (which == 1) o->scatter(v, subs, (int64_t)n); else o->scatterAcc(v, subs, (int64_t)n, al);
}
#define EQ(x) (!strcmp(op, x))
static void unk(const char *op) { fprintf(stderr, "harness: unknown C++ op %s\n", op); MPI_Abort(MPI_COMM_WORLD, 77); }
void cx_el1(const char *op, int h, int b, int pt, int64_t *lo, int64_t *hi, void *al) {
    A *a = W(h);
#define E0(nm, f) if (EQ(nm)) { if (!pt) a->f(); else if (b) a->f##Patch(X(lo), X(hi)); else a->f##Patch(lo, hi); return; }
#define E1(nm, f) if (EQ(nm)) { if (!pt) a->f(al); else if (b) a->f##Patch(X(lo), X(hi), al); else a->f##Patch(lo, hi, al); return; }
    E0("zero", zero) E1("fill", fill) E1("scale", scale) E1("addc", addConstant) E0("abs", absValue) E0("recip", recip)
    unk(op);
}
void cx_el2(const char *op, int x, int y, int z, int b, int pt, int64_t *al, int64_t *ah, int64_t *bl, int64_t *bh, int64_t *cl, int64_t *ch) {
    A *a = W(x), *bb = W(y), *c = W(z);
#define E2(nm, f) if (EQ(nm)) { if (!pt) c->f(a, bb); else if (b) c->f##Patch(a, X(al), X(ah), bb, X(bl), X(bh), X(cl), X(ch)); else c->f##Patch(a, al, ah, bb, bl, bh, cl, ch); return; }
    E2("mul", elemMultiply) E2("div", elemDivide) E2("max", elemMaximum) E2("min", elemMinimum)
    unk(op);
}
void cx_add(void *al, int x, void *be, int y, int z, int b, int pt, int64_t *alo, int64_t *ahi, int64_t *bl, int64_t *bh, int64_t *cl, int64_t *ch) {
    A *c = W(z); if (!pt) c->add(al, W(x), be, W(y)); else if (b) c->addPatch(al, W(x), X(alo), X(ahi), be, W(y), X(bl), X(bh), X(cl), X(ch)); else c->addPatch(al, W(x), alo, ahi, be, W(y), bl, bh, cl, ch); }
void cx_copy(int a, int b) { W(b)->copy(W(a)); }
void cx_transpose(int a, int b) { W(a)->transpose(W(b)); }
void cx_copyp(char t, int a, int b, int s, int64_t *al, int64_t *ah, int64_t *bl, int64_t *bh) {
    if (s) W(b)->copyPatch(t, W(a), X(al), X(ah), X(bl), X(bh)); else W(b)->copyPatch(t, W(a), al, ah, bl, bh); }
void cx_dot(int t, int a, int b, double *re, double *im) {
    switch (t) { case 0: *re = W(a)->idot(W(b)); break; case 1: *re = (double)W(a)->ldot(W(b)); break; case 3: *re = W(a)->fdot(W(b)); break; case 4: *re = W(a)->ddot(W(b)); break;
    case 6: { DoubleComplex z = W(a)->zdot(W(b)); *re = z.real; *im = z.imag; break; } default: unk("dot"); } }
void cx_dotp(int t, int a, char ta, int64_t *al, int64_t *ah, int b, char tb, int64_t *bl, int64_t *bh, int s, double *re, double *im) {
    if (t == 4) *re = s ? W(a)->ddotPatch(ta, X(al), X(ah), W(b), tb, X(bl), X(bh)) : W(a)->ddotPatch(ta, al, ah, W(b), tb, bl, bh);
    else { DoubleComplex z = s ? W(a)->zdotPatch(ta, X(al), X(ah), W(b), tb, X(bl), X(bh)) : W(a)->zdotPatch(ta, al, ah, W(b), tb, bl, bh); *re = z.real; *im = z.imag; } }
void cx_norm(int w, int a, double *r) { if (w == 1) W(a)->norm1(r); else W(a)->normInfinity(r); }
void cx_select(int a, const char *op, void *val, int64_t *ix, int b) {
    if (b) { int i[7]; W(a)->selectElem((char *)op, val, i); for (int k = 0; k < nd(a); k++) ix[k] = i[k]; } else W(a)->selectElem((char *)op, val, ix); }
void cx_diag(const char *op, int a, int v, void *c) {
    A *x = W(a), *y = W(v);
    if (EQ("get")) y->getDiagonal(x); else if (EQ("set")) x->setDiagonal(y); else if (EQ("add")) x->addDiagonal(y); else if (EQ("zero")) x->zeroDiagonal();
    else if (EQ("shift")) x->shiftDiagonal(c); else if (EQ("rows")) x->scaleRows(y); else if (EQ("cols")) x->scaleCols(y); else unk(op); }
void cx_median(int a, int b, int c, int m, int s, int pt, int64_t **lo, int64_t **hi) {
    A *o = W(m); if (!pt) o->median(W(a), W(b), W(c));
    else if (s) o->medianPatch(W(a), X(lo[0]), X(hi[0]), W(b), X(lo[1]), X(hi[1]), W(c), X(lo[2]), X(hi[2]), X(lo[3]), X(hi[3]));
    else o->medianPatch(W(a), lo[0], hi[0], W(b), lo[1], hi[1], W(c), lo[2], hi[2], lo[3], hi[3]); }
void cx_gemm(int t, char ta, char tb, int64_t m, int64_t n, int64_t k, void *al, int a, int b, void *be, int c, int s) {
    A *o = W(c), *x = W(a), *y = W(b);
    if (t == 3) { float p = *(float *)al, q = *(float *)be; if (s) o->sgemm(ta, tb, (int)m, (int)n, (int)k, p, x, y, q); else o->sgemm(ta, tb, m, n, k, p, x, y, q); }
    if (t == 4) { double p = *(double *)al, q = *(double *)be; if (s) o->dgemm(ta, tb, (int)m, (int)n, (int)k, p, x, y, q); else o->dgemm(ta, tb, m, n, k, p, x, y, q); }
    if (t == 6) { DoubleComplex p = *(DoubleComplex *)al, q = *(DoubleComplex *)be; if (s) o->zgemm(ta, tb, (int)m, (int)n, (int)k, p, x, y, q); else o->zgemm(ta, tb, m, n, k, p, x, y, q); }
}
void cx_matmulp(char ta, char tb, void *al, void *be, int a, int64_t *alo, int64_t *ahi, int b, int64_t *bl, int64_t *bh, int c, int64_t *cl, int64_t *ch, int s, int flat) {
    A *o = W(c), *x = W(a), *y = W(b);
    if (!flat) { if (s) o->matmulPatch(ta, tb, al, be, x, X(alo), X(ahi), y, X(bl), X(bh), X(cl), X(ch)); else o->matmulPatch(ta, tb, al, be, x, alo, ahi, y, bl, bh, cl, ch); }
    else if (s) o->matmulPatch(ta, tb, al, be, x, (int)alo[0], (int)ahi[0], (int)alo[1], (int)ahi[1], y, (int)bl[0], (int)bh[0], (int)bl[1], (int)bh[1], (int)cl[0], (int)ch[0], (int)cl[1], (int)ch[1]);
    else o->matmulPatch(ta, tb, al, be, x, alo[0], ahi[0], alo[1], ahi[1], y, bl[0], bh[0], bl[1], bh[1], cl[0], ch[0], cl[1], ch[1]); }
void cx_scan(const char *op, int a, int b, int c, int64_t lo, int64_t hi, int ex, int s, int64_t *cnt) {
    A *x = W(a), *y = W(b), *z = W(c); int k = -1;
    if (EQ("copy")) { if (s) x->scanCopy(y, z, (int)lo, (int)hi); else x->scanCopy(y, z, lo, hi); }
    else if (EQ("add")) { if (s) x->scanAdd(y, z, (int)lo, (int)hi, ex); else x->scanAdd(y, z, lo, hi, ex); }
    else if (EQ("pack")) { if (s) { x->pack(y, z, (int)lo, (int)hi, &k); *cnt = k; } else x->pack(y, z, lo, hi, cnt); }
    else { if (s) { x->unpack(y, z, (int)lo, (int)hi, &k); *cnt = k; } else x->unpack(y, z, lo, hi, cnt); } }
void cx_enum(int a, int64_t lo, int64_t hi, void *st, void *inc, int s) { if (s) W(a)->patchEnum((int)lo, (int)hi, st, inc); else W(a)->patchEnum(lo, hi, st, inc); }
int cx_lin(const char *op, int a, int b, int c, int ctl, void *ev) {
    A *x = W(a), *y = W(b), *z = W(c);
    if (EQ("sym")) x->symmetrize(); else if (EQ("lu")) y->luSolve((char)ctl, x); else if (EQ("solve")) return y->solve(x); else if (EQ("llt")) return y->lltSolve(x);
    else if (EQ("spd")) return x->spdInvert(); else if (EQ("diag")) x->diag(y, z, ev); else if (EQ("diagr")) x->diagReuse(ctl, y, z, ev); else if (EQ("diags")) x->diagSeq(y, z, ev);
    else if (EQ("std")) x->diagStd(z, ev); else if (EQ("stds")) x->diagStdSeq(z, ev); else unk(op);
    return 0; }
void cx_stepmax(int a, int b, int s, int pt, int64_t *al, int64_t *ah, int64_t *bl, int64_t *bh, double *st) {
    A *x = W(a), *y = W(b); if (!pt) x->stepMax(y, st); else if (s) x->stepMaxPatch(X(al), X(ah), y, X(bl), X(bh), st); else x->stepMaxPatch(al, ah, y, bl, bh, st); }
}
// ---- process groups
typedef GA::PGroup G;
extern "C" {
int cx_pgcreate(int *l, int n, void **o) { G *g = new G(l, n); *o = g; return g->handle(); }
int cx_pgdup(void *o, void **n) { (void)n; void *raw = malloc(sizeof(G)); G *g = (G *)raw; g->mPHandle = GA_Pgroup_duplicate(((G *)o)->mPHandle); *n = 0; int h = g->mPHandle; free(raw); return h; }
int cx_pgself(void **n) { *n = 0; return GA_Pgroup_self(); }
void cx_pgdestroy(void *o) { delete (G *)o; }
void cx_pginfo(void *o, int64_t *r) { r[0] = ((G *)o)->nodeid(); r[1] = ((G *)o)->nodes(); }
void cx_pgdefault(void *o) { G::setDefault((G *)o); }
void cx_pgsync(void *o) { ((G *)o)->sync(); }
void cx_pgbrdcst(void *o, void *b, int n, int root) { ((G *)o)->brdcst(b, n, root); }
void cx_pggop(void *o, int t, void *b, int n, char *op) {
    G *g = (G *)o; switch (t) { case 0: g->gop((int *)b, n, op); break; case 1: g->gop((long *)b, n, op); break; case 3: g->gop((float *)b, n, op); break; default: g->gop((double *)b, n, op); }
}
}
