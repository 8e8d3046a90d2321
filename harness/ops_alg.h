/* Elementwise, copy, reduction, matrix and one-dimensional collective operations. */
extern void cx_el1(const char *op, int h, int b32, int patch, int64_t *lo, int64_t *hi, void *al);
extern void cx_el2(const char *op, int a, int b, int c, int b32, int patch, int64_t *al, int64_t *ah, int64_t *bl, int64_t *bh, int64_t *cl, int64_t *ch);
extern void cx_add(void *al, int a, void *be, int b, int c, int b32, int patch, int64_t *alo, int64_t *ahi, int64_t *bl, int64_t *bh, int64_t *cl, int64_t *ch);
extern void cx_copy(int a, int b), cx_transpose(int a, int b);
extern void cx_copyp(char tr, int a, int b, int b32, int64_t *al, int64_t *ah, int64_t *bl, int64_t *bh);
extern void cx_dot(int t, int a, int b, double *re, double *im);
extern void cx_dotp(int t, int a, char ta, int64_t *al, int64_t *ah, int b, char tb, int64_t *bl, int64_t *bh, int b32, double *re, double *im);
extern void cx_norm(int which, int a, double *r);
extern void cx_select(int a, const char *op, void *val, int64_t *ix, int b32);
extern void cx_diag(const char *op, int a, int v, void *c);
extern void cx_median(int a, int b, int c, int m, int b32, int patch, int64_t **lo, int64_t **hi);
extern void cx_gemm(int t, char ta, char tb, int64_t m, int64_t n, int64_t k, void *al, int a, int b, void *be, int c, int b32);
extern void cx_matmulp(char ta, char tb, void *al, void *be, int a, int64_t *alo, int64_t *ahi, int b, int64_t *bl, int64_t *bh, int c, int64_t *cl, int64_t *ch, int b32, int flat);
extern void cx_scan(const char *op, int a, int b, int c, int64_t lo, int64_t hi, int excl, int b32, int64_t *cnt);
extern void cx_enum(int a, int64_t lo, int64_t hi, void *st, void *inc, int b32);
extern int cx_lin(const char *op, int a, int b, int c, int ctl, void *ev);
extern void cx_stepmax(int a, int b, int b32, int patch, int64_t *al, int64_t *ah, int64_t *bl, int64_t *bh, double *st);

#define EQ(x) (!strcmp(op, x))
#define F1(n) extern void n(FI*)
#define F1P(n) extern void n(FI*, FI*, FI*)
F1(ga_zero_); F1(ga_abs_value_); F1(ga_recip_); F1(ga_zero_diagonal_); F1(ga_symmetrize_);
F1P(nga_zero_patch_); F1P(ga_abs_value_patch_); F1P(ga_recip_patch_);
F1P(ga_elem_multiply_); F1P(ga_elem_divide_); F1P(ga_elem_maximum_); F1P(ga_elem_minimum_);
extern void ga_fill_(FI*, void*), ga_scale_(FI*, void*), ga_add_constant_(FI*, void*);
extern void nga_fill_patch_(FI*, FI*, FI*, void*), nga_scale_patch_(FI*, FI*, FI*, void*), ga_add_constant_patch_(FI*, FI*, FI*, void*);
#define F9(n) extern void n(FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*)
F9(ga_elem_multiply_patch_); F9(ga_elem_divide_patch_); F9(ga_elem_maximum_patch_); F9(ga_elem_minimum_patch_);
extern void ga_add_(void*, FI*, void*, FI*, FI*), nga_add_patch_(void*, FI*, FI*, FI*, void*, FI*, FI*, FI*, FI*, FI*, FI*);
extern void ga_copy_(FI*, FI*), ga_transpose_(FI*, FI*), nga_copy_patch_(char*, FI*, FI*, FI*, FI*, FI*, FI*, int);
extern FI ga_idot_(FI*, FI*); extern double ga_ddot_(FI*, FI*); extern float ga_sdot_(FI*, FI*); extern void gai_zdot_(FI*, FI*, DoubleComplex*);
extern void ga_norm1_(FI*, double*), ga_norm_infinity_(FI*, double*);
extern void nga_select_elem_(FI*, char*, void*, FI*, int);
extern void ga_get_diag_(FI*, FI*), ga_add_diagonal_(FI*, FI*), ga_set_diagonal_(FI*, FI*), ga_shift_diagonal_(FI*, void*), ga_scale_rows_(FI*, FI*), ga_scale_cols_(FI*, FI*);
extern void ga_median_(FI*, FI*, FI*, FI*), ga_median_patch_(FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*);
extern void nga_matmul_patch_(char*, char*, void*, void*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, int, int);
extern void ga_dgemm_(char*, char*, FI*, FI*, FI*, void*, FI*, FI*, void*, FI*, int, int), ga_sgemm_(char*, char*, FI*, FI*, FI*, void*, FI*, FI*, void*, FI*, int, int),
    ga_zgemm_(char*, char*, FI*, FI*, FI*, void*, FI*, FI*, void*, FI*, int, int), ga_cgemm_(char*, char*, FI*, FI*, FI*, void*, FI*, FI*, void*, FI*, int, int);
extern void ga_patch_enum_(FI*, FI*, FI*, void*, void*), ga_scan_copy_(FI*, FI*, FI*, FI*, FI*), ga_scan_add_(FI*, FI*, FI*, FI*, FI*, FI*), ga_pack_(FI*, FI*, FI*, FI*, FI*, FI*), ga_unpack_(FI*, FI*, FI*, FI*, FI*, FI*);
extern FI ga_create_bin_range_(FI*, FI*, FI*, FI*); extern void ga_bin_sorter_(FI*, FI*, FI*), ga_bin_index_(FI*, FI*, FI*, FI*, FI*, FI*, FI*);
extern FI ga_llt_solve_(FI*, FI*), ga_solve_(FI*, FI*), ga_spd_invert_(FI*);
extern void ga_lu_solve_(char*, FI*, FI*, int), ga_lu_solve_seq_(char*, FI*, FI*, int), ga_diag_(FI*, FI*, FI*, double*), ga_diag_std_(FI*, FI*, double*), ga_diag_seq_(FI*, FI*, FI*, double*), ga_diag_std_seq_(FI*, FI*, double*), ga_diag_reuse_(FI*, FI*, FI*, FI*, double*);
extern void ga_step_max_(FI*, FI*, void*), ga_step_max_patch_(FI*, FI*, FI*, FI*, FI*, FI*, void*);
extern void ga_gop_(FI*, void*, FI*, char*, int), ga_brdcst_(FI*, void*, FI*, FI*), ga_pgroup_gop_(FI*, FI*, void*, FI*, char*, int), ga_pgroup_brdcst_(FI*, FI*, void*, FI*, FI*);

#define T1P(x) extern void ga_##x##scal_(FI*, void*), ga_##x##scale_(FI*, void*), nga_##x##scale_(FI*, void*), ga_##x##scal_patch_(FI*, FI*, FI*, FI*, FI*, void*), nga_##x##scale_patch_(FI*, FI*, FI*, void*), \
    ga_##x##fill_patch_(FI*, FI*, FI*, FI*, FI*, void*), nga_##x##fill_patch_(FI*, FI*, FI*, void*), ga_##x##add_(void*, FI*, void*, FI*, FI*), nga_##x##add_(void*, FI*, void*, FI*, FI*), \
    nga_##x##add_patch_(void*, FI*, FI*, FI*, void*, FI*, FI*, FI*, FI*, FI*, FI*), \
    ga_##x##add_patch_(void*, FI*, FI*, FI*, FI*, FI*, void*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*), \
    ga_##x##gop_(FI*, void*, FI*, char*, int), nga_##x##gop_(FI*, void*, FI*, char*, int), ga_pgroup_##x##gop_(FI*, FI*, void*, FI*, char*, int), nga_pgroup_##x##gop_(FI*, FI*, void*, FI*, char*, int);
T1P(i) T1P(s) T1P(d) T1P(c) T1P(z)
extern void ga_fill_patch_(FI*, FI*, FI*, FI*, FI*, void*), ga_scale_patch_(FI*, FI*, FI*, FI*, FI*, void*), ga_zero_patch_(FI*, FI*, FI*, FI*, FI*),
    ga_add_patch_(void*, FI*, FI*, FI*, FI*, FI*, void*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*), ga_copy_patch_(char*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, int);
#define DOTA FI*, char*, FI*, FI*, FI*, char*, FI*, FI*
#define DOTB FI*, char*, FI*, FI*, FI*, FI*, FI*, char*, FI*, FI*, FI*, FI*
extern FI nga_idot_patch_(DOTA, int, int), ga_idot_patch_(DOTB, int, int); extern float nga_sdot_patch_(DOTA, int, int), ga_sdot_patch_(DOTB, int, int);
extern double nga_ddot_patch_(DOTA, int, int), ga_ddot_patch_(DOTB, int, int);
extern void ngai_cdot_patch_(DOTA, SingleComplex*, int, int), gai_cdot_patch_(DOTB, SingleComplex*, int, int), ngai_zdot_patch_(DOTA, DoubleComplex*, int, int), gai_zdot_patch_(DOTB, DoubleComplex*, int, int);
/* x: the routine for the element type, when there is one for it */
#define TYPED(t, call) switch (t) { case 1: call(i); break; case 3: call(s); break; case 4: call(d); break; case 5: call(c); break; case 6: call(z); break; default: done = 0; }
static int ALTN;      /* alternates between equivalent names */
static int typed_el1(const char *op, FI *G, Slot *s, int pt, Patch *p, void *al) {
    int t = s->t, done = 1, w = ALTN++ % 3; FI *a = p->loF, *b = p->hiF; int two = s->nd == 2 && w;
    if (EQ("scale") && !pt) {
#define K(x) (w == 0 ? ga_##x##scal_ : w == 1 ? ga_##x##scale_ : nga_##x##scale_)(G, al)
        TYPED(t, K)
#undef K
    } else if (EQ("scale")) {
        if (two && w == 1) { ga_scale_patch_(G, a, b, a + 1, b + 1, al); return 1; }
#define K(x) if (two) ga_##x##scal_patch_(G, a, b, a + 1, b + 1, al); else nga_##x##scale_patch_(G, a, b, al)
        TYPED(t, K)
#undef K
    } else if (EQ("fill") && pt) {
        if (two && w == 1) { ga_fill_patch_(G, a, b, a + 1, b + 1, al); return 1; }
#define K(x) if (two) ga_##x##fill_patch_(G, a, b, a + 1, b + 1, al); else nga_##x##fill_patch_(G, a, b, al)
        TYPED(t, K)
#undef K
    } else if (EQ("zero") && pt && s->nd == 2) ga_zero_patch_(G, a, b, a + 1, b + 1);
    else done = 0;
    return done;
}
static int typed_add(void *al, FI *A, Patch *p, void *be, FI *B, Patch *q, FI *C, Patch *r, int t, int pt, int two) {
    int done = 1, w = ALTN++ % 3; two = two && w;
#define L4(P) P->loF, P->hiF, P->loF + 1, P->hiF + 1
    if (!pt) {
#define K(x) (w ? ga_##x##add_ : nga_##x##add_)(al, A, be, B, C)
        TYPED(t, K)
#undef K
    } else {
        if (two && w == 1) { ga_add_patch_(al, A, L4(p), be, B, L4(q), C, L4(r)); return 1; }
#define K(x) if (two) ga_##x##add_patch_(al, A, L4(p), be, B, L4(q), C, L4(r)); else nga_##x##add_patch_(al, A, p->loF, p->hiF, be, B, q->loF, q->hiF, C, r->loF, r->hiF)
        TYPED(t, K)
#undef K
    }
    return done;
}
static int typed_gop(int g, FI *GF, FI *T, void *x, FI *N, char *o, int t) {
    int done = 1, w = ALTN++ % 2, l = (int)strlen(o);
#define K(y) if (g >= 0) (w ? ga_pgroup_##y##gop_ : nga_pgroup_##y##gop_)(GF, T, x, N, o, l); else (w ? ga_##y##gop_ : nga_##y##gop_)(T, x, N, o, l)
    TYPED(t, K)
#undef K
    return done;
}

/* el1 v op slot patch [lo hi] alpha */
static void op_el1(void) {
    int v = (int)drv_I(); const char *op = drv_S(); Slot *s = slot(); int pt = (int)drv_I(); Patch p; FI G = s->h;
    memset(&p, 0, sizeof p);
    if (pt) rdpatch(&p, s->nd);
    void *al = scal(s->t); int h = s->h;
    if (v >= 3) { cx_el1(op, h, v == 3, pt, p.lo, p.hi, al); return; }
    if (v == 2 && SYNV == 2 && typed_el1(op, &G, s, pt, &p, al)) return;
#define E1(name, C0, CP, CP64, F0, FP, AL0, ALP) if (EQ(name)) { \
        if (!pt) { if (v == 2) F0; else C0; } else if (v == 0) CP; else if (v == 1) CP64; else FP; return; }
    E1("zero", GA_Zero(h), NGA_Zero_patch(h, p.lo32, p.hi32), NGA_Zero_patch64(h, p.lo, p.hi), ga_zero_(&G), nga_zero_patch_(&G, p.loF, p.hiF),,)
    E1("fill", GA_Fill(h, al), NGA_Fill_patch(h, p.lo32, p.hi32, al), NGA_Fill_patch64(h, p.lo, p.hi, al), ga_fill_(&G, al), nga_fill_patch_(&G, p.loF, p.hiF, al),,)
    E1("scale", GA_Scale(h, al), NGA_Scale_patch(h, p.lo32, p.hi32, al), NGA_Scale_patch64(h, p.lo, p.hi, al), ga_scale_(&G, al), nga_scale_patch_(&G, p.loF, p.hiF, al),,)
    E1("addc", GA_Add_constant(h, al), GA_Add_constant_patch(h, p.lo32, p.hi32, al), GA_Add_constant_patch64(h, p.lo, p.hi, al), ga_add_constant_(&G, al), ga_add_constant_patch_(&G, p.loF, p.hiF, al),,)
    E1("abs", GA_Abs_value(h), GA_Abs_value_patch(h, p.lo32, p.hi32), GA_Abs_value_patch64(h, p.lo, p.hi), ga_abs_value_(&G), ga_abs_value_patch_(&G, p.loF, p.hiF),,)
    E1("recip", GA_Recip(h), GA_Recip_patch(h, p.lo32, p.hi32), GA_Recip_patch64(h, p.lo, p.hi), ga_recip_(&G), ga_recip_patch_(&G, p.loF, p.hiF),,)
    drv_fail("harness: el1 %s", op);
}
/* el2 v op a b c patch [alo ahi blo bhi clo chi] */
static void op_el2(void) {
    int v = (int)drv_I(); const char *op = drv_S(); Slot *a = slot(), *b = slot(), *c = slot(); int pt = (int)drv_I(); Patch p, q, r;
    FI A = a->h, B = b->h, C = c->h;
    memset(&p, 0, sizeof p); memset(&q, 0, sizeof q); memset(&r, 0, sizeof r);
    if (pt) { rdpatch(&p, a->nd); rdpatch(&q, b->nd); rdpatch(&r, c->nd); }
    if (v >= 3) { cx_el2(op, a->h, b->h, c->h, v == 3, pt, p.lo, p.hi, q.lo, q.hi, r.lo, r.hi); return; }
#define E2(name, U, L) if (EQ(name)) { \
        if (!pt) { if (v == 2) ga_elem_##L##_(&A, &B, &C); else GA_Elem_##L(a->h, b->h, c->h); } \
        else if (v == 0) GA_Elem_##L##_patch(a->h, p.lo32, p.hi32, b->h, q.lo32, q.hi32, c->h, r.lo32, r.hi32); \
        else if (v == 1) GA_Elem_##L##_patch64(a->h, p.lo, p.hi, b->h, q.lo, q.hi, c->h, r.lo, r.hi); \
        else ga_elem_##L##_patch_(&A, p.loF, p.hiF, &B, q.loF, q.hiF, &C, r.loF, r.hiF); return; }
    E2("mul", , multiply) E2("div", , divide) E2("max", , maximum) E2("min", , minimum)
    drv_fail("harness: el2 %s", op);
}
/* gadd v alpha beta a b c patch [...] */
static void op_gadd(void) {
    int v = (int)drv_I(); Slot *a = slot(), *b = slot(), *c = slot(); void *al = scal(c->t), *be = scal(c->t); int pt = (int)drv_I(); Patch p, q, r;
    FI A = a->h, B = b->h, C = c->h;
    if (pt) { rdpatch(&p, a->nd); rdpatch(&q, b->nd); rdpatch(&r, c->nd); }
    if (v >= 3) { cx_add(al, a->h, be, b->h, c->h, v == 3, pt, p.lo, p.hi, q.lo, q.hi, r.lo, r.hi); return; }
    if (v == 2 && SYNV == 2 && a->t == c->t && b->t == c->t && typed_add(al, &A, &p, be, &B, &q, &C, &r, c->t, pt, a->nd == 2 && b->nd == 2 && c->nd == 2)) return;
    if (!pt) { if (v == 2) ga_add_(al, &A, be, &B, &C); else GA_Add(al, a->h, be, b->h, c->h); }
    else if (v == 0) NGA_Add_patch(al, a->h, p.lo32, p.hi32, be, b->h, q.lo32, q.hi32, c->h, r.lo32, r.hi32);
    else if (v == 1) NGA_Add_patch64(al, a->h, p.lo, p.hi, be, b->h, q.lo, q.hi, c->h, r.lo, r.hi);
    else nga_add_patch_(al, &A, p.loF, p.hiF, be, &B, q.loF, q.hiF, &C, r.loF, r.hiF);
}
static void op_copy(void) { int v = (int)drv_I(); Slot *a = slot(), *b = slot(); FI A = a->h, B = b->h;
    if (v >= 3) cx_copy(a->h, b->h); else if (v == 2) ga_copy_(&A, &B); else GA_Copy(a->h, b->h); }
static void op_transpose(void) { int v = (int)drv_I(); Slot *a = slot(), *b = slot(); FI A = a->h, B = b->h;
    if (v >= 3) cx_transpose(a->h, b->h); else if (v == 2) ga_transpose_(&A, &B); else GA_Transpose(a->h, b->h); }
/* copyp v trans a b alo ahi blo bhi */
static void op_copyp(void) {
    int v = (int)drv_I(); const char *tr = drv_S(); Slot *a = slot(), *b = slot(); Patch p, q; rdpatch(&p, a->nd); rdpatch(&q, b->nd);
    FI A = a->h, B = b->h; char t = tr[0];
    if (v >= 3) cx_copyp(t, a->h, b->h, v == 3, p.lo, p.hi, q.lo, q.hi);
    else if (v == 0) NGA_Copy_patch(t, a->h, p.lo32, p.hi32, b->h, q.lo32, q.hi32);
    else if (v == 1) NGA_Copy_patch64(t, a->h, p.lo, p.hi, b->h, q.lo, q.hi);
    else if (F2D(v, a->nd) && b->nd == 2) ga_copy_patch_(&t, &A, p.loF, p.hiF, p.loF + 1, p.hiF + 1, &B, q.loF, q.hiF, q.loF + 1, q.hiF + 1, 1);
    else nga_copy_patch_(&t, &A, p.loF, p.hiF, &B, q.loF, q.hiF, 1);
}
static void rec2(double re, double im) { double d[2] = { re, im }; drv_rec('d', d, 16); }
static void rec_ll(long long x) { drv_rec_i(x); }
/* dot v a b : integers recorded as 'i', the rest as 'd' pairs */
static void op_dot(void) {
    int v = (int)drv_I(); Slot *a = slot(), *b = slot(); FI A = a->h, B = b->h; double re = 0, im = 0; int t = a->t;
    if (v >= 3 && t != 2 && t != 5) { cx_dot(t, a->h, b->h, &re, &im); if (t < 3) rec_ll((long long)re); else rec2(re, im); return; }
    if (v == 2 && t == 1) { rec_ll(ga_idot_(&A, &B)); return; }
    if (v == 2 && t == 4) { rec2(ga_ddot_(&A, &B), 0); return; }
    if (v == 2 && t == 3) { rec2(ga_sdot_(&A, &B), 0); return; }
    if (v == 2 && t == 6) { DoubleComplex z; gai_zdot_(&A, &B, &z); rec2(z.real, z.imag); return; }
    switch (t) {
    case 0: rec_ll(GA_Idot(a->h, b->h)); break;
    case 1: rec_ll(GA_Ldot(a->h, b->h)); break;
    case 2: rec_ll(GA_Lldot(a->h, b->h)); break;
    case 3: rec2(GA_Fdot(a->h, b->h), 0); break;
    case 4: rec2(GA_Ddot(a->h, b->h), 0); break;
    case 5: { SingleComplex z = GA_Cdot(a->h, b->h); rec2(z.real, z.imag); break; }
    case 6: { DoubleComplex z = GA_Zdot(a->h, b->h); rec2(z.real, z.imag); break; }
    }
}
/* dotp v a ta b tb alo ahi blo bhi */
static void op_dotp(void) {
    int v = (int)drv_I(); Slot *a = slot(); char ta = drv_S()[0]; Slot *b = slot(); char tb = drv_S()[0]; Patch p, q; rdpatch(&p, a->nd); rdpatch(&q, b->nd);
    double re = 0, im = 0; int t = a->t;
    if (v >= 3 && (t == 4 || t == 6)) { cx_dotp(t, a->h, ta, p.lo, p.hi, b->h, tb, q.lo, q.hi, v == 3, &re, &im); rec2(re, im); return; }
    if (v == 2 && t != 0 && t != 2) {
        int f2 = F2D(v, a->nd) && b->nd == 2; FI A = a->h, B = b->h; SingleComplex c; DoubleComplex z;
#define DF(x) (f2 ? ga_##x##dot_patch_(&A, &ta, p.loF, p.hiF, p.loF + 1, p.hiF + 1, &B, &tb, q.loF, q.hiF, q.loF + 1, q.hiF + 1, 1, 1) : nga_##x##dot_patch_(&A, &ta, p.loF, p.hiF, &B, &tb, q.loF, q.hiF, 1, 1))
#define DC(x, r) if (f2) gai_##x##dot_patch_(&A, &ta, p.loF, p.hiF, p.loF + 1, p.hiF + 1, &B, &tb, q.loF, q.hiF, q.loF + 1, q.hiF + 1, &r, 1, 1); else ngai_##x##dot_patch_(&A, &ta, p.loF, p.hiF, &B, &tb, q.loF, q.hiF, &r, 1, 1)
        switch (t) {
        case 1: rec_ll(DF(i)); break;
        case 3: rec2(DF(s), 0); break;
        case 4: rec2(DF(d), 0); break;
        case 5: DC(c, c); rec2(c.real, c.imag); break;
        case 6: DC(z, z); rec2(z.real, z.imag); break;
        }
        return;
    }
    int w = v == 1 || v == 4;
#define DP(F) (w ? NGA_##F##_patch64(a->h, ta, p.lo, p.hi, b->h, tb, q.lo, q.hi) : NGA_##F##_patch(a->h, ta, p.lo32, p.hi32, b->h, tb, q.lo32, q.hi32))
    switch (t) {
    case 0: rec_ll(DP(Idot)); break;
    case 1: rec_ll(DP(Ldot)); break;
    case 2: rec_ll(DP(Lldot)); break;
    case 3: rec2(DP(Fdot), 0); break;
    case 4: rec2(DP(Ddot), 0); break;
    case 5: { SingleComplex z = DP(Cdot); rec2(z.real, z.imag); break; }
    case 6: { DoubleComplex z = DP(Zdot); rec2(z.real, z.imag); break; }
    }
}
static void op_norm(void) {
    int v = (int)drv_I(), w = (int)drv_I(); Slot *a = slot(); FI A = a->h; double r = -1;
    if (v >= 3) cx_norm(w, a->h, &r);
    else if (w == 1) { if (v == 2) ga_norm1_(&A, &r); else GA_Norm1(a->h, &r); }
    else { if (v == 2) ga_norm_infinity_(&A, &r); else GA_Norm_infinity(a->h, &r); }
    drv_rec_d(r);
}
static void op_selelem(void) {
    int v = (int)drv_I(); Slot *a = slot(); const char *op = drv_S(); char val[16]; memset(val, 0x5A, 16); int64_t ix[7]; int i32[7]; FI iF[7], A = a->h;
    for (int i = 0; i < 7; i++) { ix[i] = -9; i32[i] = -9; iF[i] = -9; }
    if (v >= 3) cx_select(a->h, op, val, ix, v == 3);
    else if (v == 0) { NGA_Select_elem(a->h, (char*)op, val, i32); for (int i = 0; i < a->nd; i++) ix[i] = i32[i]; }
    else if (v == 1) NGA_Select_elem64(a->h, (char*)op, val, ix);
    else { nga_select_elem_(&A, (char*)op, val, iF, 3); for (int i = 0; i < a->nd; i++) ix[i] = iF[a->nd - 1 - i] - 1; }
    drv_rec('b', val, a->es); drv_rec('i', ix, 8 * a->nd);
}
/* gop v grp type n op gen-per-rank(seed base, lo, span) : each rank contributes gen(seed+rank) */
static void op_gop(void) {
    int v = (int)drv_I(), g = grp(), t = (int)drv_I(), n = (int)drv_I(); const char *op = drv_S(); Gen ge = rdgen(); ge.seed += ME;
    int es = ESZ[t]; char *b = malloc((size_t)n * es + 32); memset(b, 0xA5, (size_t)n * es + 32); char *x = b + 16;
    for (int k = 0; k < n; k++) genval(x + k * es, t, es, ge, k);
    char *o = (char*)op; FI T = TYS[t], N = n, GF = g;
    if (v == 2 && SYNV == 2 && typed_gop(g, &GF, &T, x, &N, o, t)) ;
    else if (v == 2) { if (g >= 0) ga_pgroup_gop_(&GF, &T, x, &N, o, (int)strlen(o)); else ga_gop_(&T, x, &N, o, (int)strlen(o)); }
    else if (v == 1 && g < 0) GA_Gop(TYS[t], x, n, o);
    else if (g >= 0) switch (t) {
        case 0: GA_Pgroup_igop(g, (int*)x, n, o); break; case 1: GA_Pgroup_lgop(g, (long*)x, n, o); break; case 2: GA_Pgroup_llgop(g, (long long*)x, n, o); break;
        case 3: GA_Pgroup_fgop(g, (float*)x, n, o); break; case 4: GA_Pgroup_dgop(g, (double*)x, n, o); break;
        case 5: GA_Pgroup_cgop(g, (SingleComplex*)x, n, o); break; case 6: GA_Pgroup_zgop(g, (DoubleComplex*)x, n, o); break; }
    else switch (t) {
        case 0: GA_Igop((int*)x, n, o); break; case 1: GA_Lgop((long*)x, n, o); break; case 2: GA_Llgop((long long*)x, n, o); break;
        case 3: GA_Fgop((float*)x, n, o); break; case 4: GA_Dgop((double*)x, n, o); break;
        case 5: GA_Cgop((SingleComplex*)x, n, o); break; case 6: GA_Zgop((DoubleComplex*)x, n, o); break; }
    for (int i = 0; i < 16; i++) if ((unsigned char)b[i] != 0xA5 || (unsigned char)x[(size_t)n * es + i] != 0xA5) { drv_fail("gop wrote outside the vector"); break; }
    drv_rec('b', x, (size_t)n * es); free(b);
}
/* brdcst v grp nbytes root gen : contents gen(seed+rank) */
static void op_brdcst(void) {
    int v = (int)drv_I(), g = grp(), n = (int)drv_I(), root = (int)drv_I(); Gen ge = rdgen(); ge.seed += ME;
    char *b = malloc(n + 32); memset(b, 0xA5, n + 32); char *x = b + 16; FI T = 1000, N = n, R = root, GF = g;
    for (int k = 0; k < n; k++) x[k] = drv_hash(ge.seed, k) & 255;
    if (v == 2) { if (g >= 0) ga_pgroup_brdcst_(&GF, &T, x, &N, &R); else ga_brdcst_(&T, x, &N, &R); }
    else if (g >= 0) GA_Pgroup_brdcst(g, x, n, root); else GA_Brdcst(x, n, root);
    for (int i = 0; i < 16; i++) if ((unsigned char)b[i] != 0xA5 || (unsigned char)x[n + i] != 0xA5) { drv_fail("broadcast wrote outside the buffer"); break; }
    drv_rec('b', x, n); free(b);
}
/* gemm v ta tb m n k alpha a b beta c */
static void op_gemm(void) {
    int v = (int)drv_I(); char ta = drv_S()[0], tb = drv_S()[0]; int64_t m = drv_I(), n = drv_I(), k = drv_I();
    Slot *a = slot(), *b = slot(), *c = slot(); double *al = scal(c->t), *be = scal(c->t); FI M = m, N = n, K = k, A = a->h, B = b->h, C = c->h;
    if (v >= 3 && c->t != 5) { cx_gemm(c->t, ta, tb, m, n, k, al, a->h, b->h, be, c->h, v == 3); return; }
    if (v == 2) {       /* the Fortran view of the same memory: C^T = op(B)^T op(A)^T */
        switch (c->t) {
        case 3: ga_sgemm_(&tb, &ta, &N, &M, &K, al, &B, &A, be, &C, 1, 1); break;
        case 4: ga_dgemm_(&tb, &ta, &N, &M, &K, al, &B, &A, be, &C, 1, 1); break;
        case 5: ga_cgemm_(&tb, &ta, &N, &M, &K, al, &B, &A, be, &C, 1, 1); break;
        case 6: ga_zgemm_(&tb, &ta, &N, &M, &K, al, &B, &A, be, &C, 1, 1); break;
        } return; }
    int w = v == 1 || v == 4;
    switch (c->t) {
    case 3: { float x = *(float*)al, y = *(float*)be; if (w) GA_Sgemm64(ta, tb, m, n, k, x, a->h, b->h, y, c->h); else GA_Sgemm(ta, tb, m, n, k, x, a->h, b->h, y, c->h); break; }
    case 4: if (w) GA_Dgemm64(ta, tb, m, n, k, *al, a->h, b->h, *be, c->h); else GA_Dgemm(ta, tb, m, n, k, *al, a->h, b->h, *be, c->h); break;
    case 5: { SingleComplex x = *(SingleComplex*)al, y = *(SingleComplex*)be; if (w) GA_Cgemm64(ta, tb, m, n, k, x, a->h, b->h, y, c->h); else GA_Cgemm(ta, tb, m, n, k, x, a->h, b->h, y, c->h); break; }
    case 6: { DoubleComplex x = *(DoubleComplex*)al, y = *(DoubleComplex*)be; if (w) GA_Zgemm64(ta, tb, m, n, k, x, a->h, b->h, y, c->h); else GA_Zgemm(ta, tb, m, n, k, x, a->h, b->h, y, c->h); break; }
    }
}
/* matmulp v ta tb a b c alpha beta alo ahi blo bhi clo chi ; v 0,1 NGA_ 32/64; 5,6 GA_Matmul_patch 32/64 (2-d); 3,4 C++ arrays, 7,8 C++ flat */
static void op_matmulp(void) {
    int v = (int)drv_I(); char ta = drv_S()[0], tb = drv_S()[0]; Slot *a = slot(), *b = slot(), *c = slot(); void *al = scal(c->t), *be = scal(c->t);
    Patch p, q, r; rdpatch(&p, a->nd); rdpatch(&q, b->nd); rdpatch(&r, c->nd); FI A = a->h, B = b->h, C = c->h;
#define L4(x) x.lo[0], x.hi[0], x.lo[1], x.hi[1]
#define I4(x) x.lo32[0], x.hi32[0], x.lo32[1], x.hi32[1]
    switch (v) {
    case 0: NGA_Matmul_patch(ta, tb, al, be, a->h, p.lo32, p.hi32, b->h, q.lo32, q.hi32, c->h, r.lo32, r.hi32); break;
    case 1: NGA_Matmul_patch64(ta, tb, al, be, a->h, p.lo, p.hi, b->h, q.lo, q.hi, c->h, r.lo, r.hi); break;
    case 2: nga_matmul_patch_(&tb, &ta, al, be, &B, q.loF, q.hiF, &A, p.loF, p.hiF, &C, r.loF, r.hiF, 1, 1); break;
    case 5: GA_Matmul_patch(ta, tb, al, be, a->h, I4(p), b->h, I4(q), c->h, I4(r)); break;
    case 6: GA_Matmul_patch64(ta, tb, al, be, a->h, L4(p), b->h, L4(q), c->h, L4(r)); break;
    default: cx_matmulp(ta, tb, al, be, a->h, p.lo, p.hi, b->h, q.lo, q.hi, c->h, r.lo, r.hi, v == 3 || v == 7, v >= 7);
    }
}
/* diagop v op a vec(slot or -1) scalar */
static void op_diagop(void) {
    int v = (int)drv_I(); const char *op = drv_S(); Slot *a = slot(); int vs = (int)drv_I(); void *c = scal(a->t); int gv = vs >= 0 ? SL[vs].h : 0; FI A = a->h, V = gv;
    if (v >= 3) { cx_diag(op, a->h, gv, c); return; }
#define DO(nm, Cc, Ff) if (EQ(nm)) { if (v == 2) Ff; else Cc; return; }
    DO("get", GA_Get_diag(a->h, gv), ga_get_diag_(&A, &V)) DO("set", GA_Set_diagonal(a->h, gv), ga_set_diagonal_(&A, &V))
    DO("add", GA_Add_diagonal(a->h, gv), ga_add_diagonal_(&A, &V)) DO("zero", GA_Zero_diagonal(a->h), ga_zero_diagonal_(&A))
    DO("shift", GA_Shift_diagonal(a->h, c), ga_shift_diagonal_(&A, c)) DO("rows", GA_Scale_rows(a->h, gv), ga_scale_cols_(&A, &V))
    DO("cols", GA_Scale_cols(a->h, gv), ga_scale_rows_(&A, &V))
    drv_fail("harness: diagop %s", op);
}
/* median v a b c m patch [...] */
static void op_median(void) {
    int v = (int)drv_I(); Slot *s[4]; Patch p[4]; int h[4]; FI H[4]; int64_t *lo[4], *hi[4];
    for (int i = 0; i < 4; i++) { s[i] = slot(); h[i] = s[i]->h; H[i] = h[i]; lo[i] = p[i].lo; hi[i] = p[i].hi; }
    int pt = (int)drv_I(); if (pt) for (int i = 0; i < 4; i++) rdpatch(&p[i], s[i]->nd);
    if (v >= 3) cx_median(h[0], h[1], h[2], h[3], v == 3, pt, lo, hi);
    else if (!pt) { if (v == 2) ga_median_(H, H + 1, H + 2, H + 3); else GA_Median(h[0], h[1], h[2], h[3]); }
    else if (v == 0) GA_Median_patch(h[0], p[0].lo32, p[0].hi32, h[1], p[1].lo32, p[1].hi32, h[2], p[2].lo32, p[2].hi32, h[3], p[3].lo32, p[3].hi32);
    else if (v == 1) GA_Median_patch64(h[0], p[0].lo, p[0].hi, h[1], p[1].lo, p[1].hi, h[2], p[2].lo, p[2].hi, h[3], p[3].lo, p[3].hi);
    else ga_median_patch_(H, p[0].loF, p[0].hiF, H + 1, p[1].loF, p[1].hiF, H + 2, p[2].loF, p[2].hiF, H + 3, p[3].loF, p[3].hiF);
}
/* scan v op(copy|add|pack|unpack) a b mask lo hi excl */
static void op_scan(void) {
    int v = (int)drv_I(); const char *op = drv_S(); Slot *a = slot(), *b = slot(), *m = slot(); int64_t lo = drv_I(), hi = drv_I(); int ex = (int)drv_I(); int64_t cnt = -1; int c32 = -1; FI cF = -1;
    FI A = a->h, B = b->h, M = m->h, L = lo + 1, H = hi + 1, E = ex; int x = a->h, y = b->h, z = m->h;
    if (v >= 3) cx_scan(op, x, y, z, lo, hi, ex, v == 3, &cnt);
    else if (EQ("copy")) { if (v == 0) GA_Scan_copy(x, y, z, (int)lo, (int)hi); else if (v == 1) GA_Scan_copy64(x, y, z, lo, hi); else ga_scan_copy_(&A, &B, &M, &L, &H); }
    else if (EQ("add")) { if (v == 0) GA_Scan_add(x, y, z, (int)lo, (int)hi, ex); else if (v == 1) GA_Scan_add64(x, y, z, lo, hi, ex); else ga_scan_add_(&A, &B, &M, &L, &H, &E); }
    else if (EQ("pack")) { if (v == 0) { GA_Pack(x, y, z, (int)lo, (int)hi, &c32); cnt = c32; } else if (v == 1) GA_Pack64(x, y, z, lo, hi, &cnt); else { ga_pack_(&A, &B, &M, &L, &H, &cF); cnt = cF; } }
    else { if (v == 0) { GA_Unpack(x, y, z, (int)lo, (int)hi, &c32); cnt = c32; } else if (v == 1) GA_Unpack64(x, y, z, lo, hi, &cnt); else { ga_unpack_(&A, &B, &M, &L, &H, &cF); cnt = cF; } }
    if (op[0] == 'p' || op[0] == 'u') drv_rec_i(cnt);
}
static void op_enum(void) {
    int v = (int)drv_I(); Slot *a = slot(); int64_t lo = drv_I(), hi = drv_I(); void *st = scal(a->t), *in = scal(a->t); FI A = a->h, L = lo + 1, H = hi + 1;
    if (v >= 3) cx_enum(a->h, lo, hi, st, in, v == 3);
    else if (v == 0) GA_Patch_enum(a->h, (int)lo, (int)hi, st, in);
    else if (v == 1) GA_Patch_enum64(a->h, lo, hi, st, in);
    else ga_patch_enum_(&A, &L, &H, st, in);
}
/* lin v op a b c ctl neval : solvers and eigensolvers */
static void op_lin(void) {
    int v = (int)drv_I(); const char *op = drv_S(); Slot *a = slot(); int bs = (int)drv_I(), cs = (int)drv_I(), ctl = (int)drv_I(), ne = (int)drv_I();
    int b = bs >= 0 ? SL[bs].h : 0, c = cs >= 0 ? SL[cs].h : 0; FI A = a->h, B = b, C = c; int rc = 0; char tr = (char)ctl; FI R = ctl;
    double *ev = malloc((ne + 1) * sizeof(double)); for (int i = 0; i <= ne; i++) ev[i] = -12345.0;
    if (v >= 3) rc = cx_lin(op, a->h, b, c, ctl, ev);
    else if (EQ("sym")) { if (v == 2) ga_symmetrize_(&A); else GA_Symmetrize(a->h); }
    else if (EQ("lu")) { if (v == 2) ga_lu_solve_(&tr, &A, &B, 1); else GA_Lu_solve(tr, a->h, b); }
    else if (EQ("lus")) ga_lu_solve_seq_(&tr, &A, &B, 1);
    else if (EQ("solve")) rc = v == 2 ? (int)ga_solve_(&A, &B) : GA_Solve(a->h, b);
    else if (EQ("llt")) rc = v == 2 ? (int)ga_llt_solve_(&A, &B) : GA_Llt_solve(a->h, b);
    else if (EQ("spd")) rc = v == 2 ? (int)ga_spd_invert_(&A) : GA_Spd_invert(a->h);
    else if (EQ("diag")) { if (v == 2) ga_diag_(&A, &B, &C, ev); else GA_Diag(a->h, b, c, ev); }
    else if (EQ("diagr")) { if (v == 2) ga_diag_reuse_(&R, &A, &B, &C, ev); else GA_Diag_reuse(ctl, a->h, b, c, ev); }
    else if (EQ("diags")) { if (v == 2) ga_diag_seq_(&A, &B, &C, ev); else GA_Diag_seq(a->h, b, c, ev); }
    else if (EQ("std")) { if (v == 2) ga_diag_std_(&A, &C, ev); else GA_Diag_std(a->h, c, ev); }
    else if (EQ("stds")) { if (v == 2) ga_diag_std_seq_(&A, &C, ev); else GA_Diag_std_seq(a->h, c, ev); }
    else drv_fail("harness: lin %s", op);
    if (ev[ne] != -12345.0) drv_fail("eigenvalue vector overrun");
    drv_rec_i(rc); drv_rec('d', ev, ne * sizeof(double)); free(ev);
}
static void recscal(void *p, int t) {
    switch (t) { case 0: drv_rec_d(*(int*)p); break; case 1: drv_rec_d((double)*(long*)p); break; case 2: drv_rec_d((double)*(long long*)p); break; case 3: drv_rec_d(*(float*)p); break; default: drv_rec_d(*(double*)p); }
}
static void op_stepmax(void) {
    int v = (int)drv_I(); Slot *a = slot(), *b = slot(); int pt = (int)drv_I(); Patch p, q; if (pt) { rdpatch(&p, a->nd); rdpatch(&q, b->nd); }
    double st[2] = { 0, 0 }; FI A = a->h, B = b->h;
    if (v >= 3) cx_stepmax(a->h, b->h, v == 3, pt, p.lo, p.hi, q.lo, q.hi, st);
    else if (!pt) { if (v == 2) ga_step_max_(&A, &B, st); else GA_Step_max(a->h, b->h, st); }
    else if (v == 0) GA_Step_max_patch(a->h, p.lo32, p.hi32, b->h, q.lo32, q.hi32, st);
    else if (v == 1) GA_Step_max_patch64(a->h, p.lo, p.hi, b->h, q.lo, q.hi, st);
    else ga_step_max_patch_(&A, p.loF, p.hiF, &B, q.loF, q.hiF, st);
    recscal(st, a->t);
}
static void op_stepbound(void) {
    int v = (int)drv_I(); Slot *s[4]; Patch p[4]; int h[4]; for (int i = 0; i < 4; i++) { s[i] = slot(); h[i] = s[i]->h; }
    int pt = (int)drv_I(); if (pt) for (int i = 0; i < 4; i++) rdpatch(&p[i], s[i]->nd);
    double a[2] = {0}, b[2] = {0}, c[2] = {0};
    if (!pt) GA_Step_bound_info(h[0], h[1], h[2], h[3], a, b, c);
    else if (v == 0) GA_Step_bound_info_patch(h[0], p[0].lo32, p[0].hi32, h[1], p[1].lo32, p[1].hi32, h[2], p[2].lo32, p[2].hi32, h[3], p[3].lo32, p[3].hi32, a, b, c);
    else GA_Step_bound_info_patch64(h[0], p[0].lo, p[0].hi, h[1], p[1].lo, p[1].hi, h[2], p[2].lo, p[2].hi, h[3], p[3].lo, p[3].hi, a, b, c);
    recscal(a, s[0]->t); recscal(b, s[0]->t); recscal(c, s[0]->t);
}
/* bins: binidx n sortit values[n] subs[n] bin cnt off ; binsort bin cnt off ; binrange bin cnt off range */
static void op_binidx(void) {
    Slot *bn = slot(), *c = slot(), *o = slot(); FI n = drv_I(), so = drv_I(), B = bn->h, C = c->h, O = o->h; FI *va = malloc((n + 1) * 8), *su = malloc((n + 1) * 8);
    for (int i = 0; i < n; i++) va[i] = drv_I(); for (int i = 0; i < n; i++) su[i] = drv_I();
    ga_bin_index_(&B, &C, &O, va, su, &n, &so); free(va); free(su);
}
/* binidxall bin cnt off sortit, then for every rank n values[n] subs[n] */
static void op_binidxall(void) {
    Slot *bn = slot(), *c = slot(), *o = slot(); FI so = drv_I(), B = bn->h, C = c->h, O = o->h;
    for (int r = 0; r < NP; r++) {
        FI n = drv_I(), *va = malloc((n + 1) * 8), *su = malloc((n + 1) * 8);
        for (int i = 0; i < n; i++) va[i] = drv_I(); for (int i = 0; i < n; i++) su[i] = drv_I();
        if (r == ME) ga_bin_index_(&B, &C, &O, va, su, &n, &so);
        free(va); free(su);
    }
}
static void op_binsort(void) { Slot *b = slot(), *c = slot(), *o = slot(); FI B = b->h, C = c->h, O = o->h; ga_bin_sorter_(&B, &C, &O); }
static void op_binrange(void) {
    Slot *r = slot(), *b = slot(), *c = slot(), *o = slot(); FI B = b->h, C = c->h, O = o->h, R = 0; int64_t d[2] = { 2, NP };
    int ok = (int)ga_create_bin_range_(&B, &C, &O, &R); int t, nd; int64_t dd[7]; if (ok) { NGA_Inquire64((int)R, &t, &nd, dd); for (int i = 0; i < nd; i++) d[i] = dd[i]; }
    set_slot(r, (int)R, 1, 2, d); r->cx = 0; r->live = ok; drv_rec_i2(d[0], d[1]);
}
/* nanfill slot lo hi : NaN over a patch */
static void op_nanfill(void) {
    Slot *s = slot(); Patch p; memset(&p, 0, sizeof p); rdpatch(&p, s->nd);
    if (ME == 0) {
        int64_t n = 1, ld[7] = {1,1,1,1,1,1,1};
        for (int i = 0; i < s->nd; i++) { n *= p.hi[i] - p.lo[i] + 1; if (i) ld[i - 1] = p.hi[i] - p.lo[i] + 1; }
        char *b = malloc(n * s->es + 16); int64_t ne = n * s->es;
        if (s->t == 3 || s->t == 5) for (int64_t i = 0; i < ne / 4; i++) ((float*)b)[i] = __builtin_nanf("");
        else for (int64_t i = 0; i < ne / 8; i++) ((double*)b)[i] = __builtin_nan("");
        NGA_Put64(s->h, p.lo, p.hi, b, ld); free(b);
    }
    GA_Sync();
}
/* putall slot root values.. : root writes the whole array from integer literals */
static void op_putall(void) {
    Slot *s = slot(); int root = (int)drv_I(); int64_t n = 1, lo[7], hi[7];
    for (int i = 0; i < s->nd; i++) { n *= s->d[i]; lo[i] = 0; hi[i] = s->d[i] - 1; }
    char *b = calloc(n + 1, s->es);
    for (int64_t k = 0; k < n; k++) {
        long long x = drv_I(); char *q = b + k * s->es;
        switch (s->t) { case 0: *(int*)q = (int)x; break; case 1: *(long*)q = x; break; case 2: *(long long*)q = x; break;
            case 3: case 5: *(float*)q = (float)x; break; default: *(double*)q = (double)x; }
    }
    if (ME == root) NGA_Put64(s->h, lo, hi, b, s->d + 1);
    free(b); GA_Sync();
}
