/* ---------------------------------------------------------------- sparse arrays */
typedef struct { int h, t, l64, live; int64_t d[2]; } Sprs;
static Sprs SPR[16];
static Sprs *sprs(void) { return &SPR[drv_I()]; }
static void sprs_set(Sprs *s, int h, int t, int l64, int64_t a, int64_t b) { s->h = h; s->t = t; s->l64 = l64; s->live = 1; s->d[0] = a; s->d[1] = b; }
static void sparse_reset(void) { for (int i = 0; i < 16; i++) if (SPR[i].live) { NGA_Sprs_array_destroy(SPR[i].h); SPR[i].live = 0; } }
/* spcreate s l64 t idim jdim */
static void op_spcreate(void) {
    Sprs *s = sprs(); int l64 = (int)drv_I(), t = (int)drv_I(); int64_t a = drv_I(), b = drv_I();
    int h = l64 ? NGA_Sprs_array_create64(a, b, TYS[t]) : NGA_Sprs_array_create((int)a, (int)b, TYS[t]);
    sprs_set(s, h, t, l64, a, b);
}
/* spadd s n (i j re im).. */
static void op_spadd(void) {
    Sprs *s = sprs(); int n = (int)drv_I();
    for (int k = 0; k < n; k++) {
        int64_t i = drv_I(), j = drv_I(); void *v = scal(s->t);
        if (s->l64) NGA_Sprs_array_add_element64(s->h, i, j, v); else NGA_Sprs_array_add_element(s->h, (int)i, (int)j, v);
    }
}
static void op_spasm(void) { Sprs *s = sprs(); drv_rec_i(NGA_Sprs_array_assemble(s->h)); }
/* spdist s np : row lo hi, column lo hi of every process */
static void op_spdist(void) {
    Sprs *s = sprs(); int np = (int)drv_I(); int64_t *o = malloc(np * 32);
    for (int p = 0; p < np; p++) {
        if (s->l64) { NGA_Sprs_array_row_distribution64(s->h, p, o + 4 * p, o + 4 * p + 1); NGA_Sprs_array_column_distribution64(s->h, p, o + 4 * p + 2, o + 4 * p + 3); }
        else { int a[4]; NGA_Sprs_array_row_distribution(s->h, p, a, a + 1); NGA_Sprs_array_column_distribution(s->h, p, a + 2, a + 3); for (int i = 0; i < 4; i++) o[4 * p + i] = a[i]; }
    }
    drv_rec('i', o, np * 32); free(o);
}
static int sp_es(Sprs *s) { return ESZ[s->t]; }
static void sp_csr(Sprs *s, int64_t nr, void *ix, void *jx, void *v) {
    int64_t *o = malloc((nr + 1) * 8), n;
    for (int64_t i = 0; i <= nr; i++) o[i] = s->l64 ? ((int64_t*)ix)[i] : ((int*)ix)[i];
    n = o[nr]; drv_rec('i', o, (nr + 1) * 8); free(o);
    if (n < 0 || n > 1000000) { drv_fail("the row pointers of a sparse block are not valid"); n = 0; }
    o = malloc(n * 8 + 8); for (int64_t i = 0; i < n; i++) o[i] = s->l64 ? ((int64_t*)jx)[i] : ((int*)jx)[i];
    drv_rec('i', o, n * 8); free(o);
    drv_rec('b', v, n * sp_es(s));
}
/* spview s : this process's rows: the list of column blocks, then for each its CSR content */
static void op_spview(void) {
    Sprs *s = sprs(); int n, *ix; NGA_Sprs_array_col_block_list(s->h, &ix, &n);
    int64_t *o = malloc(n * 8 + 8); for (int i = 0; i < n; i++) o[i] = ix[i];
    drv_rec('i', o, n * 8);
    int lo, hi; NGA_Sprs_array_row_distribution(s->h, GA_Pgroup_nodeid(GA_Pgroup_get_default()), &lo, &hi);
    for (int i = 0; i < n; i++) {
        void *a = 0, *b = 0, *v = 0;
        if (s->l64) NGA_Sprs_array_access_col_block64(s->h, ix[i], (int64_t**)&a, (int64_t**)&b, &v);
        else NGA_Sprs_array_access_col_block(s->h, ix[i], (int**)&a, (int**)&b, &v);
        if (!a || !b || !v) { drv_fail("a listed column block cannot be accessed"); return; }
        sp_csr(s, hi - lo + 1, a, b, v);
    }
    free(ix); free(o);
}
/* spaccess s icol : 1 when the block has data on this process */
static void op_spaccess(void) {
    Sprs *s = sprs(); int c = (int)drv_I(); void *a = (void*)8, *b = (void*)8, *v = (void*)8;
    if (s->l64) NGA_Sprs_array_access_col_block64(s->h, c, (int64_t**)&a, (int64_t**)&b, &v);
    else NGA_Sprs_array_access_col_block(s->h, c, (int**)&a, (int**)&b, &v);
    if ((a == 0) != (v == 0) || (b == 0) != (v == 0)) drv_fail("an empty column block returns a mixture of null and valid pointers");
    drv_rec_i(v != 0);
}
/* spblock s irow icol : [found, bounds], then the CSR content */
static void op_spblock(void) {
    Sprs *s = sprs(); int r = (int)drv_I(), c = (int)drv_I(), ok; int64_t o[5]; void *a = (void*)8, *b = (void*)8, *v = (void*)8;
    if (s->l64) ok = NGA_Sprs_array_get_block64(s->h, r, c, (int64_t**)&a, (int64_t**)&b, &v, o + 1, o + 2, o + 3, o + 4);
    else { int q[4]; ok = NGA_Sprs_array_get_block(s->h, r, c, (int**)&a, (int**)&b, &v, q, q + 1, q + 2, q + 3); for (int i = 0; i < 4; i++) o[1 + i] = q[i]; }
    o[0] = ok; drv_rec('i', o, 40);
    if (ok) { sp_csr(s, o[2] - o[1] + 1, a, b, v); free(a); free(b); free(v); }
    else if (a || b || v) drv_fail("get_block of an empty block does not return null pointers");
}
static void op_spdestroy(void) { Sprs *s = sprs(); drv_rec_i(NGA_Sprs_array_destroy(s->h)); s->live = 0; }
static void sp_result(Slot *o, int h, int t, int nd, int64_t a, int64_t b) {
    int64_t d[2] = { a, b }, q[7]; int tt, nn; set_slot(o, h, t, nd, d); o->cx = 0; o->live = 1;
    NGA_Inquire64(h, &tt, &nn, q);
    if (nn != nd || q[0] != a || (nd > 1 && q[1] != b) || tt != o->gt) drv_fail("the result array has the wrong shape or type");
}
static void op_spdiag(void) { Sprs *s = sprs(); Slot *o = slot(); int h; NGA_Sprs_array_get_diag(s->h, &h); sp_result(o, h, s->t, 1, s->d[0], 0); }
static void op_spcol(void) { Sprs *s = sprs(); int64_t c = drv_I(); Slot *o = slot(); int h = s->l64 ? NGA_Sprs_array_get_column64(s->h, c) : NGA_Sprs_array_get_column(s->h, (int)c); sp_result(o, h, s->t, 1, s->d[0], 0); }
/* splr side s slot */
static void op_splr(void) { int side = (int)drv_I(); Sprs *s = sprs(); Slot *d = slot(); if (side) NGA_Sprs_array_diag_right_multiply(s->h, d->h); else NGA_Sprs_array_diag_left_multiply(s->h, d->h); }
static void op_spscale(void) { Sprs *s = sprs(); NGA_Sprs_array_scale(s->h, scal(s->t)); }
static void op_spshift(void) { Sprs *s = sprs(); NGA_Sprs_array_shift_diag(s->h, scal(s->t)); }
static void op_spdup(void) { Sprs *s = sprs(), *o = sprs(); sprs_set(o, NGA_Sprs_array_duplicate(s->h), s->t, s->l64, s->d[0], s->d[1]); }
static void op_spmv(void) { Sprs *s = sprs(); Slot *a = slot(), *v = slot(); NGA_Sprs_array_matvec_multiply(s->h, a->h, v->h); }
static void op_spmm(void) { Sprs *a = sprs(), *b = sprs(), *o = sprs(); sprs_set(o, NGA_Sprs_array_matmat_multiply(a->h, b->h), a->t, a->l64, a->d[0], b->d[1]); }
static void op_spsd(void) { Sprs *s = sprs(); Slot *b = slot(), *o = slot(); sp_result(o, NGA_Sprs_array_sprsdns_multiply(s->h, b->h), s->t, 2, s->d[0], b->d[1]); }
static void op_spds(void) { Slot *a = slot(); Sprs *s = sprs(); Slot *o = slot(); sp_result(o, NGA_Sprs_array_dnssprs_multiply(a->h, s->h), s->t, 2, a->d[0], s->d[1]); }
static void op_spfd(void) { Slot *a = slot(); Sprs *s = sprs(); int l64 = (int)drv_I(); sprs_set(s, l64 ? NGA_Sprs_array_create_from_dense64(a->h) : NGA_Sprs_array_create_from_dense(a->h), a->t, l64, a->d[0], a->d[1]); }
static void op_spfs(void) { Sprs *s = sprs(); Slot *o = slot(); sp_result(o, NGA_Sprs_array_create_from_sparse(s->h), s->t, 2, s->d[0], s->d[1]); }
static void op_spsketch(void) {
    Sprs *s = sprs(); int k = (int)drv_I(); Slot *o = slot(), *gk = slot(), *gw = slot(); int hk, hw;
    int h = NGA_Sprs_array_count_sketch(s->h, k, &hk, &hw);
    sp_result(o, h, s->t, 2, k, s->d[1]); sp_result(gk, hk, 0, 1, s->d[0], 0); sp_result(gw, hw, s->t, 1, s->d[0], 0);
}
/* spexport s : the exported text, recorded by the process that wrote it */
static void op_spexport(void) {
    Sprs *s = sprs(); char fn[300]; const char *d = getenv("TMPDIR"); snprintf(fn, sizeof fn, "%s/sprs.%d", d ? d : "/tmp", (int)getppid());
    NGA_Sprs_array_export(s->h, fn);
    if (GA_Pgroup_nodeid(GA_Pgroup_get_default()) == 0) {
        FILE *f = fopen(fn, "r"); if (!f) { drv_fail("no export file"); return; }
        fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); char *b = malloc(n + 1); n = (long)fread(b, 1, n, f); fclose(f); unlink(fn);
        drv_rec('s', b, n); free(b);
    }
}
