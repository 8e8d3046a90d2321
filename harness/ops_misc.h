/* ---------------------------------------------------------------- process groups */
extern FI ga_pgroup_create_(FI*, FI*), ga_pgroup_duplicate_(FI*), ga_pgroup_self_(void), ga_pgroup_destroy_(FI*), ga_pgroup_split_(FI*, FI*), ga_pgroup_split_irreg_(FI*, FI*),
    ga_pgroup_nnodes_(FI*), ga_pgroup_nodeid_(FI*), ga_pgroup_absolute_id_(FI*, FI*), ga_pgroup_get_default_(void);
extern void ga_pgroup_set_default_(FI*), ga_pgroup_sync_(FI*);
extern int cx_pgcreate(int *list, int n, void **o), cx_pgdup(void *o, void **n), cx_pgself(void **n);
extern void cx_pgdestroy(void *o), cx_pginfo(void *o, int64_t *r), cx_pgdefault(void *o), cx_pgsync(void *o), cx_pgbrdcst(void *o, void *b, int n, int root), cx_pggop(void *o, int t, void *b, int n, char *op);
static void *GRPX[32];
static void setg(int g, int h) { GRP[g] = h; GRPL[g] = 1; GRPX[g] = 0; }
/* pgcreate v g n list */
static void op_pgcreate(void) {
    int v = (int)drv_I(), g = (int)drv_I(), n = (int)drv_I(), l[64]; FI lF[64], nF = n;
    for (int i = 0; i < n; i++) lF[i] = l[i] = (int)drv_I();
    void *o = 0; int h = v == 0 ? GA_Pgroup_create(l, n) : v == 1 ? NGA_Pgroup_create(l, n) : v == 2 ? (int)ga_pgroup_create_(lF, &nF) : cx_pgcreate(l, n, &o);
    setg(g, h); GRPX[g] = o;
}
static void op_pgdup(void) {
    int v = (int)drv_I(), g = (int)drv_I(), p = (int)drv_I(), ph = p < 0 ? GA_Pgroup_get_world() : GRP[p]; FI P = ph; void *o = 0;
    int h = v == 3 && p >= 0 && GRPX[p] ? cx_pgdup(GRPX[p], &o) : v == 2 ? (int)ga_pgroup_duplicate_(&P) : GA_Pgroup_duplicate(ph);
    setg(g, h); GRPX[g] = o;
}
static void op_pgself(void) { int v = (int)drv_I(), g = (int)drv_I(); void *o = 0; int h = v == 3 ? cx_pgself(&o) : v == 2 ? (int)ga_pgroup_self_() : GA_Pgroup_self(); setg(g, h); GRPX[g] = o; }
static void op_pgsplit(void) {
    int v = (int)drv_I(), g = (int)drv_I(), p = (int)drv_I(), n = (int)drv_I(); FI P = p < 0 ? GA_Pgroup_get_world() : GRP[p], N = n;
    setg(g, v == 2 ? (int)ga_pgroup_split_(&P, &N) : v == 1 ? NGA_Pgroup_split((int)P, n) : GA_Pgroup_split((int)P, n));
}
/* pgsplitc v g parent n colors-by-world-rank */
static void op_pgsplitc(void) {
    int v = (int)drv_I(), g = (int)drv_I(), p = (int)drv_I(), n = (int)drv_I(), c = 0; for (int i = 0; i < n; i++) { int x = (int)drv_I(); if (i == ME) c = x; }
    FI P = p < 0 ? GA_Pgroup_get_world() : GRP[p], C = c;
    setg(g, v == 2 ? (int)ga_pgroup_split_irreg_(&P, &C) : v == 1 ? NGA_Pgroup_split_irreg((int)P, c) : GA_Pgroup_split_irreg((int)P, c));
}
static void op_pgdestroy(void) {
    int v = (int)drv_I(), g = (int)drv_I(); FI G = GRP[g]; int r = 1;
    if (GRPX[g]) cx_pgdestroy(GRPX[g]); else r = v == 2 ? (int)ga_pgroup_destroy_(&G) : GA_Pgroup_destroy(GRP[g]);
    GRPL[g] = 0; GRPX[g] = 0; drv_rec_i(r);
}
static void op_pgdefault(void) {
    int v = (int)drv_I(), g = (int)drv_I(), h = g < 0 ? GA_Pgroup_get_world() : GRP[g]; FI H = h;
    if (v == 3 && g >= 0 && GRPX[g]) cx_pgdefault(GRPX[g]); else if (v == 2) ga_pgroup_set_default_(&H); else GA_Pgroup_set_default(h);
    drv_rec_i2(GA_Pgroup_get_default() == h, h);
}
/* pginfo v g : nodeid, nnodes, then absolute ids of members (only when the caller is a member) */
static void op_pginfo(void) {
    int v = (int)drv_I(), g = (int)drv_I(); FI G = g < 0 ? GA_Pgroup_get_world() : GRP[g]; int64_t r[70];
    if (v == 3 && g >= 0 && GRPX[g]) cx_pginfo(GRPX[g], r);
    else if (v == 2) { r[0] = ga_pgroup_nodeid_(&G); r[1] = ga_pgroup_nnodes_(&G); }
    else if (v == 1) { r[0] = NGA_Pgroup_nodeid((int)G); r[1] = NGA_Pgroup_nnodes((int)G); }
    else { r[0] = GA_Pgroup_nodeid((int)G); r[1] = GA_Pgroup_nnodes((int)G); }
    for (FI i = 0; i < r[1] && i < 64; i++) r[2 + i] = v == 2 ? ga_pgroup_absolute_id_(&G, &i) : GA_Pgroup_absolute_id((int)G, (int)i);
    if (GA_Get_pgroup_size((int)G) != r[1]) drv_fail("group size queries disagree");
    drv_rec('i', r, 8 * (2 + (r[1] < 64 ? r[1] : 64)));
}
static void op_nodeids(void) { drv_rec_i2(GA_Nodeid(), GA_Nnodes()); }
static void op_pgsync(void) { int v = (int)drv_I(), g = (int)drv_I(); FI G = GRP[g]; if (v == 3 && GRPX[g]) cx_pgsync(GRPX[g]); else if (v == 2) ga_pgroup_sync_(&G); else GA_Pgroup_sync((int)G); }
/* sig slot pos val : write one long ; waitsig slot pos val : spin until the element equals val (one-sided reads only) */
static void op_putone(void) { Slot *s = slot(); int64_t sub[7]; rdn(sub, s->nd); long v = drv_I(); int64_t ld[7] = {1,1,1,1,1,1,1}; NGA_Put64(s->h, sub, sub, &v, ld); }
/* ---------------------------------------------------------------- ghost cells */
extern void nga_update1_ghosts_(FI*); extern FI nga_update2_ghosts_(FI*), nga_update3_ghosts_(FI*), nga_update4_ghosts_(FI*), nga_update44_ghosts_(FI*), nga_update55_ghosts_(FI*),
    nga_update5_ghosts_(FI*), nga_update6_ghosts_(FI*), nga_update7_ghosts_(FI*), nga_update_ghost_dir_(FI*, FI*, FI*, FI*), nga_set_ghost_info_(FI*);
extern void nga_update_ghosts_(FI*), nga_update_ghosts_nb_(FI*, FI*), nga_get_ghost_block_(FI*, FI*, FI*, void*, FI*), nga_set_ghost_corner_flag_(FI*, FI*), nga_nbget_ghost_dir_(FI*, FI*, FI*), nga_nbwait_(FI*), nga_ghost_barrier_(void);
static int ghview(Slot *s, int64_t *lo, int64_t *hi, int64_t *dm, int64_t *ld, char **p, int b32) {
    int me = GA_Pgroup_nodeid(GA_Get_pgroup(s->h));
    NGA_Distribution64(s->h, me, lo, hi);
    for (int i = 0; i < s->nd; i++) if (hi[i] < lo[i]) return 0;
    *p = 0;
    if (b32) { int d[7], l[7]; NGA_Access_ghosts(s->h, d, p, l); for (int i = 0; i < s->nd; i++) { dm[i] = d[i]; if (i < s->nd - 1) ld[i] = l[i]; } }
    else NGA_Access_ghosts64(s->h, dm, p, ld);
    return 1;
}
static void op_hasghosts(void) { Slot *s = slot(); drv_rec_i2(GA_Has_ghosts(s->h), NGA_Has_ghosts(s->h)); }
/* ghfill slot width : every ghost cell of the caller becomes 0xA5 bytes */
static void op_ghfill(void) {
    Slot *s = slot(); int64_t w[7], lo[7], hi[7], dm[7], ld[7], n = 1; char *p; rdn(w, s->nd);
    if (!ghview(s, lo, hi, dm, ld, &p, 0)) return;
    for (int i = 0; i < s->nd; i++) n *= dm[i];
    for (int64_t k = 0; k < n; k++) {
        int64_t r = k, x, off = 0, f = 1; int in = 1;
        for (int i = s->nd - 1; i >= 0; i--) { x = r % dm[i]; r /= dm[i]; off += x * f; if (i) f *= ld[i - 1]; if (x < w[i] || x >= dm[i] - w[i]) in = 0; }
        if (!in) memset(p + off * s->es, 0xA5, s->es);
    }
    NGA_Release_update_ghosts(s->h);
}
/* ghdump slot b32 : own lo/hi, extended dims, extended block */
static void op_ghdump(void) {
    Slot *s = slot(); int b32 = (int)drv_I(); int64_t lo[7], hi[7], dm[7], ld[7], z[7], q[7], o[21]; char *p;
    if (!ghview(s, lo, hi, dm, ld, &p, b32)) { drv_rec('i', "", 0); return; }
    for (int i = 0; i < s->nd; i++) { o[i] = lo[i]; o[s->nd + i] = hi[i]; o[2 * s->nd + i] = dm[i]; z[i] = 0; q[i] = dm[i] - 1; }
    drv_rec('i', o, 24 * s->nd);
    rec_local(s, z, q, p, ld);
    NGA_Release_ghosts(s->h);
}
/* ghelem slot b32 seed : pointers to single elements of the extended block */
static void op_ghelem(void) {
    Slot *s = slot(); int b32 = (int)drv_I(); uint64_t sd = drv_I(); int64_t lo[7], hi[7], dm[7], ld[7], x[7], l2[7]; int x32[7], l32[7]; char *p, *q;
    if (!ghview(s, lo, hi, dm, ld, &p, 0)) return;
    for (int k = 0; k < 4; k++) {
        int64_t off = 0;
        for (int i = 0; i < s->nd; i++) { x32[i] = (int)(x[i] = drv_hash(sd + k, i) % dm[i]); off = (i ? off * ld[i - 1] : 0) + x[i]; l2[i] = -7; l32[i] = -7; }
        q = 0;
        if (b32) { NGA_Access_ghost_element(s->h, &q, x32, l32); for (int i = 0; i < s->nd - 1; i++) l2[i] = l32[i]; NGA_Release_ghost_element(s->h, x32); }
        else { NGA_Access_ghost_element64(s->h, &q, x, l2); NGA_Release_update_ghost_element64(s->h, x); }
        if (q != p + off * s->es) { drv_fail("element of the extended block is %ld bytes from its place", (long)(q - p - off * s->es)); break; }
        for (int i = 0; i < s->nd - 1; i++) if (l2[i] != ld[i]) { drv_fail("leading dimension %d of the extended block is %ld, not %ld", i, (long)l2[i], (long)ld[i]); k = 9; break; }
    }
}
/* gupd slot how : ghost update by method; records whether the method applied */
static void op_gupd(void) {
    Slot *s = slot(); int how = (int)drv_I(); FI G = s->h; int r = 1;
    switch (how) {
    case 0: GA_Update_ghosts(s->h); break;
    case 1: NGA_Update_ghosts(s->h); break;
    case 2: nga_update_ghosts_(&G); break;
    case 3: { ga_nbhdl_t h; GA_Pgroup_sync(GA_Get_pgroup(s->h)); NGA_Update_ghosts_nb(s->h, &h); NGA_NbWait(&h); GA_Pgroup_sync(GA_Get_pgroup(s->h)); break; }
    case 4: nga_update1_ghosts_(&G); break;
    case 5: r = nga_update2_ghosts_(&G) != 0; break;
    case 6: r = nga_update3_ghosts_(&G) != 0; break;
    case 7: r = nga_update4_ghosts_(&G) != 0; break;
    case 8: r = nga_update44_ghosts_(&G) != 0; break;
    case 9: r = nga_update6_ghosts_(&G) != 0; break;
    /* without corners and without any barriers */
    case 10: r = nga_update5_ghosts_(&G) != 0; break;
    case 11: r = nga_update55_ghosts_(&G) != 0; break;
    case 12: r = nga_update7_ghosts_(&G) != 0; break;
    }
    drv_rec_i(r);
}
static void op_gdir(void) {      /* gdir v slot dim dir corners */
    int v = (int)drv_I(); Slot *s = slot(); int d = (int)drv_I(), dir = (int)drv_I(), fl = (int)drv_I(); int r;
    if (v) { FI G = s->h, D = s->nd - d, R = dir, L = fl; r = nga_update_ghost_dir_(&G, &D, &R, &L) != 0; } else r = NGA_Update_ghost_dir(s->h, d, dir, fl) != 0;
    drv_rec_i(r);
}
static void op_gnbdir(void) {    /* gnbdir v slot mask[nd] */
    int v = (int)drv_I(); Slot *s = slot(); int64_t m[7]; int m32[7]; rdn(m, s->nd); to32(m32, m, s->nd); ga_nbhdl_t h;
    GA_Pgroup_sync(GA_Get_pgroup(s->h));
    if (v == 0) NGA_NbGet_ghost_dir(s->h, m32, &h); else NGA_NbGet_ghost_dir64(s->h, m, &h);
    NGA_NbWait(&h);
    GA_Pgroup_sync(GA_Get_pgroup(s->h));
}
static void op_ggb(void) {       /* ggb v slot lo hi ld */
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h; rdpatch(&p, s->nd); rdld(&p, s->nd);
    buf_new(&b, s->nd, p.s, p.ld, s->es);
    switch (v) {
    case 0: NGA_Get_ghost_block(s->h, p.lo32, p.hi32, b.p, p.ld32); break;
    case 1: NGA_Get_ghost_block64(s->h, p.lo, p.hi, b.p, p.ld); break;
    default: nga_get_ghost_block_(&G, p.loF, p.hiF, b.p, p.ldF);
    }
    buf_out(&b, "get_ghost_block"); buf_free(&b);
}
static void op_gcorner(void) { int v = (int)drv_I(); Slot *s = slot(); int f = (int)drv_I(); FI G = s->h, F = f; if (v == 2) nga_set_ghost_corner_flag_(&G, &F); else if (v) NGA_Set_ghost_corner_flag(s->h, f); else GA_Set_ghost_corner_flag(s->h, f); }

/* ---------------------------------------------------------------- direct access */
/* dacc v slot fr[2*nd] how gen : sub-patch of the caller's block given in 1/1000 of its extents.
   how bit 0: read, bit 1: write + release_update. Records lo/hi of the sub-patch, then the bytes read. */
static void op_dacc(void) {
    int v = (int)drv_I(); Slot *s = slot(); int64_t f[14], lo[7], hi[7], ld[7], sz[7], o[14], n = 1; int l32[7], h32[7], ld32[7]; char *p = 0;
    rdn(f, 2 * s->nd); int how = (int)drv_I(); Gen g = rdgen();
    NGA_Distribution64(s->h, GA_Pgroup_nodeid(GA_Get_pgroup(s->h)), lo, hi);
    for (int i = 0; i < s->nd; i++) if (hi[i] < lo[i]) { drv_rec('i', "", 0); return; }
    for (int i = 0; i < s->nd; i++) {
        int64_t e = hi[i] - lo[i] + 1, a = f[2 * i] * e / 1000, b = a + f[2 * i + 1] * (e - a) / 1000;
        hi[i] = lo[i] + b; lo[i] += a; sz[i] = b - a + 1; n *= sz[i]; o[i] = lo[i]; o[s->nd + i] = hi[i];
    }
    to32(l32, lo, s->nd); to32(h32, hi, s->nd);
    if (v == 0) { NGA_Access(s->h, l32, h32, &p, ld32); for (int i = 0; i < s->nd - 1; i++) ld[i] = ld32[i]; } else NGA_Access64(s->h, lo, hi, &p, ld);
    if (how & 1) rec_local(s, lo, hi, p, ld); else drv_rec('i', o, 16 * s->nd);
    if (how & 2) {
        for (int64_t k = 0; k < n; k++) {
            int64_t r = k, x[7], off = 0;
            for (int i = s->nd - 1; i >= 0; i--) { x[i] = r % sz[i]; r /= sz[i]; }
            for (int i = 0; i < s->nd; i++) off = (i ? off * ld[i - 1] : 0) + x[i];
            genval(p + off * s->es, s->t, s->es, g, k);
        }
        if (v == 0) NGA_Release_update(s->h, l32, h32); else NGA_Release_update64(s->h, lo, hi);
    } else if (v == 0) NGA_Release(s->h, l32, h32); else NGA_Release64(s->h, lo, hi);
}
/* blkacc v slot mode idx coords grid blo bhi plo phi how gen : sub-patch of one block, by its owner (grid 0: block-cyclic by index) */
static void op_blkacc(void) {
    int v = (int)drv_I(); Slot *s = slot(); int mode = (int)drv_I(); int64_t ix[7], lo[7], hi[7], pl[7], ph[7], ld[7], sz[7], n = 1, base = 0; int i32[7], ld32[7]; char *p = 0;
    int64_t gr[7]; int64_t idx = drv_I(); rdn(ix, s->nd); rdn(gr, s->nd); rdn(lo, s->nd); rdn(hi, s->nd); rdn(pl, s->nd); rdn(ph, s->nd); int how = (int)drv_I(); Gen g = rdgen();
    int mine = 1, me = GA_Pgroup_nodeid(GA_Get_pgroup(s->h));
    if (gr[0]) { int pi[7]; GA_Get_proc_index(s->h, me, pi); for (int i = 0; i < s->nd; i++) if (pi[i] != ix[i] % gr[i]) mine = 0; }
    else mine = idx % NP == me;
    if (!mine) return;
    to32(i32, ix, s->nd);
    if (mode == 0) { if (v == 0) { NGA_Access_block(s->h, (int)idx, &p, ld32); for (int i = 0; i < s->nd - 1; i++) ld[i] = ld32[i]; } else NGA_Access_block64(s->h, idx, &p, ld); }
    else { if (v == 0) { NGA_Access_block_grid(s->h, i32, &p, ld32); for (int i = 0; i < s->nd - 1; i++) ld[i] = ld32[i]; } else NGA_Access_block_grid64(s->h, ix, &p, ld); }
    for (int i = 0; i < s->nd; i++) { sz[i] = ph[i] - pl[i] + 1; n *= sz[i]; base = (i ? base * ld[i - 1] : 0) + pl[i] - lo[i]; }
    if (how & 1) rec_local(s, pl, ph, p + base * s->es, ld);
    if (how & 2) {
        for (int64_t k = 0; k < n; k++) {
            int64_t r = k, x[7], off = 0;
            for (int i = s->nd - 1; i >= 0; i--) { x[i] = r % sz[i]; r /= sz[i]; }
            for (int i = 0; i < s->nd; i++) off = (i ? off * ld[i - 1] : 0) + x[i];
            genval(p + (base + off) * s->es, s->t, s->es, g, k);
        }
        if (mode == 0) { NGA_Release_update_block(s->h, (int)idx); }
        else { NGA_Release_update_block_grid(s->h, i32); }
    } else if (mode == 0) { NGA_Release_block(s->h, (int)idx); }
    else NGA_Release_block_grid(s->h, i32);
}
/* segacc v slot f1 f2 how gen : part of the caller's segment. Records (length, first, last) then the bytes of the whole segment */
static void op_segacc(void) {
    int v = (int)drv_I(); Slot *s = slot(); int64_t f1 = drv_I(), f2 = drv_I(); int how = (int)drv_I(); Gen g = rdgen(); int64_t len = 0; int l32 = 0; char *p = 0;
    int me = GA_Pgroup_nodeid(GA_Get_pgroup(s->h));
    if (v == 0) { NGA_Access_block_segment(s->h, me, &p, &l32); len = l32; } else NGA_Access_block_segment64(s->h, me, &p, &len);
    int64_t a = f1 * len / 1000, b = a + f2 * (len - a) / 1000, o[3] = { len, a, len ? b : -1 };
    drv_rec('i', o, 24); drv_rec('b', p, len * s->es);
    if ((how & 2) && len) { for (int64_t k = a; k <= b; k++) genval(p + k * s->es, s->t, s->es, g, k - a); NGA_Release_update_block_segment(s->h, me); }
    else NGA_Release_block_segment(s->h, me);
}
static void misc_reset(void) { }
