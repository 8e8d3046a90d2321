/* ---------------------------------------------------------------- creation and lifetime */
static void op_regtype(void) { int k = (int)drv_I(), b = (int)drv_I(); RTB[k] = b; RT[k] = NGA_Register_type(b); drv_rec_i(RT[k] > 0); }
static void op_deregtype(void) { int k = (int)drv_I(); drv_rec_i(NGA_Deregister_type(RT[k])); RT[k] = 0; }

/* create slot t nd d.. ng [w..] kind args.. grp nrestr [list] corner api name */
static void op_create(void) {
    Slot *s = slot(); int t = (int)drv_I(), nd = (int)drv_I();
    int64_t d[10], w[10] = {0}, a1[512], a2[64], a3[64]; int list[64], ng, kind, g, nr, corner, api, n1 = 0, n2 = 0, n3 = 0;
    rdn(d, nd); ng = (int)drv_I(); if (ng) rdn(w, nd);
    kind = (int)drv_I();
    /* each kind: up to three counted lists */
    n1 = (int)drv_I(); rdn(a1, n1); n2 = (int)drv_I(); rdn(a2, n2); n3 = (int)drv_I(); rdn(a3, n3);
    g = grp(); nr = (int)drv_I();
    if (nr > 0) for (int i = 0; i < nr; i++) list[i] = (int)drv_I(); else if (nr < 0) { list[0] = (int)drv_I(); list[1] = (int)drv_I(); }
    corner = (int)drv_I(); api = (int)drv_I();
    char name[64]; strncpy(name, drv_S(), 63); name[63] = 0;
    set_slot(s, 0, t, nd, d); s->cx = 0;
    int gt = s->gt, h = 0, ok = 1;
    int d32[10], w32[10], a132[512], a232[64], a332[64];
    to32(d32, d, nd); to32(w32, w, nd); to32(a132, a1, n1); to32(a232, a2, n2); to32(a332, a3, n3);
    if (api == 0 || api == 1) {
        h = GA_Create_handle();
        if (api == 0) GA_Set_data64(h, nd, d, gt); else GA_Set_data(h, nd, d32, gt);
        if (name[0] != '-') GA_Set_array_name(h, name);
        if (g >= 0) GA_Set_pgroup(h, g);
        if (ng) { if (api == 0) GA_Set_ghosts64(h, w); else GA_Set_ghosts(h, w32); }
        if (!corner) GA_Set_ghost_corner_flag(h, 0);
        if (api == 0) switch (kind) {
            case 1: GA_Set_chunk64(h, a1); break;
            case 2: GA_Set_irreg_distr64(h, a1, a2); break;
            case 3: GA_Set_block_cyclic64(h, a1); break;
            case 4: GA_Set_block_cyclic_proc_grid64(h, a1, a2); break;
            case 5: GA_Set_tiled_proc_grid64(h, a1, a2); break;
            case 6: GA_Set_tiled_irreg_proc_grid64(h, a1, a2, a3); break;
        } else switch (kind) {
            case 1: GA_Set_chunk(h, a132); break;
            case 2: GA_Set_irreg_distr(h, a132, a232); break;
            case 3: GA_Set_block_cyclic(h, a132); break;
            case 4: GA_Set_block_cyclic_proc_grid(h, a132, a232); break;
            case 5: GA_Set_tiled_proc_grid(h, a132, a232); break;
            case 6: GA_Set_tiled_irreg_proc_grid(h, a132, a232, a332); break;
        }
        if (nr > 0) GA_Set_restricted(h, list, nr); else if (nr < 0) GA_Set_restricted_range(h, list[0], list[1]);
        ok = GA_Allocate(h);
    } else if (api == 2 || api == 3) {
        int p = g >= 0 ? g : GA_Pgroup_get_default();
        if (kind == 2) {
            if (api == 2) h = ng ? NGA_Create_ghosts_irreg_config64(gt, nd, d, w, name, a2, a1, p) : (g >= 0 ? NGA_Create_irreg_config64(gt, nd, d, name, a2, a1, p) : NGA_Create_irreg64(gt, nd, d, name, a2, a1));
            else h = ng ? (g >= 0 ? NGA_Create_ghosts_irreg_config(gt, nd, d32, w32, name, a232, a132, p) : NGA_Create_ghosts_irreg(gt, nd, d32, w32, name, a232, a132)) : (g >= 0 ? NGA_Create_irreg_config(gt, nd, d32, name, a232, a132, p) : NGA_Create_irreg(gt, nd, d32, name, a232, a132));
        } else {
            if (api == 2) h = ng ? (g >= 0 ? NGA_Create_ghosts_config64(gt, nd, d, w, name, kind == 1 ? a1 : NULL, p) : NGA_Create_ghosts64(gt, nd, d, w, name, kind == 1 ? a1 : NULL)) : (g >= 0 ? NGA_Create_config64(gt, nd, d, name, kind == 1 ? a1 : NULL, p) : NGA_Create64(gt, nd, d, name, kind == 1 ? a1 : NULL));
            else h = ng ? (g >= 0 ? NGA_Create_ghosts_config(gt, nd, d32, w32, name, kind == 1 ? a132 : NULL, p) : NGA_Create_ghosts(gt, nd, d32, w32, name, kind == 1 ? a132 : NULL)) : (g >= 0 ? NGA_Create_config(gt, nd, d32, name, kind == 1 ? a132 : NULL, p) : NGA_Create(gt, nd, d32, name, kind == 1 ? a132 : NULL));
        }
        ok = h != 0;
    } else if (api == 4) {      /* Fortran symbols: reversed index order, one-based maps */
        FI dF[10], wF[10], tF = gt, ndF = nd, hF = 0, cF[10], pF = g, mF[512], bF[7], gF[7];
        toF(dF, d, nd, 0); toF(wF, w, nd, 0);
        hF = ga_create_handle_();
        ga_set_data_(&hF, &ndF, dF, &tF);
        if (name[0] != '-') ga_set_array_name_(&hF, name, (int)strlen(name));
        if (g >= 0) ga_set_pgroup_(&hF, &pF);
        if (ng) ga_set_ghosts_(&hF, wF);
        if (kind == 1) { toF(cF, a1, nd, 0); ga_set_chunk_(&hF, cF); }
        if (kind == 2) {
            int o = 0, off[8]; off[0] = 0; for (int i = 0; i < nd; i++) off[i + 1] = off[i] + (int)a2[i];
            for (int i = nd - 1; i >= 0; i--) for (int j = off[i]; j < off[i + 1]; j++) mF[o++] = a1[j] + 1;
            toF(bF, a2, nd, 0); ga_set_irreg_distr_(&hF, mF, bF);
        }
        if (kind == 3) { toF(bF, a1, nd, 0); ga_set_block_cyclic_(&hF, bF); }
        if (kind == 4) { toF(bF, a1, nd, 0); toF(gF, a2, nd, 0); ga_set_block_cyclic_proc_grid_(&hF, bF, gF); }
        if (kind == 5) { toF(bF, a1, nd, 0); toF(gF, a2, nd, 0); ga_set_tiled_proc_grid_(&hF, bF, gF); }
        if (kind == 6) {
            FI o = 0, off[8], g3[7]; off[0] = 0; for (int i = 0; i < nd; i++) off[i + 1] = off[i] + a2[i];
            for (int i = nd - 1; i >= 0; i--) for (FI j = off[i]; j < off[i + 1]; j++) mF[o++] = a1[j] + 1;
            toF(bF, a2, nd, 0); toF(g3, a3, nd, 0); ga_set_tiled_irreg_proc_grid_(&hF, mF, bF, g3);
        }
        if (nr > 0) { FI lF[64], nF = nr; for (int i = 0; i < nr; i++) lF[i] = list[i]; ga_set_restricted_(&hF, lF, &nF); }
        ok = (int)ga_allocate_(&hF); h = (int)hF;
    } else {                    /* C++ : api 5 (32-bit) / 6 (64-bit) */
        h = cxx_create(gt, nd, d, ng ? w : NULL, kind, kind == 2 ? a2 : a1, a1, api == 5, &s->cx);
        ok = h != 0;
    }
    s->h = h; if (!ok) s->live = 0;
    drv_rec_i2(ok, 0);
}
/* fake slot t nd d.. mode x : a slot whose handle is the literal x (mode 0) or the present handle of slot x (mode 1); never destroyed by the harness */
static void op_fake(void) {
    Slot *s = slot(); int t = (int)drv_I(), nd = (int)drv_I(); int64_t d[10]; rdn(d, nd);
    int m = (int)drv_I(); long long x = drv_I(), h = m ? SL[x].h : (int)x; set_slot(s, (int)h, t, nd, d); s->cx = 0; s->live = 2;
}
static void op_dup(void) {
    Slot *s = slot(), *o = slot(); int api = (int)drv_I(); const char *nm = drv_S();
    set_slot(s, 0, o->t, o->nd, o->d); s->cx = 0;
    if (api == 5 && o->cx) s->h = cxx_dup(o->cx, &s->cx); else s->h = GA_Duplicate(o->h, (char*)nm);
    s->live = s->h != 0; drv_rec_i(s->live);
}
static void op_destroy(void) { Slot *s = slot(); if (s->cx) cxx_destroy(s->cx); else GA_Destroy(s->h); s->live = 0; s->cx = 0; }
/* destroy if live */
static void op_destroyx(void) { Slot *s = slot(); if (s->live) GA_Destroy(s->h); s->live = 0; }
static void op_dealloc(void) { Slot *s = slot(); drv_rec_i(GA_Deallocate(s->h)); }
static void op_realloc(void) { Slot *s = slot(); drv_rec_i(GA_Allocate(s->h)); }
static void op_setprop(void) { Slot *s = slot(); NGA_Set_property(s->h, (char*)drv_S()); }
static void op_unsetprop(void) { Slot *s = slot(); NGA_Unset_property(s->h); }
static void op_valid(void) { Slot *s = slot(); drv_rec_i(GA_Valid_handle(s->h)); }
static void op_verify(void) { Slot *s = slot(); drv_rec_i(GA_Verify_handle(s->h)); }
/* overlay slot parent : configure a handle with t nd d.. and overlay it on parent's memory */
static void op_overlay(void) {
    Slot *s = slot(), *p = slot(); int t = (int)drv_I(), nd = (int)drv_I(); int64_t d[7]; rdn(d, nd);
    set_slot(s, 0, t, nd, d); s->cx = 0; s->h = GA_Create_handle(); GA_Set_data64(s->h, nd, d, s->gt);
    int ok = GA_Overlay(s->h, p->h); s->live = ok ? 1 : 0; drv_rec_i(ok);
}
static void op_setname(void) { Slot *s = slot(); GA_Set_array_name(s->h, (char*)drv_S()); }
static void op_getname(void) { Slot *s = slot(); char *n = GA_Inquire_name(s->h); drv_rec('s', n, strlen(n)); }
static void op_inquire(void) {
    Slot *s = slot(); int b32 = (int)drv_I(), t, nd; int64_t o[16]; int d32[7];
    if (b32) { NGA_Inquire(s->h, &t, &nd, d32); for (int i = 0; i < nd; i++) o[2 + i] = d32[i]; }
    else NGA_Inquire64(s->h, &t, &nd, o + 2);
    o[0] = t == s->gt; o[1] = nd;
    if (GA_Ndim(s->h) != nd) drv_fail("GA_Ndim disagrees with inquire");
    drv_rec('i', o, 8 * (2 + nd));
}
static void op_memory(void) { int64_t o[3] = { (int64_t)GA_Inquire_memory(), GA_Memory_limited(), (int64_t)GA_Memory_avail() }; drv_rec('i', o, 24); }
static void op_memlimit(void) { GA_Set_memory_limit((size_t)drv_I()); }
/* chaos on p16 seed : adversarial delivery (chaos.c) ; chaosstat : operations held back and handed over so far */
extern void chaos_set(int on, int p16, uint64_t seed, int me); extern long chaos_held, chaos_flushed;
static void op_chaos(void) { int on = (int)drv_I(), p = (int)drv_I(); uint64_t s = (uint64_t)drv_I(); GA_Sync(); chaos_set(on, p, s, WME); }
static void op_chaosstat(void) { drv_rec_i2(chaos_held, chaos_flushed); }
/* embed n list : the rest of the program runs in a group of these processes, which is the default group */
static int EMBG;
static void op_embed(void) {
    int n = (int)drv_I(), l[64], me = -1; for (int i = 0; i < n; i++) { l[i] = (int)drv_I(); if (l[i] == WME) me = i; }
    EMBG = GA_Pgroup_create(l, n); EMB = 1; EMBIN = me >= 0; if (EMBIN) me = GA_Pgroup_nodeid(EMBG);
    if (EMBIN) { GA_Pgroup_set_default(EMBG); ME = me; NP = n; }
}
static void op_unembed(void) { if (EMBIN) GA_Pgroup_set_default(GA_Pgroup_get_world()); EMB = 0; EMBIN = 1; ME = WME; NP = WNP; }
static void emb_reset(void) { if (EMB) op_unembed(); }
static void emb_destroy(void) { if (EMBG) GA_Pgroup_destroy(EMBG); EMBG = 0; }
static void op_sync(void) { GA_Sync(); }
static void op_gsync(void) { int g = grp(); GA_Pgroup_sync(g); }
static void op_masksync(void) { int a = (int)drv_I(), b = (int)drv_I(); GA_Mask_sync(a, b); }
static void op_usleep(void) { usleep((int)drv_I()); }
static void op_spin(void) { volatile long x = 0; for (long n = drv_I(); n > 0; n--) x += n; }
static void op_mpibar(void) { MPI_Barrier(DCOMM); }

/* ---------------------------------------------------------------- whole-array fill and read-back */
static void op_init(void) {      /* init slot gen root : root puts the whole generated array */
    Slot *s = slot(); Gen g = rdgen(); int root = (int)drv_I(), nosync = root < 0; if (nosync) root = -1 - root;      /* root -1-r: by r, without the sync */
    int64_t n = 1, lo[7], hi[7];
    for (int i = 0; i < s->nd; i++) { n *= s->d[i]; lo[i] = 0; hi[i] = s->d[i] - 1; }
    if (ME == root) {
        char *b = malloc(n * s->es);
        for (int64_t k = 0; k < n; k++) genval(b + k * s->es, s->t, s->es, g, k);
        NGA_Put64(s->h, lo, hi, b, s->d + 1);
        free(b);
    }
    if (!nosync) GA_Sync();
}
static void op_dump(void) {
    Slot *s = slot(); int64_t n = 1, lo[7], hi[7], ld[7] = {1,1,1,1,1,1,1};
    for (int i = 0; i < s->nd; i++) { n *= s->d[i]; lo[i] = 0; hi[i] = s->d[i] - 1; }
    for (int i = 0; i < s->nd - 1; i++) ld[i] = s->d[i + 1];
    char *b = malloc(n * s->es + 1); memset(b, 0xA5, n * s->es);
    NGA_Get64(s->h, lo, hi, b, ld);
    drv_rec('b', b, n * s->es); free(b);
}
static void rec_local(Slot *s, int64_t *lo, int64_t *hi, char *p, int64_t *ld) {
    int nd = s->nd; int64_t m[14], n = 1, sz[7];
    for (int i = 0; i < nd; i++) { m[i] = lo[i]; m[nd + i] = hi[i]; sz[i] = hi[i] - lo[i] + 1; n *= sz[i]; }
    drv_rec('i', m, 16 * nd);
    char *pk = malloc(n * s->es + 1);
    for (int64_t k = 0; k < n; k++) {
        int64_t r = k, ix[7], off = 0;
        for (int i = nd - 1; i >= 0; i--) { ix[i] = r % sz[i]; r /= sz[i]; }
        for (int i = 0; i < nd; i++) off = (i ? off * ld[i - 1] : 0) + ix[i];
        memcpy(pk + k * s->es, p + off * s->es, s->es);
    }
    drv_rec('b', pk, n * s->es); free(pk);
}
/* ldump slot pid : the caller reads its own block by direct access (pid: its id in the array's group) */
static void op_ldump(void) {
    Slot *s = slot(); int64_t lo[7], hi[7], ld[7];
    int pg = GA_Get_pgroup(s->h), me = GA_Pgroup_nodeid(pg);
    NGA_Distribution64(s->h, me, lo, hi);
    int empty = 0; for (int i = 0; i < s->nd; i++) if (hi[i] < lo[i]) empty = 1;
    if (empty || lo[0] < 0) { drv_rec('i', "", 0); return; }
    char *p = 0; NGA_Access64(s->h, lo, hi, &p, ld);
    rec_local(s, lo, hi, p, ld);
    NGA_Release64(s->h, lo, hi);
}
/* blkdump slot mode idx/coords : read block by direct block access. mode 0: index, 1: grid */
static void op_blkdump(void) {
    Slot *s = slot(); int mode = (int)drv_I(), b32 = (int)drv_I(); int64_t lo[7], hi[7], ld[7], ix[7]; char *p = 0; int i32[7], ld32[7];
    int64_t idx = drv_I(); rdn(ix, s->nd);
    rdn(lo, s->nd); rdn(hi, s->nd); to32(i32, ix, s->nd);
    if (mode == 0) { if (b32) { NGA_Access_block(s->h, (int)idx, &p, ld32); for (int i = 0; i < s->nd - 1; i++) ld[i] = ld32[i]; } else NGA_Access_block64(s->h, idx, &p, ld); }
    else { if (b32) { NGA_Access_block_grid(s->h, i32, &p, ld32); for (int i = 0; i < s->nd - 1; i++) ld[i] = ld32[i]; } else NGA_Access_block_grid64(s->h, ix, &p, ld); }
    rec_local(s, lo, hi, p, ld);
    if (mode == 0) NGA_Release_block(s->h, (int)idx); else NGA_Release_block_grid(s->h, i32);
}
/* blkwrite slot mode idx coords lo hi gen : write the whole block through the block pointer */
static void op_blkwrite(void) {
    Slot *s = slot(); int mode = (int)drv_I(); int64_t lo[7], hi[7], ld[7], ix[7], sz[7], n = 1; char *p = 0; int i32[7];
    int64_t idx = drv_I(); rdn(ix, s->nd); rdn(lo, s->nd); rdn(hi, s->nd); to32(i32, ix, s->nd); Gen g = rdgen();
    if (mode == 0) NGA_Access_block64(s->h, idx, &p, ld); else NGA_Access_block_grid64(s->h, ix, &p, ld);
    for (int i = 0; i < s->nd; i++) { sz[i] = hi[i] - lo[i] + 1; n *= sz[i]; }
    for (int64_t k = 0; k < n; k++) {
        int64_t r = k, x[7], off = 0;
        for (int i = s->nd - 1; i >= 0; i--) { x[i] = r % sz[i]; r /= sz[i]; }
        for (int i = 0; i < s->nd; i++) off = (i ? off * ld[i - 1] : 0) + x[i];
        genval(p + off * s->es, s->t, s->es, g, k);
    }
    if (mode == 0) NGA_Release_update_block(s->h, (int)idx); else NGA_Release_update_block_grid(s->h, i32);
}
static void op_segdump(void) {      /* segment of block-cyclic data held by the caller */
    Slot *s = slot(); int b32 = (int)drv_I(); int64_t len = 0; int l32 = 0; char *p = 0;
    int me = GA_Pgroup_nodeid(GA_Get_pgroup(s->h));
    if (b32) { NGA_Access_block_segment(s->h, me, &p, &l32); len = l32; } else NGA_Access_block_segment64(s->h, me, &p, &len);
    drv_rec_i(len); drv_rec('b', p, len * s->es);
    NGA_Release_block_segment(s->h, me);
}
/* lwrite slot lo hi gen upd : write a patch inside the own block through the access pointer */
static void op_lwrite(void) {
    Slot *s = slot(); Patch p; rdpatch(&p, s->nd); Gen g = rdgen(); int b32 = (int)drv_I();
    char *q = 0; int64_t ld[7]; int ld32[7], n = 1;
    if (b32) { NGA_Access(s->h, p.lo32, p.hi32, &q, ld32); for (int i = 0; i < s->nd - 1; i++) ld[i] = ld32[i]; }
    else NGA_Access64(s->h, p.lo, p.hi, &q, ld);
    for (int i = 0; i < s->nd; i++) n *= (int)p.s[i];
    for (int64_t k = 0; k < n; k++) {
        int64_t r = k, x[7], off = 0;
        for (int i = s->nd - 1; i >= 0; i--) { x[i] = r % p.s[i]; r /= p.s[i]; }
        for (int i = 0; i < s->nd; i++) off = (i ? off * ld[i - 1] : 0) + x[i];
        genval(q + off * s->es, s->t, s->es, g, k);
    }
    if (b32) NGA_Release_update(s->h, p.lo32, p.hi32); else NGA_Release_update64(s->h, p.lo, p.hi);
}
static void op_lread(void) {
    Slot *s = slot(); Patch p; rdpatch(&p, s->nd); char *q = 0; int64_t ld[7];
    NGA_Access64(s->h, p.lo, p.hi, &q, ld); rec_local(s, p.lo, p.hi, q, ld); NGA_Release64(s->h, p.lo, p.hi);
}

static void op_syn(void) { SYNV = (int)drv_I(); }
static void ga_cleanup(void);
/* newprog : the arrays and groups of the program so far are given up */
static void op_newprog(void) { SYNV = 0; GA_Sync(); ga_cleanup(); GA_Sync(); }
extern void ga_put_(FI*, FI*, FI*, FI*, FI*, void*, FI*), ga_get_(FI*, FI*, FI*, FI*, FI*, void*, FI*), ga_acc_(FI*, FI*, FI*, FI*, FI*, void*, FI*, void*);
extern FI ga_read_inc_(FI*, FI*, FI*, FI*), ga_locate_(FI*, FI*, FI*, FI*), ga_locate_region_(FI*, FI*, FI*, FI*, FI*, FI*, FI*);
extern void ga_distribution_(FI*, FI*, FI*, FI*, FI*, FI*);
/* ---------------------------------------------------------------- one-sided */
/* put v slot lo hi ld gen */
static void op_put(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd); Gen g = rdgen();
    buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    switch (v) {
    case 0: NGA_Put(s->h, p.lo32, p.hi32, b.p, p.ld32); break;
    case 1: NGA_Put64(s->h, p.lo, p.hi, b.p, p.ld); break;
    case 2: if (F2D(v, s->nd)) ga_put_(&G, p.loF, p.hiF, p.loF + 1, p.hiF + 1, b.p, p.ldF); else nga_put_(&G, p.loF, p.hiF, b.p, p.ldF); break;
    default: cxx_put(s->h, v == 3, p.lo, p.hi, b.p, p.ld);
    }
    buf_unchanged(&b, "put"); buf_free(&b);
}
static void op_get(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd);
    buf_new(&b, s->nd, p.s, p.ld, s->es);
    switch (v) {
    case 0: NGA_Get(s->h, p.lo32, p.hi32, b.p, p.ld32); break;
    case 1: NGA_Get64(s->h, p.lo, p.hi, b.p, p.ld); break;
    case 2: if (F2D(v, s->nd)) ga_get_(&G, p.loF, p.hiF, p.loF + 1, p.hiF + 1, b.p, p.ldF); else nga_get_(&G, p.loF, p.hiF, b.p, p.ldF); break;
    default: cxx_get(s->h, v == 3, p.lo, p.hi, b.p, p.ld);
    }
    buf_out(&b, "get"); buf_free(&b);
}
static void op_acc(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd); Gen g = rdgen(); void *al = scal(s->t);
    buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    switch (v) {
    case 0: NGA_Acc(s->h, p.lo32, p.hi32, b.p, p.ld32, al); break;
    case 1: NGA_Acc64(s->h, p.lo, p.hi, b.p, p.ld, al); break;
    case 2: if (F2D(v, s->nd)) ga_acc_(&G, p.loF, p.hiF, p.loF + 1, p.hiF + 1, b.p, p.ldF, al); else nga_acc_(&G, p.loF, p.hiF, b.p, p.ldF, al); break;
    default: cxx_acc(s->h, v == 3, p.lo, p.hi, b.p, p.ld, al);
    }
    buf_unchanged(&b, "acc"); buf_free(&b);
}
/* strided: buffer is packed with ceil((hi-lo+1)/skip) elements per dimension */
static void rdskip(Patch *p, int nd, int64_t *sk, int *sk32, FI *skF) {
    rdn(sk, nd); to32(sk32, sk, nd); toF(skF, sk, nd, 0);
    for (int i = 0; i < nd; i++) p->s[i] = (p->hi[i] - p->lo[i]) / (sk[i] < 1 ? 1 : sk[i]) + 1;
}
static void op_sput(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h, skF[7]; int64_t sk[7]; int sk32[7];
    rdpatch(&p, s->nd); rdskip(&p, s->nd, sk, sk32, skF); rdld(&p, s->nd); Gen g = rdgen();
    buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    if (v == 0) NGA_Strided_put(s->h, p.lo32, p.hi32, sk32, b.p, p.ld32);
    else if (v == 1) NGA_Strided_put64(s->h, p.lo, p.hi, sk, b.p, p.ld);
    else nga_strided_put_(&G, p.loF, p.hiF, skF, b.p, p.ldF);
    buf_unchanged(&b, "strided put"); buf_free(&b);
}
static void op_sacc(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h, skF[7]; int64_t sk[7]; int sk32[7];
    rdpatch(&p, s->nd); rdskip(&p, s->nd, sk, sk32, skF); rdld(&p, s->nd); Gen g = rdgen(); void *al = scal(s->t);
    buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    if (v == 0) NGA_Strided_acc(s->h, p.lo32, p.hi32, sk32, b.p, p.ld32, al);
    else if (v == 1) NGA_Strided_acc64(s->h, p.lo, p.hi, sk, b.p, p.ld, al);
    else nga_strided_acc_(&G, p.loF, p.hiF, skF, b.p, p.ldF, al);
    buf_unchanged(&b, "strided acc"); buf_free(&b);
}
static void op_sget(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h, skF[7]; int64_t sk[7]; int sk32[7];
    rdpatch(&p, s->nd); rdskip(&p, s->nd, sk, sk32, skF); rdld(&p, s->nd);
    buf_new(&b, s->nd, p.s, p.ld, s->es);
    if (v == 0) NGA_Strided_get(s->h, p.lo32, p.hi32, sk32, b.p, p.ld32);
    else if (v == 1) NGA_Strided_get64(s->h, p.lo, p.hi, sk, b.p, p.ld);
    else nga_strided_get_(&G, p.loF, p.hiF, skF, b.p, p.ldF);
    buf_out(&b, "strided get"); buf_free(&b);
}
static void op_pput(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd); Gen g = rdgen();
    buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    if (v == 0) NGA_Periodic_put(s->h, p.lo32, p.hi32, b.p, p.ld32);
    else if (v == 1) NGA_Periodic_put64(s->h, p.lo, p.hi, b.p, p.ld);
    else nga_periodic_put_(&G, p.loF, p.hiF, b.p, p.ldF);
    buf_unchanged(&b, "periodic put"); buf_free(&b);
}
static void op_pacc(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd); Gen g = rdgen(); void *al = scal(s->t);
    buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    if (v == 0) NGA_Periodic_acc(s->h, p.lo32, p.hi32, b.p, p.ld32, al);
    else if (v == 1) NGA_Periodic_acc64(s->h, p.lo, p.hi, b.p, p.ld, al);
    else nga_periodic_acc_(&G, p.loF, p.hiF, b.p, p.ldF, al);
    buf_unchanged(&b, "periodic acc"); buf_free(&b);
}
static void op_pget(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; Buf b; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd);
    buf_new(&b, s->nd, p.s, p.ld, s->es);
    if (v == 0) NGA_Periodic_get(s->h, p.lo32, p.hi32, b.p, p.ld32);
    else if (v == 1) NGA_Periodic_get64(s->h, p.lo, p.hi, b.p, p.ld);
    else nga_periodic_get_(&G, p.loF, p.hiF, b.p, p.ldF);
    buf_out(&b, "periodic get"); buf_free(&b);
}
/* field: elements of fs bytes in the local buffer; gen bytes */
static void op_fput(void) {
    Slot *s = slot(); Patch p; Buf b; FI G = s->h; rdpatch(&p, s->nd); int fo = (int)drv_I(), fs = (int)drv_I(); rdld(&p, s->nd); Gen g = rdgen(); int nb = (int)drv_I();
    buf_new(&b, s->nd, p.s, p.ld, fs); buf_gen(&b, 100, g);
    if (nb == 2) { FI fF = fo, sF = fs; nga_put_field_(&G, p.loF, p.hiF, &fF, &sF, b.p, p.ldF); }
    else if (nb == 3) { FI fF = fo, sF = fs, h = 0; nga_nbput_field_(&G, p.loF, p.hiF, &fF, &sF, b.p, p.ldF, &h); nga_nbwait_(&h); }
    else if (nb) { ga_nbhdl_t h = 0; NGA_Nbput_field(s->h, p.lo32, p.hi32, fo, fs, b.p, p.ld32, &h); NGA_NbWait(&h); }
    else NGA_Put_field(s->h, p.lo32, p.hi32, fo, fs, b.p, p.ld32);
    buf_unchanged(&b, "field put"); buf_free(&b);
}
static void op_fget(void) {
    Slot *s = slot(); Patch p; Buf b; FI G = s->h; rdpatch(&p, s->nd); int fo = (int)drv_I(), fs = (int)drv_I(); rdld(&p, s->nd); int nb = (int)drv_I();
    buf_new(&b, s->nd, p.s, p.ld, fs);
    if (nb == 2) { FI fF = fo, sF = fs; nga_get_field_(&G, p.loF, p.hiF, &fF, &sF, b.p, p.ldF); }
    else if (nb == 3) { FI fF = fo, sF = fs, h = 0; nga_nbget_field_(&G, p.loF, p.hiF, &fF, &sF, b.p, p.ldF, &h); nga_nbwait_(&h); }
    else if (nb) { ga_nbhdl_t h = 0; NGA_Nbget_field(s->h, p.lo32, p.hi32, fo, fs, b.p, p.ld32, &h); NGA_NbWait(&h); }
    else NGA_Get_field(s->h, p.lo32, p.hi32, fo, fs, b.p, p.ld32);
    buf_out(&b, "field get"); buf_free(&b);
}

/* ---------------------------------------------------------------- non-blocking */
#define MAXNB 600
typedef struct { int st; ga_nbhdl_t h; Buf b; } Nb;      /* st: 0 free 1 put/acc 2 get */
static Nb NB[MAXNB];
static void nb_reset(void) {
    for (int i = 0; i < MAXNB; i++) if (NB[i].st) {
        if (NB[i].st != 9) NGA_NbWait(&NB[i].h);
        buf_free(&NB[i].b); NB[i].st = 0;
    }
}
static void op_nbput(void) {
    int v = (int)drv_I(); Nb *n = &NB[drv_I()]; Slot *s = slot(); Patch p; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd); Gen g = rdgen();
    buf_new(&n->b, s->nd, p.s, p.ld, s->es); buf_gen(&n->b, s->t, g); n->st = 1;
    if (v == 0) NGA_NbPut(s->h, p.lo32, p.hi32, n->b.p, p.ld32, &n->h);
    else if (v == 1) NGA_NbPut64(s->h, p.lo, p.hi, n->b.p, p.ld, &n->h);
    else nga_nbput_(&G, p.loF, p.hiF, n->b.p, p.ldF, (FI*)&n->h);
}
static void op_nbacc(void) {
    int v = (int)drv_I(); Nb *n = &NB[drv_I()]; Slot *s = slot(); Patch p; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd); Gen g = rdgen(); void *al = scal(s->t);
    buf_new(&n->b, s->nd, p.s, p.ld, s->es); buf_gen(&n->b, s->t, g); n->st = 1;
    if (v == 0) NGA_NbAcc(s->h, p.lo32, p.hi32, n->b.p, p.ld32, al, &n->h);
    else if (v == 1) NGA_NbAcc64(s->h, p.lo, p.hi, n->b.p, p.ld, al, &n->h);
    else nga_nbacc_(&G, p.loF, p.hiF, n->b.p, p.ldF, al, (FI*)&n->h);
}
static void op_nbget(void) {
    int v = (int)drv_I(); Nb *n = &NB[drv_I()]; Slot *s = slot(); Patch p; FI G = s->h;
    rdpatch(&p, s->nd); rdld(&p, s->nd);
    buf_new(&n->b, s->nd, p.s, p.ld, s->es); n->st = 2;
    if (v == 0) NGA_NbGet(s->h, p.lo32, p.hi32, n->b.p, p.ld32, &n->h);
    else if (v == 1) NGA_NbGet64(s->h, p.lo, p.hi, n->b.p, p.ld, &n->h);
    else nga_nbget_(&G, p.loF, p.hiF, n->b.p, p.ldF, (FI*)&n->h);
}
static void nb_done(Nb *n) { if (n->st == 2) buf_out(&n->b, "nbget"); else { buf_unchanged(&n->b, "nbput/nbacc"); } buf_free(&n->b); n->st = 0; }
static void op_nbwait(void) {      /* nbwait nb twice */
    Nb *n = &NB[drv_I()]; int tw = (int)drv_I();
    NGA_NbWait(&n->h); if (tw) NGA_NbWait(&n->h);
    nb_done(n);
}
static void op_nbtest(void) {      /* poll until complete; bounded only by the case timeout */
    Nb *n = &NB[drv_I()]; int more = (int)drv_I();
    while (NGA_NbTest(&n->h) == 0) { }
    if (more && NGA_NbTest(&n->h) == 0) drv_fail("test of a completed handle reports incomplete");
    nb_done(n);
}

/* ---------------------------------------------------------------- gather / scatter */
/* gather v slot n subs.. ; scatter v slot n subs.. gen ; scatacc v slot n subs.. gen alpha
 * v: 0 C32 ptr, 1 C64 ptr, 2 C32 flat, 3 C64 flat, 4 Fortran, 5 C++ */
static int64_t *GS; static int *GS32; static FI *GSF; static int64_t **GSP; static int **GSP32; static int GSN, GSND;
static void rdsubs(Slot *s) {
    int n = (int)drv_I(), nd = s->nd; GSN = n; GSND = nd;
    GS = malloc((n * nd + 1) * 8); GS32 = malloc((n * nd + 1) * 4); GSF = malloc((n * nd + 1) * 8);
    GSP = malloc((n + 1) * sizeof(void*)); GSP32 = malloc((n + 1) * sizeof(void*));
    rdn(GS, n * nd); to32(GS32, GS, n * nd);
    for (int i = 0; i < n; i++) { GSP[i] = GS + i * nd; GSP32[i] = GS32 + i * nd; toF(GSF + i * nd, GS + i * nd, nd, 1); }
}
static int64_t *GSC;
static void subs_save(void) { GSC = malloc((GSN * GSND + 1) * 8); memcpy(GSC, GS, GSN * GSND * 8); }
static void subs_chk(const char *w) {
    for (int i = 0; i < GSN * GSND; i++) if (GS[i] != GSC[i] || GS32[i] != GSC[i]) { drv_fail("%s modified the caller's subscripts", w); break; }
    for (int i = 0; i < GSN; i++) if (GSP[i] != GS + i * GSND || GSP32[i] != GS32 + i * GSND) { drv_fail("%s modified the caller's subscript pointers", w); break; }
    free(GSC); free(GS); free(GS32); free(GSF); free(GSP); free(GSP32);
}
static void op_gather(void) {
    int v = (int)drv_I(); Slot *s = slot(); rdsubs(s); subs_save(); Buf b; int64_t n = GSN; FI G = s->h, nF = n; buf_new(&b, 1, &n, 0, s->es);
    switch (v) {
    case 0: NGA_Gather(s->h, b.p, GSP32, GSN); break;
    case 1: NGA_Gather64(s->h, b.p, GSP, GSN); break;
    case 2: NGA_Gather_flat(s->h, b.p, GS32, GSN); break;
    case 3: NGA_Gather_flat64(s->h, b.p, GS, GSN); break;
    case 4: nga_gather_(&G, b.p, GSF, &nF); break;
    default: cxx_gatscat(s->h, 1, 0, b.p, GSP, GSN, 0);
    }
    buf_out(&b, "gather"); buf_free(&b); subs_chk("gather");
}
static void op_scatter(void) {
    int v = (int)drv_I(); Slot *s = slot(); rdsubs(s); subs_save(); Gen g = rdgen(); Buf b; int64_t n = GSN; FI G = s->h, nF = n; buf_new(&b, 1, &n, 0, s->es); buf_gen(&b, s->t, g);
    switch (v) {
    case 0: NGA_Scatter(s->h, b.p, GSP32, GSN); break;
    case 1: NGA_Scatter64(s->h, b.p, GSP, GSN); break;
    case 2: NGA_Scatter_flat(s->h, b.p, GS32, GSN); break;
    case 3: NGA_Scatter_flat64(s->h, b.p, GS, GSN); break;
    case 4: nga_scatter_(&G, b.p, GSF, &nF); break;
    default: cxx_gatscat(s->h, 1, 1, b.p, GSP, GSN, 0);
    }
    buf_unchanged(&b, "scatter"); buf_free(&b); subs_chk("scatter");
}
static void op_scatacc(void) {
    int v = (int)drv_I(); Slot *s = slot(); rdsubs(s); subs_save(); Gen g = rdgen(); void *al = scal(s->t); Buf b; int64_t n = GSN; FI G = s->h, nF = n; buf_new(&b, 1, &n, 0, s->es); buf_gen(&b, s->t, g);
    switch (v) {
    case 0: NGA_Scatter_acc(s->h, b.p, GSP32, GSN, al); break;
    case 1: NGA_Scatter_acc64(s->h, b.p, GSP, GSN, al); break;
    case 2: NGA_Scatter_acc_flat(s->h, b.p, GS32, GSN, al); break;
    case 3: NGA_Scatter_acc_flat64(s->h, b.p, GS, GSN, al); break;
    case 4: nga_scatter_acc_(&G, b.p, GSF, &nF, al); break;
    default: cxx_gatscat(s->h, 1, 2, b.p, GSP, GSN, al);
    }
    buf_unchanged(&b, "scatter_acc"); buf_free(&b); subs_chk("scatter_acc");
}
static void op_gsbuf(void) { NGA_Alloc_gatscat_buf((int)drv_I()); }
static void op_gsfree(void) { NGA_Free_gatscat_buf(); }

/* ---------------------------------------------------------------- counters, locks, fences */
/* readinc v slot n subs inc rec : n times, record the returned values */
static void op_readinc(void) {
    int v = (int)drv_I(); Slot *s = slot(); int n = (int)drv_I(); int64_t sub[7]; int s32[7]; FI sF[7], G = s->h;
    rdn(sub, s->nd); to32(s32, sub, s->nd); toF(sF, sub, s->nd, 1); FI inc = drv_I();
    int64_t *r = malloc((n + 1) * 8);
    for (int i = 0; i < n; i++) switch (v) {
        case 0: r[i] = NGA_Read_inc(s->h, s32, inc); break;
        case 1: r[i] = NGA_Read_inc64(s->h, sub, inc); break;
        case 2: r[i] = F2D(v, s->nd) ? ga_read_inc_(&G, sF, sF + 1, &inc) : nga_read_inc_(&G, sF, &inc); break;
        default: r[i] = cxx_readinc(s->h, v == 3, sub, inc);
    }
    drv_rec('i', r, n * 8); free(r);
}
static void op_mutexes(void) { int n = (int)drv_I(); drv_rec_i(GA_Create_mutexes(n)); NMUTEX = n; }
static void op_nomutexes(void) { drv_rec_i(GA_Destroy_mutexes()); NMUTEX = 0; }
static void op_lock(void) { GA_Lock((int)drv_I()); }
static void op_unlock(void) { GA_Unlock((int)drv_I()); }
static void op_initfence(void) { GA_Init_fence(); }
static void op_fence(void) { GA_Fence(); }
/* lockrmw mutex slot lo hi n how : n times { lock; get; add 1 to every element; put; fence; unlock } on a long array */
static void op_lockrmw(void) {
    int m = (int)drv_I(); Slot *s = slot(); Patch p; rdpatch(&p, s->nd); int n = (int)drv_I(), how = (int)drv_I(); int64_t c = 1, ld[7];
    for (int i = 0; i < s->nd; i++) c *= p.s[i]; for (int i = 0; i < s->nd - 1; i++) ld[i] = p.s[i + 1]; if (s->nd == 1) ld[0] = 1;
    long *b = malloc(c * 8);
    for (int k = 0; k < n; k++) {
        GA_Lock(m);
        NGA_Get64(s->h, p.lo, p.hi, b, ld);
        for (int64_t i = 0; i < c; i++) b[i] += 1;
        if (how & 2) usleep(20);
        GA_Init_fence();
        NGA_Put64(s->h, p.lo, p.hi, b, ld);
        GA_Fence();
        GA_Unlock(m);
    }
    free(b);
}
/* accn slot lo hi n gen alpha how : n repeated accumulates (how 1: nonblocking pairs) */
static void op_accn(void) {
    Slot *s = slot(); Patch p; rdpatch(&p, s->nd); rdld(&p, s->nd); int n = (int)drv_I(); Gen g = rdgen(); void *al = scal(s->t); int how = (int)drv_I();
    Buf b; buf_new(&b, s->nd, p.s, p.ld, s->es); buf_gen(&b, s->t, g);
    for (int k = 0; k < n; k++) {
        if (how == 1) { ga_nbhdl_t h = 0; NGA_NbAcc64(s->h, p.lo, p.hi, b.p, p.ld, al, &h); NGA_NbWait(&h); }
        else NGA_Acc64(s->h, p.lo, p.hi, b.p, p.ld, al);
    }
    buf_unchanged(&b, "acc"); buf_free(&b);
}
/* waitge slot sub val : spin with reads until the counter element reaches val */
static void op_waitge(void) {
    Slot *s = slot(); int64_t sub[7]; rdn(sub, s->nd); long val = drv_I(), x = 0;
    for (;;) { x = NGA_Read_inc64(s->h, sub, 0); if (x >= val) break; }
}

/* ---------------------------------------------------------------- distribution queries */
static void op_dists(void) {      /* lo/hi of every process as seen by the caller */
    int v = (int)drv_I(); Slot *s = slot(); int np = (int)drv_I(), nd = s->nd;
    int64_t *o = malloc((np * nd * 2 + 1) * 8);
    for (int p = 0; p < np; p++) {
        int64_t *lo = o + p * nd * 2, *hi = lo + nd;
        if (v == 0) { int a[7], b[7]; NGA_Distribution(s->h, p, a, b); for (int i = 0; i < nd; i++) { lo[i] = a[i]; hi[i] = b[i]; } }
        else if (v == 1) NGA_Distribution64(s->h, p, lo, hi);
        else { FI G = s->h, P = p, a[7], b[7]; if (F2D(v, nd)) ga_distribution_(&G, &P, a, b, a + 1, b + 1); else nga_distribution_(&G, &P, a, b); for (int i = 0; i < nd; i++) { lo[i] = a[nd-1-i] - 1; hi[i] = b[nd-1-i] - 1; } }
    }
    drv_rec('i', o, np * nd * 16); free(o);
}
static void op_locates(void) {      /* owner of each listed subscript */
    int v = (int)drv_I(); Slot *s = slot(); rdsubs(s); int64_t *o = malloc((GSN + 1) * 8);
    for (int i = 0; i < GSN; i++) {
        if (v == 0) o[i] = NGA_Locate(s->h, GSP32[i]); else if (v == 1) o[i] = NGA_Locate64(s->h, GSP[i]);
        else { FI G = s->h, ow = -1; FI ok = F2D(v, s->nd) ? ga_locate_(&G, GSF + i * 2, GSF + i * 2 + 1, &ow) : nga_locate_(&G, GSF + i * s->nd, &ow); o[i] = ok ? ow : -1; }
    }
    drv_rec('i', o, GSN * 8); free(o); free(GS); free(GS32); free(GSF); free(GSP); free(GSP32);
}
static void op_locreg(void) {      /* locreg v slot lo hi -> records map and procs; nnodes */
    int v = (int)drv_I(); Slot *s = slot(); Patch p; rdpatch(&p, s->nd); int nd = s->nd, cap = (int)drv_I() + 2, n;
    int64_t *map = malloc(cap * nd * 16); int *map32 = malloc(cap * nd * 8), *pr = malloc(cap * 4);
    if (v == 0) { n = NGA_Locate_region(s->h, p.lo32, p.hi32, map32, pr); for (int i = 0; i < n * nd * 2; i++) map[i] = map32[i]; }
    else n = NGA_Locate_region64(s->h, p.lo, p.hi, map, pr);
    int64_t *o = malloc((n + 1) * 8); for (int i = 0; i < n; i++) o[i] = pr[i];
    drv_rec('i', map, n * nd * 16); drv_rec('i', o, n * 8);
    free(map); free(map32); free(pr); free(o);
}
static void op_locnn(void) {
    int v = (int)drv_I(); Slot *s = slot(); Patch p; rdpatch(&p, s->nd);
    drv_rec_i(v == 0 ? NGA_Locate_nnodes(s->h, p.lo32, p.hi32) : NGA_Locate_nnodes64(s->h, p.lo, p.hi));
}
static void op_locnb(void) { Slot *s = slot(); Patch p; rdpatch(&p, s->nd); drv_rec_i(NGA_Locate_num_blocks(s->h, p.lo32, p.hi32)); }
static void op_nblock(void) { Slot *s = slot(); int nb[7]; int64_t o[7]; GA_Nblock(s->h, nb); for (int i = 0; i < s->nd; i++) o[i] = nb[i]; drv_rec('i', o, s->nd * 8); }
static void op_topo(void) {
    Slot *s = slot(); int np = (int)drv_I(); int64_t *o = malloc(np * s->nd * 8 + 8);
    for (int p = 0; p < np; p++) { int c[7]; NGA_Proc_topology(s->h, p, c); for (int i = 0; i < s->nd; i++) o[p * s->nd + i] = c[i]; }
    drv_rec('i', o, np * s->nd * 8); free(o);
}
static void op_blkinfo(void) {
    Slot *s = slot(); int nb[7], bd[7]; int64_t o[16]; GA_Get_block_info(s->h, nb, bd);
    for (int i = 0; i < s->nd; i++) { o[i] = nb[i]; o[s->nd + i] = bd[i]; }
    drv_rec('i', o, s->nd * 16); drv_rec_i2(GA_Total_blocks(s->h), GA_Uses_proc_grid(s->h));
}
static void op_procgrid(void) {
    Slot *s = slot(); int np = (int)drv_I(), d[7]; int64_t o[7], *x = malloc(np * 56 + 8); GA_Get_proc_grid(s->h, d);
    for (int i = 0; i < s->nd; i++) o[i] = d[i]; drv_rec('i', o, s->nd * 8);
    for (int p = 0; p < np; p++) { int c[7]; GA_Get_proc_index(s->h, p, c); for (int i = 0; i < s->nd; i++) x[p * s->nd + i] = c[i]; }
    drv_rec('i', x, np * s->nd * 8); free(x);
}
static void op_cmpdistr(void) { Slot *a = slot(), *b = slot(); drv_rec_i(GA_Compare_distr(a->h, b->h)); }
static void op_ids(void) { int64_t o[4] = { GA_Nodeid(), GA_Nnodes(), GA_Cluster_nnodes(), GA_Cluster_nodeid() }; drv_rec('i', o, 32); }
