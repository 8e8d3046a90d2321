/* ---------------------------------------------------------------- disk resident arrays */
#include "dra.h"
#include "eaf.h"
#include "sf.h"
extern int NDRA_Create_config(int type, int ndim, dra_size_t dims[], char *name, char *filename, int mode, dra_size_t reqdims[], int numfiles, int ioprocs, int *d_a);
extern FI dra_create_(FI*, FI*, FI*, char*, char*, FI*, FI*, FI*, FI*, int, int), ndra_create_(FI*, FI*, FI*, char*, char*, FI*, FI*, FI*, int, int),
    ndra_create_config_(FI*, FI*, FI*, char*, char*, FI*, FI*, FI*, FI*, FI*, int, int), dra_open_(char*, FI*, FI*, int), dra_close_(FI*), dra_delete_(FI*), dra_wait_(FI*), dra_probe_(FI*, FI*),
    ndra_write_(FI*, FI*, FI*), ndra_read_(FI*, FI*, FI*), ndra_write_section_(FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*), ndra_read_section_(FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*),
    dra_write_(FI*, FI*, FI*), dra_read_(FI*, FI*, FI*), dra_write_section_(FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*), dra_read_section_(FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*, FI*),
    ndra_inquire_(FI*, FI*, FI*, FI*, char*, char*, int, int), dra_inquire_(FI*, FI*, FI*, FI*, char*, char*, int, int);
extern void dra_flick_(void), dra_set_default_config_(FI*, FI*);
typedef struct { int h, live, t, nd; int64_t d[7]; } Dra;
static Dra DR[16]; static int DRAUP, DREQ[16], DREQL[16];
static char PFN[32][64]; static int NPFN;
static void pfile(const char *n) { for (int i = 0; i < NPFN; i++) if (!strcmp(PFN[i], n)) return; if (NPFN < 32) snprintf(PFN[NPFN++], 64, "%s", n); }
static const int FTY[] = { MT_F_INT, MT_F_INT, 0, MT_F_REAL, MT_F_DBL, MT_F_SCPL, MT_F_DCPL };
/* drainit n */
static void op_drainit(void) { drv_rec_i(DRA_Init((int)drv_I(), -1.0, -1.0, -1.0)); DRAUP = 1; }
static void op_draterm(void) { drv_rec_i(DRA_Terminate()); DRAUP = 0; }
/* dradefcfg v files procs */
static void op_dradefcfg(void) { int v = (int)drv_I(); FI a = drv_I(), b = drv_I(); if (v) dra_set_default_config_(&a, &b); else DRA_Set_default_config((int)a, (int)b); }
/* dracreate v d t nd dims reqdims files procs mode name file : v 0 C, 1 C with configuration, 2/3 the same in Fortran, 4 Fortran 2-d */
static void op_dracreate(void) {
    int v = (int)drv_I(); Dra *d = &DR[drv_I()]; int t = (int)drv_I(), nd = (int)drv_I(); int64_t dm[7], rq[7]; rdn(dm, nd); rdn(rq, nd);
    FI nf = drv_I(), np = drv_I(), mode = drv_I(); char name[128], file[64]; snprintf(name, sizeof name, "%s", drv_S()); snprintf(file, sizeof file, "%s", drv_S());
    dra_size_t cd[7], cr[7]; FI fd[7], fr[7], T = FTY[t], N = nd, D = 0; int h = 0, rc;
    for (int i = 0; i < nd; i++) { cd[i] = dm[i]; cr[i] = rq[i]; }
    toF(fd, dm, nd, 0); toF(fr, rq, nd, 0);
    pfile(file);
    if (v == 0) rc = NDRA_Create(TYS[t], nd, cd, name, file, (int)mode, cr, &h);
    else if (v == 1) rc = NDRA_Create_config(TYS[t], nd, cd, name, file, (int)mode, cr, (int)nf, (int)np, &h);
    else {
        char fn[128], ff[80]; memset(fn, ' ', sizeof fn); memset(ff, ' ', sizeof ff); memcpy(fn, name, strlen(name)); memcpy(ff, file, strlen(file));
        int ln = (int)strlen(name) + (int)(dm[0] % 3), lf = (int)strlen(file) + (int)(dm[0] % 4);
        if (v == 2) rc = (int)ndra_create_(&T, &N, fd, fn, ff, &mode, fr, &D, ln, lf);
        else if (v == 3) rc = (int)ndra_create_config_(&T, &N, fd, fn, ff, &mode, fr, &nf, &np, &D, ln, lf);
        else rc = (int)dra_create_(&T, fd, fd + 1, fn, ff, &mode, fr, fr + 1, &D, ln, lf);
        h = (int)D;
    }
    d->h = h; d->live = 1; d->t = t; d->nd = nd; memcpy(d->d, dm, sizeof dm);
    drv_rec_i(rc);
}
/* draopen v d t nd dims mode file ; dims as created, 'd' becomes live when the result is 0 */
static void op_draopen(void) {
    int v = (int)drv_I(); Dra *d = &DR[drv_I()]; int t = (int)drv_I(), nd = (int)drv_I(); int64_t dm[7]; rdn(dm, nd); FI mode = drv_I(), D = 0; char file[80];
    memset(file, ' ', sizeof file); const char *f = drv_S(); int h = 0, rc;
    memcpy(file, f, strlen(f));
    if (v) { rc = (int)dra_open_(file, &mode, &D, (int)strlen(f) + (int)(dm[0] % 4)); h = (int)D; }
    else { file[strlen(f)] = 0; rc = DRA_Open(file, (int)mode, &h); }
    if (!rc) { d->h = h; d->live = 1; d->t = t; d->nd = nd; memcpy(d->d, dm, sizeof dm); }
    drv_rec_i(rc);
}
/* drainq v d : result, type ok, ndim, dims ; name ; file */
static void op_drainq(void) {
    int v = (int)drv_I(); Dra *d = &DR[drv_I()]; char name[200], file[300]; int64_t o[10]; memset(name, 0, sizeof name); memset(file, 0, sizeof file);
    if (v == 0) {
        int t, nd; dra_size_t dm[7]; o[0] = NDRA_Inquire(d->h, &t, &nd, dm, name, file); o[1] = t == TYS[d->t]; o[2] = nd; for (int i = 0; i < nd; i++) o[3 + i] = dm[i];
    } else {
        FI H = d->h, t, nd, dm[7]; memset(name, 'x', 199); memset(file, 'x', 299);
        if (v == 2) { nd = 2; o[0] = dra_inquire_(&H, &t, dm, dm + 1, name, file, 80, 255); } else o[0] = ndra_inquire_(&H, &t, &nd, dm, name, file, 80, 255);
        o[1] = t == FTY[d->t] || t == TYS[d->t] || (d->t == 0 && t == -1); o[2] = nd; for (int i = 0; i < nd; i++) o[3 + i] = dm[nd - 1 - i];
        for (int i = 79; i >= 0 && name[i] == ' '; i--) name[i] = 0; name[80] = 0;
        for (int i = 254; i >= 0 && file[i] == ' '; i--) file[i] = 0; file[255] = 0;
    }
    drv_rec('i', o, 8 * (3 + d->nd)); drv_rec('s', name, strlen(name)); drv_rec('s', file, strlen(file));
}
/* drawhole v rd d slot req : v 0 C, 1 Fortran, 2 Fortran 2-d */
static void op_drawhole(void) {
    int v = (int)drv_I(), rd = (int)drv_I(); Dra *d = &DR[drv_I()]; Slot *s = slot(); int q = (int)drv_I(), rc; FI G = s->h, D = d->h, R = -1; int r = -1;
    if (v == 0) rc = rd ? NDRA_Read(s->h, d->h, &r) : NDRA_Write(s->h, d->h, &r);
    else { rc = (int)(v == 2 ? (rd ? dra_read_ : dra_write_)(&G, &D, &R) : (rd ? ndra_read_ : ndra_write_)(&G, &D, &R)); r = (int)R; }
    DREQ[q] = r; DREQL[q] = 1; drv_rec_i(rc);
}
/* drasec v rd transp d slot req glo ghi dlo dhi */
static void op_drasec(void) {
    int v = (int)drv_I(), rd = (int)drv_I(); FI tr = drv_I(); Dra *d = &DR[drv_I()]; Slot *s = slot(); int q = (int)drv_I(), rc, nd = s->nd; Patch g, p;
    rdpatch(&g, nd); rdpatch(&p, nd); FI G = s->h, D = d->h, R = -1; int r = -1;
    if (v == 0) {
        dra_size_t dl[7], dh[7]; for (int i = 0; i < nd; i++) { dl[i] = p.lo[i]; dh[i] = p.hi[i]; }
        rc = rd ? NDRA_Read_section((logical)tr, s->h, g.lo32, g.hi32, d->h, dl, dh, &r) : NDRA_Write_section((logical)tr, s->h, g.lo32, g.hi32, d->h, dl, dh, &r);
    } else {
        if (v == 2) rc = (int)(rd ? dra_read_section_ : dra_write_section_)(&tr, &G, g.loF, g.hiF, g.loF + 1, g.hiF + 1, &D, p.loF, p.hiF, p.loF + 1, p.hiF + 1, &R);
        else rc = (int)(rd ? ndra_read_section_ : ndra_write_section_)(&tr, &G, g.loF, g.hiF, &D, p.loF, p.hiF, &R);
        r = (int)R;
    }
    DREQ[q] = r; DREQL[q] = 1; drv_rec_i(rc);
}
static void op_drawait(void) { int v = (int)drv_I(), q = (int)drv_I(); FI R = DREQ[q]; drv_rec_i(v ? (int)dra_wait_(&R) : DRA_Wait(DREQ[q])); DREQL[q] = 0; }
/* draprobe v req : probes until the request is complete */
static void op_draprobe(void) {
    int v = (int)drv_I(), q = (int)drv_I(), n = 0, st = 7, rc; FI R = DREQ[q], S = 7; double t0 = MPI_Wtime();
    for (;;) {
        if (v) { rc = (int)dra_probe_(&R, &S); st = (int)S; } else rc = DRA_Probe(DREQ[q], &st);
        n++;
        if (rc || st == ELIO_DONE) break;
        int late = MPI_Wtime() - t0 > 20, any; MPI_Allreduce(&late, &any, 1, MPI_INT, MPI_MAX, DCOMM);
        if (any) { drv_fail("a disk array request does not complete when probed"); break; }
    }
    drv_rec_i(rc); DREQL[q] = 0;
}
/* draprobe1 v req : one probe, the request stays open */
static void op_draprobe1(void) { int v = (int)drv_I(), q = (int)drv_I(), st = 7; FI R = DREQ[q], S = 7; drv_rec_i(v ? (int)dra_probe_(&R, &S) : DRA_Probe(DREQ[q], &st)); }
static void op_draflick(void) { if (drv_I()) dra_flick_(); else DRA_Flick(); }
static void op_draclose(void) { int v = (int)drv_I(); Dra *d = &DR[drv_I()]; FI D = d->h; drv_rec_i(v ? (int)dra_close_(&D) : DRA_Close(d->h)); d->live = 0; }
static void op_dradelete(void) { int v = (int)drv_I(); Dra *d = &DR[drv_I()]; FI D = d->h; drv_rec_i(v ? (int)dra_delete_(&D) : DRA_Delete(d->h)); d->live = 0; }
/* fexist name : how many of name, name.info, name.0 .. name.15 exist */
static void op_fexist(void) {
    const char *n = drv_S(); char b[128]; int k = access(n, F_OK) == 0; snprintf(b, sizeof b, "%s.info", n); k += access(b, F_OK) == 0;
    for (int i = 0; i < 16; i++) { snprintf(b, sizeof b, "%s.%d", n, i); k += access(b, F_OK) == 0; }
    drv_rec_i(k);
}

/* ---------------------------------------------------------------- exclusive access files: one file per process unless masked */
extern FI eaf_open_(char*, FI*, FI*, int), eaf_close_(FI*), eaf_write_(FI*, double*, const void*, FI*), eaf_awrite_(FI*, double*, const void*, FI*, FI*), eaf_read_(FI*, double*, void*, FI*),
    eaf_aread_(FI*, double*, void*, FI*, FI*), eaf_wait_(FI*, FI*), eaf_probe_(FI*, FI*), eaf_truncate_(FI*, double*), eaf_length_(FI*, double*), eaf_delete_(char*, int), eaf_eof_(FI*), eaf_stat_(char*, FI*, char*, int, int);
extern void eaf_errmsg_(FI*, char*, int);
static int EFD[16], ELIVE[16];
typedef struct { char *base, *copy; int64_t n; int rd, fd, id, live; } Io;
static Io IOQ[64];
static void io_new(Io *q, int64_t n, int rd, uint64_t seed, int64_t skip) {
    q->n = n; q->rd = rd; q->base = malloc(n + 2 * GUARD); memset(q->base, 0xA5, n + 2 * GUARD); q->live = 1; q->id = 0;
    if (!rd) for (int64_t i = 0; i < n; i++) q->base[GUARD + i] = (char)drv_hash(seed, (uint64_t)(i + skip));
    q->copy = malloc(n + 2 * GUARD); memcpy(q->copy, q->base, n + 2 * GUARD);
}
static void io_done(Io *q, int rec) {
    if (memcmp(q->base, q->copy, GUARD) || memcmp(q->base + GUARD + q->n, q->copy + GUARD + q->n, GUARD)) drv_fail("the request wrote outside the caller's buffer");
    if (!q->rd && memcmp(q->base, q->copy, q->n + 2 * GUARD)) drv_fail("a write request modified the caller's buffer");
    if (q->rd && rec) drv_rec('b', q->base + GUARD, q->n);
    free(q->base); free(q->copy); q->live = 0;
}
static char *pname(int per) { static char b[64]; const char *n = drv_S(); if (per) snprintf(b, sizeof b, "%s_%d", n, WME); else snprintf(b, sizeof b, "%s", n); pfile(b); return b; }
static void efdcode(int rc) {      /* zero or not, and what the library says about the code */
    char m[200]; memset(m, 0, sizeof m); int eof; FI C = rc;
    if (rc % 2) { eaf_errmsg_(&C, m, 80); eof = (int)eaf_eof_(&C); } else { EAF_Errmsg(rc, m); eof = EAF_Eof(rc); }
    if (rc && !m[0]) drv_fail("no message for error code %d", rc);
    int64_t o[2] = { rc != 0, rc && eof == 0 }; drv_rec('i', o, 16);
}
/* eafopen v f per type name */
static void op_eafopen(void) {
    int v = (int)drv_I(), f = (int)drv_I(), per = (int)drv_I(), rc; FI type = drv_I(), F = -1; char *n = pname(per); int fd = -1;
    if (v) { char b[80]; memset(b, ' ', 80); memcpy(b, n, strlen(n)); rc = (int)eaf_open_(b, &type, &F, (int)strlen(n) + 3); fd = (int)F; } else rc = EAF_Open(n, (int)type, &fd);
    if (!rc) { EFD[f] = fd; ELIVE[f] = 1; }
    efdcode(rc);
}
/* eafio v rd async f off n seed q : off and n in bytes; the data of rank r use seed + r */
static void op_eafio(void) {
    int v = (int)drv_I(), rd = (int)drv_I(), as = (int)drv_I(), f = (int)drv_I(); double off = drv_D(); int64_t n = drv_I(); uint64_t seed = (uint64_t)drv_I() + WME; Io *q = &IOQ[drv_I()];
    FI F = f < 0 ? 900 : EFD[f], N = n, R = 0; int rc, r = 0; io_new(q, n, rd, seed, 0); q->fd = (int)F; void *b = q->base + GUARD;
    if (v) rc = (int)(as ? (rd ? eaf_aread_(&F, &off, b, &N, &R) : eaf_awrite_(&F, &off, b, &N, &R)) : rd ? eaf_read_(&F, &off, b, &N) : eaf_write_(&F, &off, b, &N));
    else rc = as ? (rd ? EAF_Aread((int)F, off, b, n, &r) : EAF_Awrite((int)F, off, b, n, &r)) : rd ? EAF_Read((int)F, off, b, n) : EAF_Write((int)F, off, b, n);
    q->id = v ? (int)R : r;
    efdcode(rc);
    if (!as || rc) io_done(q, !rc);
}
/* eafwait v q probe : probe 1 uses EAF_Probe until complete first */
static void op_eafwait(void) {
    int v = (int)drv_I(); Io *q = &IOQ[drv_I()]; int pr = (int)drv_I(), rc; FI F = q->fd, R = q->id, S;
    if (!q->live) { drv_fail("no such request (an earlier call failed)"); return; }
    if (pr) {
        int n = 0, st = 5;
        do { if (v) { rc = (int)eaf_probe_(&R, &S); st = (int)S; } else rc = EAF_Probe(q->id, &st); n++; } while (!rc && st && n < 1000000);
        if (rc || st) drv_fail("EAF_Probe reports code %d, status %d for a request", rc, st);
    }
    rc = v ? (int)eaf_wait_(&F, &R) : EAF_Wait(q->fd, q->id);
    efdcode(rc); io_done(q, 1);
}
static void op_eaflen(void) { int v = (int)drv_I(), f = (int)drv_I(); FI F = f < 0 ? 900 : EFD[f]; double l = -1; efdcode(v ? (int)eaf_length_(&F, &l) : EAF_Length((int)F, &l)); drv_rec_d(l); }
static void op_eaftrunc(void) { int v = (int)drv_I(), f = (int)drv_I(); double l = drv_D(); FI F = f < 0 ? 900 : EFD[f]; efdcode(v ? (int)eaf_truncate_(&F, &l) : EAF_Truncate((int)F, l)); }
static void op_eafclose(void) { int v = (int)drv_I(), f = (int)drv_I(); FI F = f < 0 ? 900 : EFD[f]; efdcode(v ? (int)eaf_close_(&F) : EAF_Close((int)F)); if (f >= 0) ELIVE[f] = 0; }
static void op_eafdelete(void) {
    int v = (int)drv_I(), per = (int)drv_I(); char *n = pname(per); int rc;
    if (v) { char b[80]; memset(b, ' ', 80); memcpy(b, n, strlen(n)); rc = (int)eaf_delete_(b, (int)strlen(n) + 2); } else rc = EAF_Delete(n);
    efdcode(rc); drv_rec_i(access(n, F_OK) == 0);
}
static void op_eafstat(void) {
    int v = (int)drv_I(), rc; char fs[32]; memset(fs, 0, 32); long kb = -1; FI K = -1;
    if (v) { rc = (int)eaf_stat_(strdup("./"), &K, fs, 2, 20); kb = K; } else rc = EAF_Stat("./", &kb, fs, 20);
    efdcode(rc); drv_rec_i2(kb >= 0, fs[0] != 0);
}

/* ---------------------------------------------------------------- shared files */
extern FI sf_create_(char*, double*, double*, double*, FI*, int), sf_create_suffix_(char*, double*, double*, double*, FI*, FI*, int), sf_destroy_(FI*), sf_rwtor_(FI*), sf_open_(FI*), sf_close_(FI*), sf_fsync_(FI*),
    sf_write_(FI*, double*, double*, char*, FI*), sf_read_(FI*, double*, double*, char*, FI*), sf_wait_(FI*), sf_waitall_(FI*, FI*);
static int SFH[16], SFL[16];
/* sfcreate v f suffix name */
static void op_sfcreate(void) {
    int v = (int)drv_I(), f = (int)drv_I(), sx = (int)drv_I(), h = 0, rc; char n[64], b[80]; snprintf(n, 64, "%s", drv_S()); double hd = 1e7, so = 1e6, rq = 1e4; FI H = 0, X = sx;
    memset(b, ' ', 80); memcpy(b, n, strlen(n));
    if (v) { rc = (int)(sx < 0 ? sf_create_(b, &hd, &so, &rq, &H, (int)strlen(n) + 3) : sf_create_suffix_(b, &hd, &so, &rq, &H, &X, (int)strlen(n) + 1)); h = (int)H; }
    else rc = sx < 0 ? SF_Create(n, hd, so, rq, &h) : SF_Create_suffix(n, hd, so, rq, &h, sx);
    SFH[f] = h; SFL[f] = 1; drv_rec_i(rc);
}
/* sfio v rd f off n seed q : every process at its own offset: off + rank * n */
static void op_sfio(void) {
    int v = (int)drv_I(), rd = (int)drv_I(), f = (int)drv_I(); double off = drv_D(), n = drv_D(); uint64_t seed = (uint64_t)drv_I(); Io *q = &IOQ[drv_I()]; int64_t shift = drv_I();
    off += (double)((WME + shift) % WNP) * n; io_new(q, (int64_t)n, rd, seed, (int64_t)n * ((WME + shift) % WNP)); FI F = SFH[f], R = 0; int r = 0, rc;
    if (v) { rc = (int)(rd ? sf_read_ : sf_write_)(&F, &off, &n, q->base + GUARD, &R); r = (int)R; } else rc = (rd ? SF_Read : SF_Write)(SFH[f], off, n, q->base + GUARD, &r);
    q->id = r; drv_rec_i(rc); if (rc) io_done(q, 0);
}
/* sfwait v n q.. */
static void op_sfwait(void) {
    int v = (int)drv_I(), n = (int)drv_I(), l[64], rc; FI L[64], N = n; Io *q[64];
    for (int i = 0; i < n; i++) { q[i] = &IOQ[drv_I()]; if (!q[i]->live) { drv_fail("no such request (an earlier call failed)"); return; } l[i] = q[i]->id; L[i] = l[i]; }
    rc = v & 2 || n != 1 ? (v & 1 ? (int)sf_waitall_(L, &N) : SF_Waitall(l, n)) : v & 1 ? (int)sf_wait_(L) : SF_Wait(l);
    drv_rec_i(rc); for (int i = 0; i < n; i++) io_done(q[i], 1);
}
/* sfctl v what f : 0 close, 1 open, 2 rwtor, 3 destroy, 4 fsync */
static void op_sfctl(void) {
    int v = (int)drv_I(), w = (int)drv_I(), f = (int)drv_I(), h = SFH[f]; FI H = h;
    int rc = w == 0 ? (v ? (int)sf_close_(&H) : SF_Close(h)) : w == 1 ? (v ? (int)sf_open_(&H) : SF_Open(h)) : w == 2 ? (v ? (int)sf_rwtor_(&H) : SF_Rwtor(h))
        : w == 3 ? (v ? (int)sf_destroy_(&H) : SF_Destroy(h)) : (v ? (int)sf_fsync_(&H) : SF_Fsync(h));
    if (w == 3) SFL[f] = 0; if (w == 0) SFL[f] = 2; if (w == 1 || w == 2) SFL[f] = 1;
    drv_rec_i(rc);
}
static void pario_reset(void) {
    for (int i = 0; i < 16; i++) if (DREQL[i]) { DRA_Wait(DREQ[i]); DREQL[i] = 0; }
    for (int i = 0; i < 16; i++) if (DR[i].live) { DRA_Close(DR[i].h); DR[i].live = 0; }
    if (DRAUP) { DRA_Terminate(); DRAUP = 0; }
    for (int i = 0; i < 64; i++) if (IOQ[i].live) { free(IOQ[i].base); free(IOQ[i].copy); IOQ[i].live = 0; }
    for (int i = 0; i < 16; i++) if (ELIVE[i]) { EAF_Close(EFD[i]); ELIVE[i] = 0; }
    for (int i = 0; i < 16; i++) if (SFL[i]) { if (SFL[i] == 2) SF_Open(SFH[i]); SF_Destroy(SFH[i]); SFL[i] = 0; }
    if (NPFN) GA_Sync();
    for (int i = 0; i < NPFN; i++) {
        char b[128]; EAF_Delete(PFN[i]); unlink(PFN[i]); snprintf(b, sizeof b, "%s.info", PFN[i]); unlink(b);
        for (int k = 0; k < 16; k++) { snprintf(b, sizeof b, "%s.%d", PFN[i], k); unlink(b); }
    }
    NPFN = 0;
}
