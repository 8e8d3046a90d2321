/* ---------------------------------------------------------------- TCGMSG message passing */
#include "tcgmsg.h"
extern void snd_(FI*, void*, FI*, FI*, FI*), rcv_(FI*, void*, FI*, FI*, FI*, FI*, FI*), waitcom_(FI*), brdcst_(FI*, void*, FI*, FI*), synch_(FI*), setdbg_(FI*),
    igop_(FI*, FI*, FI*, char*, int), dgop_(FI*, double*, FI*, char*, int), pfcopy_(FI*, FI*, char*, int);
extern FI probe_(FI*, FI*), nxtval_(FI*), mdtob_(FI*), mdtoi_(FI*), mitob_(FI*), mitod_(FI*), nodeid_(void), nnodes_(void), tcgready_(void), mtime_(void);
extern double tcgtime_(void);
typedef struct { char *base; long cap, len, from; int snd, live; } Tmsg;
static Tmsg TM[256]; static int TNXT;
static void tcgup(void) {
    if (!tcg_ready()) { static char a0[] = "gadrv", *av[] = { a0, 0 }, **pv = av; int ac = 1; tcg_alt_pbegin(&ac, &pv); }
}
static double now_us(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e6 + t.tv_nsec / 1e3; }
static char *tbuf(long n) { char *b = malloc(n + 2 * GUARD); memset(b, 0xA5, n + 2 * GUARD); return b + GUARD; }
static void tguard(char *p, long n, const char *what) {
    for (int i = 0; i < GUARD; i++) if ((unsigned char)p[-1 - i] != 0xA5 || (unsigned char)p[n + i] != 0xA5) { drv_fail("%s wrote outside the caller's buffer", what); return; }
}
static void tfill(char *p, long n, unsigned long long seed) { for (long i = 0; i < n; i++) p[i] = (char)(drv_hash(seed, i) & 0xff); }
/* tcgsnd v key type len node sync seed usec : sync 1 blocks; otherwise the buffer stays in use until a wait */
static void op_tcgsnd(void) {
    tcgup(); int v = (int)drv_I(); Tmsg *m = &TM[drv_I()]; FI ty = drv_I(), n = drv_I(), node = drv_I(), sync = drv_I(); unsigned long long seed = drv_I(); long us = drv_I();
    if (us) usleep(us);
    char *p = tbuf(n); tfill(p, n, seed);
    if (v) snd_(&ty, p, &n, &node, &sync); else tcg_snd(ty, p, n, node, sync);
    if (sync) { tguard(p, n, "SND"); free(p - GUARD); }
    else { m->base = p; m->cap = n; m->snd = 1; m->live = 1; m->from = node; m->len = (long)seed; }
}
/* tcgrcv v key type cap select sync usec : blocking: length, source, bytes */
static void op_tcgrcv(void) {
    tcgup(); int v = (int)drv_I(); Tmsg *m = &TM[drv_I()]; FI ty = drv_I(), cap = drv_I(), sel = drv_I(), sync = drv_I(), len = -7, from = -7; long us = drv_I();
    if (us) usleep(us);
    char *p = tbuf(cap);
    if (v) rcv_(&ty, p, &cap, &len, &sel, &from, &sync); else tcg_rcv(ty, p, cap, &len, sel, &from, sync);
    if (sync) { drv_rec_i2(len, from); tguard(p, cap, "RCV"); drv_rec('b', p, len < 0 || len > cap ? 0 : len); free(p - GUARD); }
    else { m->base = p; m->cap = cap; m->snd = 0; m->live = 1; m->from = sel; }
}
/* tcgwait v node nkeys keys... : waits; then the buffers of the listed messages are examined: received bytes (whole capacity) recorded, sent ones overwritten */
static void op_tcgwait(void) {
    tcgup(); int v = (int)drv_I(); FI node = drv_I(); int n = (int)drv_I();
    if (v) waitcom_(&node); else tcg_waitcom(node);
    for (int i = 0; i < n; i++) {
        Tmsg *m = &TM[drv_I()];
        tguard(m->base, m->cap, m->snd ? "SND" : "RCV");
        if (m->snd) { memset(m->base, 0x5A, m->cap); }      /* the caller may reuse the buffer now */
        else drv_rec('b', m->base, m->cap);
        m->snd |= 2;
    }
}
/* tcgprobe v type node want : polls until the answer is as wanted, at most 20 s */
static void op_tcgprobe(void) {
    tcgup(); int v = (int)drv_I(); FI ty = drv_I(), node = drv_I(); long want = drv_I(), r; double t0 = now_us();
    for (;;) { r = v ? probe_(&ty, &node) : tcg_probe(ty, node); if (r == want || want == 0 || now_us() - t0 > 20e6) break; sched_yield(); }
    drv_rec_i(r);
}
/* tcgsync v type usec : entry and exit times */
static void op_tcgsync(void) {
    tcgup(); int v = (int)drv_I(); FI ty = drv_I(); long us = drv_I(); if (us) usleep(us);
    double t[2]; t[0] = now_us(); if (v) synch_(&ty); else tcg_synch(ty); t[1] = now_us(); drv_rec('d', t, sizeof t);
}
/* tcgbrd v type root len seed */
static void op_tcgbrd(void) {
    tcgup(); int v = (int)drv_I(); FI ty = drv_I(), root = drv_I(), n = drv_I(); unsigned long long seed = drv_I(); char *p = tbuf(n);
    if (ME == root) tfill(p, n, seed);
    if (v) brdcst_(&ty, p, &n, &root); else tcg_brdcst(ty, p, n, root);
    tguard(p, n, "BRDCST"); drv_rec('b', p, n); free(p - GUARD);
}
/* tcgop v kind op n seed lo span : every process contributes its own values */
static void op_tcgop(void) {
    tcgup(); int v = (int)drv_I(), kd = (int)drv_I(); char op[32]; snprintf(op, sizeof op, "%s", drv_S()); FI n = drv_I(), ty = 12; Gen g = rdgen(); g.seed += ME;
    int ol = (int)strlen(op); if (v) strcat(op, "  ");
    char *p = tbuf(n * 8);
    for (long i = 0; i < n; i++) genval(p + 8 * i, kd ? 4 : 1, 8, g, i);
    if (kd) { if (v) dgop_(&ty, (double*)p, &n, op, ol); else tcg_dgop(ty, (double*)p, n, op); }
    else { if (v) igop_(&ty, (FI*)p, &n, op, ol); else tcg_igop(ty, (long*)p, n, op); }
    tguard(p, n * 8, kd ? "DGOP" : "IGOP"); drv_rec('b', p, n * 8); free(p - GUARD);
}
/* tcgnxt v count usec : values obtained */
static void op_tcgnxt(void) {
    tcgup(); int v = (int)drv_I(), n = (int)drv_I(); long us = drv_I(); int64_t *o = malloc((n + 1) * 8); TNXT = 1;
    for (int i = 0; i < n; i++) { FI m = NP; if (us && i % 3 == 0) usleep(us); o[i] = (v + i) & 1 ? nxtval_(&m) : tcg_nxtval(m); }
    drv_rec('i', o, n * 8); free(o);
}
static void op_tcgnxt0(void) { tcgup(); FI m = -NP; if (drv_I()) nxtval_(&m); else tcg_nxtval(m); }
/* tcgpf v root len seed : file copy; own file's bytes */
static void op_tcgpf(void) {
    tcgup(); int v = (int)drv_I(); FI root = drv_I(), n = drv_I(), ty = 99; unsigned long long seed = drv_I(); char nm[64], fn[80];
    snprintf(nm, sizeof nm, "tcgpf_%d.dat", ME); unlink(nm);
    if (ME == root) { FILE *f = fopen(nm, "w"); char *p = tbuf(n); tfill(p, n, seed); fwrite(p, 1, n, f); fclose(f); free(p - GUARD); }
    else if (seed & 1) { FILE *f = fopen(nm, "w"); for (int i = 0; i < 70000; i++) fputc('x', f); fclose(f); }
    memset(fn, ' ', sizeof fn); memcpy(fn, nm, strlen(nm)); fn[strlen(nm) + 3] = '#';
    if (v) pfcopy_(&ty, &root, fn, (int)strlen(nm) + (int)(seed % 4)); else tcg_pfcopy(ty, root, nm);
    FILE *f = fopen(nm, "r"); if (!f) { drv_fail("the copied file does not exist"); return; }
    char *b = malloc(n + 100); size_t got = fread(b, 1, n + 100, f); fclose(f); unlink(nm);
    drv_rec('b', b, got); free(b);
}
/* tcginfo n : node, nodes, ready, byte conversions from C and Fortran; times never go backwards */
static void op_tcginfo(void) {
    tcgup(); FI n = drv_I(); int64_t o[14] = { tcg_nodeid(), nodeid_(), tcg_nnodes(), nnodes_(), tcg_ready(), tcgready_(), tcg_mdtob(n), mdtob_(&n), tcg_mdtoi(n), mdtoi_(&n), tcg_mitob(n), mitob_(&n), tcg_mitod(n), mitod_(&n) };
    drv_rec('i', o, sizeof o);
    double t0 = tcg_time(), w0 = now_us(), w1, t1; usleep(3000); t1 = tcgtime_(); w1 = now_us();
    if (t1 <= t0 || t1 - t0 > (w1 - w0) / 1e6 + 0.01 || t1 - t0 < 0.0025) drv_fail("elapsed time %g s for %g s", t1 - t0, (w1 - w0) / 1e6);
    long a = tcg_mtime(), b = mtime_(); if (b < a || b < (long)(t1 * 100) || b > (long)(t1 * 100) + 200) drv_fail("centisecond clock %ld then %ld, seconds %g", a, b, t1);
}
/* tcgrnd seed n : the generator restarted with the same seed gives the same numbers in [0,1) */
static void op_tcgrnd(void) {
    tcgup(); long s = (long)drv_I(); int n = (int)drv_I(), bad = 0, same = 1; double *x = malloc(n * 8);
    for (int k = 0; k < 2; k++) { tcg_srand48(s); for (int i = 0; i < n; i++) { double y = tcg_drand48(); if (k && y != x[i]) bad = 1; if (i && y != x[0]) same = 0; x[i] = y; if (y < 0 || y >= 1) bad = 2; } }
    if (bad || (n > 3 && same)) drv_fail("random numbers: %s", bad == 2 ? "outside [0,1)" : bad ? "not reproducible" : "constant"); free(x);
}
static void tcg_reset(void) {
    int any = 0; for (int i = 0; i < 256; i++) any |= TM[i].live && !(TM[i].snd & 2);
    if (any) tcg_waitcom(-1);
    for (int i = 0; i < 256; i++) if (TM[i].live) { free(TM[i].base - GUARD); TM[i].live = 0; TM[i].snd = 0; }
}
