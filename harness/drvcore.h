/* Implementation part of the core; included once per server. */
#include "drv.h"
#include <stdarg.h>
#include <errno.h>

int ME, NP, OPI;
static int WME, WNP, EMB, EMBIN = 1;      /* rank and size of the job; a program may run embedded in a process group, with group-relative ranks */
static MPI_Comm DCOMM;
static char *PROG, *PC;
static char *OUTB; static size_t OUTN, OUTC;
static int IN_FD = -1, OUT_FD = -1;

static void skipsp(void) { while (*PC == ' ') PC++; }
long long drv_I(void) { skipsp(); return strtoll(PC, &PC, 10); }
double drv_D(void) { skipsp(); return strtod(PC, &PC); }
static char TOKB[8][512]; static int TOKN;
const char *drv_S(void) {
    char *o = TOKB[TOKN++ & 7]; int n = 0; skipsp();
    while (*PC && *PC != ' ' && *PC != '\n' && n < 511) o[n++] = *PC++;
    o[n] = 0; return o;
}
static void outadd(const void *p, size_t n) {
    if (OUTN + n > OUTC) { OUTC = (OUTN + n) * 2 + 4096; OUTB = realloc(OUTB, OUTC); }
    memcpy(OUTB + OUTN, p, n); OUTN += n;
}
void drv_rec(char kind, const void *p, size_t n) {
    int32_t h[3] = { OPI, (WME << 8) | (unsigned char)kind, (int32_t)n };
    outadd(h, sizeof h); outadd(p, n);
}
void drv_rec_i(long long v) { int64_t x = v; drv_rec('i', &x, 8); }
void drv_rec_i2(long long a, long long b) { int64_t x[2] = {a, b}; drv_rec('i', x, 16); }
void drv_rec_d(double v) { drv_rec('d', &v, 8); }
void drv_fail(const char *fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > 599) n = 599;
    drv_rec('F', b, n);
}
uint64_t drv_hash(uint64_t seed, uint64_t k) {
    uint64_t z = seed * 0x9E3779B97F4A7C15ULL + (k + 1) * 0xD1B54A32D192ED03ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static void relax_wait(MPI_Request *rq) {
    int done = 0; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
        MPI_Test(rq, &done, MPI_STATUS_IGNORE);
        if (done) return;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        long us = (t1.tv_sec - t0.tv_sec) * 1000000L + (t1.tv_nsec - t0.tv_nsec) / 1000;
        if (us < 150) sched_yield(); else usleep(us < 3000 ? 30 : 300);
    }
}
static int rdall(int fd, void *p, size_t n) {
    char *c = p;
    while (n) { ssize_t r = read(fd, c, n); if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return 0; c += r; n -= r; }
    return 1;
}
static void wrall(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n) { ssize_t r = write(fd, c, n); if (r < 0 && errno == EINTR) continue;
        if (r <= 0) exit(3); c += r; n -= r; }
}

typedef struct { const char *name; void (*fn)(void); } drv_op;
static drv_op *OPS; static int NOPS;
static int opcmp(const void *a, const void *b) { return strcmp(((drv_op*)a)->name, ((drv_op*)b)->name); }
static void (*CASE_BEGIN)(void), (*CASE_END)(void), (*PRE_GATHER)(void);
static char OPNAME[64];
static volatile int TRAP; static jmp_buf TRAPJ; static char TRAPMSG[300];

static void run_program(void) {
    OPI = 0; PC = PROG;
    while (*PC) {
        /* "<mask> <op> args\n" ; mask -1 = every rank; prefix '!' on op = expect a diagnosed error */
        char *eol = strchr(PC, '\n');
        if (!eol) break;
        *eol = 0;
        long long mask = drv_I();
        const char *nm = drv_S();
        if (EMB && !EMBIN && strcmp(nm, "unembed") && strncmp(nm, "sess", 4)) mask = 0;
        if (EMB && !strncmp(nm, "sess", 4)) mask = -1;
        if (mask < 0 || ((mask >> ME) & 1)) {
            int trap = nm[0] == '!';
            drv_op k = { nm + trap, 0 }, *o = bsearch(&k, OPS, NOPS, sizeof *OPS, opcmp);
            if (!o) { fprintf(stderr, "harness: unknown op %s\n", nm); MPI_Abort(MPI_COMM_WORLD, 77); }
            strncpy(OPNAME, nm, 63);
            if (trap) {
                TRAP = 1;
                if (setjmp(TRAPJ) == 0) { o->fn(); TRAP = 0; drv_rec('n', "", 0); }
                else { TRAP = 0; drv_rec('E', TRAPMSG, strlen(TRAPMSG)); }
            } else o->fn();
        }
        *eol = '\n';
        PC = eol + 1; OPI++;
    }
    strcpy(OPNAME, "(end)");
}

static int drv_loop(void) {
    int cap = 0;
    for (;;) {
        int32_t n = -1;
        if (WME == 0) { if (!rdall(IN_FD, &n, 4)) n = -1; }
        MPI_Request rq;
        MPI_Ibcast(&n, 1, MPI_INT, 0, DCOMM, &rq); relax_wait(&rq);
        if (n < 0) return 0;
        if (n + 1 > cap) { cap = n * 2 + 1024; PROG = realloc(PROG, cap); }
        if (WME == 0 && !rdall(IN_FD, PROG, n)) n = 0;
        MPI_Bcast(PROG, n, MPI_CHAR, 0, DCOMM);
        PROG[n] = 0; OUTN = 0;
        if (CASE_BEGIN) CASE_BEGIN();
        run_program();
        OPI = 1 << 20;
        if (CASE_END) CASE_END();
        if (PRE_GATHER) PRE_GATHER();
        int sz = (int)OUTN, *szs = malloc(WNP * sizeof(int)), *dsp = malloc(WNP * sizeof(int));
        MPI_Gather(&sz, 1, MPI_INT, szs, 1, MPI_INT, 0, DCOMM);
        int tot = 0; char *all = 0;
        if (WME == 0) { for (int i = 0; i < WNP; i++) { dsp[i] = tot; tot += szs[i]; } all = malloc(tot + 1); }
        MPI_Gatherv(OUTB, sz, MPI_CHAR, all, szs, dsp, MPI_CHAR, 0, DCOMM);
        if (WME == 0) { int32_t t = tot; wrall(OUT_FD, &t, 4); wrall(OUT_FD, all, tot); free(all); }
        free(szs); free(dsp);
    }
}
static void drv_open(int argc, char **argv) {
    if (WME == 0) {
        IN_FD = open(argv[1], O_RDONLY); OUT_FD = open(argv[2], O_WRONLY);
        if (IN_FD < 0 || OUT_FD < 0) { perror("fifo"); MPI_Abort(MPI_COMM_WORLD, 78); }
    }
}
