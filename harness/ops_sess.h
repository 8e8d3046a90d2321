/* ---------------------------------------------------------------- sessions: the library is initialised and terminated repeatedly (GADRV_NOINIT) */
#include <dirent.h>
static int NOINIT, SESS, SCOL = -1;     /* SESS: this process is inside a session */
static MPI_Comm SCOMM = MPI_COMM_NULL;
extern int ARMCI_Initialized(void);
/* session kind limit ncol then per colour: n members.. : kind 0 initialise, 1 with limit, 2 over communicators, 3 with arguments */
static void op_session(void) {
    int kind = (int)drv_I(); long long lim = drv_I(); int nc = (int)drv_I(), n = 0, l[64], me = -1; int64_t o[12]; memset(o, 0, sizeof o);
    SCOL = -1;
    for (int c = 0; c < nc; c++) {
        int m = (int)drv_I(), t[64], in = -1;
        for (int i = 0; i < m; i++) { t[i] = (int)drv_I(); if (t[i] == WME) in = i; }
        if (in >= 0) { SCOL = c; n = m; memcpy(l, t, sizeof l); me = in; }
    }
    EMB = 1; EMBIN = 0;
    if (SCOL < 0) { o[0] = -1; o[1] = GA_Initialized(); drv_rec('i', o, sizeof o); return; }
    o[1] = GA_Initialized() + NGA_Initialized() + ARMCI_Initialized();
    if (kind == 2) {
        MPI_Group w, g; MPI_Comm_group(DCOMM, &w); MPI_Group_incl(w, n, l, &g);
        MPI_Comm_create_group(DCOMM, g, 7 + SCOL, &SCOMM); MPI_Group_free(&g); MPI_Group_free(&w);
        o[0] = lim & 1 ? NGA_Initialize_comm(SCOMM) : GA_Initialize_comm(SCOMM);
    } else if (kind == 1) { if (lim & 1) NGA_Initialize_ltd((size_t)lim); else GA_Initialize_ltd((size_t)lim); o[0] = 1; }
    else if (kind == 3) { static char a0[] = "gadrv", *av[] = { a0, 0 }, **pv = av; int ac = 1; GA_Initialize_args(&ac, &pv); o[0] = 1; }
    else { if (lim & 1) NGA_Initialize(); else GA_Initialize(); o[0] = 1; }
    o[2] = o[0] ? GA_Initialized() + NGA_Initialized() + ARMCI_Initialized() : 0;
    if (o[0]) {
        SESS = EMBIN = 1; ME = GA_Nodeid(); NP = GA_Nnodes();
        MPI_Comm c = GA_MPI_Comm(); int r, s; MPI_Comm_rank(c, &r); MPI_Comm_size(c, &s);
        o[3] = ME; o[4] = NP; o[5] = r; o[6] = s; o[7] = GA_Memory_limited(); o[8] = (int64_t)GA_Memory_avail(); o[9] = (int64_t)GA_Inquire_memory();
        o[10] = GA_Pgroup_get_default() == GA_Pgroup_get_world(); o[11] = me;
    }
    drv_rec('i', o, sizeof o);
}
/* sesssel c : the following operations are for session c */
static void op_sesssel(void) { int c = (int)drv_I(); EMBIN = SESS && SCOL == c; }
static void drop_slots(void) {
    for (int i = 0; i < MAXS; i++) { SL[i].live = 0; SL[i].cx = 0; SL[i].h = 0; }
    for (int i = 0; i < 32; i++) { GRPL[i] = 0; GRPX[i] = 0; }
    for (int i = 0; i < 16; i++) RT[i] = 0;
    NMUTEX = 0; EMBG = 0;
}
static void ga_cleanup(void);
/* sessend v : v bit 0: 0 everything destroyed before terminating, 1 arrays and groups left to GA_Terminate ; records initialised afterwards, leftovers */
static void op_sessend(void) {
    int v = (int)drv_I(); int64_t o[4] = {0, 0, 0, 0};
    if (SESS) {
        EMB = 0; EMBIN = 1;
        GA_Sync(); chaos_set(0, 0, 0, WME);
        if (v & 1) { nb_reset(); GA_Pgroup_set_default(GA_Pgroup_get_world()); misc_reset(); if (NMUTEX) { GA_Destroy_mutexes(); NMUTEX = 0; } } else ga_cleanup();
        if (v & 8) {    /* every process is left in a default group that is not the world */
            int h = NP / 2, l[64], n = 0; for (int i = 0; i < NP; i++) if ((i < h) == (ME < h)) l[n++] = i;
            GA_Pgroup_set_default(GA_Pgroup_create(l, n));
        }
        if (v & 2) NGA_Terminate(); else GA_Terminate();
        drop_slots();
        if (v & 4) GA_Terminate();      /* without effect */
    }
    SESS = 0; EMB = 0; EMBIN = 1; ME = WME; NP = WNP;
    if (SCOMM != MPI_COMM_NULL) MPI_Comm_free(&SCOMM);
    SCOL = -1;
    MPI_Barrier(DCOMM);
    o[0] = GA_Initialized() + NGA_Initialized() + ARMCI_Initialized();
    char pid[16]; snprintf(pid, sizeof pid, "%010u", (unsigned)getpid());
    DIR *d = opendir("/dev/shm"); struct dirent *e;
    while (d && (e = readdir(d))) { char *p = strstr(e->d_name, "cmx"); if (p && strlen(p) >= 23 && !strncmp(p + 13, pid, 10)) { o[1]++; drv_fail("the shared memory file %s is left after termination", e->d_name); } }
    if (d) closedir(d);
    FILE *f = fopen("/proc/self/maps", "r"); char ln[600]; while (f && fgets(ln, sizeof ln, f)) if (strstr(ln, "/cmx") && !strstr(ln, "sem.cmx")) o[2]++;
    if (f) fclose(f);
    d = opendir("/proc/self/fd"); while (d && (e = readdir(d))) o[3]++; if (d) closedir(d);
    drv_rec('i', o, sizeof o);
    MPI_Barrier(DCOMM);
}
