/* Shared core of the harness servers: reads a program from rank 0's FIFO,
 * broadcasts it, interprets it on every rank, gathers the ranks' records. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sched.h>
#include <time.h>
#include <mpi.h>

#ifdef __cplusplus
extern "C" {
#endif

extern int ME, NP, OPI;               /* rank, ranks, index of the current op */
long long drv_I(void);
double drv_D(void);
const char *drv_S(void);
void drv_rec(char kind, const void *p, size_t nbytes);   /* 'i' int64[], 'd' double[], 'b' raw, 's' text */
void drv_rec_i(long long v);
void drv_rec_i2(long long a, long long b);
void drv_rec_d(double v);
void drv_fail(const char *fmt, ...);  /* a check inside the harness failed: recorded as 'F' */
uint64_t drv_hash(uint64_t seed, uint64_t k);
#ifdef __cplusplus
}
#endif
#endif
