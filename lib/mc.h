/* Bounded-exhaustive exploration harness: a property harness enumerates a finite
 * space of cases (inputs x configurations x operation histories x environment
 * answers) in mc_enumerate().  Every case has a textual identity from which it can
 * be replayed alone.  Cases are dealt to shards; each shard is a child process, so
 * crashes, exits and hangs of the code under test are attributed to the case that
 * was running. */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <stdint.h>
#include <stdarg.h>

extern const char *mc_property;          /* e.g. "C12"            (harness defines) */
extern int  mc_thorough;                 /* tier                                        */
extern double mc_case_limit;             /* seconds one case may take (default 60)      */
void mc_enumerate(void);                 /* harness defines                             */

/* Announce the next case.  Returns 1 when this process must execute it. */
int  mc_case(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* True while the case currently running has not failed. */
int  mc_ok(void);
/* Report a violation of the property in the current case.  tag: short stable name of
 * the assertion. */
void mc_fail(const char *tag, const char *fmt, ...) __attribute__((format(printf,2,3)));
/* Count model/implementation steps (library operations) executed and compared. */
void mc_ops(long n);
/* Record an observed outcome / visited state fingerprint. */
void mc_state(uint64_t h);
void mc_state_d(const double *v, int n);  /* fingerprint of doubles rounded to 6 digits */
/* named counters that end up in the evidence */
void mc_count(const char *name, long n);
/* largest value seen of a named quantity (e.g. worst error) */
void mc_max(const char *name, double v);
void mc_note(const char *fmt, ...) __attribute__((format(printf,1,2)));
uint64_t mc_hash(uint64_t h, const void *p, size_t n);

#define MC_CHECK(cond, tag, ...) do { if (!(cond)) mc_fail(tag, __VA_ARGS__); } while (0)

/* |a-b| <= atol + rtol*max(|a|,|b|), NaN never close unless both NaN */
int mc_close(double a, double b, double atol, double rtol);
/* compares vectors, reports first difference under tag */
int mc_vec(const char *tag, const double *got, const double *want, int n, double atol, double rtol);
/* guard buffers: n doubles filled with a sentinel surrounded by red zones */
double *mc_buf(int n);
void mc_bufcheck(const char *tag, const double *b, int n); /* red zones intact */
int  mc_unwritten(double v);                              /* v is still the sentinel */
void mc_buffree(double *b);
void mc_bufinit(double *b, int n);

/* deterministic small generator for structured data (never used to sample cases) */
typedef struct { uint64_t s; } mc_rng;
void   mc_seed(mc_rng *r, uint64_t s);
double mc_u(mc_rng *r);      /* (0,1) */
double mc_n(mc_rng *r);      /* approx standard normal */

/* silence the library's printf output (stdout is /dev/null in shards) */
#endif
