/* C26: operations on separate objects never interfere.  Two operations run as coroutines; library loads and stores call the hooks below
 * (compiled with -fsanitize=thread, linked without its runtime), so the footprint of every operation is known exactly and two operations whose
 * footprints do not meet in writable memory commute: every interleaving is equivalent to one of them run after the other.  Schedules with
 * preemptions at every allocation event are executed as well and judged by bitwise comparison. */
#define _GNU_SOURCE
#include "mc.h"
#include "ctsa.h"
#include "wavelib.h"
#include "seastest.h"
#include "unitroot.h"
#include "autoutils.h"
#include "boxcox.h"
#include "errors.h"
#include "spectrum.h"
#include "lls.h"
#include "optimc.h"
#include "nls.h"
#include "polyroot.h"
#include "talg.h"
#include "initest.h"
#include "stl.h"
#include "regression.h"
#include "emle.h"
#include "pdist.h"
#include "matrix.h"
#include "conv.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <stddef.h>
#undef I
const char *mc_property = "C26";
/* ---- coroutines, arenas ---- */
#define ARENA (1ull << 30)
#define STK (8u << 20)
typedef struct { ucontext_t c; char *stk, *ar; size_t top; void *fl[64]; int done; long ev; uint64_t res; int op, v; } co_t;
static co_t C[2]; static ucontext_t MAIN; static int cur = -1;   /* -1: harness */
static long pre[4]; static int npre, ip;                          /* preemption k happens when the running coroutine reaches event pre[k] */
static long nload, nstore; static char bad[300]; static int nbad;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int cls(size_t n) { int k = 5; while (((size_t)1 << k) < n) k++; return k; }
static void event(void) { if (cur < 0) return; co_t *c = &C[cur]; c->ev++; if (ip < npre && c->ev == pre[ip]) { int o = 1 - cur; if (C[o].done) return; ip++; int me = cur; cur = o; swapcontext(&C[me].c, &C[o].c); } }
static void *get(size_t n) { co_t *c = &C[cur]; int k = cls(n + 16); char *p = c->fl[k]; if (p) memcpy(&c->fl[k], p, sizeof(void *)); else { if (c->top + ((size_t)1 << k) > ARENA) _exit(7); p = c->ar + c->top; c->top += (size_t)1 << k; } *(long *)p = k; *(size_t *)(p + 8) = n; return p + 16; }
static int inar(const void *p, int *w) { for (int k = 0; k < 2; k++) if ((char *)p >= C[k].ar && (char *)p < C[k].ar + ARENA) { *w = k; return 1; } return 0; }
static void foul(const char *what, const void *a, void *pc) { if (nbad++) return; Dl_info d = {0}; dladdr(pc, &d); Dl_info e = {0}; dladdr(a, &e); snprintf(bad, sizeof bad, "%s at %s (%s) in or after %s", what, e.dli_sname ? e.dli_sname : "unnamed", e.dli_fname ? "program image" : "memory", d.dli_sname ? d.dli_sname : "?"); }
extern char __executable_start[], __data_start[], _end[];
static inline void acc(const void *a, size_t n, int wr, void *pc) {
    if (cur < 0) return; if (wr) nstore++; else nload++;
    co_t *c = &C[cur]; const char *p = a; if (p >= c->stk && p + n <= c->stk + STK) return; if (p >= c->ar && p + n <= c->ar + ARENA) return;
    co_t *o = &C[1 - cur]; if ((p >= o->stk && p < o->stk + STK) || (p >= o->ar && p < o->ar + ARENA)) { foul(wr ? "store to the memory of the other operation" : "load from the memory of the other operation", a, pc); return; }
    if (wr) { foul(p >= __data_start && p < _end ? "store to static storage" : "store to shared memory", a, pc); return; }
}
void *__wrap_malloc(size_t n) { if (cur < 0) return __real_malloc(n); event(); void *p = get(n); memset(p, 0xA5, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (cur < 0) return __real_calloc(a, b); event(); void *p = get(a * b); memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { int w; if (!p) return; if (!inar(p, &w)) { if (cur >= 0) foul("free of shared memory", p, __builtin_return_address(0)); __real_free(p); return; } if (cur < 0) return; if (w != cur) { foul("free of the other operation's memory", p, __builtin_return_address(0)); return; } event(); char *q = (char *)p - 16; long k = *(long *)q; memset(p, 0xDD, *(size_t *)(q + 8)); memcpy(q, &C[cur].fl[k], sizeof(void *)); C[cur].fl[k] = q; }
void *__wrap_realloc(void *p, size_t n) { int w; if (cur < 0 && !(p && inar(p, &w))) return __real_realloc(p, n); void *r = __wrap_malloc(n); if (p) { size_t m = *(size_t *)((char *)p - 8); memcpy(r, p, m < n ? m : n); __wrap_free(p); } return r; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_rand(void); void __real_srand(unsigned);
static int inlib = 0;
#define PC __builtin_return_address(0)
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (cur >= 0 && n) { acc(s, n, 0, PC); acc(d, n, 1, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (cur >= 0 && n) { acc(s, n, 0, PC); acc(d, n, 1, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (cur >= 0 && n) acc(d, n, 1, PC); return __real_memset(d, c, n); }
int __wrap_rand(void) { if (cur >= 0) foul("the C library's random generator", 0, PC); return __real_rand(); }
void __wrap_srand(unsigned s) { if (cur >= 0) foul("the C library's random generator", 0, PC); __real_srand(s); }
#define HK(n) void __tsan_read##n(void *a) { acc(a, n, 0, PC); } void __tsan_write##n(void *a) { acc(a, n, 1, PC); } void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, PC); } void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void *a) { acc(a, n, 0, PC); } void __tsan_volatile_write##n(void *a) { acc(a, n, 1, PC); } void __tsan_read_write##n(void *a) { acc(a, n, 1, PC); }
HK(1) HK(2) HK(4) HK(8) HK(16)
void __tsan_read_range(void *a, unsigned long n) { acc(a, n, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { acc(a, n, 1, PC); }
void __tsan_init(void) {}
#define NF 4096
static void *FN_[NF]; static int nfn;
void __tsan_func_entry(void *pc) { if (cur < 0) return; void *f = PC; unsigned i = ((uintptr_t)f >> 2) % NF; while (FN_[i] && FN_[i] != f) i = (i + 1) % NF; if (!FN_[i]) { FN_[i] = f; nfn++; } }
void __tsan_func_exit(void) {}
/* ---- operations: each builds its own data and objects from v and returns a fingerprint of everything it produced ---- */
static double *H(int n) { return malloc(sizeof(double) * (n > 0 ? n : 1)); }
static double *ser(int n, int v, int s) { double *x = H(n), a = 0.3; for (int i = 0; i < n; i++) { a = 0.5 * a + sin(12.9898 * (i + 1 + 7 * v) + 0.7 * i * i); x[i] = a + (s ? cos(2 * 3.14159265358979 * i / s) : 0) + 0.2 * v; } return x; }
static uint64_t hx(uint64_t h, const double *x, int n) { return mc_hash(h, x, sizeof(double) * n); }
typedef uint64_t (*op_t)(int v);
#define OP(name) static uint64_t name(int v)
static uint64_t ar_fit(int v, int p, int d, int q, int m, int o) { int N = 26 + 3 * v; double *x = ser(N, v, 0), f[5], e[5]; arima_object a = arima_init(p, d, q, N); arima_setMethod(a, m); arima_setOptMethod(a, o); arima_exec(a, x); arima_predict(a, x, 4, f, e); double vc[16]; arima_vcov(a, vc); uint64_t h = mc_hash(a->retval, &a->loglik, 8); h = hx(h, &a->aic, 1); h = hx(h, f, 4); h = hx(h, e, 4); h = hx(h, a->phi, p); h = hx(h, a->theta, q); arima_free(a); free(x); return h; }
OP(o_ml) { return ar_fit(v, 1, v, 1, 1, 5); } OP(o_cssml) { return ar_fit(v, 1, 0, 1, 0, 5); } OP(o_css) { return ar_fit(v, 2, v, 0, 2, 7); } OP(o_bj) { return ar_fit(v, 1, 0, 1, 2 + 0 * v, 6); } OP(o_nm) { return ar_fit(v, 0, 0, 1, 2, 0); } OP(o_newt) { return ar_fit(v, 1, 0, 0, 2, 1); } OP(o_dog) { return ar_fit(v, 0, 1, 1, 2, 2); } OP(o_dd) { return ar_fit(v, 1, 0, 0, 2, 3); } OP(o_cg) { return ar_fit(v, 1, 0, 0, 2, 4); }
OP(o_sarima) { int N = 28 + 4 * v, s = 4; double *x = ser(N, v, s), f[5], e[5]; sarima_object a = sarima_init(v, 0, 1 - v, s, 1 - v, 1, v, N); sarima_setMethod(a, 2 * v); sarima_exec(a, x); sarima_predict(a, x, 5, f, e); uint64_t h = mc_hash(a->retval, &a->loglik, 8); h = hx(h, f, 5); h = hx(h, e, 5); sarima_free(a); free(x); return h; }
OP(o_sbj) { int N = 30 + 4 * v, s = 4; double *x = ser(N, v, s), f[5], e[5]; sarima_object a = sarima_init(1, 0, 0, s, 0, v, 1, N); sarima_setMethod(a, 2); sarima_exec(a, x); sarima_predict(a, x, 5, f, e); uint64_t h = mc_hash(a->retval, &a->var, 8); h = hx(h, f, 5); h = hx(h, e, 5); sarima_free(a); free(x); return h; }
OP(o_sarimax) { int N = 26 + 4 * v, r = 1 + v; double *x = ser(N, v, 0), *z = ser(N * r, v + 3, 0), *nz = ser(4 * r, v + 5, 0), f[5], e[5]; sarimax_object a = sarimax_init(1, v, 0, 0, 0, 0, 0, r, 1 - v, N); sarimax_setMethod(a, 2 * v); sarimax_exec(a, x, z); sarimax_predict(a, x, z, 4, nz, f, e); double vc[36]; sarimax_vcov(a, vc); uint64_t h = mc_hash(a->retval, &a->loglik, 8); h = hx(h, f, 4); h = hx(h, e, 4); sarimax_free(a); free(x); free(z); free(nz); return h; }
OP(o_auto) { int N = 24 + 3 * v, a[3] = {1, 1, 1}, b[3] = {0, 0, 0}; double *x = ser(N, v, 0), f[4], e[4]; auto_arima_object o = auto_arima_init(a, b, 1, 0, N); auto_arima_setMethod(o, 2); auto_arima_setApproximation(o, v); auto_arima_setStepwise(o, 1); auto_arima_exec(o, x, NULL); auto_arima_predict(o, x, NULL, 3, NULL, f, e); uint64_t h = mc_hash(o->p * 16 + o->q * 4 + o->d, &o->aic, 8); h = hx(h, f, 3); h = hx(h, e, 3); auto_arima_free(o); free(x); return h; }
OP(o_wrap) { int N = 24 + v, od[3] = {1, 1, 0}; double *x = ser(N, v, 0), f[4], e[4]; sarimax_wrapper_object w = sarimax_wrapper(NULL, x, N, od, NULL, NULL, 0, v, 0, NULL, 0, 2); sarimax_wrapper_predict(w, x, NULL, 3, NULL, f, e); uint64_t h = hx(hx(w->sarimax->retval, f, 3), e, 3); sarimax_wrapper_free(w); free(x); return h; }
OP(o_myarima) { int N = 24 + v, od[3] = {1, 0, v}; double *x = ser(N, v, 0); myarima_object y = myarima(x, N, od, NULL, 1, "aicc", 0, 0, 0.0, NULL, 0, NULL); uint64_t h = hx(1, &y->ic, 1); myarima_free(y); free(x); return h; }
static uint64_t arop(int v, int m) { int N = 18 + 2 * v; double *x = ser(N, v, 0), f[4], e[4]; ar_object o = ar_init(m, N); ar_exec(o, x); ar_predict(o, x, 4, f, e); uint64_t h = hx(o->p, o->phi, o->p); h = hx(h, f, 4); h = hx(h, e, 4); ar_free(o); free(x); return h; }
OP(o_ar0) { return arop(v, 0); } OP(o_ar1) { return arop(v, 1); } OP(o_arml) { int N = 12 + v; double *x = ser(N, v, 0), ph[2], var; ar(x, N, 1, 2, ph, &var); uint64_t h = hx(hx(3, ph, 1), &var, 1); free(x); return h; }
OP(o_est) { int N = 30 + v; double *x = ser(N, v, 0), ph[3], th[3], var; uint64_t h = 1; yw(x, N, 2, ph, &var); h = hx(h, ph, 2); burg(x, N, 3, ph, &var); h = hx(h, ph, 3); hr(x, N, 1, 1, ph, th, &var); h = hx(hx(h, ph, 1), th, 1); free(x); return h; }
OP(o_acf) { int N = 20 + v, M = 6; double *x = ser(N, v, 0), a[8], b[8]; uint64_t h = 2; for (int m = 0; m < 2; m++) { acvf_opt(x, N, m, a, M); h = hx(h, a, M); pacf_opt(x, N, m, b, M); h = hx(h, b, M); } acvf(x, N, a, M); acvf2acf(a, M); pacf(x, N, b, M); h = hx(hx(h, a, M), b, M); free(x); return h; }
static uint64_t fftop(int N, int v) { fft_object o = fft_init(N, v ? 1 : -1); fft_data *a = malloc(sizeof(fft_data) * N), *b = malloc(sizeof(fft_data) * N); for (int i = 0; i < N; i++) { a[i].re = sin(i + v); a[i].im = cos(i * i); } fft_exec(o, a, b); uint64_t h = mc_hash(N, b, sizeof(fft_data) * N); free(a); free(b); free_fft(o); return h; }
OP(o_fft) { return fftop(v ? 30 : 16, v); } OP(o_fftp) { return fftop(v ? 47 : 59, v); } OP(o_ffto) { return fftop(v ? 77 : 15, v); } OP(o_fftbig) { return fftop(v ? 67 : 134, v); }
OP(o_fftr) { int N = 12 + 8 * v; double *x = ser(N, v, 0); fft_data *b = malloc(sizeof(fft_data) * N); fft_real_object o = fft_real_init(N, 1), p = fft_real_init(N, -1); fft_r2c_exec(o, x, b); uint64_t h = mc_hash(N, b, sizeof(fft_data) * N); fft_c2r_exec(p, b, x); h = hx(h, x, N); free_real_fft(o); free_real_fft(p); free(b); free(x); return h; }
OP(o_conv) { int N = 9 + v, L = 4 + 2 * v; double *a = ser(N, v, 0), *b = ser(L, v + 1, 0), *o = H(N + L); uint64_t h = 4; convolve("full", "fft", a, N, b, L, o); h = hx(h, o, N + L - 1); convolve("same", "direct", a, N, b, L, o); h = hx(h, o, N); free(a); free(b); free(o); return h; }
static uint64_t wtop(int v, const char *w, const char *t, const char *ext, const char *cm) { int N = 32 + 16 * v; double *x = ser(N, v, 0), *y = H(N); wave_object wv = wave_init(w); wt_object o = wt_init(wv, (char *)t, N, 2); if (strcmp(t, "swt") && strcmp(t, "modwt")) setDWTExtension(o, ext); setWTConv(o, cm); uint64_t h = 5; if (t[0] == 'd') { dwt(o, x); h = hx(h, o->output, o->outlength); idwt(o, y); } else if (t[0] == 's') { swt(o, x); h = hx(h, o->output, o->outlength); iswt(o, y); } else { modwt(o, x); h = hx(h, o->output, o->outlength); imodwt(o, y); } h = hx(h, y, N); double *m = t[0] == 'd' ? getDWTmra(o, o->output) : t[0] == 's' ? getSWTmra(o, o->output) : getMODWTmra(o, o->output); h = hx(h, m, N); free(m); wt_free(o); wave_free(wv); free(x); free(y); return h; }
OP(o_dwt) { return wtop(v, v ? "db4" : "haar", "dwt", "per", "direct"); } OP(o_dwts) { return wtop(v, v ? "sym5" : "bior2.2", "dwt", "sym", "fft"); } OP(o_swt) { return wtop(v, v ? "coif1" : "db2", "swt", "per", v ? "fft" : "direct"); } OP(o_modwt) { return wtop(v, v ? "db3" : "db2", "modwt", "per", "direct"); } OP(o_modwtf) { return wtop(v, v ? "sym4" : "haar", "modwt", "per", "fft"); }
OP(o_wtree) { int N = 32 + 4 * v; double *x = ser(N, v, 0); wave_object wv = wave_init(v ? "db2" : "haar"); wtree_object t = wtree_init(wv, N, 2); setWTREEExtension(t, v ? "sym" : "per"); wtree(t, x); uint64_t h = 6; for (int q = 0; q < 4; q++) { int n = getWTREENodelength(t, 2); double *c = H(n); getWTREECoeffs(t, 2, q, c, n); h = hx(h, c, n); free(c); } wtree_free(t); wave_free(wv); free(x); return h; }
OP(o_wpt) { int N = 32 + 4 * v; double *x = ser(N, v, 0), *y = H(N); wave_object wv = wave_init(v ? "db2" : "haar"); wpt_object p = wpt_init(wv, N, 2); setDWPTExtension(p, v ? "per" : "sym"); setDWPTEntropy(p, v ? "shannon" : "logenergy", 0); dwpt(p, x); idwpt(p, y); uint64_t h = hx(7, y, N); wpt_free(p); wave_free(wv); free(x); free(y); return h; }
OP(o_spec) { int N = 16 + 2 * v, F = 20 + 4 * v; double *x = ser(N, v, 0), *s = H(F), *f = H(F); spectrum_fft_object o = spectrum_fft_init(N, F); periodogram(o, x, s, f, v); int no = v ? F : F / 2 + 1; uint64_t h = hx(8, s, no); psd(o, x, s, f, v); h = hx(h, s, no); free_spectrum(o); free(x); free(s); free(f); return h; }
OP(o_stl) { int N = 20 + 4 * v, f = 4, ro = v; double *x = ser(N, v, f), *s = H(N), *t = H(N), *r = H(N); stl(x, N, f, "period", NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, &ro, NULL, NULL, s, t, r); uint64_t h = hx(hx(hx(9, s, N), t, N), r, N); free(x); free(s); free(t); free(r); return h; }
OP(o_modstl) { int N = 20 + 4 * v, f = 4; double *x = ser(N, v, f), *s = H(N), *t = H(N), *r = H(N); modstl(x, N, f, NULL, NULL, s, t, r); uint64_t h = hx(hx(hx(9, s, N), t, N), r, N); free(x); free(s); free(t); free(r); return h; }
OP(o_mstl) { int N = 40 + 4 * v, fs[2] = {4, 7 + v}, ns = 2; double *x = ser(N, v, 4), *s[2] = {H(N), H(N)}, *t = H(N), *r = H(N); mstl(x, N, fs, &ns, NULL, NULL, NULL, s, t, r); uint64_t h = hx(hx(hx(9, s[0], N), t, N), r, N); free(x); free(s[0]); free(s[1]); free(t); free(r); return h; }
OP(o_dec) { int N = 20 + 4 * v, a, b, c; double *x = ser(N, v, 4), *s = H(N), *t = H(N), *r = H(N); for (int i = 0; i < N; i++) x[i] += 9; decompose(x, N, 4, NULL, v ? "multiplicative" : "additive", t, &a, s, &b, r, &c); uint64_t h = hx(hx(hx(9, s, b), t, a), r, c); free(x); free(s); free(t); free(r); return h; }
OP(o_ur) { int N = 30 + 2 * v; double *x = ser(N, v, 0), st, pv; uint64_t h = 10; int k = 1 + v; ur_df(x, N, "stationary", &k, &st, &pv); h = hx(hx(h, &st, 1), &pv, 1); ur_kpss(x, N, v ? "trend" : "level", v, NULL, &st, &pv); h = hx(hx(h, &st, 1), &pv, 1); ur_pp(x, N, "stationary", v ? "Z(alpha)" : "Z(t_alpha)", 1, NULL, &st, &pv); h = hx(hx(h, &st, 1), &pv, 1); free(x); return h; }
OP(o_ur2) { int N = 30 + 2 * v; double *x = ser(N, v, 0), cv[9], cp[3], ts[3]; int r, c, lt, k = 2; ur_df2(x, N, v ? "trend" : "drift", &k, "aic", cv, &r, &c, cp, ts, &lt); uint64_t h = hx(11, ts, lt); double ax[2], s; int la; ur_pp2(x, N, v ? "Z-alpha" : "Z-tau", v ? "trend" : "constant", 1, NULL, cv, cp, ax, &la, &s); h = hx(h, &s, 1); free(x); return h; }
OP(o_nd) { int N = 40 + 2 * v; double *x = ser(N, v, 4); if (v) for (int i = 1; i < N; i++) x[i] += x[i - 1]; int h = ndiffs(x, N, NULL, v ? "kpss" : "df", "level", NULL) * 9 + ndiffs(x, N, NULL, "pp", "level", NULL) * 3 + nsdiffs(x, N, 4, NULL, "seas", NULL); double st, cr; OCSBtest(x, N, 4, 1 + v, "aic", &st, &cr); uint64_t r = hx(h, &st, 1); free(x); return r; }
OP(o_reg) { int N = 18 + v, p = 3; double *y = ser(N, v, 0), *z = ser(2 * N, v + 2, 0), *res = H(N), vc[9]; reg_object o = reg_init(N, p); setLLSMethod(o, v ? "qr" : "svd"); regress(o, z, y, res, vc, 0.05); uint64_t h = hx(hx(12, res, N), vc, 9); h = hx(h, &o->loglik, 1); double in[2] = {0.3, 0.4}, va[2] = {0, 0}; double ft = fitted(o, in, vc, va); h = hx(h, &ft, 1); free_reg(o); free(y); free(z); free(res); return h; }
OP(o_regp) { int N = 16 + v; double *x = ser(N, v, 0), *y = ser(N, v + 1, 0), *res = H(N), vc[9]; reg_object o = reg_init(N, 3); setLLSMethod(o, "normal"); regress_poly(o, x, y, res, vc, 0.05); uint64_t h = hx(hx(13, res, N), vc, 9); free_reg(o); free(x); free(y); free(res); return h; }
static double ob(double *x, int n, void *p) { double c = *(double *)p, s = 0; for (int i = 0; i < n; i++) s += (i + 1) * (x[i] - c) * (x[i] - c) + 0.1 * (x[i] - c) * (x[i] - c) * (x[i] - c) * (x[i] - c); return s; }
static uint64_t opt1(int v, int m) { double c = 1 + v, xi[2] = {0.2, 0.4 + v}; custom_function F = {ob, &c}; opt_object o = opt_init(2); setMaxIter(o, 30); optimize(o, &F, NULL, 2, xi, m); uint64_t h = hx(o->retval, o->xopt, 2); h = hx(h, &o->objfunc, 1); free_opt(o); return h; }
OP(o_m0) { return opt1(v, 0); } OP(o_m1) { return opt1(v, 1); } OP(o_m2) { return opt1(v, 2); } OP(o_m3) { return opt1(v, 3); } OP(o_m4) { return opt1(v, 4); } OP(o_m5) { return opt1(v, 5); } OP(o_m6) { return opt1(v, 6); } OP(o_m7) { return opt1(v, 7); }
static void fm(double *x, int M, int N, double *f, void *p) { double c = *(double *)p; for (int i = 0; i < M; i++) f[i] = x[0] * exp(-0.2 * i * x[1]) - c * exp(-0.1 * i); }
OP(o_lm) { double c = 1 + v, xi[2] = {0.5, 0.7}, xf[2]; custom_funcmult F = {fm, &c}; levmar(&F, NULL, xi, 6 + v, 2, xf); uint64_t h = hx(14, xf, 2); nls_object o = nls_init(6 + v, 2); nls(o, &F, NULL, xi); h = hx(h, o->xopt, 2); free_nls(o); return h; }
static double f1(double x, void *p) { double c = *(double *)p; return (x - c) * (x - c) * (1 + 0.1 * x); }
OP(o_sc) { double c = 1 + 0.5 * v, x = 0; custom_funcuni F = {f1, &c}; x = fminbnd(&F, 0.0, 4.0); return hx(15, &x, 1); }
OP(o_poly) { int n = 5 + v; double c[8], zr[8], zi[8]; for (int i = 0; i <= n; i++) c[i] = 1 + ((i * 5 + v) % 4); polyroot(c, n, zr, zi); uint64_t h = hx(hx(16, zr, n), zi, n); double a[3] = {0.5, 0.2 * v, 0.1}, ma[2] = {1.5 + v, 0.4}; int r = archeck(3, a); invertroot(2, ma); h = hx(h + r, ma, 2); return h; }
OP(o_cpoly) { double a[5] = {1, 0.5 * v, 2, -1, 3}, b[5] = {0, 1, -v, 0.5, 1}, zr[5], zi[5]; cpolyroot(a, b, 4, zr, zi); return hx(hx(17, zr, 4), zi, 4); }
OP(o_dist) { double r[16]; int k = 0; r[k++] = normalcdf(0.3 + v, 0, 1); r[k++] = normalinv(0.2 + 0.1 * v, 0, 1); r[k++] = tcdf(1.2 - v, 5); r[k++] = tinv(0.1 + 0.2 * v, 7); r[k++] = chicdf(2.0 + v, 4); r[k++] = chiinv(0.3, 4 + v); r[k++] = fcdf(1.3 + v, 3, 8); r[k++] = finv(0.4, 3, 8 + v); r[k++] = gamma_log(3.3 + v); r[k++] = ibeta(0.4, 2.0 + v, 3.0); r[k++] = betainv(0.4, 2.0, 3.0 + v); r[k++] = pgamma(2.0 + v, 1.5); return hx(18, r, k); }
OP(o_bc) { int N = 16 + v; double *x = ser(N, v, 0), *y = H(N), *z = H(N), l; for (int i = 0; i < N; i++) x[i] = exp(0.4 * x[i]); l = boxcox(x, N, NULL, y); inv_boxcox_eval(y, N, l, z); uint64_t h = hx(hx(hx(19, &l, 1), y, N), z, N); free(x); free(y); free(z); return h; }
OP(o_sm) { int N = 14 + v; double *x = H(N), *y = ser(N, v, 0), *o = H(N); for (int i = 0; i < N; i++) x[i] = i * (1 + v); supsmu(x, N, y, NULL, 1, 0.0, 0.0, o); uint64_t h = hx(20, o, N); mafilter(y, N, 3 + v, o); h = hx(h, o, N); mafilter2(y, N, 4, o); h = hx(h, o, N); expfilter(y, N, 0.3, o); h = hx(h, o, N); detrend_ma(y, N, 5, o); h = hx(h, o, N); double e = mase(x, y, N, y, N) + rmse(x, y, N); h = hx(h, &e, 1); e = interpolate_linear(x, y, N, 2.7); h = hx(h, &e, 1); free(x); free(y); free(o); return h; }
OP(o_alg) { int n = 4 + v; double A[25], W[25], b[5], o[5], Vr[5], Vi[5]; int pv[5]; for (int i = 0; i < n * n; i++) A[i] = sin(3.0 * i + v) + (i % (n + 1) == 0 ? 3 : 0); for (int i = 0; i < n; i++) b[i] = i; __builtin_memcpy(W, A, sizeof W); ludecomp(W, n, pv); linsolve(W, n, b, pv, o); uint64_t h = hx(21, o, n); double iv[25]; minverse(W, n, pv, iv); h = hx(h, iv, n * n); __builtin_memcpy(W, A, sizeof W); eig(W, n, Vr, Vi); h = hx(hx(h, Vr, n), Vi, n); double U[25], Vm[25], q[5]; __builtin_memcpy(W, A, sizeof W); svd(W, n, n, U, Vm, q); h = hx(h, q, n); double C_[25]; mmult(A, iv, C_, n, n, n); h = hx(h, C_, n * n); int rk = rank(A, n, n); return h + rk; }
OP(o_lls) { int m = 6, n = 3; double A[18], W[18], b[6], o[3]; for (int i = 0; i < 18; i++) A[i] = cos(2.0 * i + v) + i % 4; for (int i = 0; i < m; i++) b[i] = i + v; uint64_t h = 22; __builtin_memcpy(W, A, sizeof W); lls_qr(W, b, m, n, o); h = hx(h, o, n); __builtin_memcpy(W, A, sizeof W); lls_svd(W, b, m, n, o); h = hx(h, o, n); __builtin_memcpy(W, A, sizeof W); lls_svd2(W, b, m, n, o); h = hx(h, o, n); __builtin_memcpy(W, A, sizeof W); lls_normal(W, b, m, n, o); h = hx(h, o, n); return h; }
OP(o_big) { int n = 70 + v; double *A = H(n * n), *B = H(n * n), *D = H(n * n); for (int i = 0; i < n * n; i++) { A[i] = sin(i + v); B[i] = cos(i); } mmult(A, B, D, n, n, n); uint64_t h = hx(23, D, n * n); rmult(A, B, D, n, n, n); h = hx(h, D, n * n); smult(A, B, D, n, n, n); h = hx(h, D, n * n); free(A); free(B); free(D); return h; }
OP(o_eig) { double A[16], V[4], W[16]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A[i * 4 + j] = 1.0 / (i + j + 1 + v); eigensystem(A, 4, V, W); uint64_t h = hx(hx(24, V, 4), W, 16); double S[16]; for (int i = 0; i < 16; i++) S[i] = (i % 5 == 0) * 4 + 0.5; cholu(S, 4); h = hx(h, S, 16); return h; }
OP(o_talg) { int N = 16 + v; double *x = ser(N, v, 0), *o = H(N); uint64_t h = 25; int n = diff(x, N, 1 + v, o); h = hx(h, o, n); n = diffs(x, N, 1, 3 + v, o); h = hx(h, o, n); double ph[2] = {0.4, 0.1 * v}, th[2] = {0.3, 0.2}, w[9]; psiweight(ph, th, w, 2, 2, 8); h = hx(h, w, 8); piweight(ph, th, w, 2, 2, 8); h = hx(h, w, 8); arma_autocovar(ph, th, 2, 2, 1.0, w, 6); h = hx(h, w, 6); double c[9]; poly(ph, th, c, 2, 2); h = hx(h, c, 3); free(x); free(o); return h; }
static const struct { const char *n; op_t f; } OPS[] = {{"arima exact ML", o_ml}, {"arima CSS-ML", o_cssml}, {"arima CSS", o_css}, {"arima Box-Jenkins", o_bj}, {"arima Nelder-Mead", o_nm}, {"arima Newton", o_newt}, {"arima trust region hook", o_dog}, {"arima trust region dogleg", o_dd}, {"arima CG", o_cg}, {"sarima", o_sarima}, {"sarima Box-Jenkins", o_sbj}, {"sarimax", o_sarimax}, {"auto_arima", o_auto}, {"sarimax_wrapper", o_wrap}, {"myarima", o_myarima}, {"ar Yule-Walker", o_ar0}, {"ar Burg", o_ar1}, {"ar ML", o_arml}, {"estimators", o_est}, {"autocorrelation", o_acf}, {"fft radix", o_fft}, {"fft prime", o_fftp}, {"fft odd", o_ffto}, {"fft Bluestein", o_fftbig}, {"fft real", o_fftr}, {"convolution", o_conv}, {"dwt per", o_dwt}, {"dwt sym", o_dwts}, {"swt", o_swt}, {"modwt", o_modwt}, {"modwt fft", o_modwtf}, {"wavelet tree", o_wtree}, {"wavelet packets", o_wpt}, {"spectrum", o_spec}, {"stl", o_stl}, {"modstl", o_modstl}, {"mstl", o_mstl}, {"decompose", o_dec}, {"unit root tests", o_ur}, {"unit root tests 2", o_ur2}, {"differencing tests", o_nd}, {"regression", o_reg}, {"polynomial regression", o_regp}, {"minimise 0", o_m0}, {"minimise 1", o_m1}, {"minimise 2", o_m2}, {"minimise 3", o_m3}, {"minimise 4", o_m4}, {"minimise 5", o_m5}, {"minimise 6", o_m6}, {"minimise 7", o_m7}, {"least squares", o_lm}, {"scalar minimum", o_sc}, {"roots", o_poly}, {"complex roots", o_cpoly}, {"distributions", o_dist}, {"box-cox", o_bc}, {"smoothers", o_sm}, {"linear algebra", o_alg}, {"linear least squares", o_lls}, {"large products", o_big}, {"symmetric matrices", o_eig}, {"series utilities", o_talg}};
#define NOPS ((int)(sizeof OPS / sizeof *OPS))
static void body(int k) { C[k].res = OPS[C[k].op].f(C[k].v); C[k].done = 1; int o = 1 - k; if (!C[o].done) { cur = o; setcontext(&C[o].c); } cur = -1; setcontext(&MAIN); }
static void prep(int k, int op, int v) { co_t *c = &C[k]; if (!c->stk) { c->stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); c->ar = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (c->stk == MAP_FAILED || c->ar == MAP_FAILED) _exit(8); }
    c->top = 0; memset(c->fl, 0, sizeof c->fl); c->done = op < 0; c->ev = 0; c->op = op; c->v = v; c->res = 0; if (op < 0) return; getcontext(&c->c); c->c.uc_stack.ss_sp = c->stk; c->c.uc_stack.ss_size = STK; c->c.uc_link = &MAIN; makecontext(&c->c, (void (*)(void))body, 1, k); }
/* run op a (coroutine 0) and b (coroutine 1, or none); preemptions at the listed events of the running one */
static void sched(int a, int va, int b, int vb, int n, long p0, long p1) { prep(0, a, va); prep(1, b, vb); npre = n; ip = 0; pre[0] = p0; pre[1] = p1; nbad = 0; cur = 0; swapcontext(&MAIN, &C[0].c); cur = -1; mc_ops(1); }
static uint64_t alone[64][2]; static long events[64][2]; static int have[64][2];
static void solo(int o, int v) { if (have[o][v]) return; sched(o, v, -1, 0, 0, 0, 0); alone[o][v] = C[0].res; events[o][v] = C[0].ev; have[o][v] = 1; }
void mc_enumerate(void) {
    mc_case_limit = 200;
    for (int o = 0; o < NOPS; o++) if (mc_case("footprint of %s", OPS[o].n)) for (int v = 0; v < 2; v++) { nload = nstore = 0; sched(o, v, -1, 0, 0, 0, 0); if (nbad) mc_fail("shared", "%s: %s (%d access(es))", OPS[o].n, bad, nbad); mc_count("loads classified", nload); mc_count("stores classified", nstore); mc_state(mc_hash(o, &C[0].res, 8)); uint64_t r = C[0].res; have[o][v] = 0; solo(o, v); MC_CHECK(r == alone[o][v], "history", "%s: a second run gives another result", OPS[o].n); for (int i = 0; i < NF; i++) if (FN_[i]) { Dl_info d; uint64_t off = (char *)FN_[i] - __executable_start; mc_state(mc_hash(77, &off, 8)); } }
    long cap = mc_thorough ? 100000000 : 480;
    for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) if (mc_case("schedules of %s with %s", OPS[a].n, OPS[b].n)) {
        solo(a, 0); solo(b, 1); solo(a, 1); solo(b, 0);
        long n = events[a][0], stp = (n + cap / 8) / (cap / 8) ; if (a == b) stp = (n + cap) / cap; if (stp < 1) stp = 1; if (mc_thorough) stp = 1; if (stp > 1) mc_count("pairs with strided preemption points", 1);
        for (long i = 0; i <= n; i += i < 40 ? 1 : stp) { sched(a, 0, b, 1, i > 0, i, 0); mc_count("schedules", 1); if (nbad) { mc_fail("shared", "%s preempted at event %ld by %s: %s", OPS[a].n, i, OPS[b].n, bad); break; } if (C[0].res != alone[a][0] || C[1].res != alone[b][1]) { mc_fail("interference", "%s preempted at event %ld of %ld by %s: result of the %s differs from its run alone", OPS[a].n, i, n, OPS[b].n, C[0].res != alone[a][0] ? "first" : "second"); break; } }
        /* two preemptions: the second operation is interrupted again and the first finishes inside */
        for (long i = 1; i <= n && i <= (mc_thorough ? 40 : 4); i++) for (long j = 1; j <= events[b][1] && j <= (mc_thorough ? 40 : 4); j++) { sched(a, 0, b, 1, 2, i, j); mc_count("schedules", 1); if (nbad || C[0].res != alone[a][0] || C[1].res != alone[b][1]) { mc_fail("interference", "%s preempted at event %ld, %s at %ld: %s", OPS[a].n, i, OPS[b].n, j, nbad ? bad : "result differs from the run alone"); i = n; break; } }
    }
}
