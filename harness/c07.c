/* C07: every public operation over the whole admissible parameter space on exactly sized heap inputs and outputs, under AddressSanitizer,
 * with every allocation accounted for: after the objects of a block are freed nothing the block allocated may be left. */
#include "arima.h"
#include "wavelib.h"
#include "seastest.h"
#include "unitroot.h"
#include "autoutils.h"
#include "boxcox.h"
#include "errors.h"
#include "spectrum.h"
#include "lls.h"
#include "optimc.h"
#include "nls.h"
#include "polyroot.h"
#include "talg.h"
#include "initest.h"
#include "stl.h"
#include "regression.h"
#include "emle.h"
const char *mc_property = "C07";
static int track;
#define mc_state(h) do { int tr_ = track; track = 0; mc_state(h); track = tr_; } while (0)
/* ---- allocation accounting (linked with --wrap) ---- */
#define TB (1u << 20)
static struct { void *p; size_t n; long seq; void *pc; } T[TB]; static long live, seqno;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static unsigned slot(void *p) { uint64_t h = (uintptr_t)p >> 4; h *= 0x9E3779B97F4A7C15ull; return (h >> 40) & (TB - 1); }
static void reg_(void *p, size_t n, void *pc) { if (!p || !track) return; unsigned i = slot(p); while (T[i].p && T[i].p != (void *)1) i = (i + 1) & (TB - 1); T[i].p = p; T[i].n = n; T[i].seq = ++seqno; T[i].pc = pc; live++; }
static void unreg(void *p) { if (!p || !track) return; unsigned i = slot(p); for (unsigned k = 0; k < TB && T[i].p; k++, i = (i + 1) & (TB - 1)) if (T[i].p == p) { T[i].p = (void *)1; live--; if (!live) memset(T, 0, 0); return; } }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); reg_(p, n, __builtin_return_address(0)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); reg_(p, a * b, __builtin_return_address(0)); return p; }
void *__wrap_realloc(void *q, size_t n) { unreg(q); void *p = __real_realloc(q, n); reg_(p, n, __builtin_return_address(0)); return p; }
void __wrap_free(void *p) { unreg(p); __real_free(p); }
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n) __attribute__((weak));
static const char *sect = ""; static double t0_;
#include <time.h>
static void begin(void) { t0_ = clock(); static int used; if (used++ % 200 == 199) memset(T, 0, sizeof T); track = 1; live = 0; seqno = 0; for (; 0;) ; }
static void finish(const char *fmt, ...) {
    track = 0; mc_ops(1); { char b[48]; snprintf(b, 48, "ms %s", sect); mc_count(b, (long)((clock() - t0_) / 1000)); }
    if (live) { char w[200]; va_list ap; va_start(ap, fmt); vsnprintf(w, sizeof w, fmt, ap); va_end(ap); for (unsigned i = 0; i < TB; i++) if ((uintptr_t)T[i].p > 1) { char b[160] = "?"; if (__sanitizer_symbolize_pc) __sanitizer_symbolize_pc((char *)T[i].pc - 1, "%f", b, sizeof b); mc_fail("leak", "%s: %ld block(s) left, first %zu bytes allocated in %s", w, live, T[i].n, b); break; } memset(T, 0, sizeof T); }
}
/* exactly sized heap arrays */
static double *H(int n) { double *p = malloc(sizeof(double) * (n > 0 ? n : 0)); for (int i = 0; i < n; i++) p[i] = -77.25; return p; }
static double *S(int fam, int n) { double *x = H(n); if (fam < 2) series(fam ? K_SEAS : K_ARMA, n, n, x); for (int i = 0; i < n; i++) switch (fam) { case 1: x[i] = 20 + 2 * x[i] + 0.1 * i; break; case 2: x[i] = 5; break; case 3: x[i] = 1 + 0.5 * i; break; case 4: x[i] = (i & 1) ? 1 : -1; break; case 5: x[i] = i == n / 2 ? 1e6 : 0; break; case 6: x[i] = 1e8 * sin(0.7 * i * i); break; case 7: x[i] = 0; break; } return x; }
static const char *FN[] = {"arma", "seasonal", "constant", "linear", "alternating", "spike", "large", "zero"};
static void regr(int fam, int r, int N, int ofs, double *z) { for (int k = 0; k < r; k++) for (int i = 0; i < N; i++) { double t = i + ofs; z[k * N + i] = fam == 3 && k == 1 ? z[i] * 2 : k == 0 ? sin(1.3 * t) + 0.1 * t : k == 1 ? ((int)t % 3 == 0) : cos(0.37 * t * t); } }
static void predict(fit_t *f, double *x, double *z, int L) { double *nx = H(f->sp.r * L), *p = H(L), *m = H(L); regr(0, f->sp.r, L, f->sp.N, nx); fit_predict(f, x, z, L, f->sp.r ? nx : NULL, p, m); free(nx); free(p); free(m); }
/* method 0..2 as in arima.h, 3 Box-Jenkins */
static void model(spec_t sp, int method, int opt, int fam) {
    begin(); double *x = S(fam, sp.N), *z = H(sp.r * sp.N), *zz = sp.r ? z : NULL; regr(fam, sp.r, sp.N, 0, z);
    fit_t f = fit_new(sp); if (method == 3) { f.method = 3; if (sp.cls == 0) arima_setMethod(f.o, 2); else sarima_setMethod(f.o, 2); } else fit_method(&f, method, opt);
    fit_exec(&f, x, zz); mc_state(mc_hash(f.retval * 31 + method, &f.loglik, 8)); char nm[40]; sprintf(nm, "fits with code %d", f.retval); mc_count(nm, 1);
    double *v = H(f.lvcov); if (sp.cls == 0) arima_vcov(f.o, v); else if (sp.cls == 1) sarima_vcov(f.o, v); else sarimax_vcov(f.o, v); free(v);
    if (f.retval == 1 || f.retval == 4) { for (int L = 1; L <= 2 * sp.s + 3; L += 1 + sp.s) predict(&f, x, zz, L); if (sp.cls == 0) arima_summary(f.o); else if (sp.cls == 1) sarima_summary(f.o); else sarimax_summary(f.o); }
    fit_exec(&f, x, zz); fit_free(&f); free(x); free(z); finish("%s method %d optimiser %d %s", spec_str(&sp), method, opt, FN[fam]);
}
static int minlen(const spec_t *s, int extra) { int k = s->p + s->q + s->P + s->Q + s->r + 1, a = s->p + s->P * s->s, b = s->q + s->Q * s->s; int n = k + 2; if (a + 2 > n) n = a + 2; if (b + 2 > n) n = b + 2; return n + s->d + s->D * s->s + extra; }
static void models(void) {
    int th = mc_thorough; sect = "arima"; static const int EX[] = {0, 1, 7, 40};
    for (int p = 0; p <= 3; p++) for (int d = 0; d <= 2; d++) for (int q = 0; q <= 3; q++) for (int m = 0; m < 4; m++) if (mc_case("arima (%d,%d,%d) method %d", p, d, q, m)) { spec_t s = {0, p, d, q, 0, 0, 0, 0, 0, 0, 0}; for (int e = 0; e < 4; e++) for (int f = 0; f < 8; f++) { s.N = minlen(&s, EX[e]); model(s, m, 5, f); } }
    sect = "seasonal models"; static const int SS[] = {2, 4, 12};
    for (int si = 0; si < 3; si++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= (SS[si] < 12 ? 2 : 1); P++) for (int Q = 0; Q <= (SS[si] < 12 ? 2 : 1); Q++) {
        if (!th && p + q + P + Q > (SS[si] < 4 ? 4 : 3)) continue;
        for (int m = 0; m < 4; m++) if (mc_case("sarima s=%d (%d,.,%d)(%d,.,%d) method %d", SS[si], p, q, P, Q, m)) for (int d = 0; d <= 1; d++) for (int D = 0; D <= (th && SS[si] < 12 ? 2 : 1); D++) for (int e = 0; e < (SS[si] < 12 ? 4 : 2); e++) for (int f = 0; f < (th ? 8 : e == 0 ? 3 : 1); f++) { spec_t s = {1, p, d, q, P, D, Q, SS[si], 0, 0, 0}; s.N = minlen(&s, EX[e]); model(s, m, 5, f); }
        for (int m = 0; m < 3; m++) if (mc_case("sarimax s=%d (%d,.,%d)(%d,.,%d) method %d", SS[si], p, q, P, Q, m)) for (int d = 0; d <= 1; d++) for (int D = 0; D <= 1; D++) for (int im = 0; im < 2; im++) for (int r = 0; r <= (th ? 3 : 2); r++) for (int e = 0; e < (SS[si] < 12 ? (th ? 4 : 2) : 1); e++) for (int f = 0; f < (th && SS[si] < 12 ? 8 : 1); f++) { if (im && d + D && !th) continue; spec_t s = {2, p, d, q, P, D, Q, SS[si], r, im, 0}; s.N = minlen(&s, EX[e]); model(s, m, 5, f ? f : (p + q + r) % 4); }
    }
    sect = "sarimax ns"; for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int m = 0; m < 3; m++) if (mc_case("sarimax without season (%d,.,%d) method %d", p, q, m)) for (int d = 0; d <= 2; d++) for (int im = 0; im < 2; im++) for (int r = 0; r <= 3; r++) for (int e = 0; e < 4; e++) for (int f = 0; f < 8; f += th || (p + q + r + e) % 2 == 0 ? 1 : 3) { if (im && d) continue; if (!th && f > 3) continue; spec_t s = {2, p, d, q, 0, 0, 0, 0, r, im, 0}; s.N = minlen(&s, EX[e]); model(s, m, 5, f); }
    sect = "model optimisers"; for (int cls = 0; cls < 3; cls++) for (int o = 0; o < 8; o++) if (mc_case("optimiser %d class %d", o, cls)) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= (cls ? 1 : 0); P++) for (int d = 0; d <= 1; d++) for (int m = 0; m < 3; m++) for (int e = 0; e < 4; e += 3) for (int f = 0; f < (th ? 8 : 4); f++) { if (!th && (p + q + P > 2 || (e && f) || (d && f > 1) || o == 5)) continue; spec_t s = {cls, p, d, q, P, 0, 0, cls ? 3 : 0, cls == 2, 0, 0}; s.N = minlen(&s, EX[e]); model(s, m, o, f); }
    /* long differencing with several regressors: D>0 and r large against a short series */
    for (int d = 0; d <= 2; d++) for (int D = 1; D <= 2; D++) for (int r = 1; r <= 6; r++) if (mc_case("sarimax d=%d D=%d r=%d", d, D, r)) for (int s0 = 2; s0 <= 12; s0 += 5) for (int m = 0; m < 3; m++) for (int e = 0; e < 3; e++) { spec_t s = {2, 0, d, 0, 0, D, 0, s0, r, 0, 0}; s.N = minlen(&s, EX[e]); model(s, m, 5, 0); }
}
static void automatic(void) {
    int th = mc_thorough; static const int MX[][7] = {{2, 1, 2, 1, 1, 1, 5}, {0, 0, 0, 0, 0, 0, 5}, {5, 2, 5, 2, 1, 2, 5}, {1, 2, 0, 0, 1, 1, 2}};
    for (int mx = 0; mx < 4; mx++) for (int s = 1; s <= 12; s += (s == 1 ? 3 : 8)) for (int r = 0; r <= 2; r++) for (int sw = 0; sw < 2; sw++) if (mc_case("automatic maxima %d period %d regressors %d stepwise %d", mx, s, r, sw)) for (int ap = 0; ap < 2; ap++) for (int f = 0; f < 8; f++) for (int len = 0; len < 2; len++) for (int nm = 0; nm < 3; nm++) {
        if (!th && ((mx == 2 && (!sw || s == 12)) || (nm && (f || !sw)) || (len && f) || (r == 2 && f > 3))) continue; if (!sw && nm) continue;
        int N = len ? 5 * s + 20 : 3 * s + 12; begin(); int a[3] = {MX[mx][0], MX[mx][1], MX[mx][2]}, b[3] = {MX[mx][3], MX[mx][4], MX[mx][5]}; double *x = S(f, N), *z = H(r * N); regr(0, r, N, 0, z);
        auto_arima_object o = auto_arima_init(a, b, s, r, N); auto_arima_setStepwise(o, sw); auto_arima_setApproximation(o, ap); o->Order_max = MX[mx][6]; if (nm) o->num_models = nm == 1 ? 1 : 3; auto_arima_exec(o, x, r ? z : NULL); mc_state(mc_hash(o->retval, &o->aic, 8));
        if (o->retval == 1) for (int L = 1; L <= s + 2; L += s) { double *nx = H(r * L), *p = H(L), *m = H(L); regr(0, r, L, N, nx); auto_arima_predict(o, x, r ? z : NULL, L, r ? nx : NULL, p, m); free(nx); free(p); free(m); }
        auto_arima_summary(o); auto_arima_exec(o, x, r ? z : NULL); auto_arima_free(o); free(x); free(z); finish("automatic maxima %d s=%d r=%d stepwise %d approx %d %s N=%d models %d", mx, s, r, sw, ap, FN[f], N, nm);
    }
    for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= 1; P++) for (int d = 0; d <= 1; d++) for (int D = 0; D <= 1; D++) if (mc_case("wrapper and myarima (%d,%d,%d)(%d,%d,0)", p, d, q, P, D)) for (int r = 0; r <= 2; r++) for (int dr = 0; dr < 2; dr++) for (int f = 0; f < 8; f++) {
        int N = 30, s = P + D ? 4 : 0, od[3] = {p, d, q}, se[4] = {P, D, 0, s}; if (dr && d + D != 1) continue; begin(); double *x = S(f, N), *z = H(r * N); regr(0, r, N, 0, z);
        sarimax_wrapper_object w = sarimax_wrapper(NULL, x, N, od, s ? se : NULL, r ? z : NULL, r, dr, d + D == 0, NULL, 0, (p + q) % 3);
        if (w->sarimax->retval == 1) { double *nx = H(r * 5), *pp = H(5), *m = H(5); regr(0, r, 5, N, nx); sarimax_wrapper_predict(w, x, r ? z : NULL, 5, r ? nx : NULL, pp, m); free(nx); free(pp); free(m); sarimax_wrapper_summary(w); }
       
        myarima_object y = myarima(x, N, od, s ? se : NULL, dr || d + D == 0, "aicc", 0, p == 1, 0.0, r ? z : NULL, r, NULL); if (y->ic < 1e300) myarima_summary(y); myarima_free(y); sarimax_wrapper_free(w); free(x); free(z); finish("wrapper r=%d drift %d %s", r, dr, FN[f]);
    }
}
static void arfamily(void) {
    int th = mc_thorough;
    for (int f = 0; f < 8; f++) for (int m = 0; m < 3; m++) if ((m < 2 || f < 2 || f == 6) && mc_case("ar object %s method %d", FN[f], m)) for (int N = 4; N <= (m == 2 ? (th ? 26 : 12) : th ? 90 : 40); N += m == 2 ? (th ? 2 : 4) : N < 20 ? 1 : 10) { begin(); double *x = S(f, N); ar_object o = ar_init(m, N); ar_exec(o, x); for (int L = 1; L <= 12; L += 5) { double *p = H(L), *v = H(L); ar_predict(o, x, L, p, v); free(p); free(v); } ar_summary(o); ar_exec(o, x); ar_free(o); int e = ar_estimate(x, N, m); (void)e; free(x); finish("ar method %d N=%d", m, N); }
    for (int N = 2; N <= 24; N++) if (mc_case("estimators N=%d", N)) for (int f = 0; f < 8; f++) {
        for (int p = 1; p < N && p <= 8; p++) for (int m = 0; m < 3; m++) { if (m == 2 && !th && (p > 3 || N % 4)) continue; begin(); double *x = S(f, N), *ph = H(p), *th1 = H(p), *v = H(1); if (m == 0) yw(x, N, p, ph, v); else if (m == 1) burg(x, N, p, ph, v); else ar(x, N, p, 0, ph, v); free(x); free(ph); free(th1); free(v); finish("estimator %d N=%d p=%d %s", m, N, p, FN[f]); }
        for (int p = 0; p <= 3; p++) for (int q = 1; q <= 3; q++) { if (N < 8 + 2 * (p + q)) continue; begin(); double *x = S(f, N), *ph = H(p), *th1 = H(q), *v = H(1); hr(x, N, p, q, ph, th1, v); free(x); free(ph); free(th1); free(v); finish("hr N=%d p=%d q=%d %s", N, p, q, FN[f]); }
        for (int M = 1; M < N; M++) { begin(); double *x = S(f, N), *a = H(M), *b = H(M); acvf(x, N, a, M); acvf_opt(x, N, 0, a, M); acvf_opt(x, N, 1, a, M); acvf2acf(a, M); pacf(x, N, b, M); pacf_opt(x, N, 0, b, M); pacf_opt(x, N, 1, b, M); if (M <= 4 && N > 3 * M + 4) pacf_opt(x, N, 2, b, M); free(x); free(a); free(b); finish("acf N=%d M=%d %s", N, M, FN[f]); }
        for (int h = 2; h <= 6; h++) for (int pm = 1; pm < h && pm <= 3; pm++) for (int d = 0; d <= 1; d++) { if (N < 2 * h + 2 * pm + d + 4) continue; begin(); double *x = S(f, N); model_estimate(x, N, d, pm, h); free(x); finish("model_estimate N=%d d=%d pmax=%d h=%d %s", N, d, pm, h, FN[f]); }
    }
}
static void transforms(void) {
    int th = mc_thorough;
    for (int N = 1; N <= (th ? 1100 : 260); N++) if (mc_case("fft N=%d", N)) for (int sg = -1; sg <= 1; sg += 2) { begin(); fft_object o = fft_init(N, sg); fft_data *a = malloc(sizeof(fft_data) * N), *b = malloc(sizeof(fft_data) * N); for (int i = 0; i < N; i++) { a[i].re = i; a[i].im = 1; } fft_exec(o, a, b); fft_exec(o, a, b); free_fft(o); if (N % 2 == 0) { fft_real_object r = fft_real_init(N, sg); double *x = S(0, N); if (sg == 1) fft_r2c_exec(r, x, b); else fft_c2r_exec(r, a, x); free_real_fft(r); free(x); } free(a); free(b); finish("fft N=%d sgn=%d", N, sg); }
    for (int N = 1; N <= (th ? 40 : 16); N++) if (mc_case("convolution N=%d", N)) for (int L = 1; L <= (th ? 40 : 16); L++) for (int ty = 0; ty < 3; ty++) for (int me = 0; me < 2; me++) { static const char *TY[] = {"full", "same", "valid"}; int mx = N > L ? N : L, mn = N + L - mx, n = ty == 0 ? N + L - 1 : ty == 1 ? mx : mx - mn + 1; begin(); double *a = S(0, N), *b = S(4, L), *o = H(n); convolve(TY[ty], me ? "fft" : "direct", a, N, b, L, o); free(a); free(b); free(o); a = S(0, N); b = S(4, L); o = H(N + L - 1); conv_object c = conv_init(N, L); conv_fft(c, a, b, o); conv_fft(c, a, b, o); free_conv(c); free(a); free(b); free(o); finish("convolve N=%d L=%d %s", N, L, TY[ty]); }
    static const char *WN[] = {"haar", "db1", "db2", "db3", "db7", "db15", "db20", "db38", "bior1.1", "bior1.3", "bior2.2", "bior3.1", "bior3.9", "bior4.4", "bior5.5", "bior6.8", "rbior1.5", "rbior2.4", "rbior3.3", "coif1", "coif3", "coif5", "coif17", "sym2", "sym5", "sym10", "sym20"};
    for (int w = 0; w < 27; w++) if (mc_case("wavelets %s", WN[w])) for (int N0 = 0; N0 < (th ? 12 : 6); N0++) for (int ex = 0; ex < 2; ex++) for (int cv = 0; cv < 2; cv++) {
        wave_object wv = wave_init(WN[w]); int fl = wv->filtlength, N = (fl < 4 ? 4 : fl) + N0 * (N0 > 3 ? 7 : 1); int J = 1; while (J < 3 && J + 1 <= (int)log(N) && (N >> (J + 1)) >= fl) J++; 
        for (int j = 1; j <= J; j++) {
            begin(); double *x = S(0, N), *y = H(N); wt_object o = wt_init(wv, "dwt", N, j); setDWTExtension(o, ex ? "sym" : "per"); setWTConv(o, cv ? "fft" : "direct"); dwt(o, x); idwt(o, y); wt_summary(o); double *m = getDWTmra(o, o->output); free(m); wt_free(o); free(x); free(y); finish("dwt %s N=%d J=%d ext %d conv %d", WN[w], N, j, ex, cv);
            if (!cv) { begin(); x = S(0, N); wtree_object t = wtree_init(wv, N, j); setWTREEExtension(t, ex ? "sym" : "per"); wtree(t, x); wtree_summary(t); for (int k = 1; k <= j; k++) { int nl = getWTREENodelength(t, k); for (int q = 0; q < (1 << k); q++) { double *c = H(nl); getWTREECoeffs(t, k, q, c, nl); free(c); } } wtree_free(t); free(x); finish("wtree %s N=%d J=%d ext %d", WN[w], N, j, ex);
                for (int en = 0; en < 4; en++) { static const char *EN[] = {"shannon", "threshold", "norm", "logenergy"}; begin(); x = S(0, N); y = H(N); wpt_object p = wpt_init(wv, N, j); setDWPTExtension(p, ex ? "sym" : "per"); setDWPTEntropy(p, EN[en], en == 1 ? 0.5 : 1.5); dwpt(p, x); idwpt(p, y); wpt_summary(p); wpt_free(p); free(x); free(y); finish("dwpt %s N=%d J=%d ext %d entropy %d", WN[w], N, j, ex, en); } }
            if (!ex) { int M = N; while (M % (1 << j)) M++; begin(); x = S(0, M); y = H(M); wt_object sw = wt_init(wv, "swt", M, j); setWTConv(sw, cv ? "fft" : "direct"); swt(sw, x); iswt(sw, y); double *m2 = getSWTmra(sw, sw->output); free(m2); wt_free(sw); free(x); free(y); finish("swt %s N=%d J=%d conv %d", WN[w], M, j, cv);
                if (strncmp(WN[w], "bior", 4) && strncmp(WN[w], "rbior", 5)) { begin(); x = S(0, N); y = H(N); wt_object mo = wt_init(wv, "modwt", N, j); setWTConv(mo, cv ? "fft" : "direct"); if (!cv || 1) setDWTExtension(mo, "per"); modwt(mo, x); imodwt(mo, y); double *m3 = getMODWTmra(mo, mo->output); free(m3); wt_free(mo); free(x); free(y); finish("modwt %s N=%d J=%d conv %d", WN[w], N, j, cv); } }
        }
        wave_summary(wv); wave_free(wv);
    }
    for (int N = 2; N <= 24; N++) if (mc_case("spectra N=%d", N)) for (int F = N; F <= N + 9; F++) for (int sd = 0; sd < 2; sd++) { begin(); int no = sd == 0 ? F / 2 + 1 : F; double *x = S(0, N), *sp = H(no), *fr = H(no); spectrum_fft_object o = spectrum_fft_init(N, F); periodogram(o, x, sp, fr, sd); free(sp); free(fr); sp = H(no); fr = H(no); psd(o, x, sp, fr, sd); free(sp); free(fr); free_spectrum(o); free(x); double *y = S(0, F); spectrum_shift(y, F); free(y); finish("spectrum N=%d Nfft=%d side %d", N, F, sd); }
}
/* the OCSB regression needs a series whose seasonal difference is not degenerate: the library ends the process otherwise */
#define OKF(f) ((f) == 0)
static void seasonal(void) {
    int th = mc_thorough; static const int FQ[] = {2, 3, 4, 7, 12};
    for (int k = 0; k < 5; k++) for (int f = 0; f < 8; f++) if (mc_case("decomposition period %d %s", FQ[k], FN[f])) for (int N = 2 * FQ[k]; N <= 4 * FQ[k] + 3 || (OKF(f) && N <= 2 * FQ[k] + 30); N++) {
        int q = FQ[k];
        for (int ty = 0; ty < 2; ty++) { begin(); double *x = S(f, N), *t = H(N), *s = H(N), *r = H(N); int a, b, c; decompose(x, N, q, NULL, ty ? "multiplicative" : "additive", t, &a, s, &b, r, &c); free(x); free(t); free(s); free(r); finish("decompose N=%d f=%d", N, q); }
        if (N > 2 * q) for (int sw = 0; sw < 3; sw++) for (int ro = 0; ro < 2; ro++) { begin(); double *x = S(f, N), *t = H(N), *s = H(N), *r = H(N); int win = sw == 1 ? 7 : 13, o = 3, dg = 1; stl(x, N, q, sw == 0 ? "period" : "null", sw ? &win : NULL, sw == 2 ? &dg : NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, &ro, NULL, NULL, s, t, r); free(x); free(t); free(s); free(r); finish("stl N=%d f=%d window %d robust %d", N, q, sw, ro); (void)o; }
        if (N > 2 * q) { begin(); double *x = S(f, N), *t = H(N), *s = H(N), *r = H(N); int win = 9; modstl(x, N, q, NULL, NULL, s, t, r); modstl(x, N, q, &win, NULL, s, t, r); free(x); free(t); free(s); free(r); finish("modstl N=%d f=%d", N, q); }
        for (int ns0 = 1; ns0 <= 2; ns0++) { int ns = ns0, fs[2] = {q, 2 * q - 1}; begin(); double *x = S(f, N), *t = H(N), *r = H(N), *s[2] = {H(N), H(N)}; int it = 2; if (N > 2 * q) mstl(x, N, fs, &ns, NULL, NULL, &it, s, t, r); double *se = H(ns); if (N > 2 * q) SHtest(x, N, fs, ns, se); free(se); free(x); free(t); free(r); free(s[0]); free(s[1]); finish("mstl N=%d f=%d periods %d", N, q, ns); }
        if (N >= 2 * q + 5 && OKF(f)) for (int ml = 1; ml <= 3; ml++) for (int me = 0; me < 4; me++) { static const char *ME_[] = {"fixed", "aic", "bic", "aicc"}; if (N < 2 * q + 12 + 4 * ml) continue; begin(); double *x = S(f, N), st, cr; OCSBtest(x, N, q, ml, ME_[me], &st, &cr); free(x); finish("OCSB N=%d f=%d lags %d %s", N, q, ml, ME_[me]); }
        for (int te = 0; te < 2; te++) for (int md = 0; md < 3; md++) { if (N < 2 * q + 8 || (te && (!OKF(f) || N < 2 * q + 24))) continue; begin(); double *x = S(f, N), al = 0.05; nsdiffs(x, N, q, NULL, te ? "ocsb" : "seas", md ? &md : NULL); al = te ? 0.05 : 0.64; nsdiffs(x, N, q, &al, te ? "ocsb" : "seas", NULL); free(x); finish("nsdiffs N=%d f=%d test %d max %d", N, q, te, md); }
    }
    for (int N = 8; N <= (th ? 60 : 30); N++) if (mc_case("unit root tests N=%d", N)) for (int f = 0; f < 8; f++) {
        static const char *AL[] = {"stationary", "explosive"}, *KT[] = {"level", "trend"}, *DT[] = {"none", "drift", "trend"}, *SL[] = {"fixed", "aic", "bic"}, *PT[] = {"Z-alpha", "Z-tau"}, *MO[] = {"constant", "trend"};
        begin(); double *x = S(f, N), st, pv; for (int a = 0; a < 2; a++) { ur_df(x, N, AL[a], NULL, &st, &pv); for (int k = 0; k <= 3 && N > 2 * k + 6; k++) ur_df(x, N, AL[a], &k, &st, &pv); } for (int t = 0; t < 2; t++) for (int ls = 0; ls < 2; ls++) { ur_kpss(x, N, KT[t], ls, NULL, &st, &pv); for (int k = 0; k < N && k < 6; k++) ur_kpss(x, N, KT[t], ls, &k, &st, &pv); for (int a = 0; a < 2; a++) { static const char *PA[] = {"Z(alpha)", "Z(t_alpha)"}; ur_pp(x, N, AL[a], PA[t], ls, NULL, &st, &pv); } } free(x); finish("unit root N=%d %s", N, FN[f]);
        for (int t = 0; t < 3; t++) for (int k = 0; k <= 3; k++) for (int s = 0; s < 3; s++) { if (N < 2 * k + 8) continue; begin(); double *y = S(f, N), *cv = H(9), *cp = H(3), *ts = H(3); int r, c, lt; ur_df2(y, N, DT[t], &k, SL[s], cv, &r, &c, cp, ts, &lt); free(y); free(cv); free(cp); free(ts); finish("ur_df2 N=%d %s lags %d %s", N, DT[t], k, SL[s]); }
        for (int t = 0; t < 2; t++) for (int m = 0; m < 2; m++) { begin(); double *y = S(f, N), *cv = H(3), *cp = H(3), *ax = H(2), ts; int la; ur_pp2(y, N, PT[t], MO[m], 1, NULL, cv, cp, ax, &la, &ts); free(y); free(cv); free(cp); free(ax); finish("ur_pp2 N=%d %s %s", N, PT[t], MO[m]); }
        for (int te = 0; te < 3; te++) for (int ty = 0; ty < 2; ty++) for (int md = 0; md < 4; md++) { static const char *TE[] = {"kpss", "df", "pp"}; if (N < 12) continue; begin(); double *y = S(f, N), al = 0.05; ndiffs(y, N, md & 1 ? &al : NULL, TE[te], ty ? "trend" : "level", md ? &md : NULL); free(y); finish("ndiffs N=%d %s", N, TE[te]); }
    }
}
static double matv(int fam, int i, int j, int n) { switch (fam) { case 0: return sin(1.7 * i + 0.9 * j * j + 0.3 * i * j) + (i == j ? 2 : 0); case 1: return i == j; case 2: return 0; case 3: return 1; case 4: return 1.0 / (i + j + 1); case 5: return (i + 1) * (j + 2); case 6: return i == n - 1 - j ? 1 : 0; default: return i >= j ? 1 : 1e-9; } }
static double *MT(int fam, int m, int n) { double *a = H(m * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i * n + j] = matv(fam, i, j, n); return a; }
static void algebra(void) {
    int th = mc_thorough;
    for (int n = 1; n <= (th ? 12 : 7); n++) for (int f = 0; f < 8; f++) if (mc_case("square matrices %d family %d", n, f)) {
        begin(); double *A = MT(f, n, n), *W = H(n * n), *V = H(n), *V2 = H(n); int *pv = malloc(sizeof(int) * n);
        memcpy(W, A, 8 * n * n); ludecomp(W, n, pv); if (f != 2 && f != 3 && f != 5) { double *b = S(0, n), *xo = H(n), *iv = H(n * n); linsolve(W, n, b, pv, xo); minverse(W, n, pv, iv); free(b); free(xo); free(iv); }
        memcpy(W, A, 8 * n * n); eig(W, n, V, V2); memcpy(W, A, 8 * n * n); hessenberg(W, n); memcpy(W, A, 8 * n * n); cholu(W, n); memcpy(W, A, 8 * n * n); bcholu(W, n); memcpy(W, A, 8 * n * n); chol(W, n); memcpy(W, A, 8 * n * n); double *ev = H(n * n); if (f == 1 || f == 3 || f == 4) eigensystem(W, n, V, ev); free(ev); memcpy(W, A, 8 * n * n); itranspose(W, n, n); 
        free(A); free(W); free(V); free(V2); free(pv); finish("square n=%d family %d", n, f);
    }
    for (int m = 1; m <= (th ? 9 : 6); m++) for (int n = 1; n <= (th ? 9 : 6); n++) if (mc_case("rectangular matrices %dx%d", m, n)) for (int f = 0; f < 8; f++) {
        begin(); double *A = MT(f, m, n), *W = H(m * n), *U = H(m * n), *V = H(n * n), *q = H(n), *T = H(m * n); int *pv = malloc(sizeof(int) * (m > n ? m : n));
        mtranspose(A, m, n, T); stranspose(A, m, n, T); rtranspose(A, m, n, T, m, n); ctranspose(A, m, n, T); memcpy(W, A, 8 * m * n); rank(W, m, n); memcpy(W, A, 8 * m * n); rludecomp(W, m, n, pv);
        if (m >= n) { memcpy(W, A, 8 * m * n); svd(W, m, n, U, V, q); memcpy(W, A, 8 * m * n); svd_gr(W, m, n, U, V, q); memcpy(W, A, 8 * m * n); svd_gr2(W, m, n, U, V, q); double *b = S(0, m), *xo = H(n); memcpy(W, A, 8 * m * n); lls_svd(W, b, m, n, xo); memcpy(W, A, 8 * m * n); lls_svd2(W, b, m, n, xo); memcpy(W, A, 8 * m * n); if (f == 0 || f == 7 || f == 1) { lls_qr(W, b, m, n, xo); memcpy(W, A, 8 * m * n); lls_normal(W, b, m, n, xo); } free(b); free(xo); memcpy(W, A, 8 * m * n); double *bv = H(n), *Q = H(m * n), *R = H(n * n); qrdecomp(W, m, n, bv); getQR(W, m, n, bv, Q, R); free(bv); free(Q); free(R); double *AB = H(m * (n + 1)); for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) AB[i * (n + 1) + j] = A[i * n + j]; AB[i * (n + 1) + n] = i; } minfit(AB, m, n, 1, q); free(AB); }
        for (int p = 1; p <= 4; p++) { double *B = MT(0, n, p), *C = H(m * p); mmult(A, B, C, m, n, p); nmult(A, B, C, m, n, p); tmult(A, B, C, m, n, p); rmult(A, B, C, m, n, p); smult(A, B, C, m, n, p); free(B); free(C); }
        free(A); free(W); free(U); free(V); free(q); free(T); free(pv); finish("rectangular %dx%d family %d", m, n, f);
    }
    for (int p = 1; p <= 5; p++) for (int ic = 0; ic < 2; ic++) if (mc_case("regression p=%d intercept %d", p, ic)) for (int N = p + 2; N <= p + 12; N++) for (int f = 0; f < 8; f++) for (int me = 0; me < 3; me++) { static char *LS[] = {"qr", "svd", "normal"}; begin(); int r = p - ic; double *y = S(f, N), *z = H(r * N), *res = H(N), *vc = H(p * p); regr(f == 3 && me ? 3 : 0, r, N, 0, z); reg_object o = reg_init(N, p); if (!ic) setIntercept(o, 0); setLLSMethod(o, LS[me]); if (!(me == 2 && f == 3)) { regress(o, r ? z : NULL, y, res, vc, 0.05); summary(o); anova(o); confint(o); } free_reg(o); free(y); free(z); free(res); free(vc); finish("regress p=%d N=%d %s", p, N, LS[me]); }
    for (int dg = 1; dg <= 12; dg++) if (mc_case("polynomial roots degree %d", dg)) for (int f = 0; f < 8; f++) { begin(); double *c = S(f, dg + 1), *ci = S(4, dg + 1), *zr = H(dg), *zi = H(dg); polyroot(c, dg, zr, zi); cpolyroot(c, ci, dg, zr, zi); archeck(dg, zr); double *ma = S(0, dg); invertroot(dg, ma); free(ma); free(c); free(ci); free(zr); free(zi); finish("polyroot %d %s", dg, FN[f]); }
    for (int N = 1; N <= 14; N++) if (mc_case("series utilities N=%d", N)) {
        for (int d = 0; d <= 3 && d < N; d++) { begin(); double *x = S(0, N), *o = H(N - d); diff(x, N, d, o); free(o); free(x); double *c = H(d + 1); deld(d, c); free(c); finish("diff N=%d d=%d", N, d); }
        for (int D = 0; D <= 2; D++) for (int s = 1; s <= 5; s++) { begin(); double *c = H(D * s + 1); delds(D, s, c); free(c); if (D * s < N) { double *x = S(0, N), *o = H(N - D * s); diffs(x, N, D, s, o); free(o); free(x); } finish("diffs N=%d D=%d s=%d", N, D, s); }
        for (int L = 1; L <= 8; L++) { begin(); double *a = S(0, N), *b = S(0, L), *c = H(N + L - 1); poly(a, b, c, N, L); free(c); c = H(N + L - 1); conv(a, N, b, L, c); free(c); c = H(N + L - 1); convx(a, N, b, L, c); free(c); free(a); free(b); finish("poly %d %d", N, L); }
        for (int M = 1; M <= 4; M++) { begin(); double *x = S(0, N), *o = H((N - 1) * M + 1); upsample(x, N, M, o); free(o); o = H((N - 1) / M + 1); downsample(x, N, M, o); free(o); free(x); finish("resample N=%d M=%d", N, M); }
        for (int w = 1; w <= N; w++) { begin(); double *x = S(0, N), *o = H(N), *wt = H(w); for (int i = 0; i < w; i++) wt[i] = 1.0 / w; mafilter(x, N, w, o); mafilter2(x, N, w, o); mafilter_wt(x, N, wt, w, o); expfilter(x, N, 0.3, o); detrend_ma(x, N, w, o); free(o); free(x); free(wt); finish("filters N=%d window %d", N, w); }
        if (N >= 4) for (int s = 2; 2 * s <= N; s++) { begin(); double *x = S(0, N), *o = H(N); deseason_ma(x, N, s, o); free(x); free(o); finish("deseason N=%d s=%d", N, s); }
        for (int p = 0; p <= 4; p++) for (int q = 0; q <= 4; q++) { begin(); double *ph = H(p), *th1 = H(q), *o = H(N); for (int i = 0; i < p; i++) ph[i] = 0.1; for (int i = 0; i < q; i++) th1[i] = 0.2; psiweight(ph, th1, o, p, q, N); piweight(ph, th1, o, p, q, N); free(o); o = H(N); arma_autocovar(ph, th1, p, q, 1.0, o, N); free(o); free(ph); free(th1); finish("weights N=%d p=%d q=%d", N, p, q); }
        begin(); double *x = S(0, N), *y = S(0, N), *o = H(N); for (int i = 0; i < N; i++) { x[i] = i + 1; y[i] = 2 + fabs(y[i]); } for (double z = -1; z < N + 2; z += 0.5) interpolate_linear(x, y, N, z); if (N > 4) supsmu(x, N, y, NULL, 1, 0.0, 0.0, o); if (N > 4) supsmu(x, N, y, NULL, 1, 0.3, 1.0, o); cumsum(x, N, o); me(x, y, N); mse(x, y, N); rmse(x, y, N); mae(x, y, N); mape(x, y, N); mpe(x, y, N); if (N > 1) mase(x, y, N, y, N); boxcox_eval(y, N, 0.3, o); inv_boxcox_eval(o, N, 0.3, y); if (N > 2) boxcox(y, N, NULL, o); checkConstant(x, N); double *lo = H(7); linspace(lo, 7, 0, 1); double *yo = H(7); if (N > 1) approx(x, y, N, lo, yo, 7); free(lo); free(yo); free(x); free(y); free(o); finish("utilities N=%d", N);
        for (int l = 0; l < N; l++) { begin(); double *u = S(0, N), s; ppsum(u, N, l, &s); free(u); finish("ppsum N=%d l=%d", N, l); }
    }
}
static int evals, failat; static double fobj(double *x, int N, void *p) { int k = *(int *)p; evals++; if (failat && evals >= failat) return NAN; double s = 0; if (k == 0) for (int i = 0; i < N; i++) s += (i + 1) * (x[i] - 1) * (x[i] - 1); else if (k == 1) { for (int i = 0; i + 1 < N; i++) s += 100 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]) + (1 - x[i]) * (1 - x[i]); if (N == 1) s = pow(x[0] - 1, 4); } else if (k == 2) for (int i = 0; i < N; i++) s += log(x[i]); else if (k == 3) for (int i = 0; i < N; i++) s -= x[i] * x[i]; else s = 1; return s; }
static void gobj(double *x, int N, double *g, void *p) { int k = *(int *)p; for (int i = 0; i < N; i++) { double h = 1e-6, t = x[i]; int e = evals, fa = failat; failat = 0; x[i] = t + h; double a = fobj(x, N, p); x[i] = t - h; double b = fobj(x, N, p); x[i] = t; evals = e; failat = fa; g[i] = (a - b) / (2 * h); } (void)k; }
static void fm(double *x, int M, int N, double *f, void *p) { int k = *(int *)p; evals++; for (int i = 0; i < M; i++) f[i] = k == 0 ? x[i % N] - i : k == 1 ? x[0] * exp(-0.1 * i * (N > 1 ? x[1] : 1)) - cos(i) : NAN; }
static void jm(double *x, int M, int N, double *f, void *p) { for (int j = 0; j < N; j++) { double h = 1e-6, t = x[j]; double *a = __real_malloc(8 * M), *b = __real_malloc(8 * M); x[j] = t + h; fm(x, M, N, a, p); x[j] = t - h; fm(x, M, N, b, p); x[j] = t; for (int i = 0; i < M; i++) f[i * N + j] = (a[i] - b[i]) / (2 * h); __real_free(a); __real_free(b); } }
static void optimisers(void) {
    for (int me = 0; me < 8; me++) for (int N = 1; N <= 4; N++) if (mc_case("optimise method %d N=%d", me, N)) for (int k = 0; k < 5; k++) for (int g = 0; g < 2; g++) for (int mi = 0; mi <= 6; mi++) for (failat = 0; failat <= 6; failat++) {
        begin(); evals = 0; double *xi = H(N), *xf = H(N); for (int i = 0; i < N; i++) xi[i] = 0.5 + i; custom_function F = {fobj, &k}; custom_gradient G = {gobj, &k}; opt_object o = opt_init(N); if (mi) setMaxIter(o, mi * mi); optimize(o, &F, g ? &G : NULL, N, xi, me); optsummary(o); if (!mi && !failat) optimize(o, &F, NULL, N, xi, (me + 3) % 8); free_opt(o); evals = 0; if (!mi) { if (me == 0) fminsearch(&F, N, xi, xf); else fminunc(&F, g ? &G : NULL, N, xi, 0.0, me, xf); } free(xi); free(xf); finish("optimise %d N=%d objective %d gradient %d iterations %d fail at %d", me, N, k, g, mi * mi, failat);
    }
    failat = 0;
    for (int M = 1; M <= 6; M++) for (int N = 1; N <= M && N <= 3; N++) if (mc_case("least squares %dx%d", M, N)) for (int k = 0; k < 3; k++) for (int j = 0; j < 2; j++) { begin(); double *xi = H(N), *xf = H(N); for (int i = 0; i < N; i++) xi[i] = 0.3 + i; custom_funcmult F = {fm, &k}; custom_jacobian J = {jm, &k}; levmar(&F, j ? &J : NULL, xi, M, N, xf); nls_object o = nls_init(M, N); nls(o, &F, j ? &J : NULL, xi); nlssummary(o); double *dg = H(N); for (int i = 0; i < N; i++) dg[i] = 1 + i; nls_scale(o, &F, j ? &J : NULL, dg, xi); free(dg); free_nls(o); free(xi); free(xf); finish("nls %dx%d problem %d jacobian %d", M, N, k, j); }
}
void mc_enumerate(void) { mc_case_limit = 150; sect = "algebra"; algebra(); sect = "optimisers"; optimisers(); sect = "transforms"; transforms(); sect = "seasonal"; seasonal(); sect = "models"; models(); sect = "automatic"; automatic(); sect = "ar"; arfamily(); }
