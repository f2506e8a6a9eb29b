/* shared by the ARIMA harnesses: structured series, uniform access to the three model classes, reference model */
#ifndef ARIMA_H
#define ARIMA_H
#include "mc.h"
#include "ref.h"
#include "ctsa.h"
typedef struct { int cls; /* 0 arima 1 sarima 2 sarimax */ int p, d, q, P, D, Q, s, r, imean, N; } spec_t;
typedef struct { void *o; spec_t sp; int M, retval, Nused, method; double *phi, *theta, *PHI, *THETA, *exog, *res, *vcov, mean, var, loglik, aic; int lvcov; } fit_t;
static const char *spec_str(const spec_t *s) {
    static char b[4][96]; static int k; char *o = b[k++ & 3];
    snprintf(o, 96, "%s(%d,%d,%d)(%d,%d,%d)%d r%d m%d N%d", s->cls == 0 ? "arima" : s->cls == 1 ? "sarima" : "sarimax", s->p, s->d, s->q, s->P, s->D, s->Q, s->s, s->r, s->imean, s->N); return o;
}
static int spec_hasmean(const spec_t *s) { return s->d + s->D == 0 && (s->cls < 2 || s->imean == 1); }
static fit_t fit_new(spec_t sp) {
    fit_t f; memset(&f, 0, sizeof f); f.sp = sp;
    if (sp.cls == 0) f.o = arima_init(sp.p, sp.d, sp.q, sp.N);
    else if (sp.cls == 1) f.o = sarima_init(sp.p, sp.d, sp.q, sp.s, sp.P, sp.D, sp.Q, sp.N);
    else f.o = sarimax_init(sp.p, sp.d, sp.q, sp.P, sp.D, sp.Q, sp.s, sp.r, sp.imean, sp.N);
    return f;
}
/* method: 0 CSS-ML, 1 ML, 2 CSS (uniform over the three classes) */
static void fit_method(fit_t *f, int method, int opt) {
    f->method = method;
    if (f->sp.cls == 0) { arima_object o = f->o; arima_setMethod(o, method == 2 ? 1 : 0); arima_setCSSML(o, method == 0); arima_setOptMethod(o, opt); }
    else if (f->sp.cls == 1) { sarima_object o = f->o; sarima_setMethod(o, method == 2 ? 1 : 0); sarima_setCSSML(o, method == 0); sarima_setOptMethod(o, opt); }
    else { sarimax_object o = f->o; sarimax_setMethod(o, method); sarimax_setOptMethod(o, opt); }
}
static void fit_read(fit_t *f) {
#define RD(o) do { f->retval = o->retval; f->M = o->M; f->Nused = o->Nused; f->phi = o->phi; f->theta = o->theta; f->res = o->res; f->vcov = o->vcov; f->lvcov = o->lvcov; f->mean = o->mean; f->var = o->var; f->loglik = o->loglik; f->aic = o->aic; } while (0)
    f->PHI = f->THETA = f->exog = NULL;
    if (f->sp.cls == 0) { arima_object o = f->o; RD(o); }
    else if (f->sp.cls == 1) { sarima_object o = f->o; RD(o); f->PHI = o->PHI; f->THETA = o->THETA; }
    else { sarimax_object o = f->o; RD(o); f->PHI = o->PHI; f->THETA = o->THETA; f->exog = o->exog; }
}
static void fit_exec(fit_t *f, double *x, double *xreg) {
    if (f->sp.cls == 0) arima_exec(f->o, x); else if (f->sp.cls == 1) sarima_exec(f->o, x); else sarimax_exec(f->o, x, xreg);
    fit_read(f);
}
static void fit_predict(fit_t *f, double *x, double *xreg, int L, double *nx, double *pred, double *mse) {
    if (f->sp.cls == 0) arima_predict(f->o, x, L, pred, mse); else if (f->sp.cls == 1) sarima_predict(f->o, x, L, pred, mse); else sarimax_predict(f->o, x, xreg, L, nx, pred, mse);
}
static void fit_free(fit_t *f) { if (f->sp.cls == 0) arima_free(f->o); else if (f->sp.cls == 1) sarima_free(f->o); else sarimax_free(f->o); f->o = NULL; }

/* structured series: deterministic shocks filtered by a fixed ARMA, integrated d/D times, plus mean, trend, season */
enum { K_AR1, K_MA1, K_ARMA, K_AR2C, K_SEAS, K_RW, K_TREND, K_NEARUNIT, K_WHITE, K_MA2, NKIND };
static const char *kname[NKIND] = {"ar1", "ma1", "arma", "ar2c", "seas", "rw", "trend", "nearunit", "white", "ma2"};
static void series(int kind, int seed, int N, double *x) {
    mc_rng g; mc_seed(&g, 1000 * kind + seed + 7); double e[4] = {0}, y[32] = {0}; int B = 60;
    double cum = 0; 
    for (int t = -B; t < N; t++) {
        double e0 = mc_n(&g), v;
        switch (kind) {
        case K_AR1: v = 0.6 * y[0] + e0; break;
        case K_MA1: v = e0 + 0.5 * e[0]; break;
        case K_ARMA: v = 0.7 * y[0] + e0 - 0.4 * e[0]; break;
        case K_AR2C: v = 1.1 * y[0] - 0.6 * y[1] + e0; break;
        case K_SEAS: v = 0.4 * y[0] + 0.5 * y[3] - 0.2 * y[4] + e0; break;
        case K_NEARUNIT: v = 0.95 * y[0] + e0; break;
        case K_MA2: v = e0 - 0.6 * e[0] + 0.3 * e[1]; break;
        default: v = e0;
        }
        memmove(y + 1, y, sizeof(double) * 31); y[0] = v; memmove(e + 1, e, sizeof(double) * 3); e[0] = e0;
        if (t >= 0) {
            if (kind == K_RW) { cum += v; x[t] = 20 + cum; }
            else if (kind == K_TREND) x[t] = 5 + 0.3 * t + 0.8 * v + 2 * ((t % 4) == 1);
            else x[t] = 10 + v;
        }
    }
}
static void regressors(int r, int N, int ofs, double *z) {   /* column major, r columns of N rows, rows ofs.. */
    for (int j = 0; j < r; j++) for (int i = 0; i < N; i++) { int t = i + ofs; z[j * N + i] = j == 0 ? sin(0.7 * t) + 0.02 * t : j == 1 ? ((t * 7 + 3) % 11) - 5.0 : cos(1.9 * t) * (1 + t % 3); }
}
/* standardised innovations, S and log det of a zero-mean Gaussian vector with unit-variance acvf g */
static int innov(const ld *w, int n, const ld *g, ld *z, ld *S, ld *logdet) {
    ld *ph = calloc(n + 1, sizeof(ld)), *t = calloc(n + 1, sizeof(ld)); ld v = g[0]; *S = 0; *logdet = 0; int bad = 0;
    for (int k = 0; k < n; k++) {
        if (k > 0) {
            ld num = g[k]; for (int i = 1; i < k; i++) num -= ph[i] * g[k - i];
            ld r = num / v; for (int i = 1; i < k; i++) t[i] = ph[i] - r * ph[k - i]; t[k] = r; memcpy(ph + 1, t + 1, sizeof(ld) * k); v *= 1 - r * r;
        }
        if (!(v > 0)) { bad = 1; break; }
        ld e = w[k]; for (int i = 1; i <= k; i++) e -= ph[i] * w[k - i];
        if (z) z[k] = e / sqrtl(v);
        *S += e * e / v; *logdet += logl(v);
    }
    free(ph); free(t); return bad;
}
typedef struct { int ip, iq, n; ld *a, *b, *w; } model_t;   /* expanded polynomials, differenced regression-adjusted series */
static void model_free(model_t *m) { free(m->a); free(m->b); free(m->w); }
static model_t model_of(const spec_t *s, const double *phi, const double *theta, const double *PHI, const double *THETA, double mean, const double *exog, const double *x, const double *xreg) {
    model_t m; int sp = s->cls ? s->s : 0, P = s->cls ? s->P : 0, Q = s->cls ? s->Q : 0, D = s->cls ? s->D : 0;
    m.a = calloc(s->p + sp * P + 2, sizeof(ld)); m.b = calloc(s->q + sp * Q + 2, sizeof(ld));
    double th[64], TH[16]; for (int i = 0; i < s->q; i++) th[i] = -theta[i]; for (int i = 0; i < Q; i++) TH[i] = -THETA[i];
    m.ip = ref_expand_ar(phi, s->p, PHI, P, sp, m.a); m.iq = ref_expand_ma(th, s->q, TH, Q, sp, m.b);
    int N = s->N; ld *y = malloc(sizeof(ld) * (N + 1));
    for (int i = 0; i < N; i++) { y[i] = x[i]; if (spec_hasmean(s)) y[i] -= mean; for (int j = 0; j < (s->cls == 2 ? s->r : 0); j++) y[i] -= (ld)exog[j] * xreg[j * N + i]; }
    int n = N; for (int k = 0; k < s->d; k++) { for (int i = 0; i + 1 < n; i++) y[i] = y[i + 1] - y[i]; n--; }
    for (int k = 0; k < D; k++) { for (int i = 0; i + sp < n; i++) y[i] = y[i + sp] - y[i]; n -= sp; }
    m.w = y; m.n = n; return m;
}
/* exact log-likelihood maximised over the innovation variance; 0 ok, 1 not evaluable (AR not stationary) */
static int model_ml(const model_t *m, ld *ll, ld *var, ld *z) {
    if (!ref_stationary(m->a, m->ip)) return 1;
    ld *g = calloc(m->n + 1, sizeof(ld)), S, lg; int bad = ref_arma_acvf(m->a, m->ip, m->b, m->iq, g, m->n);
    if (!bad) bad = innov(m->w, m->n, g, z, &S, &lg);
    free(g); if (bad) return 1;
    *var = S / m->n; *ll = -0.5L * (m->n * (logl(2 * 3.14159265358979323846264338327950288L * *var) + 1) + lg); return 0;
}
/* conditional sum of squares */
static void model_css(const model_t *m, ld *ssq, int *used, ld *e) {
    *ssq = 0; *used = 0; for (int i = 0; i < m->n; i++) {
        e[i] = 0; if (i < m->ip) continue;
        ld v = m->w[i]; for (int j = 1; j <= m->ip; j++) v -= m->a[j - 1] * m->w[i - j]; for (int j = 1; j <= m->iq && i - j >= m->ip; j++) v -= m->b[j - 1] * e[i - j];
        e[i] = v; *ssq += v * v; ++*used; }
}
/* distance of the expanded AR from the unit circle, as the smallest 1-|reflection coefficient| (0 if non-stationary) */
static ld ar_margin(const ld *a, int p) {
    ld *c = malloc(sizeof(ld) * (p + 1)), *t = malloc(sizeof(ld) * (p + 1)); memcpy(c, a, sizeof(ld) * p); ld m = 1;
    while (p > 0) { ld r = c[p - 1]; if (!(fabsl(r) < 1)) { m = 0; break; } if (1 - fabsl(r) < m) m = 1 - fabsl(r); for (int i = 0; i < p - 1; i++) t[i] = (c[i] + r * c[p - 2 - i]) / (1 - r * r); p--; memcpy(c, t, sizeof(ld) * p); }
    free(c); free(t); return m;
}
#endif
