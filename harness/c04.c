/* C04: forecasts are the conditional expectations of the integrated process given the whole series, with their exact mean-square errors */
#include "arima.h"
#include <stdarg.h>
const char *mc_property = "C04";
/* exact forecasts and conditional covariance of a stationary zero-mean vector: g acvf (unit innovation variance) */
static int cond(const ld *w, int n, const ld *g, int H, ld *f, ld *cov, ld *sig2) {
    int m = n + H; ld *L = calloc((size_t)m * m, sizeof(ld)), *z = calloc(n + 1, sizeof(ld));
    for (int j = 0; j < m; j++) for (int i = j; i < m; i++) {
        ld v = g[i - j]; for (int k = 0; k < j; k++) v -= L[i * m + k] * L[j * m + k];
        if (i == j) { if (!(v > 0)) { free(L); free(z); return 1; } L[i * m + i] = sqrtl(v); } else L[i * m + j] = v / L[j * m + j];
    }
    ld S = 0; for (int i = 0; i < n; i++) { ld v = w[i]; for (int k = 0; k < i; k++) v -= L[i * m + k] * z[k]; z[i] = v / L[i * m + i]; S += z[i] * z[i]; }
    for (int h = 0; h < H; h++) { f[h] = 0; for (int k = 0; k < n; k++) f[h] += L[(n + h) * m + k] * z[k];
        for (int l = 0; l <= h; l++) { ld v = 0; for (int k = n; k <= n + l; k++) v += L[(n + h) * m + k] * L[(n + l) * m + k]; cov[h * H + l] = cov[l * H + h] = v; } }
    *sig2 = S / n; free(L); free(z); return 0;
}
#define HM 40
/* product of 1-|partial autocorrelation|: inverse of the conditioning of the stationary covariances */
static ld ar_cond(const ld *a, int p) {
    ld c[256], t[256], m = 1; memcpy(c, a, sizeof(ld) * p);
    while (p > 0) { ld r = c[p - 1]; if (!(fabsl(r) < 1)) return 0; m *= 1 - fabsl(r); for (int i = 0; i < p - 1; i++) t[i] = (c[i] + r * c[p - 2 - i]) / (1 - r * r); p--; memcpy(c, t, sizeof(ld) * p); }
    return m;
}
static void judge(fit_t *f, double *x, double *xr, int H, const char *what) {
    spec_t sp = f->sp; int N = sp.N, D = sp.cls ? sp.D : 0, s = sp.cls ? sp.s : 0, r = sp.cls == 2 ? sp.r : 0;
    model_t m = model_of(&sp, f->phi, f->theta, f->PHI, f->THETA, f->mean, f->exog, x, xr);
    ld mg = ar_margin(m.a, m.ip), *g = calloc(m.n + H + 2, sizeof(ld)), fw[HM], cov[HM * HM], s2;
    if (mg < 1e-4L || ref_arma_acvf(m.a, m.ip, m.b, m.iq, g, m.n + H + 1) || cond(m.w, m.n, g, H, fw, cov, &s2)) { mc_count("not_evaluable", 1); free(g); model_free(&m); return; }
    /* integrate */
    ld dl[64] = {1}; int dn = 0; for (int k = 0; k < sp.d; k++) { dn++; for (int i = dn; i > 0; i--) dl[i] -= dl[i - 1]; }
    for (int k = 0; k < D; k++) { dn += s; for (int i = dn; i >= s; i--) dl[i] -= dl[i - s]; }
    ld c[HM] = {1}; for (int h = 1; h < H; h++) { c[h] = 0; for (int k = 1; k <= dn && k <= h; k++) c[h] -= dl[k] * c[h - k]; }
    double nx[3 * HM + 1], *xp = malloc(8 * (N + H)), want[HM], wmse[HM]; regressors(r, H, N, nx); ld *y = calloc(N + H + 1, sizeof(ld)); ld mxx = 0;
    for (int i = 0; i < N; i++) { y[i] = x[i]; if (spec_hasmean(&sp)) y[i] -= f->mean; for (int j = 0; j < r; j++) y[i] -= (ld)f->exog[j] * xr[j * N + i]; if (fabsl(y[i]) > mxx) mxx = fabsl(y[i]); if (fabs(x[i]) > mxx) mxx = fabs(x[i]); }
    for (int h = 0; h < H; h++) {
        y[N + h] = fw[h]; for (int k = 1; k <= dn; k++) y[N + h] -= dl[k] * y[N + h - k];
        ld v = y[N + h]; if (spec_hasmean(&sp)) v += f->mean; for (int j = 0; j < r; j++) v += (ld)f->exog[j] * nx[j * H + h];
        want[h] = (double)v; ld q = 0; for (int i = 0; i <= h; i++) for (int j = 0; j <= h; j++) q += c[h - i] * c[h - j] * cov[i * H + j]; wmse[h] = (double)(s2 * q);
    }
    double *pr = mc_buf(H), *ms = mc_buf(H), *xc = malloc(8 * N), *xrc = malloc(8 * (N * r + 1)), nxc[3 * HM + 1]; memcpy(xc, x, 8 * N); if (r) memcpy(xrc, xr, 8 * N * r); memcpy(nxc, nx, 8 * r * H);
    int np = sp.p + sp.q + (sp.cls ? sp.P + sp.Q : 0) + (sp.cls == 2 ? r : 0); double *par = malloc(8 * (np + 2)); memcpy(par, f->phi, 8 * np); double m0 = f->mean, v0 = f->var;
    fit_predict(f, x, r ? xr : NULL, H, r ? nx : NULL, pr, ms); mc_ops(H); mc_bufcheck("pred_bounds", pr, H); mc_bufcheck("mse_bounds", ms, H);
    ld scf = mxx; for (int h = 0; h < H; h++) if (fabs(want[h]) > scf) scf = fabs(want[h]);
    ld ac = ar_cond(m.a, m.ip), bs = 1; for (int i = 0; i < m.iq; i++) bs += fabsl(m.b[i]);
    double at = (double)(1e-9L * scf * (1 + 1e-3L / mg) + 1e-11L * scf / ac), rt = (double)(1e-8L * (1 + 1e-2L / mg) + 1e-12L / ac);
    for (int h = 0; h < H; h++) { mc_max("forecast_err_over_tol", fabs(pr[h] - want[h]) / (at + 1e-300)); mc_max("mse_err_over_tol", fabs(ms[h] - wmse[h]) / (rt * wmse[h] + 1e-300)); }
    if (mc_vec("forecast", pr, want, H, at, 1e-10)) { }
    mc_vec("mse", ms, wmse, H, (double)(1e-14L * scf * scf), rt);
    for (int h = 1; h < H; h++) if (wmse[h] >= wmse[h - 1]) MC_CHECK(ms[h] >= ms[h - 1] * (1 - 1e-9), "mse_decreases", "%s %s: MSE falls from %.12g to %.12g at horizon %d", what, spec_str(&sp), ms[h - 1], ms[h], h + 1);
    MC_CHECK(!memcmp(x, xc, 8 * N) && (!r || !memcmp(xr, xrc, 8 * N * r)) && !memcmp(nx, nxc, 8 * r * H), "input_modified", "%s %s: prediction changed the caller's arrays", what, spec_str(&sp));
    MC_CHECK(!memcmp(par, f->phi, 8 * np) && f->phi == f->phi, "coef_modified", "%s %s: prediction changed coefficients", what, spec_str(&sp));
    fit_read(f); MC_CHECK(!memcmp(&m0, &f->mean, 8) && !memcmp(&v0, &f->var, 8), "mean_modified", "%s %s: prediction changed mean or variance", what, spec_str(&sp));
    /* shorter horizons give the same first numbers */
    for (int k = 1; k < H; k += (k < 3 ? 1 : 4)) {
        double *p2 = mc_buf(k), *m2 = mc_buf(k), n2[3 * HM + 1]; for (int j = 0; j < r; j++) memcpy(n2 + j * k, nx + j * H, 8 * k);
        fit_predict(f, x, r ? xr : NULL, k, r ? n2 : NULL, p2, m2); mc_ops(k); mc_bufcheck("pred_bounds", p2, k); mc_bufcheck("mse_bounds", m2, k);
        MC_CHECK(!memcmp(p2, pr, 8 * k) && !memcmp(m2, ms, 8 * k), "prefix", "%s %s: forecasting %d steps differs from the first %d of %d", what, spec_str(&sp), k, k, H);
        mc_buffree(p2); mc_buffree(m2);
    }
    mc_state_d(pr, H); mc_count("forecasts_compared", H);
    mc_buffree(pr); mc_buffree(ms); free(xc); free(xrc); free(par); free(y); free(xp); free(g); model_free(&m);
}
static void data(const spec_t *sp, int kind, int seed, double *x, double *xr) {
    series(kind, seed, sp->N, x); regressors(sp->r, sp->N, 0, xr);
    if (sp->cls == 2) for (int i = 0; i < sp->N; i++) for (int j = 0; j < sp->r; j++) x[i] += (j + 0.5) * xr[j * sp->N + i];
}
/* phi from partial autocorrelations */
static void pac2ar(const double *r, int p, double *phi) { double t[16]; for (int k = 0; k < p; k++) { t[k] = r[k]; for (int i = 0; i < k; i++) t[i] = phi[i] - r[k] * phi[k - 1 - i]; memcpy(phi, t, 8 * (k + 1)); } }
static const double PV[] = {-0.8, 0.4, 0.95, -0.3, 0.0}, TV[] = {0.6, -0.45, 1.5, -0.9, 0.0};
static void coefs(spec_t sp, int kind, int H, int nv, int vs) {   /* every coefficient vector over nv values for p,q and two for P,Q */
    double *x = malloc(8 * sp.N), *xr = malloc(8 * (sp.N * (sp.r + 1))); data(&sp, kind, 6, x, xr);
    int P = sp.cls ? sp.P : 0, Q = sp.cls ? sp.Q : 0, tot = 1; for (int i = 0; i < sp.p + sp.q; i++) tot *= nv; for (int i = 0; i < P + Q; i++) tot *= vs;
    for (int c = 0; c < tot && mc_ok(); c++) {
        fit_t f = fit_new(sp); fit_read(&f); double r[16]; int k = c;
        for (int i = 0; i < sp.p; i++) { r[i] = PV[k % nv]; k /= nv; } pac2ar(r, sp.p, f.phi);
        for (int i = 0; i < sp.q; i++) { r[i] = TV[k % nv]; k /= nv; } pac2ar(r, sp.q, f.theta); if (sp.q && fabs(r[sp.q - 1]) > 1) for (int i = 0; i < sp.q; i++) f.theta[i] = r[i] * (i ? 0.5 : 1);
        for (int i = 0; i < P; i++) { r[i] = PV[(k % vs + 1) % 5]; k /= vs; } if (P) pac2ar(r, P, f.PHI);
        for (int i = 0; i < Q; i++) { r[i] = TV[(k % vs + 1) % 5]; k /= vs; if (fabs(r[i]) > 1) r[i] = 0.7; } if (Q) pac2ar(r, Q, f.THETA);
        double mu = 9.25; if (sp.cls == 0) ((arima_object)f.o)->mean = mu; else if (sp.cls == 1) ((sarima_object)f.o)->mean = mu; else { ((sarimax_object)f.o)->mean = spec_hasmean(&sp) ? mu : 0; for (int j = 0; j < sp.r; j++) f.exog[j] = 0.7 * j - 0.4; }
        if (sp.cls < 2 && !spec_hasmean(&sp)) { if (sp.cls == 0) ((arima_object)f.o)->mean = 0; else ((sarima_object)f.o)->mean = 0; }
        fit_read(&f); judge(&f, x, xr, H, "coefficient lattice"); fit_free(&f);
    }
    free(x); free(xr);
}
static void fitcase(spec_t sp, int kind, int method, int opt, int H) {
    double *x = malloc(8 * sp.N), *xr = malloc(8 * (sp.N * (sp.r + 1))); data(&sp, kind, 3, x, xr);
    fit_t f = fit_new(sp); fit_method(&f, method, opt); fit_exec(&f, x, sp.r ? xr : NULL);
    if (f.retval == 1) judge(&f, x, xr, H, "fitted"); else mc_count("not_converged", 1);
    fit_free(&f); free(x); free(xr);
}
static void arobj(int kind, int method, int N, int H) {
    double *x = malloc(8 * N); series(kind, 9, N, x); ar_object o = ar_init(method, N); ar_exec(o, x);
    spec_t sp = {0, o->p, 0, 0, 0, 0, 0, 0, 0, 1, N}; fit_t f = fit_new(sp); fit_read(&f); memcpy(f.phi, o->phi, 8 * o->p); ((arima_object)f.o)->mean = o->mean; fit_read(&f);
    double *a = mc_buf(H), *b = mc_buf(H), *c = malloc(8 * H), *d = malloc(8 * H), *xc = malloc(8 * N); memcpy(xc, x, 8 * N);
    ar_predict(o, x, H, a, b); mc_bufcheck("pred_bounds", a, H); mc_bufcheck("mse_bounds", b, H); MC_CHECK(!memcmp(x, xc, 8 * N), "input_modified", "ar_predict changed the series");
    arima_predict(f.o, x, H, c, d); mc_vec("ar_forecast", a, c, H, 1e-9, 1e-9); mc_vec("ar_mse", b, d, H, 0, 1e-8);
    judge(&f, x, NULL, H, "ar object"); mc_buffree(a); mc_buffree(b); free(c); free(d); free(xc); fit_free(&f); ar_free(o); free(x);
}
void mc_enumerate(void) {
    mc_case_limit = 120; int T = mc_thorough;
    /* non-seasonal coefficient lattices */
    for (int cls = 0; cls < 3; cls++) for (int p = 0; p <= (T ? 4 : 3); p++) for (int q = 0; q <= (T ? 4 : 3); q++) for (int d = 0; d <= (T ? 3 : 2); d++) for (int n = 0; n < (T ? 4 : 2); n++) {
        static const int NN[] = {24, 8, 41, 60}; static const int KK[] = {K_RW, K_ARMA, K_TREND, K_AR2C}; spec_t s = {cls, p, d, q, 0, 0, 0, 0, 0, 1, NN[n]};
        
        if (mc_case("lattice %s", spec_str(&s))) coefs(s, KK[(p + q + d + n) % 4], 12, p + q <= 4 ? 5 : p + q <= 6 ? 3 + T : 2, 1);
    }
    for (int p = 4; p <= 8; p += 2) for (int q = 0; q <= 6; q += 3) for (int d = 0; d < 2; d++) { spec_t s = {0, p, d, q, 0, 0, 0, 0, 0, 1, 40}; if (mc_case("lattice %s", spec_str(&s))) coefs(s, K_RW, 15, p + q <= 9 ? 2 : 1, 1); }
    /* seasonal */
    for (int cls = 1; cls < 3; cls++) for (int si = 0; si < (T ? 5 : 4); si++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= 2; P++) for (int Q = 0; Q <= 2; Q++) for (int dd = 0; dd < 6; dd++) {
        static const int S[] = {2, 4, 7, 12, 3}; int d = dd % 3, D = dd / 3; if (p + q + P + Q > (T ? 6 : 4)) continue; if (S[si] > 4 && P + Q > (T ? 3 : 2)) continue; 
        spec_t s = {cls, p, d, q, P, D, Q, S[si], 0, 1, S[si] * (D + 1) + d + 23};
        if (mc_case("lattice %s", spec_str(&s))) coefs(s, (p + q + P) % 2 ? K_TREND : K_RW, S[si] > 4 ? S[si] + 3 : 2 * S[si] + 5, p + q <= 2 && S[si] < 7 ? 3 : 2, S[si] < 7 || T ? 2 : 1);
    }
    for (int d = 0; d < 2; d++) for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) { spec_t s = {1, p, d, q, 0, 2, 1, 4, 0, 1, 40}; if (mc_case("lattice %s", spec_str(&s))) coefs(s, K_TREND, 13, 3, 2); }
    /* regressors */
    for (int r = 1; r <= 3; r++) for (int im = 0; im < 2; im++) for (int dd = 0; dd < 6; dd++) for (int k = 0; k < 6; k++) {
        static const int O[][4] = {{0,0,0,0},{1,0,0,0},{0,1,0,0},{1,1,0,0},{1,0,1,0},{2,1,1,1}}; spec_t s = {2, O[k][0], dd % 3, O[k][1], O[k][2], dd / 3, O[k][3], 4, r, im, 40};
        if (mc_case("lattice %s", spec_str(&s))) coefs(s, K_TREND, 9, 3, 2);
    }
    /* fitted models, every method */
    for (int kind = 0; kind < NKIND; kind++) for (int cls = 0; cls < 3; cls++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int d = 0; d <= 2; d++) for (int m = 0; m < 3; m++) {
        if (!T && (kind + p + q + d + m) % 2) continue; spec_t s = {cls, p, d, q, 0, 0, 0, 0, 0, 1, 40};
        if (mc_case("fitted %s %s m%d", kname[kind], spec_str(&s), m)) fitcase(s, kind, m, 5, 10);
    }
    for (int kind = 0; kind < NKIND; kind++) for (int k = 0; k < 8; k++) for (int dd = 0; dd < 4; dd++) for (int m = 0; m < 3; m++) for (int r = -1; r <= 2; r++) {
        static const int O[][4] = {{0,0,0,0},{1,0,1,0},{0,1,0,1},{1,1,0,1},{1,0,1,1},{2,0,0,1},{0,1,1,0},{0,0,1,0}}; spec_t s = {r < 0 ? 1 : 2, O[k][0], dd % 2, O[k][1], O[k][2], dd / 2, O[k][3], 4, r < 0 ? 0 : r, 1, 48};
        if (!T && (kind + k + dd + m + r) % 3) continue;
        if (mc_case("fitted %s %s m%d", kname[kind], spec_str(&s), m)) fitcase(s, kind, m, 5, 11);
    }
    for (int kind = 0; kind < NKIND; kind++) for (int m = 0; m < 3; m++) for (int n = 0; n < 2; n++) if (mc_case("ar %s method %d n%d", kname[kind], m, n)) arobj(kind, m, n ? 90 : 31, 12);
}
