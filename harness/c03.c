/* C03: CSS fits report the conditional sum of squares they minimised */
#include "arima.h"
const char *mc_property = "C03";
static const ld PI = 3.14159265358979323846264338327950288L;
static void judge(fit_t *f, const double *x, const double *xr, const char *when) {
    spec_t sp = f->sp; int n = sp.N - sp.d - (sp.cls ? sp.s * sp.D : 0), k = sp.p + sp.q + (sp.cls ? sp.P + sp.Q : 0) + (spec_hasmean(&sp) ? 1 : 0) + (sp.cls == 2 ? sp.r : 0);
    MC_CHECK(f->Nused == n, "nused", "%s %s: reported effective length %d, expected %d", when, spec_str(&sp), f->Nused, n);
    char rc[32]; snprintf(rc, 32, "retval_%d", f->retval); mc_count(rc, 1);
    if (f->retval != 1) return;
    if (!spec_hasmean(&sp)) MC_CHECK(f->mean == 0.0, "mean0", "%s %s: model without mean reports mean %g", when, spec_str(&sp), f->mean);
    model_t m = model_of(&sp, f->phi, f->theta, f->PHI, f->THETA, f->mean, f->exog, x, xr);
    ld ssq, *e = calloc(n + 1, sizeof(ld)); int used; model_css(&m, &ssq, &used, e);
    double *ee = malloc(sizeof(double) * (n + 1)); ld mx = 0; for (int i = 0; i < n; i++) { ee[i] = (double)e[i]; if (fabsl(m.w[i]) > mx) mx = fabsl(m.w[i]); }
    double var = (double)(ssq / used), sc = sqrt(var), at = 1e-10 * (double)(mx + sc) * (1 + 20 * sp.d);
    MC_CHECK(mc_close(f->var, var, at * sc, 1e-9), "var", "%s %s: reported variance %.12g, mean squared conditional residual %.12g at the reported coefficients", when, spec_str(&sp), f->var, var);
    double ll = (double)(-0.5L * n * (logl(2 * PI * ssq / used) + 1));
    mc_max("loglik_err_per_obs", fabs(f->loglik - ll) / n);
    MC_CHECK(fabs(f->loglik - ll) <= 1e-6 * n + n * at / sc, "loglik", "%s %s: reported log-likelihood %.10g, %.10g follows from the variance", when, spec_str(&sp), f->loglik, ll);
    MC_CHECK(mc_close(f->aic, -2 * f->loglik + 2 * (k + 1), 1e-9, 1e-12), "aic", "%s %s: AIC %.10g, -2 loglik + 2(k+1) = %.10g", when, spec_str(&sp), f->aic, -2 * f->loglik + 2 * (k + 1));
    mc_vec("residual", f->res, ee, n, at, 1e-9);
    mc_state_d(&f->loglik, 1); mc_count("fits_compared", 1);
    model_free(&m); free(e); free(ee);
}
static void data(const spec_t *sp, int kind, int seed, double *x, double *xr) {
    series(kind, seed, sp->N, x); regressors(sp->r, sp->N, 0, xr);
    if (sp->cls == 2) for (int i = 0; i < sp->N; i++) for (int j = 0; j < sp->r; j++) x[i] += (j + 0.5) * xr[j * sp->N + i];
}
static int same(const fit_t *a, const fit_t *b) {
    spec_t sp = a->sp; int n = a->Nused; 
    if (a->retval != b->retval) return 0;
    if (memcmp(&a->var, &b->var, 8) || memcmp(&a->loglik, &b->loglik, 8) || memcmp(&a->aic, &b->aic, 8) || memcmp(&a->mean, &b->mean, 8)) return 0;
    if (memcmp(a->phi, b->phi, 8 * sp.p) || memcmp(a->theta, b->theta, 8 * sp.q) || memcmp(a->res, b->res, 8 * n)) return 0;
    if (sp.cls && (memcmp(a->PHI, b->PHI, 8 * sp.P) || memcmp(a->THETA, b->THETA, 8 * sp.Q))) return 0;
    if (sp.cls == 2 && memcmp(a->exog, b->exog, 8 * sp.r)) return 0;
    return 1;
}
static void one(spec_t sp, int kind, int seed, int opt, int hist) {
    double *x = malloc(sizeof(double) * sp.N), *xr = malloc(sizeof(double) * sp.N * (sp.r + 1)), *y = malloc(sizeof(double) * sp.N), *yr = malloc(sizeof(double) * sp.N * (sp.r + 1));
    data(&sp, kind, seed, x, xr); double *xp = sp.cls == 2 && sp.r ? xr : NULL;
    fit_t f = fit_new(sp); fit_method(&f, 2, opt); fit_exec(&f, x, xp); mc_ops(1); judge(&f, x, xr, "first fit");
    if (hist) {
        data(&sp, (kind + 3) % NKIND, seed + 5, y, yr); double *yp = xp ? yr : NULL;
        /* same object: CSS again; CSS-ML and ML of another series, then CSS again; CSS of another series */
        for (int h = 0; h < 5 && mc_ok(); h++) {
            fit_t g = fit_new(sp);
            switch (h) {
            case 0: fit_method(&g, 2, opt); fit_exec(&g, x, xp); break;
            case 1: fit_method(&g, 0, opt); fit_exec(&g, y, yp); break;
            case 2: fit_method(&g, 1, opt); fit_exec(&g, y, yp); break;
            case 3: fit_method(&g, 2, opt); fit_exec(&g, y, yp); judge(&g, y, yp ? yr : xr, "other series"); break;
            case 4: fit_method(&g, 2, (opt + 2) % 8); fit_exec(&g, y, yp); fit_method(&g, 0, opt); fit_exec(&g, x, xp); break;
            }
            fit_method(&g, 2, opt); fit_exec(&g, x, xp); mc_ops(2); judge(&g, x, xr, "after other fits");
            MC_CHECK(same(&f, &g), "history", "%s: CSS fit after history %d differs from a fresh one (retval %d/%d var %.10g/%.10g loglik %.10g/%.10g aic %.10g/%.10g)", spec_str(&sp), h, g.retval, f.retval, g.var, f.var, g.loglik, f.loglik, g.aic, f.aic);
            fit_free(&g);
        }
    }
    fit_free(&f); free(x); free(xr); free(y); free(yr);
}
void mc_enumerate(void) {
    mc_case_limit = 60; int T = mc_thorough;
    for (int kind = 0; kind < NKIND; kind++) for (int n = 0; n < (T ? 5 : 3); n++) for (int p = 0; p <= 3; p++) for (int q = 0; q <= 3; q++) for (int d = 0; d <= 2; d++) for (int cls = 0; cls < 3; cls++) for (int im = 0; im < (cls == 2 && d == 0 ? 2 : 1); im++) {
        static const int NN[] = {30, 61, 22, 90, 200}; spec_t s = {cls, p, d, q, 0, 0, 0, 0, 0, 1 - im, NN[n]};
        if (!T && n && (kind + p + q + d + cls) % 3 != n) continue;
        int h = T || (kind + p + 2 * q + d + n) % 2 == 0;
        if (mc_case("%s %s opt5 h%d", kname[kind], spec_str(&s), h)) one(s, kind, 1, 5, h);
    }
    static const int PQ[][4] = {{0,0,1,0},{0,0,0,1},{1,0,1,0},{0,1,0,1},{1,1,1,0},{1,0,0,1},{1,1,0,1},{1,1,1,1},{2,0,1,0},{0,2,0,1},{0,0,1,1},{2,1,1,0},{0,0,2,0},{1,0,2,1},{0,0,0,2},{0,3,1,0},{3,0,0,1},{2,2,1,1},{0,0,0,0},{1,0,0,0}};
    for (int kind = 0; kind < NKIND; kind++) for (int k = 0; k < 20; k++) for (int si = 0; si < (T ? 4 : 3); si++) for (int dd = 0; dd < 6; dd++) for (int cls = 1; cls < 3; cls++) {
        static const int S[] = {4, 2, 7, 12}; spec_t s = {cls, PQ[k][0], dd % 3, PQ[k][1], PQ[k][2], dd / 3, PQ[k][3], S[si], 0, 1, S[si] == 12 ? 80 : S[si] == 7 ? 70 : 48};
        if (!T && (si + k + dd + kind) % 2) continue;
        int h = (k + dd + kind) % (T ? 2 : 3) == 0;
        if (mc_case("%s %s opt5 h%d", kname[kind], spec_str(&s), h)) one(s, kind, 2, 5, h);
    }
    for (int kind = 0; kind < NKIND; kind++) for (int r = 0; r <= 3; r++) for (int im = 0; im < 2; im++) for (int k = 0; k < 8; k++) for (int dd = 0; dd < 6; dd++) {
        static const int O[][4] = {{0,0,0,0},{1,0,0,0},{0,1,0,0},{1,1,0,0},{1,0,1,0},{0,1,0,1},{2,1,0,0},{1,2,1,1}}; if (!T && (kind + k) % 2 != r % 2) continue;
        spec_t s = {2, O[k][0], dd % 3, O[k][1], O[k][2], dd / 3, O[k][3], (O[k][2] + O[k][3] + (dd / 3)) ? 4 : 0, r, im, 44};
        if (mc_case("%s %s opt5 h1", kname[kind], spec_str(&s))) one(s, kind, 3, 5, 1);
    }
    for (int opt = 0; opt <= 7; opt++) for (int kind = 0; kind < NKIND; kind++) for (int k = 0; k < 6; k++) for (int cls = 0; cls < 3; cls++) {
        static const int O[][5] = {{1,0,0,0,0},{0,1,1,0,0},{1,1,1,0,0},{2,0,1,0,0},{1,0,0,1,0},{0,1,1,0,1}}; if (cls == 0 && k > 3) continue;
        spec_t s = {cls, O[k][0], O[k][2], O[k][1], O[k][3], 0, O[k][4], O[k][3] + O[k][4] ? 4 : 0, 0, 1, 50};
        if (mc_case("%s %s opt%d h1", kname[kind], spec_str(&s), opt)) one(s, kind, 4, opt, 1);
    }
}
