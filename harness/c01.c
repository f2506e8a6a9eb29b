/* C01: exact-ML fits report the exact Gaussian likelihood of the data */
#include "arima.h"
const char *mc_property = "C01";
static void one(spec_t sp, int kind, int seed, int method, int opt) {
    double *x = malloc(sizeof(double) * sp.N), *xr = malloc(sizeof(double) * sp.N * (sp.r + 1)); series(kind, seed, sp.N, x); regressors(sp.r, sp.N, 0, xr);
    if (sp.cls == 2) for (int i = 0; i < sp.N; i++) for (int j = 0; j < sp.r; j++) x[i] += (j + 0.5) * xr[j * sp.N + i];
    fit_t f = fit_new(sp); fit_method(&f, method, opt); fit_exec(&f, x, sp.cls == 2 && sp.r ? xr : NULL); mc_ops(1);
    char rc[32]; snprintf(rc, 32, "retval_%d", f.retval); mc_count(rc, 1);
    int n = sp.N - sp.d - sp.s * sp.D, k = sp.p + sp.q + (sp.cls ? sp.P + sp.Q : 0) + (spec_hasmean(&sp) ? 1 : 0) + (sp.cls == 2 ? sp.r : 0);
    MC_CHECK(f.Nused == n, "nused", "%s: reported effective length %d, expected %d", spec_str(&sp), f.Nused, n);
    MC_CHECK(f.M == (spec_hasmean(&sp) ? 1 : 0) + (sp.cls == 2 ? sp.r : 0), "nmean", "M=%d", f.M);
    if (!spec_hasmean(&sp)) MC_CHECK(f.retval != 1 || f.mean == 0.0, "mean0", "model without mean reports mean %g", f.mean);
    if (f.retval == 1) {
        model_t m = model_of(&sp, f.phi, f.theta, f.PHI, f.THETA, f.mean, f.exog, x, xr);
        ld ll, var, *z = malloc(sizeof(ld) * n); ld mg = ar_margin(m.a, m.ip);
        if (mg == 0) mc_fail("nonstationary", "%s: successful fit reports a non-stationary AR part (phi1=%g)", spec_str(&sp), sp.p ? f.phi[0] : f.PHI[0]);
        else if (mg > 1e-5L && !model_ml(&m, &ll, &var, z)) {
            double tol = 2e-6 * n + 1e-7 / (double)mg;
            mc_max("loglik_err", fabs(f.loglik - (double)ll));
            MC_CHECK(fabs(f.loglik - (double)ll) <= tol, "loglik", "%s: reported log-likelihood %.10g, exact %.10Lg at the reported coefficients", spec_str(&sp), f.loglik, ll);
            MC_CHECK(mc_close(f.var, (double)var, 0, 1e-6 + 1e-8 / (double)mg), "var", "%s: reported variance %.10g, maximiser %.10Lg", spec_str(&sp), f.var, var);
            MC_CHECK(mc_close(f.aic, -2 * f.loglik + 2 * (k + 1), 1e-6, 1e-12), "aic", "%s: AIC %.10g, -2 loglik + 2(k+1) = %.10g", spec_str(&sp), f.aic, -2 * f.loglik + 2 * (k + 1));
            double s = sqrt((double)var); double zz[4096]; for (int i = 0; i < n; i++) zz[i] = (double)z[i];
            mc_vec("residual", f.res, zz, n, (1e-6 + 1e-8 / (double)mg) * s * 3, 1e-6 + 1e-8 / (double)mg);
            mc_state_d(&f.loglik, 1); mc_count("fits_compared", 1);
        }
        /* the MA part is made invertible: the reported polynomial 1 - sum theta z^i has no root inside the unit circle */
        if (mc_ok()) { ld c[64]; for (int i = 0; i < m.iq; i++) c[i] = -m.b[i]; 
            if (m.iq > 0) { ld t[64]; for (int i = 0; i < m.iq; i++) t[i] = c[i] * powl(0.999L, i + 1); MC_CHECK(ref_stationary(t, m.iq), "invertible", "%s: reported MA part has roots inside the unit circle", spec_str(&sp)); } }
        model_free(&m); free(z);
    }
    fit_free(&f); free(x); free(xr);
}
void mc_enumerate(void) {
    mc_case_limit = 60;
    int T = mc_thorough;
    /* non-seasonal grid */
    for (int kind = 0; kind < NKIND; kind++) for (int n = 0; n < (T ? 4 : 2); n++) for (int p = 0; p <= (T ? 3 : 2); p++) for (int q = 0; q <= (T ? 3 : 2); q++) for (int d = 0; d <= 2; d++) for (int cls = 0; cls < 3; cls++) for (int m = 0; m < 2; m++) {
        static const int NN[] = {30, 61, 22, 90}; spec_t s = {cls, p, d, q, 0, 0, 0, 0, 0, 1, NN[n]};
        if (p + q + d == 0 && cls == 0 && 0) continue;
        if (!T && ((kind + p + q + d + cls + m + n) % 2)) { if (p + q > 2) continue; }
        if (mc_case("%s %s m%d opt5", kname[kind], spec_str(&s), m)) one(s, kind, 1, m, 5);
    }
    /* seasonal grid, s = 2,4 (and 7 in thorough) */
    static const int PQ[][4] = {{0,0,1,0},{0,0,0,1},{1,0,1,0},{0,1,0,1},{1,1,1,0},{1,0,0,1},{1,1,0,1},{1,1,1,1},{2,0,1,0},{0,2,0,1},{0,0,1,1},{2,1,1,0},{0,0,2,0},{1,0,2,1}};
    for (int kind = 0; kind < NKIND; kind++) { if (!T && kind % 2) continue; for (int k = 0; k < (T ? 14 : 10); k++) for (int si = 0; si < (T ? 3 : 2); si++) for (int dd = 0; dd < 4; dd++) for (int cls = 1; cls < 3; cls++) for (int m = 0; m < 2; m++) {
        static const int S[] = {4, 2, 7}; spec_t s = {cls, PQ[k][0], dd & 1, PQ[k][1], PQ[k][2], dd >> 1, PQ[k][3], S[si], 0, 1, S[si] == 7 ? 70 : 48};
        if (mc_case("%s %s m%d opt5", kname[kind], spec_str(&s), m)) one(s, kind, 2, m, 5);
    } }
    /* regressors, with and without mean */
    for (int kind = 0; kind < NKIND; kind++) for (int r = 0; r <= 3; r++) for (int im = 0; im < 2; im++) for (int k = 0; k < 6; k++) for (int dd = 0; dd < 4; dd++) for (int m = 0; m < 2; m++) {
        static const int O[][4] = {{0,0,0,0},{1,0,0,0},{0,1,0,0},{1,1,0,0},{1,0,1,0},{0,1,0,1}}; if (r == 0 && im == 1) continue; if (!T && (kind % 3 != r % 3)) continue;
        spec_t s = {2, O[k][0], dd & 1, O[k][1], O[k][2], dd >> 1, O[k][3], (O[k][2] + O[k][3] + (dd >> 1)) ? 4 : 0, r, im, 44};
        if (mc_case("%s %s m%d opt5", kname[kind], spec_str(&s), m)) one(s, kind, 3, m, 5);
    }
    /* every optimiser */
    for (int opt = 0; opt <= 7; opt++) for (int kind = 0; kind < NKIND; kind++) for (int k = 0; k < 4; k++) for (int m = 0; m < 2; m++) {
        static const int O[][3] = {{1,0,0},{0,1,1},{1,1,1},{2,0,1}}; if (!T && (kind + k + opt) % 2) continue;
        spec_t s = {(kind + k) % 3, O[k][0], O[k][1], O[k][2], 0, 0, 0, 0, 0, 1, 50};
        if (mc_case("%s %s m%d opt%d", kname[kind], spec_str(&s), m, opt)) one(s, kind, 4, m, opt);
    }
}
