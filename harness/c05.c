/* C05: regressors and drift enter fits and forecasts linearly and consistently */
#include "arima.h"
const char *mc_property = "C05";
#define NM 64
static const int PERM[6][3] = {{0,1,2},{1,0,2},{0,2,1},{2,1,0},{1,2,0},{2,0,1}};
static const char *mname[3] = {"css-ml", "ml", "css"};
static int ncoef(const spec_t *s) { return s->p + s->q + s->P + s->Q; }
/* objective (log-likelihood; conditional or exact) of the model at given coefficients; 1 if not evaluable */
static int objective(const spec_t *s, int method, const double *phi, const double *theta, const double *PHI, const double *THETA, double mean, const double *exog, const double *x, const double *z, ld *ll) {
    model_t m = model_of(s, phi, theta, PHI, THETA, mean, exog, x, z); int bad = 0;
    if (method == 2) { ld ss, *e = calloc(m.n + 1, sizeof(ld)); int used; model_css(&m, &ss, &used, e); free(e); *ll = -0.5L * used * logl(ss / used); }
    else { ld v; bad = model_ml(&m, ll, &v, NULL); }
    model_free(&m); return bad;
}
static int run_fit(spec_t sp, int method, double *x, double *z, fit_t *f) { *f = fit_new(sp); fit_method(f, method, 5); fit_exec(f, x, sp.r ? z : NULL); mc_ops(1); return f->retval; }
static int interior(const fit_t *f, const double *x, const double *z) { model_t m = model_of(&f->sp, f->phi, f->theta, f->PHI, f->THETA, f->mean, f->exog, x, z); ld nb[40]; for (int i = 0; i < m.iq; i++) nb[i] = -m.b[i]; ld mg = fminl(ar_margin(m.a, m.ip), ar_margin(nb, m.iq)); model_free(&m); return mg >= 0.05L; }
/* f fitted to (x,z), g to (x2,z2): ARMA parts equal, g's mean = f's + dm, g's exog[j] = f's exog[map[j]] + de[j] */
static void same(const char *tag, const fit_t *f, const fit_t *g, const double *x2, const double *z2, double dm, const int *map, const double *de) {
    const spec_t *s = &g->sp; double ex[4]; for (int j = 0; j < s->r; j++) ex[j] = f->exog[map[j]] + de[j]; ld a, b;
    if (objective(s, f->method, f->phi, f->theta, f->PHI, f->THETA, f->mean + dm, ex, x2, z2, &a) || objective(s, g->method, g->phi, g->theta, g->PHI, g->THETA, g->mean, g->exog, x2, z2, &b)) { mc_count("objective not evaluable", 1); return; }
    if (!interior(g, x2, z2)) { mc_count("refit at the boundary (skipped)", 1); return; }
    double dl = fabs((double)(a - b)); char nm[40]; snprintf(nm, 40, "loglik_diff_%s", mname[f->method]); mc_max(nm, dl);
    MC_CHECK(dl < 1e-3, tag, "%s %s: optimum changes by %g in log-likelihood (%.8Lg mapped, %.8Lg refitted)", spec_str(s), mname[f->method], dl, a, b);
    int K = ncoef(s) + s->r + spec_hasmean(s), o = ncoef(s) + spec_hasmean(s); 
    for (int j = 0; j < s->r; j++) { double se = sqrt(fabs(f->vcov[(o + map[j]) * (K + 1)])), d = fabs(g->exog[j] - ex[j]); if (!(se < 1e6)) se = 0; snprintf(nm, 40, "exog_diff_in_se_%s", mname[f->method]); if (se > 0) mc_max(nm, d / se);
        MC_CHECK(d <= 0.25 * se + 1e-5 * (1 + fabs(ex[j])) || dl < 1e-5, tag, "%s %s: coefficient %d is %.10g, expected %.10g (standard error %g)", spec_str(s), mname[f->method], j, g->exog[j], ex[j], se); }
    if (spec_hasmean(s)) { double d = fabs(g->mean - f->mean - dm), se = sqrt(fabs(f->vcov[(o - 1) * (K + 1)])); MC_CHECK(d <= 0.25 * se + 1e-5 * (1 + fabs(dm)) || dl < 1e-5, tag, "%s %s: mean %.10g, expected %.10g", spec_str(s), mname[f->method], g->mean, f->mean + dm); }
    mc_count("pairs compared", 1);
}
/* regression coefficients given the ARMA part: generalised least squares */
static int gls(const fit_t *f, const double *x, const double *z, ld *be, ld *S0, ld *S1) {
    const spec_t *s = &f->sp; int k = s->r + spec_hasmean(s), N = s->N; double zero[4] = {0}; ld *W[5]; int n = 0; ld bhat[5]; model_t m0;
    double *col = malloc(8 * N); spec_t t = *s; t.r = 0; t.cls = 2; t.imean = 0;
    for (int c = 0; c <= k; c++) { for (int i = 0; i < N; i++) col[i] = c == 0 ? x[i] : (spec_hasmean(s) && c == 1) ? 1 : z[(c - 1 - spec_hasmean(s)) * N + i]; model_t m = model_of(&t, f->phi, f->theta, f->PHI, f->THETA, 0, zero, col, NULL); n = m.n; if (c == 0) m0 = m; else { W[c] = m.w; free(m.a); free(m.b); } }
    free(col); W[0] = m0.w; int bad = 0; ld *Z[5]; for (int c = 0; c <= k; c++) Z[c] = calloc(n + 1, sizeof(ld)); int off = 0;
    if (f->method == 2) { for (int c = 0; c <= k; c++) { ld ss; int u; model_t q = m0; q.w = W[c]; model_css(&q, &ss, &u, Z[c]); } off = m0.ip; }
    else { if (!ref_stationary(m0.a, m0.ip)) bad = 1; else { ld *g = calloc(n + 1, sizeof(ld)); bad = ref_arma_acvf(m0.a, m0.ip, m0.b, m0.iq, g, n); for (int c = 0; c <= k && !bad; c++) { ld S, lg; bad = innov(W[c], n, g, Z[c], &S, &lg); } free(g); } }
    if (!bad) { ld *X = malloc(sizeof(ld) * n * (k + 1)), *Y = malloc(sizeof(ld) * n); for (int i = 0; i < n; i++) { Y[i] = Z[0][i]; for (int c = 0; c < k; c++) X[i * k + c] = Z[c + 1][i]; }
        bad = ref_ols(X, Y, n, k, be, S1, NULL); *S0 = 0; for (int i = off; i < n; i++) { ld e = Y[i]; for (int c = 0; c < k; c++) e -= X[i * k + c] * (c == 0 && spec_hasmean(s) ? (ld)f->mean : (ld)f->exog[c - spec_hasmean(s)]); *S0 += e * e; } free(X); free(Y); }
    for (int c = 0; c <= k; c++) { free(Z[c]); free(W[c]); } free(m0.a); free(m0.b); return bad;
}
#define H 7
static void forecasts(fit_t *f, double *x, double *z) {
    const spec_t *s = &f->sp; int N = s->N, r = s->r; double nz[3 * H], n2[3 * H], n0[3 * H] = {0}, p0[H], p1[H], p2[H], m0[H], m1[H], pe[H], me[H]; regressors(r, H, N, nz);
    fit_predict(f, x, z, H, n0, p0, m0); fit_predict(f, x, z, H, nz, p1, m1); mc_ops(2); double sc = 1; for (int h = 0; h < H; h++) sc = fmax(sc, fabs(p1[h]));
    double w[H]; for (int h = 0; h < H; h++) { w[h] = p0[h]; for (int j = 0; j < r; j++) w[h] += f->exog[j] * nz[j * H + h]; } mc_vec("regression_part", p1, w, H, 1e-10 * sc, 1e-10); MC_CHECK(!memcmp(m0, m1, sizeof m0), "mse_depends_on_regressors", "%s", spec_str(s));
    /* one row of one column at a time */
    for (int j = 0; j < r; j++) for (int h = 0; h < H; h++) { memcpy(n2, n0, sizeof n2); n2[j * H + h] = 1; fit_predict(f, x, z, H, n2, p2, m1); mc_ops(1); memcpy(w, p0, sizeof w); w[h] += f->exog[j]; mc_vec("regression_row", p2, w, H, 1e-10 * sc, 1e-10); }
    /* forecast of the errors by the same model without regressors */
    spec_t t = *s; t.r = 0; fit_t g = fit_new(t); fit_method(&g, f->method, 5); fit_read(&g); memcpy(g.phi, f->phi, 8 * ncoef(s)); ((sarimax_object)g.o)->mean = f->mean; ((sarimax_object)g.o)->var = f->var;
    double *e = malloc(8 * N); for (int i = 0; i < N; i++) { e[i] = x[i]; for (int j = 0; j < r; j++) e[i] -= f->exog[j] * z[j * N + i]; } fit_predict(&g, e, NULL, H, NULL, pe, me); mc_ops(1); mc_vec("error_forecast", p0, pe, H, 1e-8 * sc, 1e-9); mc_vec("error_mse", m0, me, H, 1e-10, 1e-8); free(e); fit_free(&g);
    /* column order */
    for (int k = 1; k < (r == 3 ? 6 : r == 2 ? 2 : 1); k++) { double *zp = malloc(8 * N * r), np[3 * H], ex[3]; for (int j = 0; j < r; j++) { memcpy(zp + j * N, z + PERM[k][j] * N, 8 * N); memcpy(np + j * H, nz + PERM[k][j] * H, 8 * H); ex[j] = f->exog[PERM[k][j]]; }
        double sv[3]; memcpy(sv, f->exog, 8 * r); memcpy(f->exog, ex, 8 * r); fit_predict(f, x, zp, H, np, p2, m1); mc_ops(1); memcpy(f->exog, sv, 8 * r); mc_vec("forecast_permuted", p2, p1, H, 1e-8 * sc, 1e-9); free(zp); }
    mc_state_d(p1, H);
}
static void one(int kind, spec_t sp, int method) {
    int N = sp.N, r = sp.r; double *x = malloc(8 * N), *z = malloc(8 * N * 3 + 8), *x2 = malloc(8 * N), *z2 = malloc(8 * N * 3 + 8); series(kind, 1, N, x); if (!spec_hasmean(&sp)) for (int i = 0; i < N; i++) x[i] -= 10;
    for (int k = 0; k < sp.d; k++) for (int i = 1; i < N; i++) x[i] += x[i - 1]; for (int k = 0; k < sp.D; k++) for (int i = sp.s; i < N; i++) x[i] += x[i - sp.s];   /* no over-differencing: interior optima */
    regressors(r, N, 0, z); for (int i = 0; i < N; i++) { for (int j = 0; j < r; j++) x[i] += (1.5 - j) * z[j * N + i]; }
    fit_t f, g; static const int id[3] = {0, 1, 2}; double de0[3] = {0};
    if (run_fit(sp, method, x, z, &f) != 1) { mc_count("fit not successful", 1); fit_free(&f); goto out; }
    mc_state_d(&f.loglik, 1);
    if (r) forecasts(&f, x, z);
    if (!interior(&f, x, z)) { mc_count("optimum at the boundary (refits skipped)", 1); fit_free(&f); goto out; }
    /* GLS given the ARMA part */
    { ld be[5], S0, S1; if (!gls(&f, x, z, be, &S0, &S1) && S1 > 0) { double ex = (double)(S0 / S1 - 1) * (N - sp.d) / 2; char nm[40]; snprintf(nm, 40, "gls_excess_%s", mname[method]); mc_max(nm, ex); MC_CHECK(ex < 1e-4, "not_gls", "%s %s: regression coefficients are %g log-likelihood units from generalised least squares given the ARMA part (first %.8g, GLS %.8Lg)", spec_str(&sp), mname[method], ex, spec_hasmean(&sp) ? f.mean : f.exog[0], be[0]);
        if (ncoef(&sp) == 0) for (int c = 0; c < r + spec_hasmean(&sp); c++) { double got = c == 0 && spec_hasmean(&sp) ? f.mean : f.exog[c - spec_hasmean(&sp)]; MC_CHECK(mc_close(got, (double)be[c], 1e-4 * (1 + fabs((double)be[c])), 1e-4), "not_ols", "%s: regression coefficient %d is %.10g, least squares %.10Lg", spec_str(&sp), c, got, be[c]); } } else mc_count("gls not evaluable", 1); }
    /* column order */
    for (int k = 1; k < (r == 3 ? 6 : r == 2 ? 2 : 1); k++) { for (int j = 0; j < r; j++) memcpy(z2 + j * N, z + PERM[k][j] * N, 8 * N); if (run_fit(sp, method, x, z2, &g) == 1) same("column_order", &f, &g, x, z2, 0, PERM[k], de0); else mc_count("refit failed", 1); fit_free(&g); }
    /* multiple of a regressor added */
    static const double CS[3] = {2, -0.5, 10};
    for (int j = 0; j < r; j++) for (int k = 0; k < 3; k++) { for (int i = 0; i < N; i++) x2[i] = x[i] + CS[k] * z[j * N + i]; double de[3] = {0}; de[j] = CS[k]; if (run_fit(sp, method, x2, z, &g) == 1) same("multiple_added", &f, &g, x2, z, 0, id, de); else mc_count("refit failed", 1); fit_free(&g); }
    /* constant added: absorbed by the mean, invisible after differencing */
    for (int k = 0; k < 3; k++) { if (!(spec_hasmean(&sp) || sp.d + sp.D)) break; for (int i = 0; i < N; i++) x2[i] = x[i] + CS[k] * 3; if (run_fit(sp, method, x2, z, &g) == 1) same("constant_added", &f, &g, x2, z, spec_hasmean(&sp) ? CS[k] * 3 : 0, id, de0); else mc_count("refit failed", 1); fit_free(&g); }
    /* units of a regressor */
    for (int j = 0; j < r; j++) { memcpy(z2, z, 8 * N * r); for (int i = 0; i < N; i++) z2[j * N + i] *= 4; double de[3] = {0}; if (run_fit(sp, method, x, z2, &g) == 1) { de[j] = -0.75 * f.exog[j]; same("units", &f, &g, x, z2, 0, id, de); } else mc_count("refit failed", 1); fit_free(&g); }
    fit_free(&f);
out: free(x); free(z); free(x2); free(z2);
}
/* coefficient lattice: forecasts alone */
static void lattice(spec_t sp) {
    int N = sp.N, n = ncoef(&sp); double *x = malloc(8 * N), *z = malloc(8 * N * 3 + 8); series(K_ARMA, 2, N, x); regressors(sp.r, N, 0, z); static const double V[3] = {-0.4, 0.2, 0.5}; static const double B[3] = {1.7, -2.3, 0.01};
    int tot = 1; for (int i = 0; i < n; i++) tot *= 3; for (int c = 0; c < tot && mc_ok(); c++) { fit_t f = fit_new(sp); fit_method(&f, 1, 5); fit_read(&f); for (int i = 0, k = c; i < n; i++, k /= 3) f.phi[i] = V[k % 3]; for (int j = 0; j < sp.r; j++) f.exog[j] = B[j]; ((sarimax_object)f.o)->mean = spec_hasmean(&sp) ? 7.5 : 0; ((sarimax_object)f.o)->var = 1.3; fit_read(&f); forecasts(&f, x, z); fit_free(&f); }
    free(x); free(z);
}
/* collinear regressors are refused, independent ones are not */
static void rank_case(spec_t sp, int method) {
    int N = sp.N, nd = sp.d + sp.D; double *x = malloc(8 * N), *z = malloc(8 * N * 3); series(K_AR1, 1, N, x); fit_t f;
    for (int v = 0; v < 10; v++) {
        regressors(3, N, 0, z); int bad = 1; sp.r = 3;
        for (int i = 0; i < N; i++) switch (v) { case 0: z[2 * N + i] = z[i]; break; case 1: z[2 * N + i] = 2 * z[i] - 3 * z[N + i]; break; case 2: z[N + i] = -z[2 * N + i]; break; case 3: z[i] = 0; break; case 4: z[i] = 4; bad = nd > 0 || spec_hasmean(&sp); break; /* constant */
            case 5: z[2 * N + i] = i; bad = 0; if (sp.D + sp.d >= 2) bad = 1; break; case 6: bad = 0; break; case 7: bad = 0; z[2 * N + i] *= 50; break; case 8: z[2 * N + i] = z[i] + z[N + i]; break; case 9: z[N + i] = z[i] + 5 ; bad = nd > 0 || spec_hasmean(&sp); break; }
        if (run_fit(sp, method, x, z, &f) == 7) MC_CHECK(bad, "refused", "%s %s: linearly independent regressors (variant %d) refused", spec_str(&sp), mname[method], v); else MC_CHECK(!bad, "collinear_accepted", "%s %s: collinear regressors (variant %d) accepted, return code %d", spec_str(&sp), mname[method], v, f.retval);
        mc_state(v * 10 + bad); fit_free(&f);
    }
    free(x); free(z);
}
/* automatic models: trend and constant */
static void automatic(int kind, int r, int d1, int approx, int method) {
    int N = 60; double *x = malloc(8 * N), *z = malloc(8 * N * 3 + 8), *x2 = malloc(8 * N); series(kind, 2, N, x); regressors(r, N, 0, z); if (d1) { double c = 0; for (int i = 0; i < N; i++) { c += x[i] - 10 + 0.7; x[i] = c; } } for (int i = 0; i < N; i++) for (int j = 0; j < r; j++) x[i] += (2 - j) * z[j * N + i];
    int a[3] = {1, 2, 1}; auto_arima_object o = auto_arima_init(a, NULL, 0, r, N), o2; auto_arima_setApproximation(o, approx); auto_arima_setMethod(o, method); auto_arima_exec(o, x, r ? z : NULL); mc_ops(1); int dt = o->d;
    double nz[3 * H], n0[3 * H] = {0}, p0[H], p1[H], w[H], m[H]; regressors(r, H, N, nz); auto_arima_predict(o, x, r ? z : NULL, H, nz, p1, m); auto_arima_predict(o, x, r ? z : NULL, H, n0, p0, m); for (int h = 0; h < H; h++) { w[h] = p0[h]; for (int j = 0; j < r; j++) w[h] += o->exog[j + o->idrift] * nz[j * H + h]; } mc_vec("auto_regression_part", p1, w, H, 1e-9, 1e-10);
    char nm[20]; snprintf(nm, 20, "auto d%d drift%d", dt, o->idrift); mc_count(nm, 1); mc_state_d(p1, H);
    for (int k = 0; k < 4; k++) { double c0 = k < 2 ? (k ? -40 : 25) : 0, c1 = k == 2 ? 0.9 : k == 3 ? -2.5 : 0; if (c1 != 0 && !(dt == 1 && o->idrift)) continue; if (c0 != 0 && dt == 0 && o->M == r) continue;
        for (int i = 0; i < N; i++) x2[i] = x[i] + c0 + c1 * (i + 1); o2 = auto_arima_init(a, NULL, 0, r, N); auto_arima_setApproximation(o2, approx); auto_arima_setMethod(o2, method); auto_arima_exec(o2, x2, r ? z : NULL); mc_ops(1);
        if (o2->p != o->p || o2->q != o->q || o2->d != o->d || o2->idrift != o->idrift || o2->M != o->M) { mc_count("another model selected after the shift", 1); auto_arima_free(o2); continue; }
        double dm = dt == 0 ? c0 : 0, dl = fabs(o->loglik - o2->loglik), mn = fabs(o2->mean - o->mean - dm); mc_max("auto_loglik_diff", dl);
        MC_CHECK(dl < 0.05, "auto_shift", "kind %d r %d: log-likelihood %.10g becomes %.10g after adding %g + %g t", kind, r, o->loglik, o2->loglik, c0, c1); double se = sqrt(o->var); MC_CHECK(mn < 0.3 * se + 1e-4 * fabs(dm), "auto_mean", "mean %.10g becomes %.10g after adding %g", o->mean, o2->mean, c0);
        if (o->idrift) { double dd = fabs(o2->exog[0] - o->exog[0] - c1); MC_CHECK(dd < 0.1 * se, "auto_drift", "drift %.10g becomes %.10g after adding slope %g", o->exog[0], o2->exog[0], c1); }
        for (int j = 0; j < r; j++) MC_CHECK(fabs(o2->exog[j + o->idrift] - o->exog[j + o->idrift]) < 0.1 * se, "auto_exog", "coefficient %d %.10g becomes %.10g after adding %g + %g t", j, o->exog[j + o->idrift], o2->exog[j + o->idrift], c0, c1);
        double p2[H], m2[H]; auto_arima_predict(o2, x2, r ? z : NULL, H, nz, p2, m2); for (int h = 0; h < H; h++) MC_CHECK(fabs(p2[h] - p1[h] - c0 - c1 * (N + h + 1)) < 0.3 * se * (1 + h), "auto_forecast_shift", "forecast %d: %.10g becomes %.10g after adding %g + %g t", h + 1, p1[h], p2[h], c0, c1);
        auto_arima_free(o2); mc_count("automatic pairs compared", 1); }
    auto_arima_free(o); free(x); free(z); free(x2);
}
void mc_enumerate(void) {
    int th = mc_thorough; static const int KS[] = {K_AR1, K_MA1, K_ARMA, K_AR2C, K_WHITE, K_MA2, K_SEAS, K_NEARUNIT};
    for (int ki = 0; ki < (th ? 6 : 4); ki++) for (int r = 0; r <= 3; r++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int d = 0; d <= 2; d++) for (int me = 0; me < 3; me++) for (int im = 0; im < 2; im++) {
        if (d && !im) continue; if (p && q && (p + q > 2 || KS[ki] != K_ARMA)) continue; if (r == 0 && !(im && !d)) continue; spec_t s = {2, p, d, q, 0, 0, 0, 0, r, im, 40}; if (mc_case("fit k%d %s %s", KS[ki], spec_str(&s), mname[me])) one(KS[ki], s, me); }
    for (int ki = 0; ki < (th ? 6 : 2); ki++) for (int r = 1; r <= 3; r++) for (int w = 0; w < 12; w++) for (int me = 0; me < 3; me++) { static const int SE[12][6] = {{1,0,0,1,0,0},{0,0,1,0,0,1},{1,0,0,0,1,0},{0,0,1,0,1,1},{1,1,0,1,1,0},{0,1,1,0,1,1},{0,0,0,1,1,0},{0,0,0,0,1,0},{0,1,0,0,1,0},{1,0,0,1,1,0},{0,1,0,0,0,1},{2,0,0,0,1,1}}; const int *v = SE[w];
        for (int s = 2; s <= 4; s += 2) { spec_t sp = {2, v[0], v[1], v[2], v[3], v[4], v[5], s, r, 1, 44}; if (mc_case("fit k%d %s %s", KS[ki ? ki : 6], spec_str(&sp), mname[me])) one(KS[ki ? ki : 6], sp, me); } }
    for (int r = 1; r <= 3; r++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int d = 0; d <= 2; d++) for (int P = 0; P <= 1; P++) for (int Q = 0; Q <= 1; Q++) for (int D = 0; D <= 1; D++) for (int im = 0; im < 2; im++) for (int s = 2; s <= (th ? 4 : 3); s++) { spec_t sp = {2, p, d, q, P, D, Q, P + D + Q ? s : 0, r, im, 24 + d + D * s}; if (s > 2 && P + D + Q == 0) continue; if (mc_case("lattice %s", spec_str(&sp))) lattice(sp); }
    for (int d = 0; d <= 2; d++) for (int D = 0; D <= 1; D++) for (int me = 0; me < 3; me++) for (int im = 0; im < 2; im++) for (int p = 0; p < 2; p++) { spec_t sp = {2, p, d, 0, 0, D, 0, D ? 4 : 0, 3, im, 40}; if (mc_case("rank %s %s", spec_str(&sp), mname[me])) rank_case(sp, me); }
    for (int ki = 0; ki < 8; ki++) for (int r = 0; r <= 3; r++) for (int d = 0; d < 2; d++) for (int ap = 0; ap < 2; ap++) for (int me = 0; me < 3; me++) if (mc_case("auto k%d r%d int%d approx%d %s", KS[ki], r, d, ap, mname[me])) automatic(KS[ki], r, d, ap, me);
}
