/* C09: automatically selected models report coherent orders, criteria and settings; equal to fitting that order directly */
#include "arima.h"
#include "autoutils.h"
#include <stddef.h>
const char *mc_property = "C09";
typedef struct { int kind, N, s, r, zk; int pm, dm, qm, Pm, Dm, Qm; int stat, seas, mean, drift, approx, step, method, opt; const char *test, *type, *stest, *ic; double al, sal; int omax; } cfg_t;
static const cfg_t DEF = {K_AR1, 48, 4, 0, 0, 1, 2, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1, 0, 5, "kpss", "level", "seas", "aicc", .05, .05, 5};
static void mkx(const cfg_t *c, double *x) {
    if (c->kind < NKIND) { series(c->kind, 3, c->N, x); return; }
    mc_rng g; mc_seed(&g, 77 + c->kind); double h[12] = {0}, a = 0, b = 0; int m = c->s > 1 ? c->s : 4;
    for (int t = 0; t < c->N; t++) { double e = mc_n(&g); a += e + .4; b += a; h[t % m] += e; x[t] = c->kind == NKIND ? a : c->kind == NKIND + 1 ? b : c->kind == NKIND + 2 ? h[t % m] + 4 * (t % m) : c->kind == NKIND + 3 ? 5 * sin(2 * 3.14159265358979323846 * t / m) + .3 * e + 3 : a + 3 * (t % m == 1) + h[t % m]; }
}
#define NK (NKIND + 5)
static void mkz(const cfg_t *c, int n, int ofs, double *z) { regressors(c->r, n, ofs, z); if (c->zk) for (int i = 0; i < n; i++) { int t = i + ofs, j = (c->r - 1) * n; z[j + i] = c->zk == 1 ? 0.5 * t + 3 : c->zk == 2 ? (t % (c->s > 1 ? c->s : 4)) * 1.0 : (double)t * t; } }
static char *cs(const cfg_t *c) { static char b[300]; snprintf(b, 300, "k%d N%d s%d r%d z%d max%d%d%d%d%d%d stat%d seas%d mean%d drift%d approx%d step%d method%d opt%d %s %s %g %s %g %s omax%d", c->kind, c->N, c->s, c->r, c->zk, c->pm, c->dm, c->qm, c->Pm, c->Dm, c->Qm, c->stat, c->seas, c->mean, c->drift, c->approx, c->step, c->method, c->opt, c->test, c->type, c->al, c->stest, c->sal, c->ic, c->omax); return b; }
static auto_arima_object mk(const cfg_t *c) {
    int a[3] = {c->pm, c->dm, c->qm}, b[3] = {c->Pm, c->Dm, c->Qm}; auto_arima_object o = auto_arima_init(a, b, c->s, c->r, c->N);
    auto_arima_setStationary(o, c->stat); auto_arima_setSeasonal(o, c->seas); auto_arima_allowMean(o, c->mean); auto_arima_allowDrift(o, c->drift); auto_arima_setApproximation(o, c->approx); auto_arima_setStepwise(o, c->step);
    auto_arima_setMethod(o, c->method); auto_arima_setOptMethod(o, c->opt); auto_arima_setStationarityParameters(o, c->test, c->al, c->type); auto_arima_setSeasonalParameters(o, c->stest, c->sal); strcpy(o->information_criteria, c->ic); o->Order_max = c->omax; return o;
}
static int cons(const double *x, int n) { for (int i = 1; i < n; i++) if (fabs(x[i] - x[0]) > 1e-9 * (fabs(x[0]) + 1)) return 0; return 1; }
/* differencing orders by the configured tests, on the residuals of the regression on the regressors */
static int orders(const cfg_t *c, const double *x, const double *z, int *d, int *D, int *dropped) {
    int N = c->N, r = c->r, n = N; double *y = malloc(8 * N), *zz = malloc(8 * (N * r + 1)), *t = malloc(8 * N); memcpy(y, x, 8 * N); if (r) memcpy(zz, z, 8 * N * r); *dropped = 0;
    if (r) { int k = r + 1; ld *X = malloc(sizeof(ld) * N * k), *Y = malloc(sizeof(ld) * N), be[8], rss; for (int i = 0; i < N; i++) { X[i * k] = 1; for (int j = 0; j < r; j++) X[i * k + 1 + j] = z[j * N + i]; Y[i] = x[i]; }
        if (ref_ols(X, Y, N, k, be, &rss, NULL)) { free(X); free(Y); free(y); free(zz); free(t); return 1; }
        for (int i = 0; i < N; i++) { ld v = Y[i]; for (int j = 0; j < k; j++) v -= be[j] * X[i * k + j]; y[i] = (double)v; } free(X); free(Y); }
    *d = *D = 0; int seasonal = c->seas && c->s > 1; double al = c->al, sal = c->sal; int dm = c->dm, Dm = c->Dm;
    if (!c->stat) {
        if (seasonal) { *D = nsdiffs(y, N, c->s, &sal, c->stest, &Dm);
            if (*D > 0) { int any = 0; for (int j = 0; j < r; j++) { int m = ref_difference(z + j * N, N, 0, *D, c->s, t); any |= cons(t, m); } if (any) { --*D; *dropped = 1; } } }
        if (*D > 0) { n = ref_difference(y, N, 0, *D, c->s, t); memcpy(y, t, 8 * n); }
        *d = ndiffs(y, n, &al, c->test, c->type, &dm);
        if (*d > 0) { int any = 0; for (int j = 0; j < r; j++) { int m = ref_difference(z + j * N, N, *d, *D, c->s, t); any |= cons(t, m); } if (any) { --*d; *dropped = 1; } }
    }
    int m = ref_difference(x, N, *d, *D, c->s, t), exact = cons(t, m); free(y); free(zz); free(t); return exact ? 2 : 0;
}
#define H 9
static int root_ok(fit_t *f) { spec_t *sp = &f->sp; ld a[80], b[80]; double th[16], TH[8]; for (int i = 0; i < sp->q; i++) th[i] = -f->theta[i]; for (int i = 0; i < sp->Q; i++) TH[i] = -f->THETA[i];
    int ip = ref_expand_ar(f->phi, sp->p, f->PHI, sp->P, sp->s, a), iq = ref_expand_ma(th, sp->q, TH, sp->Q, sp->s, b); ld k = 1;
    int lo, hi; for (int i = 0; i < iq; i++) b[i] = -b[i];
    /* all roots beyond 1.01: scaled polynomial a_i 1.01^i stationary */
    int ok[2]; for (int w = 0; w < 2; w++) { ld m = w ? 1.01L * (1 + 1e-5L) : 1.01L * (1 - 1e-5L), sa[80], sb[80], q = 1; for (int i = 0; i < ip || i < iq; i++) { q *= m; if (i < ip) sa[i] = a[i] * q; if (i < iq) sb[i] = b[i] * q; } ok[w] = ref_stationary(sa, ip) && ref_stationary(sb, iq); }
    return ok[0] == ok[1] ? ok[0] : -1; }
static double icof(const cfg_t *c, double ll, int k, int n, double *aic, double *aicc, double *bic) { *aic = -2 * ll + 2 * k; *aicc = *aic + 2.0 * k * (k + 1) / (n - k - 1); *bic = *aic + k * (log((double)n) - 2); return !strcmp(c->ic, "aic") ? *aic : !strcmp(c->ic, "bic") ? *bic : *aicc; }
static void direct(const cfg_t *c, fit_t *f, int p, int d, int q, int P, int D, int Q, int con, int method, double *x, double *z, double *zd) {
    int drift = con && d + D == 1, r = c->r + drift, N = c->N; spec_t sp = {2, p, d, q, P, D, Q, P + D + Q ? c->s : 0, r, d + D == 0 ? con : 0, N}; *f = fit_new(sp); fit_method(f, method, c->opt);
    if (drift) for (int i = 0; i < N; i++) zd[i] = i + 1; if (c->r) memcpy(zd + drift * N, z, 8 * N * c->r); fit_exec(f, x, r ? zd : NULL);
}
static void run(const cfg_t *c, int full) {
    int N = c->N, r = c->r; double *x = mc_buf(N), *z = mc_buf(N * r + 1), *xc = malloc(8 * N), *zc = malloc(8 * (N * r + 1)), *zd = malloc(8 * N * (r + 1) + 8); mkx(c, x); mkz(c, N, 0, z); memcpy(xc, x, 8 * N); memcpy(zc, z, 8 * N * r);
    int d, D, dropped, e = orders(c, xc, zc, &d, &D, &dropped);
    if (e) { mc_count(e == 2 ? "exact after differencing (skipped)" : "singular regressors", 1); goto done; }
    if (dropped) mc_count("regressor constant after differencing", 1);
    auto_arima_object o = mk(c); auto_arima_exec(o, x, r ? z : NULL); mc_ops(1);
    MC_CHECK(!memcmp(x, xc, 8 * N) && !memcmp(z, zc, 8 * N * r), "input_modified", "%s", cs(c)); mc_bufcheck("series_bounds", x, N);
    int seasonal = c->seas && c->s > 1, con = o->d + o->D == 0 ? o->M - r : o->idrift, dt = o->d + o->D;
    MC_CHECK(o->p >= 0 && o->p <= c->pm && o->q >= 0 && o->q <= c->qm && o->P >= 0 && o->P <= c->Pm && o->Q >= 0 && o->Q <= c->Qm, "outside_maxima", "(%d,%d,%d)(%d,%d,%d)", o->p, o->d, o->q, o->P, o->D, o->Q);
    MC_CHECK(o->d == d && o->D == D, "differencing", "d %d D %d, the configured tests give %d %d", o->d, o->D, d, D);
    MC_CHECK(seasonal || o->P + o->D + o->Q == 0, "seasonal", "seasonal part (%d,%d,%d) in a non-seasonal model", o->P, o->D, o->Q);
    MC_CHECK(!(c->stat && dt), "stationary", "d %d D %d although stationary", o->d, o->D);
    MC_CHECK(con == 0 || (dt == 0 ? c->mean : dt == 1 ? c->drift : 0), "constant", "constant %d with d+D %d, mean allowed %d drift allowed %d", con, dt, c->mean, c->drift);
    MC_CHECK(o->M == r + con && (con == 0 || con == 1), "M", "M %d r %d", o->M, r); MC_CHECK(!(o->idrift && dt != 1), "drift_order", "drift with d+D %d", dt);
    MC_CHECK(o->N == N && o->r == r && o->s == c->s && o->pmax == c->pm && o->dmax == c->dm && o->qmax == c->qm && o->Pmax == c->Pm && o->Dmax == c->Dm && o->Qmax == c->Qm && o->stationary == c->stat && o->seasonal == c->seas && o->imean == c->mean && o->allowdrift == c->drift && o->approximation == c->approx && o->stepwise == c->step && o->method == c->method && o->optmethod == c->opt && !strcmp(o->test, c->test) && !strcmp(o->type, c->type) && !strcmp(o->seas, c->stest) && o->alpha_test == c->al && o->alpha_seas == c->sal && !strcmp(o->information_criteria, c->ic) && o->Order_max == c->omax, "settings_changed", "%s", cs(c));
    if (!mc_ok()) { auto_arima_free(o); goto done; }
    if (c->step == 0) MC_CHECK(o->p + o->q + o->P + o->Q <= c->omax, "total_order", "(%d,%d)(%d,%d)", o->p, o->q, o->P, o->Q);
    int k = o->p + o->q + o->P + o->Q + o->M + 1, nu = N - d - (seasonal ? c->s : 0) * D; double aic, aicc, bic;
    MC_CHECK(o->Nused == nu, "Nused", "%d, expected %d", o->Nused, nu);
    if (o->retval == 1) {
        icof(c, o->loglik, k, nu, &aic, &aicc, &bic); double t = 1e-10 * (fabs(aic) + 10);
        MC_CHECK(fabs(o->aic - aic) < t, "aic", "%s: AIC %.12g, -2 loglik + 2(k+1) = %.12g", cs(c), o->aic, aic);
        MC_CHECK(fabs(o->aicc - aicc) < t * (1 + k), "aicc", "%s: AICc %.12g, expected %.12g", cs(c), o->aicc, aicc);
        MC_CHECK(fabs(o->bic - bic) < t, "bic", "%s: BIC %.12g, expected %.12g", cs(c), o->bic, bic);
    }
    /* fitting that order directly */
    fit_t f; direct(c, &f, o->p, o->d, o->q, o->P, o->D, o->Q, con, c->method, x, z, zd); mc_ops(1);
    if (f.retval == 1) {
        int np = o->p + o->q + o->P + o->Q + o->M - (dt == 0 ? con : 0);
        MC_CHECK(o->retval == 1, "retval", "return code %d, direct fit 1", o->retval);
        MC_CHECK(!memcmp(o->phi, f.phi, 8 * (o->p + o->q + o->P + o->Q)) && !memcmp(o->exog, f.exog, 8 * (r + o->idrift)), "coefficients", "%s: coefficients differ from the direct fit (%d,%d,%d)(%d,%d,%d) constant %d: %g %g vs %g %g", cs(c), o->p, o->d, o->q, o->P, o->D, o->Q, con, o->phi[0], o->phi[1], f.phi[0], f.phi[1]);
        MC_CHECK(o->mean == f.mean && o->var == f.var && o->loglik == f.loglik, "mean_var_loglik", "%s: mean %g var %g loglik %.10g, direct fit %g %g %.10g", cs(c), o->mean, o->var, o->loglik, f.mean, f.var, f.loglik);
        MC_CHECK(!memcmp(o->res, f.res, 8 * nu), "residuals", "%s: residuals differ from the direct fit", cs(c));
        MC_CHECK(o->lvcov == f.lvcov && !memcmp(o->vcov, f.vcov, 8 * f.lvcov), "vcov", "%s: covariance differs from the direct fit", cs(c));
        MC_CHECK(o->theta == o->phi + o->p && o->PHI == o->theta + o->q && o->THETA == o->PHI + o->P && o->exog == o->THETA + o->Q, "layout", "coefficient blocks are not where the orders put them");
        ld ss = 0; for (int i = 0; i < nu; i++) ss += (ld)f.res[i] * f.res[i]; MC_CHECK(mc_close(o->sigma2, (double)(ss / (nu - k + 1)), 0, 1e-10), "sigma2", "%s: sigma2 %.12g, residual sum of squares over degrees of freedom %.12g", cs(c), o->sigma2, (double)(ss / (nu - k + 1)));
        /* forecasts */
        double nz[H * 4 + 1], nd[H * 5 + 1], pa[H], ma[H], pd[H], md[H]; mkz(c, H, N, nz); int dr = o->idrift; for (int i = 0; i < H; i++) if (dr) nd[i] = N + i + 1; memcpy(nd + dr * H, nz, 8 * H * r);
        auto_arima_predict(o, x, r ? z : NULL, H, r ? nz : NULL, pa, ma); fit_predict(&f, x, r + dr ? zd : NULL, H, r + dr ? nd : NULL, pd, md); mc_ops(2);
        mc_vec("forecast", pa, pd, H, 1e-9, 1e-10); mc_vec("forecast_mse", ma, md, H, 1e-12, 1e-10);
        int ok = root_ok(&f); MC_CHECK(ok != 0 || c->approx || 1, "inadmissible", "%s", cs(c)); if (ok == 0) mc_count("selected model at the root limit", 1);
        mc_state_d(&o->loglik, 1); { char b[40]; sprintf(b, "d%dD%d con%d", d, D, con); mc_count(b, 1); }
    } else mc_count("direct fit failed", 1);
    fit_free(&f);
    /* brute force over the whole box with real fits (exhaustive search without approximation) */
    if (full && !c->step && !c->approx && o->retval == 1) {
        int m = seasonal ? c->s : 1, pm = c->pm, qm = c->qm, Pm = seasonal ? c->Pm : 0, Qm = seasonal ? c->Qm : 0; if (m > 1 && Pm > 0 && pm > m - 1) pm = m - 1; if (m > 1 && Qm > 0 && qm > m - 1) qm = m - 1; int cm = dt == 0 ? c->mean : dt == 1 ? c->drift : 0; double best = DBL_MAX, mine = !strcmp(c->ic, "aic") ? o->aic : !strcmp(c->ic, "bic") ? o->bic : o->aicc; int bo[5] = {0}, amb = 0; 
        for (int p = 0; p <= pm; p++) for (int q = 0; q <= qm; q++) for (int P = 0; P <= Pm; P++) for (int Q = 0; Q <= Qm; Q++) for (int K = 0; K <= cm; K++) { if (p + q + P + Q > c->omax) continue;
            fit_t g; direct(c, &g, p, d, q, P, D, Q, K, c->method, x, z, zd); mc_ops(1);
            if (g.retval == 1) { double a, b, cc, v = icof(c, g.loglik, p + q + P + Q + g.M + 1, nu, &a, &b, &cc); int ok = root_ok(&g); if (ok < 0) amb = 1; if (ok == 1 && v < best) { best = v; bo[0] = p; bo[1] = q; bo[2] = P; bo[3] = Q; bo[4] = K; } }
            fit_free(&g); }
        if (!amb && best < DBL_MAX) MC_CHECK(mine <= best + 1e-8 * (fabs(best) + 1), "not_best", "%s: selected (%d,%d)(%d,%d)%d with criterion %.10g, (%d,%d)(%d,%d)%d has %.10g", cs(c), o->p, o->q, o->P, o->Q, con, mine, bo[0], bo[1], bo[2], bo[3], bo[4], best);
        mc_count("boxes searched by brute force", 1);
    }
    /* a local optimum of the stepwise search, real fits */
    if (full && c->step && !c->approx && o->retval == 1) {
        double mine = !strcmp(c->ic, "aic") ? o->aic : !strcmp(c->ic, "bic") ? o->bic : o->aicc; int Pm = seasonal ? c->Pm : 0, Qm = seasonal ? c->Qm : 0, cm = dt == 0 ? c->mean : dt == 1 ? c->drift : 0; int bare = cm && !con && o->p + o->q + o->P + o->Q == 0;
        int m = seasonal ? c->s : 1, pm = c->pm < N / 3 ? c->pm : N / 3, qm = c->qm < N / 3 ? c->qm : N / 3; if (Pm > N / 3 / m) Pm = N / 3 / m; if (Qm > N / 3 / m) Qm = N / 3 / m; if (m > 1 && Pm > 0 && pm > m - 1) pm = m - 1; if (m > 1 && Qm > 0 && qm > m - 1) qm = m - 1;
        for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int w = 0; w < 2 && !bare; w++) { int p = o->p + (w ? 0 : i), q = o->q + (w ? 0 : j), P = o->P + (w ? i : 0), Q = o->Q + (w ? j : 0); if (p < 0 || q < 0 || P < 0 || Q < 0 || p > pm || q > qm || P > Pm || Q > Qm || (i == 0 && j == 0)) continue;
            fit_t g; direct(c, &g, p, d, q, P, D, Q, con, c->method, x, z, zd); mc_ops(1);
            if (g.retval == 1) { double a, b, cc, v = icof(c, g.loglik, p + q + P + Q + g.M + 1, nu, &a, &b, &cc); if (root_ok(&g) == 1) MC_CHECK(mine <= v + 1e-8 * (fabs(v) + 1), "not_local_optimum", "%s: selected (%d,%d)(%d,%d)%d with criterion %.10g, neighbour (%d,%d)(%d,%d) has %.10g", cs(c), o->p, o->q, o->P, o->Q, con, mine, p, q, P, Q, v); }
            fit_free(&g); }
        mc_count("neighbourhoods searched by brute force", 1);
    }
    auto_arima_free(o);
done: mc_buffree(x); mc_buffree(z); free(xc); free(zc); free(zd);
}
#define GO(full) do { if (mc_case("%s%s", full ? "full " : "", cs(&c))) run(&c, full); } while (0)
/* setters change exactly what they name */
static void setters(void) {
    if (!mc_case("setters")) return;
    cfg_t c = DEF; size_t sz = offsetof(struct auto_arima_set, params);
#define ST(call, field) do { auto_arima_object o = mk(&c); char *before = malloc(sz); memcpy(before, o, sz); call; mc_ops(1); size_t a = offsetof(struct auto_arima_set, field), l = sizeof o->field; \
    int same = !memcmp(before, o, a) && !memcmp(before + a + l, (char *)o + a + l, sz - a - l); MC_CHECK(same, "setter_touches_more", "%s changed something other than " #field, #call); auto_arima_free(o); free(before); } while (0)
#define VAL(call, field, v) do { auto_arima_object o = mk(&c); call; MC_CHECK(o->field == (v), "setter_value", #call " left " #field " at %d", (int)o->field); auto_arima_free(o); } while (0)
#define NOP(call) do { auto_arima_object o = mk(&c); char *before = malloc(sz); memcpy(before, o, sz); call; mc_ops(1); MC_CHECK(!memcmp(before, o, sz), "invalid_value_accepted", #call " changed the object"); auto_arima_free(o); free(before); } while (0)
    for (int v = 0; v < 2; v++) {
        ST(auto_arima_setApproximation(o, v), approximation); VAL(auto_arima_setApproximation(o, v), approximation, v); ST(auto_arima_setStepwise(o, v), stepwise); VAL(auto_arima_setStepwise(o, v), stepwise, v);
        ST(auto_arima_setStationary(o, v), stationary); VAL(auto_arima_setStationary(o, v), stationary, v); ST(auto_arima_setSeasonal(o, v), seasonal); VAL(auto_arima_setSeasonal(o, v), seasonal, v);
        ST(auto_arima_allowMean(o, v), imean); VAL(auto_arima_allowMean(o, v), imean, v); ST(auto_arima_allowDrift(o, v), allowdrift); VAL(auto_arima_allowDrift(o, v), allowdrift, v); ST(auto_arima_setVerbose(o, v), verbose); VAL(auto_arima_setVerbose(o, v), verbose, v);
    }
    for (int v = 0; v < 3; v++) { ST(auto_arima_setMethod(o, v), method); VAL(auto_arima_setMethod(o, v), method, v); }
    for (int v = 0; v < 8; v++) { ST(auto_arima_setOptMethod(o, v), optmethod); VAL(auto_arima_setOptMethod(o, v), optmethod, v); }
    static const int bad[] = {-1, 2, 3, 8, 100, -5}; 
    for (int i = 0; i < 6; i++) { int v = bad[i]; NOP(auto_arima_setApproximation(o, v)); NOP(auto_arima_setStepwise(o, v)); NOP(auto_arima_setStationary(o, v)); NOP(auto_arima_setSeasonal(o, v)); NOP(auto_arima_allowMean(o, v)); NOP(auto_arima_allowDrift(o, v)); NOP(auto_arima_setVerbose(o, v)); if (v < 0 || v > 2) NOP(auto_arima_setMethod(o, v)); if (v < 0 || v > 7) NOP(auto_arima_setOptMethod(o, v)); }
    static const char *T[] = {"kpss", "df", "adf", "pp"}, *Y[] = {"level", "trend"}, *S[] = {"seas", "ocsb"};
    for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) { auto_arima_object o = mk(&c), b = mk(&c); auto_arima_setStationarityParameters(o, T[i], .02, Y[j]); mc_ops(1); MC_CHECK(!strcmp(o->test, T[i]) && !strcmp(o->type, Y[j]) && o->alpha_test == .02, "setter_value", "stationarity parameters"); memset(b->test, 0, 10); memset(o->test, 0, 10); memset(b->type, 0, 10); memset(o->type, 0, 10); o->alpha_test = b->alpha_test; 
        MC_CHECK(!strcmp(o->seas, "seas") && o->alpha_seas == b->alpha_seas && !strcmp(o->information_criteria, b->information_criteria) && o->stepwise == b->stepwise && o->approximation == b->approximation && o->verbose == b->verbose && o->num_models == b->num_models && o->method == b->method && o->Order_max == b->Order_max, "setter_touches_more", "stationarity parameters changed another setting"); auto_arima_free(o); auto_arima_free(b); }
    for (int i = 0; i < 2; i++) { auto_arima_object o = mk(&c), b = mk(&c); auto_arima_setSeasonalParameters(o, S[i], .02); mc_ops(1); MC_CHECK(!strcmp(o->seas, S[i]) && o->alpha_seas == .02 && !strcmp(o->test, b->test) && !strcmp(o->type, b->type) && o->alpha_test == b->alpha_test && o->seasonal == b->seasonal, "setter_value", "seasonal parameters"); auto_arima_free(o); auto_arima_free(b); }
    /* documented defaults */
    auto_arima_object o = auto_arima_init(NULL, NULL, 12, 0, 120); MC_CHECK(o->pmax == 5 && o->qmax == 5 && o->dmax == 2 && o->Pmax == 2 && o->Qmax == 2 && o->Dmax == 1 && o->Order_max == 5 && o->num_models == 94 && o->stepwise == 1 && o->approximation == 0 && !strcmp(o->information_criteria, "aicc") && !strcmp(o->test, "kpss") && !strcmp(o->seas, "seas") && o->stationary == 0 && o->seasonal == 1, "defaults", "default settings"); auto_arima_free(o);
    o = auto_arima_init(NULL, NULL, 12, 0, 151); MC_CHECK(o->approximation == 1, "defaults", "approximation default for long series"); auto_arima_free(o); o = auto_arima_init(NULL, NULL, 13, 0, 100); MC_CHECK(o->approximation == 1, "defaults", "approximation default for long periods"); auto_arima_free(o);
}
void mc_enumerate(void) {
    int th = mc_thorough; cfg_t c; setters();
    static const char *T[] = {"kpss", "df", "adf", "pp"}, *Y[] = {"level", "trend"}, *S[] = {"seas", "ocsb"}, *IC[] = {"aicc", "bic", "aic"};
    static const int KS[] = {K_AR1, K_RW, K_SEAS, NKIND, NKIND + 1, NKIND + 2, NKIND + 3, NKIND + 4, K_TREND, K_MA1, K_ARMA, K_AR2C, K_NEARUNIT, K_WHITE, K_MA2};
    int nk = th ? 15 : 8;
    /* every combination of the boolean settings */
    for (int ki = 0; ki < nk; ki++) for (int b = 0; b < 64; b++) for (int s = 0; s <= 4; s += 4) for (int r = 0; r < (th ? 3 : 2); r++) {
        c = DEF; c.kind = KS[ki]; c.s = s; c.r = r; c.stat = b & 1; c.seas = b >> 1 & 1; c.mean = b >> 2 & 1; c.drift = b >> 3 & 1; c.approx = b >> 4 & 1; c.step = b >> 5 & 1; if (!s) c.pm = c.qm = 2; GO((b & 2) && r == 0);
    }
    /* methods and optimisers */
    for (int ki = 0; ki < nk; ki++) for (int me = 0; me < 3; me++) for (int op = 0; op < 8; op++) for (int b = 0; b < 4; b++) { if (!th && ki > 3 && op != 5) continue; c = DEF; c.kind = KS[ki]; c.method = me; c.opt = op; c.approx = b & 1; c.step = b >> 1; if (ki & 1) c.s = 0; GO(0); }
    /* tests, types, levels, maxima of differencing */
    for (int ki = 0; ki < nk; ki++) for (int t = 0; t < 4; t++) for (int y = 0; y < 2; y++) for (int sx = 0; sx < 2; sx++) for (int al = 0; al < 3; al++) for (int dm = 0; dm < 3; dm++) for (int Dm = 0; Dm < 2; Dm++) { if (!th && ((dm == 1 && Dm == 1) || (al == 2 && ki > 4))) continue; c = DEF; c.kind = KS[ki]; c.test = T[t]; c.type = Y[y]; c.stest = S[sx]; c.al = al == 0 ? .05 : al == 1 ? .01 : .1; c.sal = al == 0 ? .05 : al == 1 ? .1 : .01; c.dm = dm; c.Dm = Dm; c.Pm = c.Qm = 0; c.approx = 1; GO(0); }
    /* maxima, criteria, total order */
    for (int ki = 0; ki < nk; ki++) for (int pm = 0; pm <= 2; pm++) for (int qm = 0; qm <= 2; qm++) for (int Pm = 0; Pm <= 1; Pm++) for (int Qm = 0; Qm <= 1; Qm++) for (int ic = 0; ic < 3; ic++) for (int step = 0; step < 2; step++) { if (!th && ki > 3 && ic != ki % 3) continue; c = DEF; c.kind = KS[ki]; c.pm = pm; c.qm = qm; c.Pm = Pm; c.Qm = Qm; c.ic = IC[ic]; c.step = step; c.omax = pm == 2 ? 2 : 5; GO(ic == ki % 3); }
    /* regressors, also ones that are constant after differencing */
    for (int ki = 0; ki < nk; ki++) for (int r = 1; r <= 3; r++) for (int zk = 0; zk < 4; zk++) for (int dr = 0; dr < 2; dr++) for (int ap = 0; ap < 2; ap++) for (int s = 0; s <= 4; s += 4) { if (!th && zk && r == 2) continue; c = DEF; c.kind = KS[ki]; c.r = r; c.zk = zk; c.drift = c.mean = dr; c.approx = ap; c.s = s; GO(r == 1 && zk == 0 && !ap && s == 4); }
    /* other lengths and periods */
    static const int NS[][2] = {{20, 0}, {24, 0}, {33, 3}, {40, 2}, {61, 6}, {70, 12}, {160, 0}, {160, 4}};
    for (int ki = 0; ki < nk; ki++) for (int i = 0; i < 8; i++) for (int b = 0; b < 4; b++) { c = DEF; c.kind = KS[ki]; c.N = NS[i][0]; c.s = NS[i][1]; c.approx = b & 1; c.step = b >> 1; c.pm = c.qm = c.step ? 3 : 1; if (c.s == 12) c.Pm = c.Qm = c.step; GO(b == 2 && c.s < 6 && c.N < 100); }
}
