/* C14: AR estimators solve their defining equations; automatic order selection */
#include "arima.h"
#include <unistd.h>
#include <fcntl.h>
const char *mc_property = "C14";
static double amax(const double *x, int n) { double m = 0; for (int i = 0; i < n; i++) if (fabs(x[i]) > m) m = fabs(x[i]); return m; }
static int finite_all(const double *x, int n) { for (int i = 0; i < n; i++) if (!isfinite(x[i])) return 0; return 1; }
static void check_yw(const double *x, int N, int p, int viaar) {
    double xc[256]; memcpy(xc, x, sizeof(double) * N); double *phi = mc_buf(p), *v = mc_buf(1);
    if (viaar) ar(xc, N, p, 0, phi, v); else yw(xc, N, p, phi, v); mc_ops(1);
    mc_bufcheck("bounds", phi, p); MC_CHECK(!memcmp(xc, x, sizeof(double) * N), "input", "yw modified its input");
    ld g[256]; ref_acvf(x, N, p + 1, g); if (!(g[0] > 0)) { mc_buffree(phi); mc_buffree(v); return; }
    ld sa = 1; for (int i = 0; i < p; i++) sa += fabsl(phi[i]); 
    MC_CHECK(finite_all(phi, p), "yw", "N=%d p=%d coefficients not finite", N, p);
    for (int k = 1; k <= p; k++) { ld s = -g[k]; for (int j = 1; j <= p; j++) s += phi[j - 1] * g[abs(k - j)]; MC_CHECK(fabsl(s) <= 1e-10L * g[0] * sa, "yw", "N=%d p=%d: Yule-Walker equation %d residual %Lg", N, p, k, s / g[0]); mc_max("yw_res", (double)(fabsl(s) / g[0] / sa)); }
    ld w = g[0]; for (int j = 1; j <= p; j++) w -= phi[j - 1] * g[j]; MC_CHECK(fabsl(w - v[0]) <= 1e-10L * g[0] * sa, "yw var", "N=%d p=%d: variance %g, equations give %Lg", N, p, v[0], w);
    ld a[256]; for (int i = 0; i < p; i++) a[i] = phi[i]; if (ar_margin(a, p) > 1e-9L || w > 1e-6L * g[0]) MC_CHECK(ref_stationary(a, p), "yw stationary", "N=%d p=%d Yule-Walker polynomial not stationary", N, p);
    mc_state_d(phi, p); mc_buffree(phi); mc_buffree(v);
}
static void check_burg(const double *x, int N, int p, int viaar) {
    double xc[256]; memcpy(xc, x, sizeof(double) * N); double *phi = mc_buf(p), *v = mc_buf(1);
    if (viaar) ar(xc, N, p, 1, phi, v); else burg(xc, N, p, phi, v); mc_ops(1);
    mc_bufcheck("bounds", phi, p); MC_CHECK(!memcmp(xc, x, sizeof(double) * N), "input", "burg modified its input");
    ld *rp = calloc(p * p + 1, sizeof(ld)), var[256], refl[256]; int m = ref_burg(x, N, p, rp, var, refl);
    if (m >= p) {
        ld mx = 1; for (int i = 0; i < p; i++) if (fabsl(rp[(p - 1) * p + i]) > mx) mx = fabsl(rp[(p - 1) * p + i]);
        for (int i = 0; i < p; i++) { double d = fabsl(phi[i] - rp[(p - 1) * p + i]); mc_max("burg_err", d / mx); MC_CHECK(d <= 1e-7 * mx, "burg", "N=%d p=%d coefficient %d: %.12g, minimising forward plus backward error gives %.12Lg", N, p, i + 1, phi[i], rp[(p - 1) * p + i]); }
        MC_CHECK(fabsl(v[0] - var[p - 1]) <= 1e-7L * fabsl(var[0]), "burg var", "N=%d p=%d variance %g, mean squared forward/backward error %Lg", N, p, v[0], var[p - 1]);
        int edge = 0; for (int i = 0; i < p; i++) if (fabsl(refl[i]) > 1 - 1e-6L) edge = 1;
        ld a[256]; for (int i = 0; i < p; i++) a[i] = phi[i]; if (!edge) MC_CHECK(ref_stationary(a, p), "burg stationary", "N=%d p=%d Burg polynomial not stationary", N, p);
        mc_state_d(phi, p); mc_count("burg_compared", 1);
    } else mc_count("burg_degenerate", 1);
    free(rp); mc_buffree(phi); mc_buffree(v);
}
/* second Hannan-Rissanen step, from long-AR residuals a: solves LS of w_t on w_{t-1..t-p}, -a_{t-1..t-q} over t=m+q..N-1 */
static int ref_hr2(const ld *w, int N, int m, int p, int q, const ld *a, ld *beta, ld *sos) {
    int n = N - m - q, k = p + q; ld *X = malloc(sizeof(ld) * n * k), *y = malloc(sizeof(ld) * n);
    for (int i = 0; i < n; i++) { int t = m + q + i; y[i] = w[t]; for (int j = 0; j < p; j++) X[i * k + j] = w[t - 1 - j]; for (int j = 0; j < q; j++) X[i * k + p + j] = -a[t - 1 - j]; }
    int bad = ref_ols(X, y, n, k, beta, sos, NULL); free(X); free(y); return bad;
}
static int ref_longar(const double *x, int N, int m, ld *w, ld *a) {
    ld mu = 0; for (int i = 0; i < N; i++) mu += x[i]; mu /= N; for (int i = 0; i < N; i++) w[i] = x[i] - mu;
    ld g[256], ph[64], v; ref_acvf(x, N, m + 1, g); if (ref_yw(g, m, ph, &v)) return 1;
    for (int t = 0; t < N; t++) { a[t] = 0; if (t >= m) { a[t] = w[t]; for (int i = 0; i < m; i++) a[t] -= ph[i] * w[t - 1 - i]; } } return 0;
}
static void check_hr(const double *x, int N, int p, int q) {
    double xc[256]; memcpy(xc, x, sizeof(double) * N); double *phi = mc_buf(p), *th = mc_buf(q), *v = mc_buf(1);
    hr(xc, N, p, q, phi, th, v); mc_ops(1); mc_bufcheck("bounds", phi, p); mc_bufcheck("bounds", th, q); MC_CHECK(!memcmp(xc, x, sizeof(double) * N), "input", "hr modified its input");
    int m = p > q ? p : q; if (m < 10 && N > p + q + 20) m = 10; else m++;
    ld w[256], a[256], beta[16], sos; if (N - m - q <= p + q + 2 || ref_longar(x, N, m, w, a) || ref_hr2(w, N, m, p, q, a, beta, &sos)) { mc_count("hr_degenerate", 1); goto out; }
    ld mx = 1; for (int i = 0; i < p + q; i++) if (fabsl(beta[i]) > mx) mx = fabsl(beta[i]);
    for (int i = 0; i < p + q; i++) { double got = i < p ? phi[i] : th[i - p]; MC_CHECK(fabsl(got - beta[i]) <= 1e-6L * mx, "hr", "N=%d p=%d q=%d coefficient %d: %.10g, least squares gives %.10Lg", N, p, q, i, got, beta[i]); mc_max("hr_err", fabsl(got - beta[i]) / mx); }
    MC_CHECK(fabsl(v[0] - sos / (N - m - q)) <= 1e-6L * sos / (N - m - q), "hr var", "N=%d p=%d q=%d variance %g, least squares gives %Lg", N, p, q, v[0], sos / (N - m - q));
    mc_state_d(phi, p); mc_count("hr_compared", 1);
out: mc_buffree(phi); mc_buffree(th); mc_buffree(v);
}
static double arml(const double *x, int N, int p, const double *phi, double mean) {
    spec_t s = {0, p, 0, 0, 0, 0, 0, 0, 0, 1, N}; model_t m = model_of(&s, phi, NULL, NULL, NULL, mean, NULL, x, NULL); ld ll, var; double r = -1e300; if (!model_ml(&m, &ll, &var, NULL)) r = (double)ll; model_free(&m); return r;
}
static void check_exec(const double *x, int N, int method) {
    double xc[256]; memcpy(xc, x, sizeof(double) * N);
    int om = (int)(10.0 * log((double)N)); if (om > N - 1) om = N - 1; if (method == 2 && om > 12) om = 12;
    double mu = 0; for (int i = 0; i < N; i++) mu += x[i]; mu /= N; double w[256]; for (int i = 0; i < N; i++) w[i] = x[i] - mu;
    double aic[128]; int best = 1, lastok = om; ld var[256], refl[256], g[256]; ld *rp = calloc(om * om + 1, sizeof(ld));
    if (method == 0) { ref_acvf(x, N, om + 1, g); for (int p = 1; p <= om; p++) { ld ph[128], v; if (ref_yw(g, p, ph, &v) || !(v > 1e-9L * g[0])) { lastok = p - 1; break; } aic[p] = (double)logl(v) + 2.0 * p / N; } }
    else if (method == 1) { lastok = ref_burg(w, N, om, rp, var, refl); for (int p = 1; p <= lastok; p++) aic[p] = (double)logl(var[p - 1]) + 2.0 * p / N; }
    else for (int p = 1; p <= om; p++) { double phi[16], v, t[256]; memcpy(t, w, sizeof(double) * N); ar(t, N, p, 2, phi, &v); aic[p] = log(v) + 2.0 * p / N; mc_ops(1); }
    ar_object o = ar_init(method, N); memcpy(xc, x, sizeof(double) * N); ar_exec(o, xc); mc_ops(1);
    MC_CHECK(!memcmp(xc, x, sizeof(double) * N), "input", "ar_exec modified its input");
    MC_CHECK(o->p == o->order && o->p >= 1 && o->p <= om, "order range", "N=%d order %d (%d), maximum %d", N, o->p, o->order, om);
    if (lastok == om) {
        for (int p = 1; p <= om; p++) if (aic[p] < aic[best]) best = p;
        if (o->p >= 1 && o->p <= om) MC_CHECK(aic[o->p] <= aic[best] + 1e-6, "order", "N=%d method %d: order %d with criterion %.9g, order %d has %.9g", N, method, o->p, aic[o->p], best, aic[best]);
        mc_count("orders_compared", 1); char nm[32]; snprintf(nm, 32, "order_m%d_%02d", method, o->p); if (method < 2) mc_count(nm, 1);
    } else mc_count("order_degenerate", 1);
    int p = o->p; double phi[128], v;
    if (method < 2) {
        if (method == 0) yw(xc, N, p, phi, &v); else burg(w, N, p, phi, &v);
        mc_vec("exec phi", o->phi, phi, p, 1e-9, 1e-9); MC_CHECK(mc_close(o->var, v, 0, 1e-9), "exec var", "N=%d variance %g want %g", N, o->var, v); MC_CHECK(mc_close(o->mean, mu, 1e-12, 1e-10), "exec mean", "N=%d mean %g want %g", N, o->mean, mu);
        double ll = -0.5 * N * (log(o->var) + 1 + log(2 * M_PI)), a = -2 * ll + 2 * (p + 2);
        MC_CHECK(mc_close(o->aic, a, 1e-3, 1e-5), "exec aic", "N=%d aic %g want %g", N, o->aic, a);
        double sc = amax(w, N) * (1 + amax(phi, p) * p);
        for (int t = 0; t < N; t++) { double e = 0; if (t >= p) { e = w[t]; for (int i = 0; i < p; i++) e -= o->phi[i] * w[t - 1 - i]; } MC_CHECK(fabs(o->res[t] - e) <= 1e-9 * sc, "exec res", "N=%d residual %d is %g, coefficients give %g", N, t, o->res[t], e); }
        MC_CHECK(o->retval == 1, "exec retval", "retval %d", o->retval);
    } else {
        double ll = arml(x, N, p, o->phi, o->mean); spec_t s = {0, p, 0, 0, 0, 0, 0, 0, 0, 1, N}; model_t m = model_of(&s, o->phi, NULL, NULL, NULL, o->mean, NULL, x, NULL); ld l2, v2; int bad = model_ml(&m, &l2, &v2, NULL); ld mg = ar_margin(m.a, p); model_free(&m);
        if (o->retval == 1 && !bad && mg > 1e-3L) { MC_CHECK(mc_close(o->var, (double)v2, 0, 2e-3), "mle var", "N=%d p=%d variance %g, exact likelihood at the coefficients gives %Lg", N, p, o->var, v2);
            MC_CHECK(fabs(o->aic - (-2 * ll + 2 * (p + 2))) < 0.05, "mle aic", "N=%d p=%d aic %g, exact likelihood gives %g", N, p, o->aic, -2 * ll + 2 * (p + 2)); mc_count("mle_compared", 1); }
    }
    int L = 5; double pr[5], ms[5]; ar_predict(o, xc, L, pr, ms); mc_ops(1); MC_CHECK(finite_all(pr, L) && finite_all(ms, L), "predict", "forecast not finite");
    { ld y[300]; for (int i = 0; i < N; i++) y[i] = (ld)x[i] - o->mean; double sc = 1 + amax(x, N) * (1 + amax(o->phi, p) * p), gr = 1; 
      for (int h = 0; h < L; h++) { ld s = 0; for (int i = 0; i < p; i++) s += o->phi[i] * y[N + h - 1 - i]; y[N + h] = s; MC_CHECK(fabsl(pr[h] - (s + o->mean)) <= 1e-7 * sc, "ar forecast", "N=%d p=%d h=%d forecast %g, recursion gives %Lg", N, p, h + 1, pr[h], s + o->mean); } }
    mc_state_d(o->phi, p); ar_free(o); free(rp);
}
static void check_model_estimate(const double *x, int N, int d, int pmax, int h) {
    double xc[256]; memcpy(xc, x, sizeof(double) * N);
    fflush(stdout); char fn[] = "/tmp/mcme.XXXXXX"; int fd = mkstemp(fn), old = dup(1); dup2(fd, 1); model_estimate(xc, N, d, pmax, h); fflush(stdout); dup2(old, 1); close(old); mc_ops(1);
    MC_CHECK(!memcmp(xc, x, sizeof(double) * N), "input", "model_estimate modified its input");
    char *buf = calloc(1, 20000); lseek(fd, 0, SEEK_SET); int n = read(fd, buf, 19999); close(fd); unlink(fn); (void)n;
    double w0[256]; int M = ref_difference(x, N, d, 0, 1, w0); ld w[256], a[256]; if (ref_longar(w0, M, h, w, a)) { free(buf); return; }
    char *p = buf; int cnt = 0, bi[3][2], gi[3][2]; double bv[3] = {1e300, 1e300, 1e300}, av[16][16][3]; 
    for (int i = 0; i <= pmax; i++) for (int j = 0; j <= pmax; j++) if (i + j > 0) {
        ld beta[32], sos; int bad = ref_hr2(w, M, h, i, j, a, beta, &sos); if (bad) { free(buf); mc_count("me_degenerate", 1); return; }
        double lv = (double)logl(sos / (M - h - j)), c[3] = {lv + 2.0 * (i + j) / M, lv + log(M) * (i + j) / M, lv + 2 * log(log(M)) * (i + j) / M}; int gp, gq; double g[3];
        p = strstr(p, " p = "); if (!p || sscanf(p, " p = %d q = %d AIC = %lf SC = %lf HQ = %lf", &gp, &gq, g, g + 1, g + 2) != 5) { mc_fail("model_estimate", "N=%d d=%d: line for p=%d q=%d missing", N, d, i, j); free(buf); return; }
        p += 3; cnt++; MC_CHECK(gp == i && gq == j, "model_estimate", "order line %d %d want %d %d", gp, gq, i, j);
        for (int k = 0; k < 3; k++) { MC_CHECK(mc_close(g[k], c[k], 2e-5, 2e-5), "model_estimate", "N=%d d=%d p=%d q=%d criterion %d is %g, definition gives %g", N, d, i, j, k, g[k], c[k]); if (c[k] < bv[k]) { bv[k] = c[k]; bi[k][0] = i; bi[k][1] = j; } av[i][j][k] = c[k]; }
    }
    static const char *lab[3] = {"AIC Estimate", "SC Estimate", "HQ Estimate"};
    for (int k = 0; k < 3; k++) { char *e = strstr(buf, lab[k]); if (!e || sscanf(strchr(e, ':'), ": p = %d q = %d", &gi[k][0], &gi[k][1]) != 2) mc_fail("model_estimate", "%s missing", lab[k]); else { int ok = gi[k][0] >= 0 && gi[k][0] <= pmax && gi[k][1] >= 0 && gi[k][1] <= pmax && gi[k][0] + gi[k][1] > 0; MC_CHECK(ok && av[gi[k][0]][gi[k][1]][k] <= bv[k] + 1e-7, "model_estimate", "N=%d d=%d %s chose (%d,%d), minimum at (%d,%d)", N, d, lab[k], gi[k][0], gi[k][1], bi[k][0], bi[k][1]); } }
    mc_count("me_lines", cnt); mc_state(gi[0][0] * 100 + gi[0][1] * 10 + gi[1][0]); free(buf);
}
static void check_mle(const double *x, int N, int p) {
    double xc[256]; memcpy(xc, x, sizeof(double) * N); double *phi = mc_buf(p), *v = mc_buf(1); ar(xc, N, p, 2, phi, v); mc_ops(1); mc_bufcheck("bounds", phi, p);
    MC_CHECK(!memcmp(xc, x, sizeof(double) * N), "input", "ar MLE modified its input");
    /* the mean is not returned: it is the likelihood's own maximiser at phi (generalised least squares) */
    double mu = 0; for (int i = 0; i < N; i++) mu += x[i]; mu /= N; double lo = mu - 20, hi = mu + 20; 
    for (int it = 0; it < 200; it++) { double a = lo + (hi - lo) * 0.382, b = lo + (hi - lo) * 0.618; if (arml(x, N, p, phi, a) < arml(x, N, p, phi, b)) lo = a; else hi = b; } mu = (lo + hi) / 2;
    ld aa[32]; for (int i = 0; i < p; i++) aa[i] = phi[i]; MC_CHECK(ref_stationary(aa, p), "mle stationary", "N=%d p=%d not stationary", N, p);
    if (ar_margin(aa, p) > 0.01L) {
        double l0 = arml(x, N, p, phi, mu), worst = 0, t[32]; for (int i = 0; i < p; i++) for (int s = -1; s <= 1; s += 2) { memcpy(t, phi, sizeof(double) * p); t[i] += s * 0.05; double l = arml(x, N, p, t, mu) - l0; if (l > worst) worst = l; }
        mc_max("mle_improvable", worst); MC_CHECK(worst < 0.3, "mle optimum", "N=%d p=%d: moving one coefficient by 0.05 raises the exact likelihood by %g", N, p, worst);
        spec_t s = {0, p, 0, 0, 0, 0, 0, 0, 0, 1, N}; model_t m = model_of(&s, phi, NULL, NULL, NULL, mu, NULL, x, NULL); ld l2, v2; if (!model_ml(&m, &l2, &v2, NULL)) MC_CHECK(mc_close(v[0], (double)v2, 0, 0.02), "mle var", "N=%d p=%d variance %g, exact likelihood gives %Lg", N, p, v[0], v2); model_free(&m);
    }
    mc_state_d(phi, p); mc_buffree(phi); mc_buffree(v);
}
void mc_enumerate(void) {
    mc_case_limit = 120; int T = mc_thorough; double x[256];
    for (int n = 3; n <= (T ? 8 : 6); n++) for (int first = 0; first < 3; first++) for (int p = 1; p <= 3 && p < n; p++) if (mc_case("small n=%d first=%d p=%d", n, first, p)) {
        static const double A[3] = {0, 1, 3}; int tot = 1; for (int i = 1; i < n; i++) tot *= 3; 
        for (int c = 0; c < tot; c++) { x[0] = A[first]; for (int i = 1, k = c; i < n; i++, k /= 3) x[i] = A[k % 3]; check_yw(x, n, p, c & 1); check_burg(x, n, p, c & 1); }
    }
    static const int NS[] = {9, 16, 25, 40, 60, 81, 120, 200}; int seeds = T ? 6 : 2;
    for (int kind = 0; kind < NKIND; kind++) for (int ni = 0; ni < 8; ni++) for (int sd = 0; sd < seeds; sd++) {
        int N = NS[ni]; 
        if (mc_case("fixed %s N%d s%d", kname[kind], N, sd)) { series(kind, 50 + sd, N, x); int pm = N - 2 < 20 ? N - 2 : 20; for (int p = 1; p <= pm; p++) for (int v = 0; v < 2; v++) { check_yw(x, N, p, v); check_burg(x, N, p, v); } }
        if (N >= 25) for (int p = 0; p <= 3; p++) for (int q = 0; q <= 3; q++) if (p + q && mc_case("hr %s N%d s%d p%d q%d", kname[kind], N, sd, p, q)) { series(kind, 50 + sd, N, x); check_hr(x, N, p, q); }
        for (int m = 0; m < 2; m++) if (mc_case("exec %s N%d s%d m%d", kname[kind], N, sd, m)) { series(kind, 50 + sd, N, x); check_exec(x, N, m); }
        if (N >= 40 && N <= (T ? 120 : 60) && mc_case("exec %s N%d s%d m2", kname[kind], N, sd)) { series(kind, 50 + sd, N, x); check_exec(x, N, 2); }
        if (N >= 40 && N <= (T ? 120 : 60)) for (int p = 1; p <= 4; p++) if (mc_case("mle %s N%d s%d p%d", kname[kind], N, sd, p)) { series(kind, 50 + sd, N, x); check_mle(x, N, p); }
        if (N >= 60) for (int d = 0; d < 3; d++) for (int pm = 1; pm <= 3; pm++) if (mc_case("estimate %s N%d s%d d%d pmax%d", kname[kind], N, sd, d, pm)) { series(kind, 50 + sd, N, x); check_model_estimate(x, N, d, pm, 8); }
    }
}
