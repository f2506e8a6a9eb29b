/* C19: linear regression */
#include "mc.h"
#include "ref.h"
#include "regression.h"
const char *mc_property = "C19";
/* reference upper-tail quantiles by bisection on numerically integrated densities (independent of pdist/dist) */
static ld tcdf_ref(ld t, int df) { /* closed forms through the finite trigonometric sums */ ld th = atanl(t / sqrtl(df)), s = 0, c = cosl(th); if (df % 2) { s = th; if (df > 1) { ld term = c, sum = c; for (int k = 3; k <= df - 2; k += 2) { term *= (ld)(k - 1) / k * c * c; sum += term; } s += sinl(th) * sum; } return 0.5L + s / 3.14159265358979323846264338L; } ld term = 1, sum = 1; for (int k = 2; k <= df - 2; k += 2) { term *= (ld)(k - 1) / k * c * c; sum += term; } return 0.5L + 0.5L * sinl(th) * sum; }
static ld chicdf_ref(ld x, int df) { if (x <= 0) return 0; ld h = x / 2; if (df % 2 == 0) { ld t = 1, s = 1; for (int k = 1; k < df / 2; k++) { t *= h / k; s += t; } return 1 - expl(-h) * s; } ld s = erfl(sqrtl(h)), t = sqrtl(h / 3.14159265358979323846264338L) * 2 * expl(-h); for (int k = 1; k <= (df - 1) / 2; k++) { s -= t; t *= h / (k + 0.5L); } return s; }
static ld fcdf_ref(ld f, int a, int b) { /* incomplete beta by continued power series of I_x(a/2,b/2): series in x when x small else complement */ if (f <= 0) return 0; ld x = a * f / (a * f + b), p = a / 2.0L, q = b / 2.0L; int sw = 0; if (x > p / (p + q)) { sw = 1; x = 1 - x; ld t = p; p = q; q = t; } ld t = expl(p * logl(x) + q * log1pl(-x) + lgammal(p + q) - lgammal(p) - lgammal(q)) / p, s = t; for (int k = 1; k < 4000; k++) { t *= x * (p + q + k - 1) / (p + k); s += t; if (t < s * 1e-20L) break; } return sw ? 1 - s : s; }
static ld inv_ref(ld (*F)(ld, int), ld p, int df, ld lo, ld hi) { for (int k = 0; k < 200; k++) { ld m = (lo + hi) / 2; if (F(m, df) < p) lo = m; else hi = m; } return (lo + hi) / 2; }
static void one(const double *X, const double *y, int N, int p, int ic, int meth, double alpha) {
    static char *ME[] = {"qr", "normal", "svd"}; int nx = p - ic; ld *D = malloc(sizeof(ld) * N * (p + 1)), *yl = malloc(sizeof(ld) * N), beta[12], rss, *xi = malloc(sizeof(ld) * (p + 1) * (p + 1));
    for (int i = 0; i < N; i++) { yl[i] = y[i]; for (int j = 0; j < p; j++) D[i * p + j] = ic && j == 0 ? 1 : X[(j - ic) * N + i]; }
    if (p && ref_ols(D, yl, N, p, beta, &rss, xi)) { free(D); free(yl); free(xi); mc_count("singular design", 1); return; }
    if (!p) { rss = 0; for (int i = 0; i < N; i++) rss += yl[i] * yl[i]; }
    /* conditioning of X'X */
    ld kap = 0; { ld a = 0, b = 0; for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { ld s = 0; for (int k = 0; k < N; k++) s += D[k * p + i] * D[k * p + j]; a += s * s; b += xi[i * p + j] * xi[i * p + j]; } kap = sqrtl(a * b); } if (kap > (meth == 1 ? 1e5L : 1e10L)) { /* "normal" squares the condition of X'X again */ free(D); free(yl); free(xi); mc_count("ill-conditioned design", 1); return; }
    double *x = malloc(sizeof(double) * (N * (nx > 0 ? nx : 1))), *yy = malloc(sizeof(double) * N); if (nx > 0) memcpy(x, X, sizeof(double) * N * nx); memcpy(yy, y, sizeof(double) * N);
    double *res = mc_buf(N), *vc = mc_buf(p ? p * p : 1); reg_object o = reg_init(N, p); setIntercept(o, ic); setLLSMethod(o, ME[meth]); regress(o, nx > 0 ? x : NULL, yy, res, vc, alpha); mc_ops(1);
    mc_bufcheck("bounds", res, N); mc_bufcheck("bounds", vc, p ? p * p : 1); MC_CHECK((nx <= 0 || !memcmp(x, X, sizeof(double) * N * nx)) && !memcmp(yy, y, sizeof(double) * N), "input", "data modified"); MC_CHECK(o->N == N && o->p == p && o->intercept == ic, "settings", "N=%d p=%d intercept=%d", o->N, o->p, o->intercept);
    ld yy2 = 0, ym = 0, tss = 0; for (int i = 0; i < N; i++) { yy2 += yl[i] * yl[i]; ym += yl[i]; } ym /= N; for (int i = 0; i < N; i++) tss += (yl[i] - ym) * (yl[i] - ym); if (!ic) tss = yy2;
    double bt = 0; for (int j = 0; j < p; j++) bt = fmax(bt, fabs((double)beta[j])); if (meth == 1) kap *= kap; double eb = 1e-14 * (double)kap * (1 + bt) + 1e-12 * (1 + bt);
    for (int j = 0; j < p; j++) MC_CHECK(fabs(o->beta[j].value - (double)beta[j]) <= eb, "coefficient", "N=%d p=%d ic=%d %s: b[%d] = %.12g, least squares %.12Lg", N, p, ic, ME[meth], j, o->beta[j].value, beta[j]);
    double my = 0, mf = 0; for (int i = 0; i < N; i++) { ld f = 0, mg = 0; for (int j = 0; j < p; j++) { f += (ld)o->beta[j].value * D[i * p + j]; mg += fabsl(o->beta[j].value * D[i * p + j]); } mf = fmax(mf, (double)mg); my = fmax(my, fabs(y[i])); MC_CHECK(fabs(res[i] - (double)(yl[i] - f)) <= 1e-13 * p + 1e-13 * (fabs(y[i]) + (double)mg), "residual", "N=%d p=%d: res[%d] = %.12g, observed - fitted %.12Lg", N, p, i, res[i], yl[i] - f); }
    ld rr = 0; for (int i = 0; i < N; i++) rr += (ld)res[i] * res[i]; double er = 1e-12 * (double)yy2 + 2e-14 * (double)kap * (double)yy2 * (kap > 1e6L ? 1 : 0.01) + 1e-300; int df = N - p; double rssd = (double)rss;
    MC_CHECK(fabs((double)rr - rssd) <= er, "residual", "sum of squared residuals %Lg, minimum %Lg", rr, rss);
    MC_CHECK(o->df == df && o->df_RSS == df && o->df_ESS == (ic ? p - 1 : p), "df", "df=%d df_RSS=%d df_ESS=%d", o->df, o->df_RSS, o->df_ESS);
    MC_CHECK(fabs(o->RSS - rssd) <= er, "rss", "N=%d p=%d ic=%d: RSS %.12g, residual sum of squares %.12g", N, p, ic, o->RSS, rssd); MC_CHECK(fabs(o->TSS - (double)tss) <= er, "tss", "TSS %.12g want %.12Lg", o->TSS, tss); MC_CHECK(fabs(o->ESS - (double)(tss - rss)) <= er, "ess", "ESS %.12g want %.12Lg", o->ESS, tss - rss); MC_CHECK(mc_close(o->ESS + o->RSS, o->TSS, er, 1e-12), "anova identity", "ESS+RSS=%g TSS=%g", o->ESS + o->RSS, o->TSS);
    MC_CHECK(fabs(o->sigma - rssd / df) <= er / df, "variance", "N=%d p=%d: residual variance %.12g, RSS/df %.12g", N, p, o->sigma, rssd / df); MC_CHECK(!(o->sigma < 0), "variance", "negative residual variance %g", o->sigma);
    int good = rss > 1e-9L * yy2 && (double)er < 1e-4 * rssd;
    if (tss > 1e-9L * yy2 + 1e-300L) { double r2 = (double)(1 - rss / tss), e = 4 * er / (double)tss + 1e-12; MC_CHECK(fabs(o->r2 - r2) <= e && o->R2[0] == o->r2, "r2", "N=%d p=%d ic=%d: R2 %.12g want %.12g", N, p, ic, o->r2, r2); MC_CHECK(fabs(o->r2adj - (1 - (1 - r2) * (N - ic) / df)) <= e * N && o->R2[1] == o->r2adj, "r2adj", "N=%d p=%d ic=%d: adjusted R2 %.12g want %.12g", N, p, ic, o->r2adj, 1 - (1 - r2) * (N - ic) / df); }
    for (int j = 0; j < p; j++) for (int k = 0; k < p; k++) { double w = (double)(xi[j * p + k] * o->sigma), sc = sqrt((double)(xi[j * p + j] * xi[k * p + k])) * fabs(o->sigma); MC_CHECK(fabs(vc[j * p + k] - w) <= (1e-10 + 1e-14 * (double)kap) * sc + 1e-300, "varcovar", "N=%d p=%d: cov[%d][%d] = %.12g, sigma^2 (X'X)^-1 %.12g", N, p, j, k, vc[j * p + k], w); if (j == k) MC_CHECK(mc_close(o->beta[j].stdErr, sqrt(vc[j * p + j]), 1e-300, 1e-12), "stderr", "stdErr %g, sqrt of variance %g", o->beta[j].stdErr, sqrt(vc[j * p + j])); }
    if (good) {
        double tq = (double)inv_ref(tcdf_ref, 1 - alpha / 2, df, -1e9L, 1e9L); for (int j = 0; j < p; j++) { double w = tq * o->beta[j].stdErr; MC_CHECK(mc_close(o->beta[j].upper - o->beta[j].value, w, 1e-12 * bt, 2e-5) && mc_close(o->beta[j].value - o->beta[j].lower, w, 1e-12 * bt, 2e-5), "interval", "N=%d p=%d alpha=%g: interval [%g, %g] about %g, half-width should be %g", N, p, alpha, o->beta[j].lower, o->beta[j].upper, o->beta[j].value, w); }
        double cu = (double)inv_ref(chicdf_ref, 1 - alpha / 2, df, 0, 1e5L), cl = (double)inv_ref(chicdf_ref, alpha / 2, df, 0, 1e5L); MC_CHECK(mc_close(o->sigma_lower, df * o->sigma / cu, 0, 2e-5) && mc_close(o->sigma_upper, df * o->sigma / cl, 0, 1e-4), "variance interval", "N=%d p=%d alpha=%g: [%g, %g] about %g, should be [%g, %g]", N, p, alpha, o->sigma_lower, o->sigma_upper, o->sigma, df * o->sigma / cu, df * o->sigma / cl);
        int d1 = ic ? p - 1 : p; if (d1 > 0 && tss > 1e-9L * yy2) { double F = (double)(((tss - rss) / d1) / (rss / df)), eF = 1e-7 * (1 + fabs(F)) + 10 * er / rssd * fabs(F) * 2 + 10 * er / rssd * df; MC_CHECK(fabs(o->FStat - F) <= eF, "F", "N=%d p=%d ic=%d: F %.12g want %.12g", N, p, ic, o->FStat, F); double P = 1 - (double)fcdf_ref(o->FStat, d1, df); MC_CHECK(fabs(o->PVal - P) <= 1e-7, "F p-value", "N=%d p=%d ic=%d: p-value of F(%d,%d)=%g is %.10g, should be %.10g", N, p, ic, d1, df, o->FStat, o->PVal, P); }
        double ll = (double)(-N / 2.0L * (logl(2 * 3.14159265358979323846264338L) + logl(rss / N) + 1)); double el = 1e-10 * (1 + fabs(ll)) + N * er / rssd; MC_CHECK(fabs(o->loglik - ll) <= el, "loglik", "loglik %.12g want %.12g", o->loglik, ll); MC_CHECK(mc_close(o->aic, -2 * o->loglik + 2 * p, 1e-10, 1e-12), "aic", "AIC %g, -2 loglik + 2p %g", o->aic, -2 * o->loglik + 2 * p); MC_CHECK(mc_close(o->bic, -2 * o->loglik + log(N) * p, 1e-10, 1e-12), "bic", "BIC %g want %g", o->bic, -2 * o->loglik + log(N) * p); if (N - p - 1 > 0) MC_CHECK(mc_close(o->aicc, o->aic + 2.0 * p * (p + 1) / (N - p - 1), 1e-10, 1e-12), "aicc", "N=%d p=%d ic=%d: AICc - AIC = %g, 2p(p+1)/(N-p-1) = %g", N, p, ic, o->aicc - o->aic, 2.0 * p * (p + 1) / (N - p - 1)); mc_count("nondegenerate fits", 1); }
    if (meth == 0 && p) MC_CHECK(o->rank == p, "rank", "reported rank %d for full rank %d", o->rank, p);
    /* prediction at three points */
    if (p) for (int k = 0; k < 3; k++) { double in[12], v[2]; ld f = 0, q = 0, mg = 0, x0[12]; for (int j = 0; j < nx; j++) in[j] = k == 0 ? X[j * N] : k == 1 ? j - 1.5 : (j == 0); for (int j = 0; j < p; j++) { x0[j] = ic && j == 0 ? 1 : in[j - ic]; f += x0[j] * o->beta[j].value; mg += fabsl(x0[j] * o->beta[j].value); } for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { q += x0[i] * x0[j] * vc[i * p + j]; } double g = fitted(o, in, vc, v); mc_ops(1); MC_CHECK(fabs(g - (double)f) <= 1e-13 * (1 + (double)mg), "fitted", "fitted %g, regression function %Lg", g, f); ld qm = 0; for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) qm += fabsl(x0[i] * x0[j] * vc[i * p + j]); MC_CHECK(fabs(v[0] - (double)q) <= 1e-12 * (double)qm && fabs(v[1] - (o->sigma + v[0])) <= 1e-14 * fabs(v[1]), "prediction variance", "mean variance %g want %Lg; individual %g", v[0], q, v[1]); }
    mc_state_d(&o->loglik, 1); summary(o); anova(o); confint(o); free_reg(o); mc_buffree(res); mc_buffree(vc); free(x); free(yy); free(D); free(yl); free(xi); }
static void simple(const double *x, const double *y, int N, double alpha) { ld D[256], yl[128], b[2], rss, xi[4]; for (int i = 0; i < N; i++) { D[2 * i] = 1; D[2 * i + 1] = x[i]; yl[i] = y[i]; } if (ref_ols(D, yl, N, 2, b, &rss, xi)) return; double bb[2], var[5], *res = mc_buf(N), anv[7], lo[3], up[3]; linreg_clrm((double *)x, (double *)y, N, bb, var, res, alpha, anv, lo, up); mc_ops(1); mc_bufcheck("bounds", res, N); double s = 1 + fabs((double)b[0]) + fabs((double)b[1]); int df = N - 2; ld ym = 0, tss = 0, yy = 0; for (int i = 0; i < N; i++) ym += yl[i] / N; for (int i = 0; i < N; i++) { tss += (yl[i] - ym) * (yl[i] - ym); yy += yl[i] * yl[i]; }
    MC_CHECK(fabs(bb[0] - (double)b[0]) < 1e-10 * s && fabs(bb[1] - (double)b[1]) < 1e-10 * s, "simple", "N=%d: b=(%g,%g) want (%Lg,%Lg)", N, bb[0], bb[1], b[0], b[1]); double er = 1e-10 * (double)yy + 1e-300; for (int i = 0; i < N; i++) MC_CHECK(fabs(res[i] - (y[i] - bb[0] - bb[1] * x[i])) <= 1e-12 * s * (1 + fabs(x[i])), "simple residual", "res[%d]", i);
    double v = (double)rss / df; MC_CHECK(fabs(var[0] - v) <= er, "simple variance", "%g want %g", var[0], v); MC_CHECK(mc_close(var[1], (double)xi[0] * var[0], 1e-300, 1e-8) && mc_close(var[2], (double)xi[3] * var[0], 1e-300, 1e-8) && mc_close(var[3], (double)xi[1] * var[0], 1e-12 * var[0], 1e-8), "simple covariance", "(%g,%g,%g)", var[1], var[2], var[3]); if (tss > 1e-6L * yy) MC_CHECK(fabs(var[4] - (double)(1 - rss / tss)) < 1e-8, "simple r2", "%g want %Lg", var[4], 1 - rss / tss);
    MC_CHECK(fabs(anv[0] - (double)tss) <= er && fabs(anv[1] - (double)(tss - rss)) <= er && fabs(anv[2] - (double)rss) <= er && anv[3] == 1 && anv[4] == df, "simple anova", "TSS %g ESS %g RSS %g", anv[0], anv[1], anv[2]);
    if (rss > 1e-6L * yy) { double tq = (double)inv_ref(tcdf_ref, 1 - alpha / 2, df, -1e9L, 1e9L); for (int j = 0; j < 2; j++) MC_CHECK(mc_close(up[j] - bb[j], tq * sqrt(var[1 + j]), 1e-10, 2e-5) && mc_close(bb[j] - lo[j], tq * sqrt(var[1 + j]), 1e-10, 2e-5), "simple interval", "[%g,%g] about %g half-width %g", lo[j], up[j], bb[j], tq * sqrt(var[1 + j])); MC_CHECK(fabs(anv[5] - (double)((tss - rss) / (rss / df))) <= 1e-6 * (1 + anv[5]) && fabs(anv[6] - (1 - (double)fcdf_ref(anv[5], 1, df))) < 1e-7, "simple F", "F=%g p=%g", anv[5], anv[6]); } mc_state_d(bb, 2); mc_buffree(res); }
static double col(int j, int i, int N, int k) { switch ((j + k) % 8) { case 0: return i + 1; case 1: return (i * i) % 7 - 3; case 2: return i % 2; case 3: return sin(0.7 * i) * 10; case 4: return i % 12 == 0; case 5: return 100 + cos(i * 1.3 + j); case 6: return i > N / 2; default: return (i * 37 % 101) * 1e-2; } }
static double yv(int f, int i, int N) { switch (f) { case 0: return sin(i * 1.7) + 0.1 * i; case 1: return 1000 + cos(i * 2.1); case 2: return 2 + 3 * (i + 1); case 3: return 5; case 4: return (i * 7919 % 23) - 11; case 5: return 1e-5 * ((i * 31) % 17); case 6: return i % 2; default: return 0; } }
void mc_enumerate(void) {
    int T = mc_thorough;
    for (int N = 3; N <= (T ? 7 : 6); N++) for (int d = 0; d < 6; d++) if (mc_case("small N=%d design=%d", N, d)) { int tot = 1; for (int i = 0; i < N; i++) tot *= 3; static const double V[] = {0, 1, 3}; for (int c = 0; c < tot; c++) { double y[8], X[24]; int k = c; for (int i = 0; i < N; i++, k /= 3) y[i] = V[k % 3]; for (int j = 0; j < 3; j++) for (int i = 0; i < N; i++) X[j * N + i] = col(j, i, N, d); for (int ic = 0; ic < 2; ic++) for (int p = ic; p < N && p - ic <= 2; p++) for (int m = 0; m < 3; m++) one(X, y, N, p, ic, m, 0.05); simple(X, y, N, 0.1); } }
    static const int NS[] = {4, 5, 8, 13, 20, 33, 60, 120};
    for (int n = 0; n < 8; n++) for (int f = 0; f < 8; f++) for (int k = 0; k < 8; k++) if (mc_case("family N=%d y=%d X=%d", NS[n], f, k)) { int N = NS[n]; double y[128], *X = malloc(sizeof(double) * N * 8); for (int i = 0; i < N; i++) y[i] = yv(f, i, N); for (int j = 0; j < 8; j++) for (int i = 0; i < N; i++) X[j * N + i] = col(j, i, N, k); static const double AL[] = {0.05, 0.1, 0.01}; for (int ic = 0; ic < 2; ic++) for (int p = ic; p < N && p - ic <= (T ? 7 : 5); p++) for (int m = 0; m < 3; m++) for (int a = 0; a < 3; a++) { if (a && m) continue; one(X, y, N, p, ic, m, AL[a]); } for (int a = 0; a < 3; a++) simple(X, y, N, AL[a]); free(X); }
    /* polynomial regression equals regression on the powers */
    for (int n = 1; n < 7; n++) for (int p = 2; p <= 5; p++) for (int ic = 0; ic < 2; ic++) if (p < NS[n] && mc_case("poly N=%d p=%d intercept=%d", NS[n], p, ic)) for (int f = 0; f < 7; f++) for (int g = 0; g < 3; g++) { int N = NS[n], deg = p - ic; double y[128], x[128], *X = malloc(sizeof(double) * N * deg), *r1 = mc_buf(N), *r2 = mc_buf(N), v1[36], v2[36]; for (int i = 0; i < N; i++) { y[i] = yv(f, i, N); x[i] = g == 0 ? i % 5 - 2 : g == 1 ? sin(i * 0.9) : 0.25 * (i % 9) - 1; for (int k = 0; k < deg; k++) X[k * N + i] = pow(x[i], k + 1); } reg_object a = reg_init(N, p), b = reg_init(N, p); setIntercept(a, ic); setIntercept(b, ic); regress_poly(a, x, y, r1, v1, 0.05); regress(b, X, y, r2, v2, 0.05); mc_ops(2); mc_bufcheck("bounds", r1, N); if (b->rank == p) { mc_vec("polynomial", r1, r2, N, 1e-9, 1e-9); for (int k = 0; k < p; k++) MC_CHECK(mc_close(a->beta[k].value, b->beta[k].value, 1e-9, 1e-9), "polynomial", "N=%d degree=%d x=%d: coefficient %d = %g, regression on the powers %g", N, deg, g, k, a->beta[k].value, b->beta[k].value); mc_state_d(&a->beta[p - 1].value, 1); } free_reg(a); free_reg(b); free(X); mc_buffree(r1); mc_buffree(r2); }
    /* rank deficiency is reported */
    for (int N = 5; N <= 30; N += 5) if (mc_case("rank deficient N=%d", N)) for (int k = 0; k < 8; k++) for (int ic = 0; ic < 2; ic++) for (int e = 0; e < 3; e++) { double X[120], y[40], *res = mc_buf(N), vc[16]; for (int i = 0; i < N; i++) { y[i] = yv(0, i, N); X[i] = col(k, i, N, 0) + 1; X[N + i] = e == 0 ? 2 * X[i] : e == 1 ? 0 : -X[i]; } reg_object o = reg_init(N, 2 + ic); setIntercept(o, ic); regress(o, X, y, res, vc, 0.05); mc_ops(1); int rk = 1 + ic; MC_CHECK(o->rank < 2 + ic, "rank", "collinear design reported as full rank %d", o->rank); mc_state(mc_hash(0, &o->rank, 4)); free_reg(o); mc_buffree(res); (void)rk; }
}
