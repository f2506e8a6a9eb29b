/* C28: accuracy measures, smoothers, interpolation, running sums, super-smoother */
#include "mc.h"
#include "ref.h"
#include "errors.h"
#include "filter.h"
#include "talg.h"
#include "matrix.h"
const char *mc_property = "C28";
static double *cp(const double *x, int n) { double *y = malloc(sizeof(double) * (n ? n : 1)); memcpy(y, x, sizeof(double) * n); return y; }
/* ---------- accuracy */
static void accuracy(const double *p, const double *a, int N, const double *ts, int L) {
    double *P = cp(p, N), *A = cp(a, N), *S = cp(ts, L);
    ld e1 = 0, e2 = 0, ea = 0, pe = 0, ape = 0, mag = 0, pm = 0; int np = 0, infp = 0;
    for (int i = 0; i < N; i++) { ld d = (ld)a[i] - p[i]; e1 += d; e2 += d * d; ea += fabsl(d); mag = fmaxl(mag, fabsl(d)); if (a[i] == 0) { if (a[i] - p[i] != 0) infp = 1; continue; } np++; pe += 100 * d / a[i]; ape += fabsl(100 * d / a[i]); pm = fmaxl(pm, fabsl(100 * d / a[i])); }
    double tol = 1e-13 * (1 + (double)mag) * 4;
    double g; g = me(P, A, N); MC_CHECK(fabs(g - (double)(e1 / N)) <= tol, "me", "N=%d: %.15g, mean of actual - predicted %.15Lg", N, g, e1 / N);
    g = mse(P, A, N); MC_CHECK(mc_close(g, (double)(e2 / N), 1e-14 * (double)(mag * mag), 1e-13), "mse", "N=%d: %.15g want %.15Lg", N, g, e2 / N);
    g = rmse(P, A, N); MC_CHECK(mc_close(g, (double)sqrtl(e2 / N), 1e-14 * (double)mag, 1e-13), "rmse", "N=%d: %.15g want %.15Lg", N, g, sqrtl(e2 / N));
    g = mae(P, A, N); MC_CHECK(mc_close(g, (double)(ea / N), 1e-300, 1e-13), "mae", "N=%d: %.15g want %.15Lg", N, g, ea / N);
    mc_ops(4);
    if (np && !infp) { g = mape(P, A, N); MC_CHECK(mc_close(g, (double)(ape / np), 1e-300, 1e-12), "mape", "N=%d: %.15g want %.15Lg (undefined terms skipped)", N, g, ape / np); g = mpe(P, A, N); MC_CHECK(fabs(g - (double)(pe / np)) <= 1e-12 * (1 + (double)pm), "mpe", "N=%d: %.15g want %.15Lg", N, g, pe / np); mc_ops(2); mc_state_d(&g, 1); }
    if (infp) { g = mape(P, A, N); MC_CHECK(isinf(g), "mape", "error against a zero observation should be infinite, got %g", g); }
    ld sc = 0; for (int i = 1; i < L; i++) sc += fabsl((ld)ts[i] - ts[i - 1]); if (L > 1 && sc > 0) { ld w = (ea / N) / (sc / (L - 1)); g = mase(P, A, N, S, L); mc_ops(1); MC_CHECK(mc_close(g, (double)w, 1e-300, 1e-12), "mase", "N=%d training length %d: %.15g, mean absolute error over mean naive error %.15Lg", N, L, g, w); mc_state_d(&g, 1); }
    MC_CHECK(!memcmp(P, p, sizeof(double) * N) && !memcmp(A, a, sizeof(double) * N) && !memcmp(S, ts, sizeof(double) * L), "input", "inputs modified"); free(P); free(A); free(S); }
/* ---------- smoothers */
static double at(const double *x, int n, int i) { return x[i < 0 ? 0 : i >= n ? n - 1 : i]; }
static void smoothers(const double *x, int N, int w) {
    double *X = cp(x, N), *o = mc_buf(N), mx = 0; int q = w / 2; for (int i = 0; i < N; i++) mx = fmax(mx, fabs(x[i])); double tol = 1e-13 * (1 + mx);
    ld ma[400], m2[400];
    for (int i = 0; i < N; i++) { ld s = 0; for (int k = -q; k <= q; k++) s += ((w % 2 == 0 && abs(k) == q) ? 0.5L : 1.0L) * at(x, N, i + k); ma[i] = s / w; m2[i] = i < q || i >= N - q ? x[i] : ma[i]; }
    mafilter(X, N, w, o); mc_ops(1); mc_bufcheck("bounds", o, N); for (int i = 0; i < N; i++) MC_CHECK(fabs(o[i] - (double)ma[i]) <= tol, "moving average", "N=%d window=%d: [%d] = %.12g want %.12Lg", N, w, i, o[i], ma[i]); mc_state_d(o, N);
    mc_bufinit(o, N); detrend_ma(X, N, w, o); mc_ops(1); mc_bufcheck("bounds", o, N); for (int i = 0; i < N; i++) MC_CHECK(fabs(o[i] - (double)ma[i]) <= tol, "moving-average trend", "N=%d window=%d: [%d] = %.12g want %.12Lg", N, w, i, o[i], ma[i]);
    if (2 * q <= N) { mc_bufinit(o, N); mafilter2(X, N, w, o); mc_ops(1); mc_bufcheck("bounds", o, N); for (int i = 0; i < N; i++) MC_CHECK(fabs(o[i] - (double)m2[i]) <= tol, "interior moving average", "N=%d window=%d: [%d] = %.12g want %.12Lg", N, w, i, o[i], m2[i]); mc_state_d(o, N); }
    if (w >= 2 && N - 2 * q >= w) { ld W[64] = {0}; int c[64] = {0}; for (int t = q; t < N - q; t++) { W[t % w] += (ld)x[t] - m2[t]; c[t % w]++; } ld m = 0; for (int k = 0; k < w; k++) { W[k] /= c[k]; m += W[k] / w; } mc_bufinit(o, N); deseason_ma(X, N, w, o); mc_ops(1); mc_bufcheck("bounds", o, N); for (int i = 0; i < N; i++) MC_CHECK(fabs(o[i] - (double)(x[i] - (W[i % w] - m))) <= 4 * tol, "deseasonalise", "N=%d s=%d: [%d] = %.12g want %.12Lg", N, w, i, o[i], x[i] - (W[i % w] - m)); mc_state_d(o, N); }
    MC_CHECK(!memcmp(X, x, sizeof(double) * N), "input", "input modified"); free(X); mc_buffree(o); }
static void weighted(const double *x, int N, const double *wt, int w) { double *X = cp(x, N), *W = cp(wt, w), *o = mc_buf(N); int q = w / 2; mafilter_wt(X, N, W, w, o); mc_ops(1); mc_bufcheck("bounds", o, N); for (int i = 0; i < N; i++) { ld s = 0, m = 0; for (int k = 0; k < w; k++) { s += (ld)wt[k] * at(x, N, i - q + k); m += fabs(wt[k] * at(x, N, i - q + k)); } MC_CHECK(fabs(o[i] - (double)s) <= 1e-14 * w * (double)m + 1e-300, "weighted average", "N=%d window=%d: [%d] = %.12g want %.12Lg", N, w, i, o[i], s); } MC_CHECK(!memcmp(X, x, sizeof(double) * N) && !memcmp(W, wt, sizeof(double) * w), "input", "input modified"); mc_state_d(o, N); free(X); free(W); mc_buffree(o); }
static void expo(const double *x, int N, double al) { double *X = cp(x, N), *o = mc_buf(N); expfilter(X, N, al, o); mc_ops(1); mc_bufcheck("bounds", o, N); double mx = 0; for (int i = 0; i < N; i++) mx = fmax(mx, fabs(x[i])); for (int i = 0; i < N; i++) { ld s = powl(1 - (ld)al, i) * x[0], wgt = al; for (int k = i; k >= 1; k--) { s += wgt * x[k]; wgt *= 1 - (ld)al; } MC_CHECK(fabs(o[i] - (double)s) <= 1e-13 * (1 + mx), "exponential smoothing", "N=%d alpha=%g: [%d] = %.12g want %.12Lg", N, al, i, o[i], s); } MC_CHECK(!memcmp(X, x, sizeof(double) * N), "input", "input modified"); mc_state_d(o, N); free(X); mc_buffree(o); }
static void sums(const double *x, int N) { double *X = cp(x, N), *o = mc_buf(N); cumsum(X, N, o); mc_ops(1); mc_bufcheck("bounds", o, N); ld s = 0, m = 0, s2 = 0; double lo = INFINITY, hi = -INFINITY; for (int i = 0; i < N; i++) { s += x[i]; m += fabs(x[i]); s2 += (ld)x[i] * x[i]; lo = fmin(lo, x[i]); hi = fmax(hi, x[i]); MC_CHECK(fabs(o[i] - (double)s) <= 1e-14 * (double)m + 1e-300, "cumulative sum", "N=%d [%d] = %.12g want %.12Lg", N, i, o[i], s); } double a, b; arrayminmax(X, N, &a, &b); mc_ops(1); MC_CHECK(a == lo && b == hi, "min/max", "(%g,%g) want (%g,%g)", a, b, lo, hi); double n2 = norm2(X, N); MC_CHECK(mc_close(n2, (double)sqrtl(s2), 1e-300, 1e-14), "norm", "%.15g want %.15Lg", n2, sqrtl(s2)); MC_CHECK(!memcmp(X, x, sizeof(double) * N), "input", "input modified");
    for (int l = 0; l < N; l++) { /* Bartlett-weighted autocovariance sum of the Phillips-Perron tests */ double g = 1.25; ppsum(X, N, l, &g); mc_ops(1); ld t = 0, mg = 0; for (int i = 1; i <= l; i++) for (int j = i; j < N; j++) { t += (1 - (ld)i / (l + 1)) * x[j] * x[j - i]; mg += fabsl((ld)x[j] * x[j - i]); } t = 1.25L + 2 * t / N; MC_CHECK(fabs(g - (double)t) <= 1e-13 * (1 + (double)mg), "lag sums", "N=%d l=%d: %.12g want %.12Lg", N, l, g, t); }
    mc_state_d(o, N); free(X); mc_buffree(o); }
/* ---------- interpolation */
static void interp(const double *kx, const double *ky, int N, int sorted) {
    double X[12], Y[12]; int ix[12]; for (int i = 0; i < N; i++) ix[i] = i; for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if (kx[ix[j]] < kx[ix[i]]) { int t = ix[i]; ix[i] = ix[j]; ix[j] = t; } for (int i = 0; i < N; i++) { X[i] = kx[ix[i]]; Y[i] = ky[ix[i]]; }
    double z[80], w[80]; int n = 0; z[n] = X[0] - 1; w[n++] = Y[0]; z[n] = X[0] - 1e-9; w[n++] = Y[0]; z[n] = X[N - 1] + 1e-9; w[n++] = Y[N - 1]; z[n] = X[N - 1] + 100; w[n++] = Y[N - 1];
    for (int i = 0; i < N; i++) { z[n] = X[i]; w[n++] = Y[i]; if (i + 1 < N) for (int k = 1; k < 5; k++) { double f = k == 1 ? 1e-6 : k == 4 ? 1 - 1e-6 : k * 0.25; z[n] = X[i] + f * (X[i + 1] - X[i]); w[n++] = (double)((ld)Y[i] + ((ld)Y[i + 1] - Y[i]) * ((ld)z[n] - X[i]) / ((ld)X[i + 1] - X[i])); } }
    double my = 0; for (int i = 0; i < N; i++) my = fmax(my, fabs(Y[i])); double cx[12], cy[12]; memcpy(cx, kx, sizeof cx[0] * N); memcpy(cy, ky, sizeof cy[0] * N);
    for (int i = 0; i < n; i++) { double g = interpolate_linear(cx, cy, N, z[i]); mc_ops(1); int knot = 0; for (int k = 0; k < N; k++) if (X[k] == z[i]) knot = 1; MC_CHECK(knot || z[i] < X[0] || z[i] > X[N - 1] ? g == w[i] : fabs(g - w[i]) <= 1e-9 * (1e-6 + my), "interpolation", "N=%d z=%.12g: %.15g want %.15g%s", N, z[i], g, w[i], knot ? " (knot)" : ""); if (!i) mc_state_d(&g, 1); }
    MC_CHECK(!memcmp(cx, kx, sizeof(double) * N) && !memcmp(cy, ky, sizeof(double) * N), "input", "table modified");
    if (sorted) { double *o = mc_buf(n), *zz = cp(z, n); zz[n - 1] = NAN; approx(cx, cy, N, zz, o, n); mc_ops(1); mc_bufcheck("bounds", o, n); for (int i = 0; i < n - 1; i++) MC_CHECK(fabs(o[i] - w[i]) <= 1e-9 * (1e-6 + my), "table interpolation", "N=%d z=%.12g: %.15g want %.15g", N, z[i], o[i], w[i]); MC_CHECK(isnan(o[n - 1]), "table interpolation", "NaN abscissa gives %g", o[n - 1]); free(zz); mc_buffree(o); } }
/* ---------- super-smoother reference: running weighted straight lines over full windows */
static void rsm(const double *x, const double *y, const double *w, int n, double span, int per, ld vs, ld *smo, ld *acv) {
    int ibw = (int)(span * 0.5 * n + 0.5); if (ibw < 2) ibw = 2; int it = 2 * ibw + 1; if (it > n) it = n;
    for (int j = 0; j < n; j++) { int lo; if (per == 2) lo = j - ibw; else { lo = j - ibw; if (lo < 0) lo = 0; if (lo + it > n) lo = n - it; }
        ld sw = 0, xm = 0, ym = 0, v = 0, c = 0; for (int k = 0; k < it; k++) { int i = lo + k, m = ((i % n) + n) % n; ld xx = x[m] + (i < 0 ? -1 : i >= n ? 1 : 0); sw += w[m]; xm += w[m] * xx; ym += w[m] * (ld)y[m]; } if (sw > 0) { xm /= sw; ym /= sw; } for (int k = 0; k < it; k++) { int i = lo + k, m = ((i % n) + n) % n; ld xx = x[m] + (i < 0 ? -1 : i >= n ? 1 : 0); v += w[m] * (xx - xm) * (xx - xm); c += w[m] * (xx - xm) * (y[m] - ym); }
        ld a = v > vs ? c / v : 0; smo[j] = a * (x[j] - xm) + ym; if (acv) { ld h = sw > 0 ? 1 / sw : 0; if (v > vs) h += (x[j] - xm) * (x[j] - xm) / v; ld b = 1 - w[j] * h; acv[j] = 0; if (b > 0) acv[j] = fabsl(y[j] - smo[j]) / b; else if (j > 0) acv[j] = acv[j - 1]; } }
    for (int j = 0; j < n;) { int k = j; ld s = 0, f = 0; while (k < n && x[k] == x[j]) { s += smo[k] * w[k]; f += w[k]; k++; } if (k - j > 1) for (int i = j; i < k; i++) smo[i] = f > 0 ? s / f : 0; j = k; } }
static void rsupsmu(const double *x, const double *y, const double *w, int n, int per, double span, double alpha, ld *out) {
    if (!(x[n - 1] > x[0])) { ld s = 0, f = 0; for (int i = 0; i < n; i++) { s += (ld)w[i] * y[i]; f += w[i]; } for (int i = 0; i < n; i++) out[i] = f > 0 ? s / f : 0; return; }
    int i = n / 4, j = 3 * i; if (i < 1) { i = 1; j = n < 3 ? n : 3; } ld sc = (ld)x[j - 1] - x[i - 1]; while (!(sc > 0)) { if (j < n) j++; if (i > 1) i--; sc = (ld)x[j - 1] - x[i - 1]; } ld vs = (ld)(double)0.001f * sc; vs *= vs; if (per == 2 && (x[0] < 0 || x[n - 1] > 1)) per = 1;
    if (span > 0) { rsm(x, y, w, n, span, per, vs, out, 0); return; }
    static const float SPF[] = {.05f, .2f, .5f}; double SP[3]; for (int k = 0; k < 3; k++) SP[k] = SPF[k]; ld *S[3], *R[3], *tmp = malloc(sizeof(ld) * n), *acv = malloc(sizeof(ld) * n); double *d = malloc(sizeof(double) * n);
    for (int k = 0; k < 3; k++) { S[k] = malloc(sizeof(ld) * n); R[k] = malloc(sizeof(ld) * n); rsm(x, y, w, n, SP[k], per, vs, S[k], acv); for (int t = 0; t < n; t++) d[t] = (double)acv[t]; rsm(x, d, w, n, SP[1], per, vs, R[k], 0); }
    for (int t = 0; t < n; t++) { ld rm = 1e20L; double b = 0; for (int k = 0; k < 3; k++) if (R[k][t] < rm) { rm = R[k][t]; b = SP[k]; } if (alpha > 0 && alpha <= 10 && rm < R[2][t] && rm > 0) b += (SP[2] - b) * pow((double)fmaxl((double)1e-7f, rm / R[2][t]), 10 - alpha); d[t] = b; }
    rsm(x, d, w, n, SP[1], per, vs, tmp, 0); for (int t = 0; t < n; t++) { double s = (double)tmp[t]; if (s < SP[0]) s = SP[0]; if (s > SP[2]) s = SP[2]; double f = s - SP[1]; if (f < 0) { f = -f / (SP[1] - SP[0]); d[t] = (double)((1 - f) * S[1][t] + f * S[0][t]); } else { f /= SP[2] - SP[1]; d[t] = (double)((1 - f) * S[1][t] + f * S[2][t]); } }
    rsm(x, d, w, n, SP[0], per, vs, out, 0); for (int k = 0; k < 3; k++) { free(S[k]); free(R[k]); } free(tmp); free(acv); free(d); }
static void ss(const double *x, const double *y, const double *w, int n, int per, double span, double alpha, int exact) {
    double *X = cp(x, n), *Y = cp(y, n), *W = w ? cp(w, n) : NULL, *o = mc_buf(n), one[256]; for (int i = 0; i < n; i++) one[i] = 1; ld ref[256]; supsmu(X, n, Y, W, per, span, alpha, o); mc_ops(1); mc_bufcheck("bounds", o, n);
    rsupsmu(x, y, w ? w : one, n, per, span, alpha, ref); double my = 0; for (int i = 0; i < n; i++) my = fmax(my, fabs(y[i])); int tie = exact; /* span choice among (near-)equal residuals is decided by rounding when y is a straight line: compare with y itself there */
    for (int i = 0; i < n; i++) { double want = tie && per == 1 ? y[i] : (double)ref[i]; MC_CHECK(fabs(o[i] - want) <= 1e-7 * (1 + my), tie ? "super-smoother line" : "super-smoother", "n=%d periodic=%d span=%g alpha=%g%s: [%d] = %.10g want %.10g", n, per, span, alpha, w ? " weighted" : "", i, o[i], want); }
    MC_CHECK(!memcmp(X, x, sizeof(double) * n) && !memcmp(Y, y, sizeof(double) * n) && (!w || !memcmp(W, w, sizeof(double) * n)), "input", "input modified"); mc_state_d(o, n); free(X); free(Y); free(W); mc_buffree(o); }
static double shape(int f, int i, int n) { switch (f) { case 0: return sin(1.3 * i) + 0.1 * i; case 1: return 100 + (i * 37 % 11); case 2: return i % 4; case 3: return 1e4 * cos(0.2 * i * i); case 4: return i == n / 2; default: return 3 - 0.5 * i; } }
void mc_enumerate(void) {
    int T = mc_thorough; static const double V[] = {0, 1, 3, -2};
    for (int N = 1; N <= (T ? 5 : 4); N++) for (int L = 2; L <= 4; L++) if (mc_case("accuracy N=%d training=%d", N, L)) { int tot = 1; for (int i = 0; i < 2 * N; i++) tot *= N >= 4 ? 3 : 4; for (int c = 0; c < tot; c++) { double p[8], a[8]; int b = N >= 4 ? 3 : 4, k = c; for (int i = 0; i < N; i++, k /= b) p[i] = V[k % b]; for (int i = 0; i < N; i++, k /= b) a[i] = V[k % b]; double ts[4] = {V[c % 4], V[(c / 4) % 4], V[(c / 16) % 3], 5}; accuracy(p, a, N, ts, L); } }
    for (int N = 5; N <= 100; N += 19) if (mc_case("accuracy families N=%d", N)) for (int f = 0; f < 6; f++) for (int g = 0; g < 6; g++) for (int L = 2; L <= N; L += N / 5) { double p[100], a[100], ts[100]; for (int i = 0; i < N; i++) { p[i] = shape(f, i, N); a[i] = shape(g, i + 1, N); ts[i] = shape((f + g) % 6, i, N); } accuracy(p, a, N, ts, L); }
    for (int N = 1; N <= (T ? 26 : 18); N++) for (int w = 1; w <= N; w++) if (mc_case("moving averages N=%d window=%d", N, w)) { double x[32]; for (int k = 0; k < N; k++) { memset(x, 0, sizeof x); x[k] = 1; smoothers(x, N, w); } for (int f = 0; f < 6; f++) { for (int i = 0; i < N; i++) x[i] = shape(f, i, N); smoothers(x, N, w); for (int k = 0; k < w; k++) { double wt[32] = {0}; wt[k] = 1; weighted(x, N, wt, w); } double wt[32]; for (int k = 0; k < w; k++) wt[k] = (k + 1.0) / (w * (w + 1) / 2); weighted(x, N, wt, w); } }
    for (int s = 2; s <= 24; s++) for (int r = 2; r <= (T ? 9 : 5); r++) if (mc_case("deseasonalise s=%d cycles=%d", s, r)) for (int e = 0; e < s; e++) for (int f = 0; f < 6; f++) { int N = r * s + e; double x[400]; for (int i = 0; i < N; i++) x[i] = shape(f, i, N) + (i % s == 0); smoothers(x, N, s); }
    for (int N = 1; N <= 40; N += N < 10 ? 1 : 10) if (mc_case("exponential smoothing and sums N=%d", N)) { static const double AL[] = {0, 0.01, 0.25, 0.5, 0.9, 1}; double x[48]; for (int k = 0; k < N + 6; k++) { for (int i = 0; i < N; i++) x[i] = k < N ? i == k : shape(k - N, i, N); for (int a = 0; a < 6; a++) expo(x, N, AL[a]); sums(x, N); } for (int k = 0; k < 3; k++) { double *l = mc_buf(N); if (N > 1) { linspace(l, N, k - 1.5, 4 * k + 1); mc_ops(1); mc_bufcheck("bounds", l, N); for (int i = 0; i < N; i++) MC_CHECK(fabs(l[i] - (k - 1.5 + (3 * k + 2.5) * i / (N - 1))) < 1e-13 * 20, "linspace", "N=%d [%d] = %g", N, i, l[i]); } mc_buffree(l); } }
    for (int N = 1; N <= (T ? 7 : 6); N++) if (mc_case("interpolation knots=%d", N)) { int perm[8], c[8] = {0}; for (int i = 0; i < N; i++) perm[i] = i; static const double KX[] = {-2, -0.5, 0, 0.3, 4, 7, 20}; int i = 0, first = 1; do { if (!first) { if (c[i] < i) { int a = i % 2 ? c[i] : 0, t = perm[a]; perm[a] = perm[i]; perm[i] = t; c[i]++; i = 0; } else { c[i] = 0; i++; continue; } } first = 0; for (int f = 0; f < 4; f++) { double kx[8], ky[8]; int srt = 1; for (int k = 0; k < N; k++) { kx[k] = KX[perm[k]]; ky[k] = f == 0 ? k * k : f == 1 ? perm[k] : f == 2 ? cos(3.0 * perm[k]) : -perm[k] * 1e3; srt &= k == 0 || kx[k] > kx[k - 1]; } interp(kx, ky, N, srt); } } while (i < N); }
    static const int NS[] = {2, 3, 4, 5, 6, 7, 9, 12, 20, 41, 60, 100, 200};
    for (int n = 0; n < 13; n++) for (int xs = 0; xs < 4; xs++) if (mc_case("super-smoother N=%d abscissae=%d", NS[n], xs)) { int N = NS[n]; double x[256], y[256], w[256]; for (int i = 0; i < N; i++) { x[i] = xs == 0 ? i : xs == 1 ? (i + 0.5) / N : xs == 2 ? i / 2 : i + 0.3 * sin(i); w[i] = 0.5 + (i * 7 % 5); } static const double SPN[] = {0, 0.1, 0.2, 0.3, 0.5, 0.75, 1}, AL[] = {-1, 1, 5, 10};
        for (int f = 0; f < 8; f++) { for (int i = 0; i < N; i++) y[i] = f == 6 ? 5 : f == 7 ? 2 - 3 * x[i] : shape(f, i, N) + 0.7 * sin(5.1 * i); for (int s = 0; s < 7; s++) for (int a = 0; a < (s ? 1 : 4); a++) for (int we = 0; we < 2; we++) for (int per = 1; per <= 2; per++) { if (per == 2 && xs != 1) continue; int ibw = (int)(fmax(SPN[s], s ? 0 : 0.5) * 0.5 * N + 0.5); if (ibw < 2) ibw = 2; if (per == 2 && (2 * ibw + 1 > N || f == 7)) continue; ss(x, y, we ? w : NULL, N, per, SPN[s], AL[a], f >= 6 && s == 0); if (f == 7 && per == 1 && s && xs != 2) { double *o = mc_buf(N); supsmu(x, N, y, we ? w : NULL, 1, SPN[s], -1, o); for (int i = 0; i < N; i++) MC_CHECK(fabs(o[i] - y[i]) < 1e-8 * (1 + fabs(y[i])), "super-smoother line", "N=%d span=%g: [%d] = %g, line %g", N, SPN[s], i, o[i], y[i]); mc_buffree(o); } } } }
}
