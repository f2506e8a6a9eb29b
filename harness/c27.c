/* C27: Box-Cox transforms, inverse, automatic lambda */
#include "mc.h"
#include "ref.h"
#include <unistd.h>
#include <sys/wait.h>
#include "boxcox.h"
const char *mc_property = "C27";
static ld tr(ld x, ld l) { if (l == 0) return logl(x); return expm1l(l * logl(x)) / l; }
static void eval(const double *x, int N, double l) {
    double *X = malloc(sizeof(double) * N), *y = mc_buf(N), *z = mc_buf(N), *y2 = mc_buf(N); memcpy(X, x, sizeof(double) * N); double tiny = 1e-18;
    boxcox_eval(X, N, l, y); mc_ops(1); mc_bufcheck("bounds", y, N); MC_CHECK(!memcmp(X, x, sizeof(double) * N), "input", "input modified");
    for (int i = 0; i < N; i++) { ld w = tr(x[i], fabs(l) < tiny ? 0 : l); MC_CHECK(x[i] == 0 && l <= 0 ? isinf(y[i]) && y[i] < 0 : mc_close(y[i], (double)w, 1e-15, 1e-12), "transform", "x=%g lambda=%g: %.15g want %.15Lg", x[i], l, y[i], w); }
    inv_boxcox_eval(y, N, l, z); mc_ops(1); mc_bufcheck("bounds", z, N);
    for (int i = 0; i < N; i++) { if (x[i] == 0) { MC_CHECK(fabs(z[i]) < 1e-30 || (l > 0 && fabs(z[i]) < pow(1e-15, 1 / l)), "inverse", "x=0 lambda=%g: back to %g", l, z[i]); continue; } ld u = 1 + l * (ld)y[i]; /* conditioning of the inverse in y */ double cond = fabs(l) < tiny ? 1 + fabs(y[i]) : fabs(y[i]) / fabs((double)u) + 1; if (l && cond > 1e10) continue; /* the power underflows against 1/lambda */ MC_CHECK(mc_close(z[i], x[i], 1e-300, 4e-15 * cond + 1e-13), "inverse", "x=%.15g lambda=%g: transformed %.15g, back to %.15g", x[i], l, y[i], z[i]); }
    int cst = 1; for (int i = 1; i < N; i++) if (x[i] != x[0]) cst = 0; if (!cst) { double lm = l, r; r = boxcox(X, N, &lm, y2); mc_ops(1); mc_bufcheck("bounds", y2, N); MC_CHECK(r == l && lm == l, "given lambda", "lambda %g, returned %g", l, r); for (int i = 0; i < N; i++) MC_CHECK(y2[i] == y[i], "given lambda", "boxcox and boxcox_eval differ at x=%g: %g %g", x[i], y2[i], y[i]); MC_CHECK(!memcmp(X, x, sizeof(double) * N), "input", "input modified"); }
    mc_state_d(y, N); free(X); mc_buffree(y); mc_buffree(z); mc_buffree(y2); }
/* profile log-likelihood, from the definition on a geometric-mean scaled series */
static ld pw(ld x, ld l) { return fabsl(l) > 0.05L ? powl(x, l) / l : tr(x, l); }
static ld prof(const double *x, int N, ld l) { ld sl = 0, m = 0, v = 0; for (int i = 0; i < N; i++) sl += logl(x[i]); for (int i = 0; i < N; i++) m += pw(x[i], l) / N; for (int i = 0; i < N; i++) { ld d = pw(x[i], l) - m; v += d * d; } return (l - 1) * sl - N / 2.0L * logl(v / N); }
static void aut(const double *x, int N) {
    double *X = malloc(sizeof(double) * N), *y = mc_buf(N), *w = mc_buf(N), P[260]; memcpy(X, x, sizeof(double) * N); double l = boxcox(X, N, NULL, y); mc_ops(1); mc_bufcheck("bounds", y, N); MC_CHECK(!memcmp(X, x, sizeof(double) * N), "input", "input modified"); MC_CHECK(l >= -2 && l <= 2, "interval", "lambda %g outside [-2,2]", l); if (!(l >= -2 && l <= 2)) return; boxcox_eval(X, N, l, w); for (int i = 0; i < N; i++) MC_CHECK(y[i] == w[i], "output", "result is not the transform at the returned lambda %g", l);
    P[0] = N; memcpy(P + 1, x, sizeof(double) * N); for (int k = -8; k <= 8; k++) { double g = -boxcox_loglik(k / 4.0, P); mc_ops(1); ld r = prof(x, N, k / 4.0L); MC_CHECK(fabs(g - (double)r) <= 1e-8 * (1 + fabsl(r)), "profile likelihood", "lambda=%g: %.10g want %.10Lg", k / 4.0, g, r); }
    /* grid maximum; global optimality is promised for a unimodal profile */
    enum { G = 320 }; ld v[G + 1], best = -INFINITY; for (int i = 0; i <= G; i++) { v[i] = prof(x, N, -2 + 4.0L * i / G); if (v[i] > best) best = v[i]; } int turns = 0, dir = 0; for (int i = 1; i <= G; i++) { int d = v[i] > v[i - 1] + 1e-9L ? 1 : v[i] < v[i - 1] - 1e-9L ? -1 : 0; if (d && d != dir) { if (d == 1 && dir == -1) turns++; dir = d; } }
    ld f = prof(x, N, l); double tol = 1e-6 * (1 + 1e-3 * (double)fabsl(best)) + 1e-4 * 0; mc_max("shortfall from the grid maximum", (double)(best - f)); if (!turns) { MC_CHECK(best - f <= tol, "lambda", "N=%d: lambda %.8g has profile likelihood %.12Lg, grid maximum %.12Lg", N, l, f, best); mc_count("unimodal profiles", 1); } else mc_count("multimodal profiles", 1);
    for (int s = -1; s <= 1; s += 2) { double q = l + s * 1e-3; if (q < -2 || q > 2) continue; MC_CHECK(prof(x, N, q) - f <= tol, "lambda", "N=%d: lambda %.8g improved by moving to %.8g (%.12Lg > %.12Lg)", N, l, q, prof(x, N, q), f); }
    mc_state_d(&l, 1); free(X); mc_buffree(y); mc_buffree(w); }
static int rejects(const double *x, int N, const double *lam) { fflush(0); pid_t p = fork(); if (!p) { double *y = malloc(sizeof(double) * N), l = lam ? *lam : 0; boxcox((double *)x, N, lam ? &l : NULL, y); _exit(0); } int st = 0; waitpid(p, &st, 0); mc_ops(1); return WIFEXITED(st) && WEXITSTATUS(st) == 255; }
static double shape(int f, int i, int N) { switch (f) { case 0: return exp(0.1 * i) + 0.01 * (i % 5); case 1: return 100 + (i * 37 % 11); case 2: return pow(1 + i % 13, 2); case 3: return 1e-3 + fabs(sin(i * i * 1.0)); case 4: return 1e6 * (1 + 0.3 * cos(i)); case 5: return 1 / (1.0 + i % 7); case 6: return sqrt(1.0 + i); default: return 5 + (i == 0); } }
void mc_enumerate(void) {
    int T = mc_thorough; static const double LM[] = {-2, -1.5, -1, -0.5, -0.25, -0.01, -1e-6, -1e-12, 0, 1e-300, 1e-20, 1e-16, 1e-12, 1e-6, 0.01, 1.0 / 3, 0.5, 1, 1.5, 2, 3, 5};
    for (int k = 0; k < 22; k++) if (mc_case("transform lambda=%g", LM[k])) { double l = LM[k]; static const double XV[] = {1e-8, 1e-3, 0.2, 0.5, 0.999999, 1, 1.000001, 1.5, 2, 7, 100, 1e4, 1e8}; for (int i = 0; i < 13; i++) for (int j = 0; j < 13; j++) { double x[3] = {XV[i], XV[j], XV[(i + j) % 13]}; eval(x, 3, l); eval(x, 1, l); } if (l > 0.05) { double x[2] = {0, 2}; eval(x, 2, l); } for (int f = 0; f < 8; f++) for (int N = 2; N <= 100; N += 7) { double x[128]; for (int i = 0; i < N; i++) x[i] = shape(f, i, N); eval(x, N, l); } }
    /* every short positive series over four values */
    for (int N = 2; N <= (T ? 7 : 6); N++) if (mc_case("automatic lambda N=%d", N)) { static const double V[] = {1, 2, 5, 0.3}; int tot = 1; for (int i = 0; i < N; i++) tot *= 4; for (int c = 0; c < tot; c++) { double x[8]; int q = c, cst = 1; for (int i = 0; i < N; i++, q /= 4) { x[i] = V[q % 4]; if (x[i] != x[0]) cst = 0; } if (!cst) aut(x, N); } }
    for (int f = 0; f < 8; f++) if (mc_case("automatic lambda family %d", f)) for (int N = 3; N <= (T ? 240 : 120); N = N < 12 ? N + 1 : N * 3 / 2) for (int s = 0; s < 4; s++) { double x[256]; for (int i = 0; i < N; i++) x[i] = shape(f, i, N) * (s == 0 ? 1 : s == 1 ? 1e-3 : s == 2 ? 50 : 1) + (s == 3 ? 10 : 0); aut(x, N); }
    /* constancy test: every series over {1,2} */
    for (int N = 1; N <= 12; N++) if (mc_case("constant test N=%d", N)) for (int c = 0; c < 1 << N; c++) { double x[12]; for (int i = 0; i < N; i++) x[i] = 1 + (c >> i & 1) * 1e-9; int want = c == 0 || c == (1 << N) - 1; int g = checkConstant(x, N); mc_ops(1); MC_CHECK(g == want, "constant test", "N=%d pattern %d: reported %s", N, c, g ? "constant" : "varying"); mc_state(mc_hash(g, &c, sizeof c)); }
    /* rejection, every position of the offending value */
    for (int N = 2; N <= 6; N++) if (mc_case("rejection N=%d", N)) for (int m = 0; m < 3; m++) { double lm[] = {0, 0, 0.5}; double x[8]; for (int i = 0; i < N; i++) x[i] = 3; MC_CHECK(rejects(x, N, m ? &lm[m] : NULL), "constant series", "N=%d: constant series accepted", N); for (int p = 0; p < N; p++) { for (int i = 0; i < N; i++) x[i] = 1 + i; x[p] = -0.5; MC_CHECK(rejects(x, N, m ? &lm[m] : NULL), "negative data", "N=%d: negative value at %d accepted", N, p); x[p] = 2.5; MC_CHECK(!rejects(x, N, m ? &lm[m] : NULL), "positive data", "N=%d: admissible series rejected", N); mc_state(mc_hash(N, &p, sizeof p)); } }
}
