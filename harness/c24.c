/* C24: stationarity transforms, stationarity check, root reflection */
#include "mc.h"
#include "ref.h"
#include "talg.h"
#include "emle.h"
#include <complex.h>
typedef long double complex lc;
const char *mc_property = "C24";
static const double RAW[] = {-1.5, -0.4, 0, 0.7, 2.0};
/* reflection coefficients of phi (step-down); 0 if it fails */
static int refl(const double *phi, int p, ld *r) { ld c[16], t[16]; for (int i = 0; i < p; i++) c[i] = phi[i]; for (int k = p; k > 0; k--) { r[k - 1] = c[k - 1]; if (!(fabsl(r[k - 1]) < 1)) return 0; for (int i = 0; i < k - 1; i++) t[i] = (c[i] + r[k - 1] * c[k - 2 - i]) / (1 - r[k - 1] * r[k - 1]); memcpy(c, t, sizeof(ld) * (k - 1)); } return 1; }
static void trans(const double *raw, int p) {
    double in[8], *o = mc_buf(p), *b = mc_buf(p); memcpy(in, raw, sizeof(double) * p); artrans(p, in, o); mc_ops(1); mc_bufcheck("bounds", o, p); MC_CHECK(!memcmp(in, raw, sizeof(double) * p), "input", "artrans modified its input");
    ld r[8]; int st = refl(o, p, r); MC_CHECK(st, "stationary", "p=%d: transformed coefficients not stationary", p);
    ld cond = 1; for (int i = 0; i < p; i++) cond *= 2 / (1 - tanhl(raw[i]) * tanhl(raw[i])); ld tol = fmaxl(1e-9L, 1e-15L * cond);
    if (st) for (int i = 0; i < p; i++) MC_CHECK(fabsl(r[i] - tanhl(raw[i])) < tol, "artrans", "p=%d raw %g: partial autocorrelation %d is %Lg want %Lg", p, raw[i], i, r[i], tanhl(raw[i]));
    arinvtrans(p, o, b); mc_ops(1); mc_bufcheck("bounds", b, p); mc_vec("inverse", b, raw, p, 1e-7, 1e-7);
    /* Jacobian block */
    mc_state_d(o, p); mc_buffree(o); mc_buffree(b);
}
static void blocks(int p, int q, int P, int Q, int M, int ph) {
    int n = p + q + P + Q; double raw[24], want[24], wi[24]; for (int i = 0; i < n; i++) raw[i] = RAW[(i * 3 + ph) % 5] * 0.8 + 0.05 * i;
    int L[4] = {p, q, P, Q}, o = 0; for (int b = 0; b < 4; b++) { if (L[b]) { artrans(L[b], raw + o, want + o); arinvtrans(L[b], want + o, wi + o); } o += L[b]; }
    double *out = mc_buf(n + 1), *inv = mc_buf(n + 1); transall(p, q, P, Q, raw, out); mc_ops(1); mc_vec("transall", out, want, n, 1e-15, 1e-15); MC_CHECK(mc_unwritten(out[n]), "transall", "wrote past the blocks");
    invtransall(p, q, P, Q, out, inv); mc_ops(1); mc_vec("invtransall", inv, raw, n, 1e-7, 1e-7); MC_CHECK(mc_unwritten(inv[n]), "invtransall", "wrote past the blocks");
    mc_bufcheck("bounds", out, n + 1); mc_bufcheck("bounds", inv, n + 1);
    int N = n + M; double *A = mc_buf(N * N); gradtrans(raw, p, q, P, Q, M, A); mc_ops(1); mc_bufcheck("bounds", A, N * N);
    /* numerical Jacobian of transall, identity for the M regression terms; A[row*N+col]: row = output, col = input */
    for (int c = 0; c < N; c++) for (int r = 0; r < N; r++) {
        double w; if (c >= n || r >= n) w = c == r; else { double t[24], u1[24], u2[24], h = 1e-5; memcpy(t, raw, sizeof t); t[c] = raw[c] + h; int oo = 0; for (int b = 0; b < 4; b++) { if (L[b]) artrans(L[b], t + oo, u1 + oo); oo += L[b]; } t[c] = raw[c] - h; oo = 0; for (int b = 0; b < 4; b++) { if (L[b]) artrans(L[b], t + oo, u2 + oo); oo += L[b]; } w = (u1[r] - u2[r]) / (2 * h); }
        MC_CHECK(fabs(A[r * N + c] - w) < 5e-3, "gradtrans", "(%d,%d,%d,%d)+%d: Jacobian[%d][%d] = %g, finite difference %g", p, q, P, Q, M, r, c, A[r * N + c], w);
    }
    if (n) mc_state_d(out, n); mc_buffree(out); mc_buffree(inv); mc_buffree(A);
}
/* polynomial 1 + sum c_i z^i with given roots */
static void from_roots(const lc *r, int n, double *c) { lc a[16] = {1}; for (int k = 0; k < n; k++) { a[k + 1] = 0; for (int i = k + 1; i >= 1; i--) a[i] = a[i] - a[i - 1] / r[k]; } for (int i = 1; i <= n; i++) c[i - 1] = creall(a[i]); }
static void macov(const double *ma, int q, ld *g) { ld c[16] = {1}; for (int i = 0; i < q; i++) c[i + 1] = ma[i]; for (int k = 0; k <= q; k++) { g[k] = 0; for (int i = 0; i + k <= q; i++) g[k] += c[i] * c[i + k]; } }
static void roots(const lc *r, int n, int pad, int inside) {
    double c[16] = {0}, ar[16], ma[16], cc[16]; from_roots(r, n, c); int q = n + pad;
    for (int i = 0; i < q; i++) { ar[i] = i < n ? -c[i] : 0; ma[i] = i < n ? c[i] : 0; }
    double *g = mc_buf(q); memcpy(g, ar, sizeof(double) * q); int a = archeck(q, g); mc_ops(1); MC_CHECK(!memcmp(g, ar, sizeof(double) * q), "input", "archeck modified its input"); mc_buffree(g);
    MC_CHECK(!!a == !inside, "archeck", "degree %d+%d with %d roots inside the unit circle: check returned %d", n, pad, inside, a);
    g = mc_buf(q); memcpy(g, ma, sizeof(double) * q); int ch = invertroot(q, g); mc_ops(1); mc_bufcheck("bounds", g, q);
    MC_CHECK(!!ch == !!inside, "invertroot flag", "degree %d+%d with %d roots inside: returned %d", n, pad, inside, ch);
    if (!inside) MC_CHECK(!memcmp(g, ma, sizeof(double) * q), "invertroot identity", "invertible polynomial was changed");
    ld neg[16]; for (int i = 0; i < q; i++) neg[i] = -g[i]; MC_CHECK(ref_stationary(neg, q), "invertible", "degree %d+%d: result still has a root inside the unit circle", n, pad);
    ld g0[17], g1[17]; macov(ma, q, g0); macov(g, q, g1); for (int k = 1; k <= q; k++) MC_CHECK(fabsl(g0[k] / g0[0] - g1[k] / g1[0]) < 1e-6L, "autocorrelation", "degree %d+%d: autocorrelation %d changed from %Lg to %Lg", n, pad, k, g0[k] / g0[0], g1[k] / g1[0]);
    mc_state_d(g, q); mc_buffree(g);
    if (!inside) { double phi[16], th[16]; memcpy(phi, ar, sizeof phi); memcpy(th, ma, sizeof th); int p1 = q, q1 = q, P1 = 0, Q1 = 0; checkroots(phi, &p1, th, &q1, phi, &P1, th, &Q1); MC_CHECK(!memcmp(phi, ar, sizeof(double) * q) && !memcmp(th, ma, sizeof(double) * q), "checkroots", "admissible model changed"); }
}
void mc_enumerate(void) {
    int T = mc_thorough;
    for (int p = 1; p <= (T ? 6 : 5); p++) { int tot = 1; for (int i = 1; i < p; i++) tot *= 5; for (int f = 0; f < 5; f++) if (mc_case("trans p=%d first=%d", p, f)) for (int k = 0; k < tot; k++) { double raw[8]; raw[0] = RAW[f]; for (int i = 1, c = k; i < p; i++, c /= 5) raw[i] = RAW[c % 5]; trans(raw, p); } }
    for (int p = 0; p <= 3; p++) for (int q = 0; q <= 3; q++) for (int P = 0; P <= 2; P++) for (int Q = 0; Q <= 2; Q++) for (int M = 0; M <= 2; M++) if (p + q + P + Q + M && mc_case("blocks %d %d %d %d M%d", p, q, P, Q, M)) for (int ph = 0; ph < 5; ph++) blocks(p, q, P, Q, M, ph);
    /* roots: real (+-m) or conjugate pairs, m inside or outside */
    static const double MO[] = {0.5, 0.9, 0.97, 0.993, 1.007, 1.03, 1.25, 3}; int nr = 16, np = T ? 24 : 16; /* 16 real roots, pairs at 2-3 angles */
    for (int a = 0; a < nr + np; a++) for (int pad = 0; pad < 3; pad++) if (mc_case("roots first=%d pad=%d", a, pad)) for (int b = -1; b < nr + np; b++) for (int c = -1; c < (b < 0 ? 0 : nr + np); c++) {
        int id[3] = {a, b, c}; lc r[8]; int n = 0, in = 0, mult = 0; for (int k = 0; k < 3; k++) if (id[k] >= 0) { int x = id[k]; for (int j = 0; j < k; j++) if (id[j] == x) mult++;
            if (x < nr) { ld m = MO[x / 2]; r[n++] = x % 2 ? -m : m; in += m < 1; } else { x -= nr; ld m = MO[x % 8], an = x / 8 == 0 ? 0.6L : x / 8 == 1 ? 2.1L : 1.5707963267948966L; r[n++] = m * cexpl(I * an); r[n++] = m * cexpl(-I * an); in += 2 * (m < 1); } }
        if (b < 0 && c >= 0) continue; if (n > 6) continue; (void)mult; roots(r, n, pad, in);
    }
    for (int q = 1; q <= 4; q++) if (mc_case("zero q=%d", q)) { double z[4] = {0, 0, 0, 0}; MC_CHECK(invertroot(q, z) == 0, "zero", "all-zero MA reported as changed"); MC_CHECK(archeck(q, z) == 1, "zero", "all-zero AR rejected"); mc_ops(2); mc_state(q); }
    /* seasonal and non-seasonal blocks handled independently by checkroots */
    for (int a = 0; a < 16; a++) if (mc_case("checkroots mask=%d", a)) { int p = 2, q = 2, P = 1, Q = 1; double phi[2] = {0.5, 0.2}, th[2] = {a & 1 ? 3.0 : 0.3, 0.1}, PH[1] = {0.4}, TH[1] = {a & 2 ? 2.0 : 0.5}; if (a & 4) p = 0; if (a & 8) P = 0; double t0[2] = {th[0], th[1]}, T0 = TH[0]; invertroot(2, t0); invertroot(1, &T0); 
        checkroots(phi, &p, th, &q, PH, &P, TH, &Q); mc_ops(1); MC_CHECK(th[0] == t0[0] && th[1] == t0[1] && TH[0] == T0 && phi[0] == 0.5 && PH[0] == 0.4, "checkroots", "blocks mixed up"); mc_state_d(th, 2); }
}
