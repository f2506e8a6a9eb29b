/* C12: differencing and polynomial utilities are exact */
#include "mc.h"
#include "talg.h"
const char *mc_property = "C12";

/* reference: repeated lag subtraction, in exact (integer-valued) double arithmetic */
static int ref_diff(const double *x, int n, int lag, int times, double *o) {
    double *t = malloc(sizeof(double) * (n + 1)); memcpy(t, x, sizeof(double) * n);
    for (int k = 0; k < times; k++) { for (int i = lag; i < n; i++) o[i - lag] = t[i] - t[i - lag]; n -= lag; memcpy(t, o, sizeof(double) * n); }
    if (times == 0) memcpy(o, x, sizeof(double) * n);
    free(t); return n;
}
static void ref_poly(const double *a, int la, const double *b, int lb, double *c) {
    for (int k = 0; k < la + lb - 1; k++) { c[k] = 0; for (int i = 0; i < la; i++) if (k - i >= 0 && k - i < lb) c[k] += a[i] * b[k - i]; }
}
/* k-th input of the alphabet for length n: unit impulses, then integer-valued shapes */
static int nseries(int n) { return n + 4; }
static void series(int n, int k, double *x) {
    for (int i = 0; i < n; i++) {
        if (k < n) x[i] = i == k;
        else if (k == n) x[i] = 3;
        else if (k == n + 1) x[i] = (i * i * 7 + i * 3) % 23 - 11;
        else if (k == n + 2) x[i] = (double)i * i * i - 20 * i;
        else x[i] = ((i * 2654435761u) >> 7) % 4097 * 1.0 - 2048;
    }
}
void mc_enumerate(void) {
    int NMAX = mc_thorough ? 72 : 40, DMAX = mc_thorough ? 8 : 6, SMAX = mc_thorough ? 26 : 14;
    double x[200], xc[200], w[400], w2[400];
    for (int n = 1; n <= NMAX; n++) for (int d = 0; d <= DMAX && d < n; d++) if (mc_case("diff n=%d d=%d", n, d)) {
        for (int k = 0; k < nseries(n) && mc_ok(); k++) {
            series(n, k, x); memcpy(xc, x, sizeof x);
            double *o = mc_buf(n - d);   /* documented output length N-d */
            int m = ref_diff(x, n, 1, d, w), r;
            r = diff(x, n, d, o);
            MC_CHECK(r == m, "length", "returned %d, expected %d", r, m);
            mc_vec("value", o, w, m, 0, 0); mc_bufcheck("bounds", o, n - d);
            MC_CHECK(!memcmp(x, xc, sizeof x), "input", "input modified");
            mc_state_d(o, m); mc_ops(1); mc_buffree(o);
        }
    }
    for (int s = 1; s <= SMAX; s++) for (int D = 0; D <= (mc_thorough ? 5 : 4); D++) for (int n = s * D + 1; n <= s * D + (mc_thorough ? 2 * s + 6 : s + 5) && n < 180; n++)
        if (mc_case("diffs n=%d D=%d s=%d", n, D, s)) {
            for (int k = 0; k < nseries(n) && mc_ok(); k++) {
                series(n, k, x); memcpy(xc, x, sizeof x);
                double *o = mc_buf(n - s * D);
                int m = ref_diff(x, n, s, D, w), r = diffs(x, n, D, s, o);
                MC_CHECK(r == m, "length", "returned %d, expected %d", r, m);
                mc_vec("value", o, w, m, 0, 0); mc_bufcheck("bounds", o, n - s * D);
                MC_CHECK(!memcmp(x, xc, sizeof x), "input", "input modified");
                mc_state_d(o, m); mc_ops(1); mc_buffree(o);
            }
        }
    /* polynomials (1-B)^d, (1-B^s)^D: coefficients by repeated multiplication */
    for (int d = 0; d <= 14; d++) if (mc_case("deld d=%d", d)) {
        double f[2] = {1, -1}, t[64]; w[0] = 1; int l = 1;
        for (int k = 0; k < d; k++) { ref_poly(w, l, f, 2, t); l++; memcpy(w, t, sizeof(double) * l); }
        double *o = mc_buf(d + 1); deld(d, o); mc_vec("value", o, w, d + 1, 0, 0); mc_bufcheck("bounds", o, d + 1); mc_state_d(o, d + 1); mc_ops(1); mc_buffree(o);
    }
    for (int s = 1; s <= 26; s++) for (int D = 0; D <= 5; D++) if (mc_case("delds D=%d s=%d", D, s)) {
        double f[40] = {0}, t[300]; f[0] = 1; f[s] -= 1; w[0] = 1; int l = 1;
        for (int k = 0; k < D; k++) { ref_poly(w, l, f, s + 1, t); l += s; memcpy(w, t, sizeof(double) * l); }
        double *o = mc_buf(D * s + 1); delds(D, s, o); mc_vec("value", o, w, D * s + 1, 0, 0); mc_bufcheck("bounds", o, D * s + 1); mc_state_d(o, D * s + 1); mc_ops(1); mc_buffree(o);
    }
    /* differencing == filtering with the expanded polynomial, both orders of application */
    for (int s = 2; s <= (mc_thorough ? 13 : 7); s++) for (int d = 0; d <= 3; d++) for (int D = 0; D <= 2; D++) if (mc_case("compose d=%d D=%d s=%d", d, D, s)) {
        int n = d + s * D + 9; double pd[20], ps[200], pf[220], a[200], b[200], c[200], e[200];
        deld(d, pd); delds(D, s, ps); poly(pd, ps, pf, d + 1, D * s + 1);
        for (int k = 0; k < nseries(n) && mc_ok(); k++) {
            series(n, k, x);
            int l = diff(x, n, d, a), m = diffs(a, l, D, s, b), l2 = diffs(x, n, D, s, c), m2 = diff(c, l2, d, e);
            MC_CHECK(m == m2 && m == n - d - s * D, "length", "lengths %d %d", m, m2);
            for (int t = 0; t < m; t++) { w[t] = 0; for (int j = 0; j <= d + s * D; j++) w[t] += pf[j] * x[t + d + s * D - j]; }
            mc_vec("filter", b, w, m, 0, 0); mc_vec("commute", e, w, m, 0, 0); mc_state_d(b, m); mc_ops(4);
        }
    }
    /* polynomial product, all length pairs, bilinear basis plus dense integer inputs */
    int PM = mc_thorough ? 20 : 12;
    for (int la = 1; la <= PM; la++) for (int lb = 1; lb <= PM; lb++) if (mc_case("poly la=%d lb=%d", la, lb)) {
        double a[32], b[32];
        for (int i = 0; i <= la && mc_ok(); i++) for (int j = 0; j <= lb && mc_ok(); j++) {
            for (int k = 0; k < la; k++) a[k] = i == la ? k * 3 % 7 - 3 : k == i;
            for (int k = 0; k < lb; k++) b[k] = j == lb ? k * 5 % 11 - 4 : k == j;
            double *o = mc_buf(la + lb - 1); ref_poly(a, la, b, lb, w);
            int r = poly(a, b, o, la, lb);
            MC_CHECK(r == la + lb - 1, "length", "returned %d, expected %d", r, la + lb - 1);
            mc_vec("value", o, w, la + lb - 1, 0, 0); mc_bufcheck("bounds", o, la + lb - 1); mc_state_d(o, la + lb - 1); mc_ops(1); mc_buffree(o);
        }
    }
    for (int n = 1; n <= NMAX; n++) for (int M = 1; M <= 8; M++) if (mc_case("sample n=%d M=%d", n, M)) {
        for (int k = 0; k < nseries(n) && mc_ok(); k++) {
            series(n, k, x);
            int lu = M * (n - 1) + 1, ld = (n - 1) / M + 1, r;
            for (int i = 0; i < lu; i++) w[i % 400] = 0;
            double *o = mc_buf(lu), *o2 = mc_buf(ld); double *W = calloc(lu, sizeof(double));
            for (int i = 0; i < n; i++) W[i * M] = x[i];
            r = upsample(x, n, M, o); MC_CHECK(r == lu, "uplength", "returned %d, expected %d", r, lu);
            mc_vec("up", o, W, lu, 0, 0); mc_bufcheck("bounds", o, lu);
            for (int i = 0; i < ld; i++) w2[i] = x[i * M];
            r = downsample(x, n, M, o2); MC_CHECK(r == ld, "downlength", "returned %d, expected %d", r, ld);
            mc_vec("down", o2, w2, ld, 0, 0); mc_bufcheck("bounds", o2, ld); mc_state_d(o2, ld);
            mc_ops(2); mc_buffree(o); mc_buffree(o2); free(W);
        }
    }
    for (int n = 1; n <= NMAX; n++) if (mc_case("cumsum n=%d", n)) for (int k = 0; k < nseries(n) && mc_ok(); k++) {
        series(n, k, x); double *o = mc_buf(n); double s = 0; for (int i = 0; i < n; i++) w[i] = s += x[i];
        cumsum(x, n, o); mc_vec("value", o, w, n, 0, 0); mc_bufcheck("bounds", o, n); mc_state_d(o, n); mc_ops(1); mc_buffree(o);
    }
}
