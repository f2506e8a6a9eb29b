/* C16: convolution is exact in every mode and size */
#include "mc.h"
#include "conv.h"
const char *mc_property = "C16";
static void ref_full(const double *a, int N, const double *b, int L, double *o) {
    for (int k = 0; k < N + L - 1; k++) { long double s = 0; for (int i = 0; i < N; i++) if (k - i >= 0 && k - i < L) s += (long double)a[i] * b[k - i]; o[k] = (double)s; }
}
static void shape(int N, int k, double *x) { for (int i = 0; i < N; i++) x[i] = k == 0 ? ((i * 7 + 3) % 11) - 5 : k == 1 ? ((i * i + 2 * i) % 13) * 0.5 + 1 : (i == N - 1 ? 4 : -1); }
static void one(const double *a0, int N, const double *b0, int L, double *scr) {
    int M = N + L - 1, B = N > L ? N : L, S = N > L ? L : N; double *w = scr;
    double *a = mc_buf(N), *b = mc_buf(L); memcpy(a, a0, 8 * N); memcpy(b, b0, 8 * L);
    ref_full(a0, N, b0, L, w);
    double sc = 1e-300; for (int i = 0; i < N; i++) for (int j = 0; j < 1; j++) sc += fabs(a0[i]); { double t = 0; for (int i = 0; i < L; i++) t += fabs(b0[i]); sc *= t; }
    double tol = 1e-12 * sc + 1e-300;
    double *o = mc_buf(M);
    conv_direct(a, N, b, L, o); mc_vec("direct", o, w, M, tol, 0); mc_bufcheck("bounds", o, M); mc_state_d(o, M); mc_bufinit(o, M);
    conv_directx(a, N, b, L, o); mc_vec("directx", o, w, M, tol, 0); mc_bufcheck("bounds", o, M); mc_bufinit(o, M);
    conv_object c = conv_init(N, L);
    conv_fft(c, a, b, o); mc_vec("fft", o, w, M, 10 * tol, 0); mc_bufcheck("bounds", o, M); mc_bufinit(o, M);
    conv_fft(c, a, b, o); mc_vec("fft_reuse", o, w, M, 10 * tol, 0); free_conv(c); mc_buffree(o); mc_ops(4);
    static const char *T[] = {"full", "same", "valid"}, *Me[] = {"direct", "fft"};
    for (int t = 0; t < 3; t++) for (int m = 0; m < 2; m++) {
        int len = t == 0 ? M : t == 1 ? B : B - S + 1, st = t == 0 ? 0 : t == 1 ? (M - B) / 2 : S - 1;
        o = mc_buf(len); int r = convolve(T[t], Me[m], a, N, b, L, o); mc_ops(1);
        MC_CHECK(r == len, "length", "%s/%s returned length %d, expected %d", T[t], Me[m], r, len);
        char tag[32]; snprintf(tag, 32, "%s_%s", T[t], Me[m]); mc_vec(tag, o, w + st, len, 10 * tol, 0); mc_bufcheck("bounds", o, len); mc_buffree(o);
    }
    MC_CHECK(!memcmp(a, a0, 8 * N) && !memcmp(b, b0, 8 * L), "input", "input modified");
    mc_buffree(a); mc_buffree(b);
}
void mc_enumerate(void) {
    double *a = malloc(8 * 9000), *b = malloc(8 * 9000), *s = malloc(8 * 20000);
    int NI = mc_thorough ? 24 : 12, ND = mc_thorough ? 130 : 64;
    /* bilinear: every pair of unit impulses is a basis of the input space */
    for (int N = 1; N <= NI; N++) for (int L = 1; L <= NI; L++) if (mc_case("impulses N=%d L=%d", N, L))
        for (int i = 0; i < N; i++) for (int j = 0; j < L && mc_ok(); j++) { memset(a, 0, 8 * N); memset(b, 0, 8 * L); a[i] = 1; b[j] = 1; one(a, N, b, L, s); }
    for (int N = 1; N <= ND; N++) for (int L = 1; L <= ND; L++) if (mc_case("dense N=%d L=%d", N, L)) for (int k = 0; k < 3; k++) { shape(N, k, a); shape(L, (k + 1) % 3, b); one(a, N, b, L, s); }
    static const int big[] = {1, 2, 3, 7, 64, 127, 500, 1021, 2048};
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) if (mc_case("large N=%d L=%d", big[i], big[j])) { shape(big[i], 0, a); shape(big[j], 1, b); one(a, big[i], b, big[j], s); }
    /* length helpers: smallest admissible transform length >= n */
    if (mc_case("findnexte 1..5000")) for (int n = 1; n <= 5000; n++) {
        int m = n; for (;; m++) { if (m % 2) continue; int q = m; while (q % 2 == 0) q /= 2; while (q % 3 == 0) q /= 3; while (q % 5 == 0) q /= 5; while (q % 7 == 0) q /= 7; if (q == 1) break; }
        int g = findnexte(n); int q = g; MC_CHECK(g >= n && g % 2 == 0 && g == m, "findnexte", "n=%d gives %d, expected %d", n, g, m); mc_ops(1);
    }
}
