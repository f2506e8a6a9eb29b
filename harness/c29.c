/* C29: periodogram, power spectral density, centre shift */
#include "mc.h"
#include "ref.h"
#include "spectrum.h"
const char *mc_property = "C29";
static const ld TWOPI = 6.283185307179586476925286766559L;
static void dft2(const ld *x, int n, int N, ld *P) { for (int k = 0; k < N; k++) { ld re = 0, im = 0; for (int t = 0; t < n; t++) { ld a = TWOPI * (ld)((long)k * t % N) / N; re += x[t] * cosl(a); im -= x[t] * sinl(a); } P[k] = re * re + im * im; } }
static void cmp(const char *tag, const double *s, const double *f, const ld *P, int N, int side, ld norm, double sc, const char *what) {
    int nb = side == 2 ? N : N / 2 + 1; mc_bufcheck("bounds", s, nb); mc_bufcheck("bounds", f, nb);
    for (int k = 0; k < nb; k++) { ld w = P[k] / norm; if (side == 1 && k && 2 * k != N) w *= 2; MC_CHECK(fabs(s[k] - (double)w) <= 1e-12 * sc + 1e-11 * fabsl(w), tag, "%s N=%d side=%d: [%d] = %.12g, |DFT|^2/norm %.12Lg", what, N, side, k, s[k], w); int kk = 2 * k <= N ? k : k - N; MC_CHECK(fabs(f[k] - (double)(TWOPI * kk / N)) <= 1e-14, "frequency", "%s N=%d side=%d: freq[%d] = %.15g want %.15Lg", what, N, side, k, f[k], TWOPI * kk / N); }
    mc_state_d(s, nb); }
static void run(const double *x, int N, int Nf, spectrum_fft_object o, auto_fft_object ao) {
    ld X[512], P[600], Q[600], C[512], R[600]; double e2 = 0, *xx = malloc(sizeof(double) * N); memcpy(xx, x, sizeof(double) * N); ld m = 0; for (int i = 0; i < N; i++) { X[i] = x[i]; e2 += x[i] * x[i]; m += X[i] / N; } dft2(X, N, N, P); dft2(X, N, Nf, Q); for (int l = 0; l < N; l++) { C[l] = 0; for (int t = 0; t + l < N; t++) C[l] += (X[t] - m) * (X[t + l] - m); C[l] /= N; } dft2(C, N, Nf, R);
    for (int side = 2; side >= 1; side--) {
        double *s = mc_buf(side == 2 ? N : N / 2 + 1), *f = mc_buf(side == 2 ? N : N / 2 + 1); periodogram(o, xx, s, f, side); mc_ops(1); cmp("periodogram", s, f, P, N, side, N, e2, "periodogram"); ld tot = 0; int nb = side == 2 ? N : N / 2 + 1; for (int k = 0; k < nb; k++) tot += s[k]; MC_CHECK(fabs((double)tot - e2) <= 1e-11 * e2 + 1e-300, "Parseval", "N=%d side=%d: periodogram sums to %.12Lg, energy %.12g", N, side, tot, e2);
        if (side == 2) { double *g = mc_buf(N), *h = mc_buf(N); for (int i = 0; i < N; i++) { g[i] = s[i]; h[i] = f[i]; } spectrum_shift(g, N); spectrum_shift(h, N); mc_bufcheck("bounds", g, N); for (int i = 0; i + 1 < N; i++) MC_CHECK(h[i] < h[i + 1], "shift", "N=%d: shifted frequencies not increasing at %d: %g, %g", N, i, h[i], h[i + 1]); for (int i = 0; i < N; i++) { int hit = 0; for (int k = 0; k < N; k++) if (f[k] == h[i]) { hit = 1; MC_CHECK(g[i] == s[k], "shift", "N=%d: spectrum and frequency shifted differently", N); } MC_CHECK(hit, "shift", "N=%d: frequency %g not among the inputs", N, h[i]); } mc_ops(2); mc_buffree(g); mc_buffree(h); }
        mc_buffree(s); mc_buffree(f);
        s = mc_buf(side == 2 ? Nf : Nf / 2 + 1); f = mc_buf(side == 2 ? Nf : Nf / 2 + 1); psd(o, xx, s, f, side); mc_ops(1); cmp("psd", s, f, Q, Nf, side, TWOPI * N, e2, "psd"); mc_buffree(s); mc_buffree(f); }
    double *s = mc_buf(Nf / 2 + 1), *f = mc_buf(Nf / 2 + 1); psd_autocovar(ao, xx, s, f, Nf, 1); mc_ops(1); mc_bufcheck("bounds", s, Nf / 2 + 1); mc_bufcheck("bounds", f, Nf / 2 + 1); double sc = (double)(C[0] * C[0]) * N + 1e-300 + 1e-3 * (double)(m * m) * (double)C[0] + 1e-10 * (double)(m * m * m * m); for (int k = 0; k <= Nf / 2; k++) { ld w = R[k] / (TWOPI * N); MC_CHECK(fabs(s[k] - (double)w) <= 1e-11 * sc, "psd of autocovariances", "N=%d Nfft=%d: [%d] = %.12g want %.12Lg", N, Nf, k, s[k], w); MC_CHECK(fabs(f[k] - (double)(TWOPI * k / Nf)) < 1e-14, "frequency", "freq[%d] = %g", k, f[k]); } mc_state_d(s, Nf / 2 + 1); mc_buffree(s); mc_buffree(f);
    MC_CHECK(!memcmp(xx, x, sizeof(double) * N), "input", "input modified"); free(xx); }
static double shape(int f, int i) { switch (f) { case 0: return sin(1.3 * i) + 0.1 * i; case 1: return 100 + (i * 37 % 11); case 2: return i % 2 ? -1 : 1; case 3: return 1e4 * cos(0.2 * i * i); case 4: return 7; case 5: return 1e-6 * (i % 3); default: return 0; } }
void mc_enumerate(void) {
    int T = mc_thorough;
    for (int N = 1; N <= (T ? 130 : 72); N++) { int pads[] = {0, 1, 2, N, 2 * N + 1, 0, 0}; int p2 = 1; while (p2 < N) p2 *= 2; pads[5] = p2 - N; pads[6] = 3 * N - 2; for (int k = 0; k < 7; k++) { int Nf = N + pads[k], dup = 0; for (int j = 0; j < k; j++) dup |= pads[j] == pads[k]; if (dup) continue; if (mc_case("N=%d Nfft=%d", N, Nf)) {
        spectrum_fft_object o = spectrum_fft_init(N, Nf); auto_fft_object a = auto_fft_init(N); double x[512]; int imp = N <= 12 ? N : 3; for (int j = 0; j < imp; j++) { memset(x, 0, sizeof x); x[N <= 12 ? j : j == 0 ? 0 : j == 1 ? N / 2 : N - 1] = 1; run(x, N, Nf, o, a); } for (int f = 0; f < 7; f++) { for (int i = 0; i < N; i++) x[i] = shape(f, i); run(x, N, Nf, o, a); }
        if (N <= (T ? 6 : 5) && k == 0) { int tot = 1; for (int i = 0; i < N; i++) tot *= 4; static const double V[] = {0, 1, -2, 3}; for (int c = 0; c < tot; c++) { int q = c; for (int i = 0; i < N; i++, q /= 4) x[i] = V[q % 4]; run(x, N, Nf, o, a); } }
        free_spectrum(o); free_auto(a); } } }
    for (int N = 1; N <= 200; N++) if (mc_case("shift N=%d", N)) { double *s = mc_buf(N); for (int i = 0; i < N; i++) s[i] = 2 * i <= N ? i : i - N; spectrum_shift(s, N); mc_ops(1); mc_bufcheck("bounds", s, N); for (int i = 0; i < N; i++) MC_CHECK(s[i] == i - (N - 1) / 2, "shift", "N=%d: position %d holds bin %g", N, i, s[i]); mc_state_d(s, N); mc_buffree(s); }
}
