/* C13: autocovariance, ACF and PACF match their definitions in every mode */
#include "mc.h"
#include "ref.h"
#include "ctsa.h"
#include "stats.h"
#include "initest.h"
const char *mc_property = "C13";

static void check_acvf(const double *x, int n, int M) {
    int K = M < n ? M : n;
    ld *g = malloc(sizeof(ld) * (K + 1)); double *w = malloc(sizeof(double) * (M + 1)), *xc = malloc(sizeof(double) * n);
    memcpy(xc, x, sizeof(double) * n);
    ref_acvf(x, n, K, g); for (int i = 0; i < K; i++) w[i] = (double)g[i];
    double tol = 1e-10 * ((double)g[0] + 1e-300);
    { double m2 = 0; for (int i = 0; i < n; i++) m2 += x[i] * x[i]; tol += 1e-14 * m2 / n; }
    for (int mode = 0; mode < 4; mode++) {
        double *o = mc_buf(M);
        if (mode == 0) acvf((double *)x, n, o, M);
        if (mode == 1) acvf_opt((double *)x, n, 0, o, M);
        if (mode == 2) acvf_opt((double *)x, n, 1, o, M);
        if (mode == 3) autocovar((double *)x, n, o, M);
        static const char *tg[] = {"acvf", "acvf_opt0", "acvf_opt1", "autocovar"};
        mc_vec(tg[mode], o, w, K, tol, 1e-10); mc_bufcheck("bounds", o, M); mc_ops(1);
        if (mode == 0) mc_state_d(o, K);
        if (K > 0 && g[0] > 0 && mode != 3) {
            double *c = malloc(sizeof(double) * K); for (int i = 0; i < K; i++) c[i] = (double)(g[i] / g[0]);
            acvf2acf(o, K); mc_vec("acf", o, c, K, 1e-9, 0);
            MC_CHECK(fabs(o[0] - 1.0) < 1e-13, "acf0", "lag-zero autocorrelation %.17g", o[0]);
            free(c);
        }
        mc_buffree(o);
    }
    if (K > 0 && g[0] > 0) {
        double *o = mc_buf(M), *o2 = mc_buf(M), *c = malloc(sizeof(double) * K); for (int i = 0; i < K; i++) c[i] = (double)(g[i] / g[0]);
        autocorr((double *)x, n, o, M); mc_vec("autocorr", o, c, K, 1e-9, 0); mc_bufcheck("bounds", o, M);
        auto_fft_object f = auto_fft_init(n); autocorr_fft(f, (double *)x, o2, M); mc_vec("autocorr_fft", o2, c, K, 1e-8, 0); mc_bufcheck("bounds", o2, M);
        autocovar_fft(f, (double *)x, o2, M); mc_vec("autocovar_fft_reuse", o2, w, K, tol, 1e-10);
        free_auto(f); mc_buffree(o); mc_buffree(o2); free(c); mc_ops(3);
    }
    MC_CHECK(!memcmp(x, xc, sizeof(double) * n), "input", "input modified");
    free(g); free(w); free(xc);
}
static void check_pacf(const double *x, int n, int M) {
    ld *g = malloc(sizeof(ld) * (M + 1)), *phi = malloc(sizeof(ld) * (M + 1)), v;
    ref_acvf(x, n, M + 1, g);
    double *w = malloc(sizeof(double) * (M + 1)), *xc = malloc(sizeof(double) * n); memcpy(xc, x, sizeof(double) * n);
    double sc = 0; for (int i = 0; i < n; i++) sc += x[i] * x[i];
    if (g[0] > 1e-12 * sc / n) {
        int k; ld vmin = 1;
        for (k = 1; k <= M; k++) { if (ref_yw(g, k, phi, &v)) break; if (v / g[0] < vmin) vmin = v / g[0]; if (vmin < 1e-8) break; w[k - 1] = (double)phi[k - 1]; }
        k--;
        for (int m = 0; m < 2; m++) {
            double *o = mc_buf(M); if (m) pacf_opt((double *)x, n, 0, o, M); else pacf((double *)x, n, o, M);
            mc_vec(m ? "pacf_opt0" : "pacf", o, w, k, 1e-7, 0); mc_bufcheck("bounds", o, M);
            for (int i = 0; i < k; i++) MC_CHECK(fabs(o[i]) <= 1 + 1e-9, "range", "pacf %g at lag %d", o[i], i + 1);
            if (!m) mc_state_d(o, k);
            mc_buffree(o); mc_ops(1);
        }
    }
    {
        ld *P = malloc(sizeof(ld) * (M * M + 1)), *V = malloc(sizeof(ld) * (M + 1)), *R = malloc(sizeof(ld) * (M + 1));
        int k = ref_burg(x, n, M, P, V, R); for (int i = 0; i < k; i++) w[i] = (double)R[i];
        double *o = mc_buf(M); pacf_opt((double *)x, n, 1, o, M); mc_vec("pacf_burg", o, w, k, 1e-6, 0); mc_bufcheck("bounds", o, M);
        for (int i = 0; i < k; i++) MC_CHECK(fabs(o[i]) <= 1 + 1e-9, "range", "burg pacf %g at lag %d", o[i], i + 1);
        mc_state_d(o, k); mc_buffree(o); mc_ops(1); free(P); free(V); free(R);
    }
    MC_CHECK(!memcmp(x, xc, sizeof(double) * n), "input", "input modified");
    free(g); free(phi); free(w); free(xc);
}
/* Box-Jenkins unconditional sum of squares of an AR(p): backcast residuals (zero beyond the ends) */
static ld bj_ssq(const double *x, int n, const ld *b, int p) {
    int Q = 20 * p < 15 ? 15 : 20 * p; ld S = 0; ld *w = calloc(n + Q, sizeof(ld));
    for (int i = 0; i < n; i++) w[Q + i] = x[i] - b[0];
    for (int i = Q - 1; i >= 0; i--) for (int j = 1; j <= p; j++) if (i + j < n + Q) w[i] += b[j] * w[i + j];
    for (int i = 1; i < n + Q; i++) { ld e = w[i]; for (int j = 1; j <= p && j <= i; j++) e -= b[j] * w[i - j]; S += e * e; }
    free(w); return S;
}
static void check_mle(const double *x, int n, int M) {
    double *o = mc_buf(M), *xc = malloc(sizeof(double) * n); memcpy(xc, x, sizeof(double) * n);
    pacf_opt((double *)x, n, 2, o, M); mc_bufcheck("bounds", o, M); mc_ops(1);
    MC_CHECK(!memcmp(x, xc, sizeof(double) * n), "input", "input modified");
    for (int p = 1; p <= M && mc_ok(); p++) {
        /* minimise the same textbook objective by Gauss-Newton with long double central differences, from Yule-Walker */
        ld g[16], b[16], v; ref_acvf(x, n, p + 1, g); ld m = 0; for (int i = 0; i < n; i++) m += x[i]; b[0] = m / n; ref_yw(g, p, b + 1, &v);
        int k = p + 1;
        for (int it = 0; it < 60; it++) {
            ld G[16], H[256], st[16], S0 = bj_ssq(x, n, b, p);
            for (int i = 0; i < k; i++) { ld h = 1e-4L * (fabsl(b[i]) + 1), t[16]; memcpy(t, b, sizeof t); t[i] = b[i] + h; ld sp = bj_ssq(x, n, t, p); t[i] = b[i] - h; ld sm = bj_ssq(x, n, t, p); G[i] = -(sp - sm) / (2 * h); H[i * k + i] = (sp - 2 * S0 + sm) / (h * h);
                for (int j = 0; j < i; j++) { ld hj = 1e-4L * (fabsl(b[j]) + 1); memcpy(t, b, sizeof t); t[i] += h; t[j] += hj; ld a = bj_ssq(x, n, t, p); t[j] -= 2 * hj; ld c = bj_ssq(x, n, t, p); t[i] -= 2 * h; ld e = bj_ssq(x, n, t, p); t[j] += 2 * hj; ld d = bj_ssq(x, n, t, p); H[i * k + j] = H[j * k + i] = (a - c - d + e) / (4 * h * hj); } }
            if (ref_solve(H, G, k, st)) break;
            ld s = 1, nb[16]; int acc = 0; for (int q = 0; q < 30; q++, s /= 2) { for (int i = 0; i < k; i++) nb[i] = b[i] + s * st[i]; if (bj_ssq(x, n, nb, p) < S0) { acc = 1; break; } }
            if (!acc) break;
            memcpy(b, nb, sizeof nb);
        }
        mc_max("mle_err", fabs(o[p - 1] - (double)b[p]));
        MC_CHECK(mc_close(o[p - 1], (double)b[p], 2e-4, 0), "pacf_mle", "lag %d: got %.10g, least-squares minimiser has %.10g", p, o[p - 1], (double)b[p]);
    }
    mc_state_d(o, M); mc_buffree(o); free(xc);
}
/* structured series family */
#define NF 7
static void fam(int f, int n, double *x) {
    mc_rng r; mc_seed(&r, 77 + f * 131 + n); double a = 0;
    for (int i = 0; i < n; i++) {
        double e = mc_n(&r);
        switch (f) {
        case 0: x[i] = e; break;
        case 1: x[i] = a = 0.7 * a + e; break;
        case 2: x[i] = a = -0.6 * a + e; break;
        case 3: x[i] = 100 + (a += e); break;
        case 4: x[i] = 3 * sin(i * 0.9) + e * 0.3 + 10; break;
        case 5: x[i] = 0.05 * i + e + 2 * (i % 4 == 1); break;
        case 6: x[i] = 1e4 + 1e-2 * e + (i % 2 ? 1e-2 : 0); break;
        }
    }
}
void mc_enumerate(void) {
    static const double A[] = {0, 1, 3};
    double x[600];
    int NE = mc_thorough ? 9 : 7;
    for (int n = 2; n <= NE; n++) for (int M = 0; M <= n + 2; M++) if (mc_case("acvf alphabet n=%d M=%d", n, M)) {
        long tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (long c = 0; c < tot && mc_ok(); c++) { long t = c; for (int i = 0; i < n; i++) { x[i] = A[t % 3]; t /= 3; } check_acvf(x, n, M); }
    }
    for (int n = 2; n <= NE; n++) if (mc_case("pacf alphabet n=%d", n)) {
        long tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (long c = 0; c < tot && mc_ok(); c++) { long t = c; for (int i = 0; i < n; i++) { x[i] = A[t % 3]; t /= 3; } check_pacf(x, n, n - 1); }
    }
    int NM = mc_thorough ? 160 : 72;
    for (int n = 2; n <= NM; n++) if (mc_case("acvf impulses n=%d", n)) for (int k = 0; k < n && mc_ok(); k++) { memset(x, 0, sizeof x); x[k] = 1; check_acvf(x, n, n); }
    for (int f = 0; f < NF; f++) for (int n = 2; n <= (mc_thorough ? 400 : 200); n += 1) {
        if (mc_case("acvf family=%d n=%d", f, n)) { fam(f, n, x); check_acvf(x, n, n); check_acvf(x, n, n / 2); check_acvf(x, n, n + 3); }
    }
    for (int f = 0; f < NF; f++) for (int n = 2; n <= (mc_thorough ? 160 : 72); n++)
        if (mc_case("pacf family=%d n=%d", f, n)) { fam(f, n, x); check_pacf(x, n, n - 1 > 40 ? 40 : n - 1); }
    /* asking for more lags never changes the earlier ones */
    for (int f = 0; f < NF; f++) for (int n = 12; n <= 48; n += 4) if (mc_case("prefix family=%d n=%d", f, n)) {
        fam(f, n, x); double *L[5]; for (int m = 0; m < 5; m++) { L[m] = mc_buf(n); }
        for (int M = 1; M < n && M <= 20; M++) for (int m = 0; m < 5; m++) {
            double *o = mc_buf(M);
            if (m == 0) acvf(x, n, o, M); if (m == 1) acvf_opt(x, n, 1, o, M); if (m == 2) pacf(x, n, o, M); if (m == 3) pacf_opt(x, n, 1, o, M); if (m == 4) { if (M > 4) { mc_buffree(o); continue; } pacf_opt(x, n, 2, o, M); }
            if (M > 1) mc_vec("prefix", o, L[m], M - 1, 1e-12, 1e-10);
            memcpy(L[m], o, sizeof(double) * M); mc_buffree(o); mc_ops(1);
        }
        for (int m = 0; m < 5; m++) mc_buffree(L[m]);
    }
    static const int mf[] = {0, 1, 2};
    for (int q = 0; q < 3; q++) for (int n = 30; n <= (mc_thorough ? 200 : 90); n += 15) if (mc_case("pacf mle family=%d n=%d", mf[q], n)) { fam(mf[q], n, x); check_mle(x, n, mc_thorough ? 6 : 4); }
    /* lengths whose padded size times the length exceeds the int range */
    static const int big[] = {1000, 4096, 32760, 33000, 40000};
    for (int q = 0; q < (mc_thorough ? 5 : 4); q++) if (mc_case("acvf long n=%d", big[q])) {
        int n = big[q]; double *y = malloc(sizeof(double) * n); for (int i = 0; i < n; i++) y[i] = ((i * 7919L) % 1013) / 100.0 + (i % 12);
        check_acvf(y, n, 30); free(y);
    }
    /* positive semi-definiteness of the library's own sequence (FFT and direct) */
    for (int f = 0; f < NF; f++) for (int n = 4; n <= 60; n += 7) for (int m = 0; m < 2; m++) if (mc_case("psd family=%d n=%d mode=%d", f, n, m)) {
        fam(f, n, x); double o[64]; acvf_opt(x, n, m, o, n); ld g[64]; for (int i = 0; i < n; i++) g[i] = o[i] + (i == 0 ? 1e-7 * o[0] : 0);
        ld w[64] = {0}, S, L; MC_CHECK(!ref_gauss(w, n, g, &S, &L), "psd", "autocovariance sequence is not positive semi-definite"); mc_ops(1);
    }
}
