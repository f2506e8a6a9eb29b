/* C15: the FFT equals the DFT for every length, round-trips, real transforms agree, objects reusable, inputs untouched */
#include "mc.h"
#include "hsfft.h"
#include "real.h"
const char *mc_property = "C15";
#define MAXN 20000
#define PIL 3.14159265358979323846264338327950288L
static long double *CT, *ST; static int tabN = 0;
static void table(int N) {
    if (tabN == N) return;
    CT = realloc(CT, sizeof(long double) * N); ST = realloc(ST, sizeof(long double) * N); tabN = N;
    for (int i = 0; i < N; i++) { CT[i] = cosl(2 * PIL * i / N); ST[i] = sinl(2 * PIL * i / N); }
}
static fft_data *cbuf(int n) { return (fft_data *)mc_buf(2 * n); }
static void cfree(fft_data *p) { mc_buffree((double *)p); }
/* compare the transform of a sparse signal (k unit entries v at pos) with its DFT */
static void sparse(fft_object o, int N, int sgn, const int *pos, const double *re, const double *im, int k, const char *tag) {
    fft_data *in = cbuf(N), *out = cbuf(N), *inc = malloc(sizeof(fft_data) * N);
    memset(in, 0, sizeof(fft_data) * N);
    for (int i = 0; i < k; i++) { in[pos[i]].re += re[i]; in[pos[i]].im += im[i]; }
    memcpy(inc, in, sizeof(fft_data) * N);
    fft_exec(o, in, out); mc_ops(1);
    double worst = 0; int wi = 0; double sc = 0; for (int i = 0; i < k; i++) sc += fabs(re[i]) + fabs(im[i]);
    for (int j = 0; j < N; j++) {
        long double R = 0, I = 0;
        for (int i = 0; i < k; i++) { long q = (long)j * pos[i] % N; long double c = CT[q], s = sgn == 1 ? -ST[q] : ST[q]; R += re[i] * c - im[i] * s; I += re[i] * s + im[i] * c; }
        double e = fabs((double)(out[j].re - R)) + fabs((double)(out[j].im - I)); if (!(e <= worst)) { worst = e; wi = j; if (e != e) break; }
    }
    mc_max("max_error", worst / sc);
    MC_CHECK(worst <= 1e-12 * sc, tag, "N=%d sgn=%d bin %d off by %g (first impulse at %d)", N, sgn, wi, worst, pos[0]);
    MC_CHECK(!memcmp(in, inc, sizeof(fft_data) * N), "input", "input modified");
    mc_bufcheck("bounds", (double *)out, 2 * N);
    mc_state_d((double *)out, 2 * (N < 6 ? N : 6));
    cfree(in); cfree(out); free(inc);
}
static void dense(int N, int mult, fft_data *x) { for (int i = 0; i < N; i++) { x[i].re = ((i * 37L * mult + 11) % 101) / 10.0 - 5; x[i].im = ((i * 53L + mult) % 97) / 10.0 - 4; } }
static void roundtrip(fft_object f, fft_object b, int N, int m) {
    fft_data *x = cbuf(N), *y = cbuf(N), *z = cbuf(N); dense(N, m, x);
    fft_exec(f, x, y); fft_exec(b, y, z); mc_ops(2);
    for (int i = 0; i < N; i++) if (!mc_close(z[i].re, N * x[i].re, 1e-10 * N, 1e-9) || !mc_close(z[i].im, N * x[i].im, 1e-10 * N, 1e-9)) { mc_fail("roundtrip", "N=%d entry %d: %g+%gi, expected %g+%gi", N, i, z[i].re, z[i].im, N * x[i].re, N * x[i].im); break; }
    double e = 0, ex = 0; for (int i = 0; i < N; i++) { e += y[i].re * y[i].re + y[i].im * y[i].im; ex += x[i].re * x[i].re + x[i].im * x[i].im; }
    MC_CHECK(mc_close(e, N * ex, 0, 1e-10), "parseval", "energy %g, expected %g", e, N * ex);
    mc_bufcheck("bounds", (double *)y, 2 * N); mc_bufcheck("bounds", (double *)z, 2 * N);
    cfree(x); cfree(y); cfree(z);
}
static void full(int N, int allimp) {
    table(N);
    fft_object f = fft_init(N, 1), b = fft_init(N, -1);
    static const double one = 1, zero = 0, m2 = -2;
    for (int k = 0; k < N && mc_ok(); k++) {
        if (!allimp && !(k < 3 || k == N / 2 || k == N / 3 || k >= N - 2)) continue;
        sparse(f, N, 1, &k, &one, &zero, 1, "forward"); sparse(f, N, 1, &k, &zero, &one, 1, "forward_im");
        sparse(b, N, -1, &k, &one, &zero, 1, "inverse"); sparse(b, N, -1, &k, &zero, &m2, 1, "inverse_im");
    }
    /* superposition of impulses through the same object after other use */
    int pos[7]; double re[7] = {1, -2, 0.5, 3, 0, 1, 1}, im[7] = {0, 1, 1, -1, 2, 0, 5};
    for (int i = 0; i < 7; i++) pos[i] = (i * 31 + i * i * 7) % N;
    sparse(f, N, 1, pos, re, im, 7, "superposition"); sparse(b, N, -1, pos, re, im, 7, "superposition");
    roundtrip(f, b, N, 1); roundtrip(f, b, N, 3);
    free_fft(f); free_fft(b);
}
static void real_(int N, int allimp) {
    fft_object f = fft_init(N, 1); fft_real_object rf = fft_real_init(N, 1), rb = fft_real_init(N, -1);
    double *in = mc_buf(N), *inc = malloc(sizeof(double) * N), *z = mc_buf(N); fft_data *cin = cbuf(N), *co = cbuf(N), *ro = cbuf(N);
    for (int k = -3; k < N && mc_ok(); k++) {
        if (!allimp && !(k < 3 || k == N / 2 || k >= N - 2)) continue;
        for (int i = 0; i < N; i++) { in[i] = k >= 0 ? i == k : k == -1 ? ((i * 37L + 11) % 101) / 10.0 - 5 : k == -2 ? (i % 2 ? -1 : 1) : 2.5; cin[i].re = in[i]; cin[i].im = 0; }
        memcpy(inc, in, sizeof(double) * N);
        fft_exec(f, cin, co); mc_bufinit((double *)ro, 2 * N); fft_r2c_exec(rf, in, ro); mc_ops(3);
        MC_CHECK(!memcmp(in, inc, sizeof(double) * N), "input", "r2c modified its input");
        mc_vec("r2c", (double *)ro, (double *)co, 2 * N, 1e-9 * N, 0); mc_bufcheck("bounds", (double *)ro, 2 * N);
        memcpy(cin, ro, sizeof(fft_data) * N); mc_bufinit(z, N);
        fft_c2r_exec(rb, ro, z); MC_CHECK(!memcmp(cin, ro, sizeof(fft_data) * N), "input", "c2r modified its input");
        for (int i = 0; i < N; i++) inc[i] = N * in[i];
        mc_vec("c2r", z, inc, N, 1e-9 * N, 1e-9); mc_bufcheck("bounds", z, N);
    }
    mc_buffree(in); mc_buffree(z); free(inc); cfree(cin); cfree(co); cfree(ro); free_fft(f); free_real_fft(rf); free_real_fft(rb);
}
static int prime(int n) { for (int d = 2; d * d <= n; d++) if (n % d == 0) return 0; return n > 1; }
void mc_enumerate(void) {
    int NA = mc_thorough ? 560 : 220, NB = mc_thorough ? 6000 : 1500;
    for (int N = 1; N <= NB; N++) if (mc_case("complex N=%d", N)) full(N, N <= NA);
    /* products of the special radices beyond NB */
    static const int rad[] = {2, 3, 4, 5, 7, 8, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53};
    for (int i = 0; i < 18; i++) for (int j = i; j < 18; j++) for (int k = 0; k < (mc_thorough ? 18 : 8); k++) { int N = rad[i] * rad[j] * rad[k]; if (N > NB && N <= MAXN && mc_case("complex radices %d*%d*%d", rad[i], rad[j], rad[k])) full(N, 0); }
    for (int p = 1; p <= 14; p++) { int N = 1 << p; if (N > NB && mc_case("complex N=2^%d", p)) full(N, 0); }
    for (int N = NB + 1; N < NB + 8 && N < MAXN; N++) ;
    for (int N = 4000, c = 0; c < (mc_thorough ? 40 : 6); N++) if (prime(N)) { c++; if (mc_case("complex prime N=%d", N)) full(N, 0); }
    for (int N = 2; N <= (mc_thorough ? 3000 : 1000); N += 2) if (mc_case("real N=%d", N)) real_(N, N <= (mc_thorough ? 400 : 160));
    /* interleaved use of several objects of different lengths and signs: every ordered triple of a small menu */
    static const int L[] = {1, 2, 3, 8, 15, 19, 22, 59};
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int c = 0; c < 8; c++) if (mc_case("history %d,%d,%d", L[a], L[b], L[c])) {
        int h[3] = {L[a], L[b], L[c]}; fft_object o[3]; double one = 1, z = 0;
        for (int i = 0; i < 3; i++) o[i] = fft_init(h[i], i % 2 ? -1 : 1);
        for (int r = 0; r < 2; r++) for (int i = 0; i < 3; i++) { table(h[i]); int k = h[i] - 1; sparse(o[i], h[i], i % 2 ? -1 : 1, &k, &one, &z, 1, "history"); }
        for (int i = 0; i < 3; i++) free_fft(o[i]);
    }
}
