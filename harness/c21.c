/* C21: polynomial root finding returns all roots */
#include "mc.h"
#include "ref.h"
#include "polyroot.h"
#include <complex.h>
typedef long double complex lc;
const char *mc_property = "C21";
/* expands lead * prod (z - r_i), ascending coefficients c[0..n] */
static void expand(const lc *r, int n, lc lead, lc *c) { c[0] = lead; for (int k = 0; k < n; k++) { c[k + 1] = 0; for (int i = k + 1; i >= 0; i--) c[i] = (i ? c[i - 1] : 0) - (i <= k ? r[k] * c[i] : 0); } }
/* want: known roots (may be NULL) */
static void one(const double *re, const double *im, int n, int cplx, double tol, const char *what) {
    double *zr = mc_buf(n), *zi = mc_buf(n), a[160], b[160]; memcpy(a, re, sizeof(double) * (n + 1)); if (im) memcpy(b, im, sizeof(double) * (n + 1));
    int f = cplx ? cpolyroot(a, b, n, zr, zi) : polyroot(a, n, zr, zi); mc_ops(1);
    mc_bufcheck("bounds", zr, n); mc_bufcheck("bounds", zi, n); MC_CHECK(!memcmp(a, re, sizeof(double) * (n + 1)), "input", "coefficients modified");
    if (re[n] == 0 && (!cplx || im[n] == 0)) { MC_CHECK(f != 0, "zero lead", "zero leading coefficient not reported"); mc_buffree(zr); mc_buffree(zi); return; }
    MC_CHECK(f == 0, "fail", "%s degree %d: failure reported", what, n);
    if (f == 0) {
        lc r[160], c[161]; ld cn = 0; int bad = 0; for (int i = 0; i < n; i++) { if (!isfinite(zr[i]) || !isfinite(zi[i]) || mc_unwritten(zr[i])) bad = 1; r[i] = zr[i] + I * (ld)zi[i]; }
        MC_CHECK(!bad, "finite", "%s degree %d: root missing or not finite", what, n);
        if (!bad) {
            /* small roots first keeps the expansion well conditioned */
            expand(r, n, (cplx ? re[n] + I * (ld)im[n] : re[n]), c); for (int i = 0; i <= n; i++) { ld m = cabsl((cplx ? re[i] + I * (ld)im[i] : re[i])); if (m > cn) cn = m; }
            ld e = 0; for (int i = 0; i <= n; i++) { ld d = cabsl(c[i] - (cplx ? re[i] + I * (ld)im[i] : (lc)re[i])); if (d > e) e = d; }
            { char nm[48]; snprintf(nm, 48, "%s_deg%d", what, n / 20 * 20); mc_max(nm, (double)(e / cn)); } MC_CHECK(e <= tol * cn, "product", "%s degree %d: roots multiply back with relative error %Lg", what, n, e / cn);
            int z0 = 0, zf = 0; while (z0 < n && re[z0] == 0 && (!cplx || im[z0] == 0)) z0++; for (int i = 0; i < n; i++) if (zr[i] == 0 && zi[i] == 0) zf++;
            MC_CHECK(zf == z0, "zero roots", "%s degree %d: %d exact zero roots, found %d", what, n, z0, zf);
            if (!cplx) for (int i = 0; i < n; i++) { ld best = 1e300L; for (int j = 0; j < n; j++) { ld d = cabsl(conjl(r[i]) - r[j]); if (d < best) best = d; } MC_CHECK(best <= 1e-2L * (1 + cabsl(r[i])), "conjugate", "%s degree %d: root %g%+gi has no conjugate partner (%Lg)", what, n, zr[i], zi[i], best); }
            double st[4] = {zr[0], zi[0], zr[n - 1], zi[n - 1]}; mc_state_d(st, 4);
        }
    }
    mc_buffree(zr); mc_buffree(zi);
}
static void from_roots(const lc *r, int n, lc lead, int cplx, double tol, const char *what) {
    lc c[161]; double re[161], im[161]; expand(r, n, lead, c); for (int i = 0; i <= n; i++) { re[i] = creall(c[i]); im[i] = cimagl(c[i]); } one(re, cplx ? im : NULL, n, cplx, tol, what);
}
void mc_enumerate(void) {
    int T = mc_thorough; double re[161], im[161];
    /* every integer polynomial with coefficients in -2..2 */
    for (int n = 1; n <= (T ? 7 : 5); n++) for (int l = -2; l <= 2; l++) for (int c0 = -2; c0 <= 2; c0++) if (mc_case("int n=%d lead=%d c0=%d", n, l, c0)) {
        int tot = 1; for (int i = 1; i < n; i++) tot *= 5; for (int k = 0; k < tot; k++) { int c = k; re[n] = l; re[0] = c0; for (int i = 1; i < n; i++, c /= 5) re[i] = c % 5 - 2; one(re, NULL, n, 0, 1e-10, "integer"); if (n <= 3) { memset(im, 0, sizeof im); one(re, im, n, 1, 1e-10, "integer as complex"); } }
    }
    /* every complex polynomial with coefficients in {0,1,-1,i,1-i} */
    for (int n = 1; n <= (T ? 5 : 4); n++) for (int l = 0; l < 5; l++) if (mc_case("cplx n=%d lead=%d", n, l)) {
        static const double A[5] = {0, 1, -1, 0, 1}, B[5] = {0, 0, 0, 1, -1}; int tot = 1; for (int i = 0; i < n; i++) tot *= 5;
        for (int k = 0; k < tot; k++) { int c = k; re[n] = A[l]; im[n] = B[l]; for (int i = 0; i < n; i++, c /= 5) { re[i] = A[c % 5]; im[i] = B[c % 5]; } one(re, im, n, 1, 1e-10, "complex"); }
    }
    /* products of root menus: multiplicities, near-unit, large and small moduli */
    static const double R[] = {0, 1, -1, 0.5, -2, 1e-3, 50, 1.001};
    for (int n = 1; n <= (T ? 6 : 4); n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 8; for (int f = 0; f < 8; f++) for (int li = 0; li < 3; li++) if (mc_case("roots n=%d first=%d lead=%d", n, f, li)) {
        static const double LD[3] = {1, -3, 1e-5};
        for (int k = f; k < tot; k += 8) { lc r[8]; int c = k, ok = 1, prev = 99; for (int i = 0; i < n; i++, c /= 8) { r[i] = R[c % 8]; if (c % 8 > prev) ok = 0; prev = c % 8; } if (ok) from_roots(r, n, LD[li], 0, 1e-9, "real roots"); } } }
    static const double MO[] = {0.3, 0.9, 1, 1.1, 4}, AN[] = {0.2, 1.3, 1.5707963267948966, 3.0};
    for (int n = 1; n <= 3; n++) for (int f = 0; f < 20; f++) for (int ex = 0; ex < 3; ex++) if (mc_case("pairs n=%d first=%d extra=%d", n, f, ex)) {
        int tot = 1; for (int i = 1; i < n; i++) tot *= 20; for (int k = 0; k < tot; k++) { lc r[8]; int c = k, m = 0, cur = f; for (int i = 0; i < n; i++) { ld mo = MO[cur % 5], an = AN[cur / 5]; r[m++] = mo * cexpl(I * an); r[m++] = mo * cexpl(-I * an); cur = c % 20; c /= 20; } if (ex) r[m++] = ex == 1 ? 0 : -1.2; from_roots(r, m, 1, 0, 1e-9, "conjugate pairs"); }
    }
    for (int n = 41; n <= (T ? 130 : 110); n += 3) if (mc_case("zeros n=%d", n)) { memset(re, 0, sizeof re); re[n] = 2; one(re, NULL, n, 0, 1e-9, "z^n"); re[n - 3] = 1; re[n - 1] = -0.5; one(re, NULL, n, 0, 1e-9, "z^n-3 factor"); }  /* high degree with many zero roots */
    /* structured families up to high degree: z^n, z^n - c, seasonal (1-aB)(1-AB^s), geometric, companion of AR */
    for (int n = 1; n <= 40; n++) if (mc_case("family n=%d", n)) {
        memset(re, 0, sizeof re); re[n] = 1; one(re, NULL, n, 0, 1e-9, "z^n"); re[n] = -2.5; one(re, NULL, n, 0, 1e-9, "z^n");
        re[n] = 1; re[0] = -1; one(re, NULL, n, 0, 1e-8, "z^n-1"); re[0] = 0.3; one(re, NULL, n, 0, 1e-8, "z^n+c");
        if (n <= 40) { for (int i = 0; i <= n; i++) re[i] = 1; one(re, NULL, n, 0, 1e-7, "all ones"); for (int i = 0; i <= n; i++) re[i] = pow(0.8, i) * (i % 3 ? -1 : 1); one(re, NULL, n, 0, 1e-6, "geometric"); }
        if (n >= 3) { memset(re, 0, sizeof re); re[0] = 1; re[1] = -0.5; re[n - 1] = -0.4; re[n] = 0.2; one(re, NULL, n, 0, 1e-8, "seasonal"); }
        memset(re, 0, sizeof re); re[n] = 0; re[0] = 1; if (n > 1) { re[1] = 2; } one(re, NULL, n, 0, 1e-8, "zero lead");
    }
}
