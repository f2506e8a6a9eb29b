/* C18: linear-algebra kernels */
#include "mc.h"
#include "ref.h"
#include "matrix.h"
#include "lls.h"
#include <complex.h>
const char *mc_property = "C18";
time_t __wrap_time(time_t *t) { return 12345; }
static double *dup_(const double *a, int n) { double *b = malloc(sizeof(double) * (n ? n : 1)); memcpy(b, a, sizeof(double) * n); return b; }
static double nrm(const double *a, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * a[i]; return sqrt(s); }
static void mulref(const double *A, const double *B, double *C, int m, int n, int p) { for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { ld s = 0; for (int k = 0; k < n; k++) s += (ld)A[i * n + k] * B[k * p + j]; C[i * p + j] = (double)s; } }
static void tr(const double *A, double *T, int m, int n) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) T[j * m + i] = A[i * n + j]; }
static double defect_orth(const double *Q, int m, int n) { double w = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { ld s = 0; for (int i = 0; i < m; i++) s += (ld)Q[i * n + a] * Q[i * n + b]; w = fmax(w, fabs((double)s - (a == b))); } return isnan(w) ? 1e9 : w; }
static double maxdiff(const double *a, const double *b, int n) { double w = 0; for (int i = 0; i < n; i++) { double d = fabs(a[i] - b[i]); if (!(d <= w)) w = d; if (isnan(d)) return INFINITY; } return w; }
static int exact_rank(const double *A, int m, int n) { ld *t = malloc(sizeof(ld) * m * n); ld mx = 0; for (int i = 0; i < m * n; i++) { t[i] = A[i]; mx = fmaxl(mx, fabsl(t[i])); } int r = 0; for (int c = 0; c < n && r < m; c++) { int p = r; for (int i = r; i < m; i++) if (fabsl(t[i * n + c]) > fabsl(t[p * n + c])) p = i; if (fabsl(t[p * n + c]) <= 1e-14L * mx) continue; for (int j = 0; j < n; j++) { ld u = t[p * n + j]; t[p * n + j] = t[r * n + j]; t[r * n + j] = u; } for (int i = r + 1; i < m; i++) { ld f = t[i * n + c] / t[r * n + c]; for (int j = c; j < n; j++) t[i * n + j] -= f * t[r * n + j]; } r++; } free(t); return r; }
#define AT(M_, n_, i_, j_) ((M_)[(i_) * (n_) + (j_)])
/* ---- products ---- */
typedef void (*mul_t)(double *, double *, double *, int, int, int);
static const struct { const char *n; mul_t f; } MUL[] = {{"nmult", nmult}, {"tmult", tmult}, {"rmult", rmult}, {"smult", smult}, {"mmult", mmult}};
static void product(const double *A, const double *B, int m, int n, int p) {
    double *a = dup_(A, m * n), *b = dup_(B, n * p), *w = malloc(sizeof(double) * m * p); mulref(A, B, w, m, n, p);
    for (int k = 0; k < 5; k++) { double *c = mc_buf(m * p); MUL[k].f(a, b, c, m, n, p); mc_ops(1); mc_bufcheck("product bounds", c, m * p); double d = maxdiff(c, w, m * p);
        MC_CHECK(d <= 1e-12 * (1 + nrm(A, m * n) * nrm(B, n * p)), "product", "%s %dx%dx%d: differs from the triple sum by %g", MUL[k].n, m, n, p, d); mc_buffree(c); }
    MC_CHECK(!memcmp(a, A, sizeof(double) * m * n) && !memcmp(b, B, sizeof(double) * n * p), "product input", "operand modified"); mc_state_d(w, m * p > 8 ? 8 : m * p); free(a); free(b); free(w); }
static double gen(int i, int j, int k) { unsigned h = (unsigned)(i * 73856093u) ^ (unsigned)(j * 19349663u) ^ (unsigned)(k * 83492791u); h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; return (double)((int)(h % 19) - 9); }
/* ---- transposes and elementwise ---- */
static void trans(int m, int n) { double *A = malloc(sizeof(double) * m * n), *T = malloc(sizeof(double) * m * n); for (int i = 0; i < m * n; i++) A[i] = i + 1; tr(A, T, m, n); void (*F[])(double *, int, int, double *) = {dtranspose, stranspose, ctranspose, mtranspose}; const char *N_[] = {"dtranspose", "stranspose", "ctranspose", "mtranspose"};
    for (int k = 0; k < 4; k++) { double *c = mc_buf(m * n); F[k](A, m, n, c); mc_ops(1); mc_bufcheck("transpose bounds", c, m * n); MC_CHECK(maxdiff(c, T, m * n) == 0, "transpose", "%s %dx%d", N_[k], m, n); mc_buffree(c); }
    { double *c = mc_buf(m * n); rtranspose(A, m, n, c, m, n); mc_bufcheck("transpose bounds", c, m * n); MC_CHECK(maxdiff(c, T, m * n) == 0, "transpose", "rtranspose %dx%d", m, n); mc_buffree(c); }
    double *B = mc_buf(m * n); memcpy(B, A, sizeof(double) * m * n); itranspose(B, m, n); mc_bufcheck("transpose bounds", B, m * n); MC_CHECK(maxdiff(B, T, m * n) == 0, "transpose", "itranspose %dx%d", m, n); mc_buffree(B);
    double *C = mc_buf(m * n); madd(A, T, C, m, n); for (int i = 0; i < m * n; i++) MC_CHECK(C[i] == A[i] + T[i], "madd", "%dx%d[%d]", m, n, i); msub(A, T, C, m, n); for (int i = 0; i < m * n; i++) MC_CHECK(C[i] == A[i] - T[i], "msub", "%dx%d[%d]", m, n, i); scale(C, m, n, 2.5); for (int i = 0; i < m * n; i++) MC_CHECK(C[i] == 2.5 * (A[i] - T[i]), "scale", "%dx%d[%d]", m, n, i); mc_bufcheck("elementwise bounds", C, m * n); mc_buffree(C); mc_ops(5); mc_state_d(T, m * n > 8 ? 8 : m * n); free(A); free(T); }
/* ---- square: LU, solve, inverse, hessenberg, eig ---- */
static void lu_rect(const double *A, int m, int n) {
    int k = m < n ? m : n; double *a = mc_buf(m * n), *P = mc_buf(m * m), *L = mc_buf(m * k), *U = mc_buf(k * n); memcpy(a, A, sizeof(double) * m * n); int *ip = malloc(sizeof(int) * m); rludecomp(a, m, n, ip); mc_ops(1); mc_bufcheck("lu bounds", a, m * n);
    getPLU(a, m, n, ip, P, L, U); mc_bufcheck("lu bounds", P, m * m); mc_bufcheck("lu bounds", L, m * k); mc_bufcheck("lu bounds", U, k * n);
    double *LU = malloc(sizeof(double) * m * n), *X = malloc(sizeof(double) * m * n), s = 1e-13 * k * (1 + nrm(A, m * n)); mulref(L, U, LU, m, k, n); mulref(P, LU, X, m, m, n); double d = maxdiff(X, A, m * n); MC_CHECK(d <= s, "lu", "%dx%d: P L U differs from A by %g", m, n, d);
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { double v = L[i * k + j]; MC_CHECK(i == j ? v == 1 : i < j ? v == 0 : fabs(v) <= 1 + 1e-12, "lu structure", "%dx%d L[%d][%d] = %g", m, n, i, j, v); }
    for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) if (i > j) MC_CHECK(U[i * n + j] == 0, "lu structure", "%dx%d U[%d][%d] = %g", m, n, i, j, U[i * n + j]);
    for (int i = 0; i < m; i++) { int c = 0; for (int j = 0; j < m; j++) { double v = P[i * m + j]; if (v == 1) c++; else MC_CHECK(v == 0, "lu structure", "P entry %g", v); } MC_CHECK(c == 1, "lu structure", "P is no permutation"); }
    double *P2 = mc_buf(m * k), *U2 = mc_buf(k * n), *PL = malloc(sizeof(double) * m * k); getPU(a, m, n, ip, P2, U2); mc_bufcheck("lu bounds", P2, m * k); mulref(P, L, PL, m, m, k); MC_CHECK(maxdiff(PL, P2, m * k) <= 1e-15 && maxdiff(U, U2, k * n) == 0, "getPU", "%dx%d: permuted factor differs from P*L", m, n);
    mc_state_d(U, k * n > 8 ? 8 : k * n); mc_buffree(a); mc_buffree(P); mc_buffree(L); mc_buffree(U); mc_buffree(P2); mc_buffree(U2); free(PL); free(LU); free(X); free(ip); }
static double cond_est(const double *A, int n) { ld *a = malloc(sizeof(ld) * n * n), *v = malloc(sizeof(ld) * n * n); for (int i = 0; i < n * n; i++) a[i] = A[i]; double c = INFINITY; if (exact_rank(A, n, n) == n && !ref_inverse(a, n, v)) { ld s = 0; for (int i = 0; i < n * n; i++) s += v[i] * v[i]; c = (double)sqrtl(s) * nrm(A, n * n); } free(a); free(v); return c; }
static void square(const double *A, int n, int eigtoo) {
    double na = nrm(A, n * n), kap = cond_est(A, n); lu_rect(A, n, n);
    if (kap < 1e8) { double *a = dup_(A, n * n), *x = mc_buf(n), *b = malloc(sizeof(double) * n), *inv = mc_buf(n * n), *pr = malloc(sizeof(double) * n * n); int *ip = malloc(sizeof(int) * n); ludecomp(a, n, ip);
        for (int k = 0; k < 3; k++) { for (int i = 0; i < n; i++) b[i] = k == 0 ? (i == n - 1) : k == 1 ? i + 1 : ((i * 7) % 5) - 2; linsolve(a, n, b, ip, x); mc_ops(1); mc_bufcheck("solve bounds", x, n); mulref(A, x, pr, n, n, 1); MC_CHECK(maxdiff(pr, b, n) <= 1e-13 * n * (1 + na * nrm(x, n)), "solve", "n=%d rhs=%d: residual %g", n, k, maxdiff(pr, b, n)); }
        minverse(a, n, ip, inv); mc_bufcheck("inverse bounds", inv, n * n); mulref(A, inv, pr, n, n, n); double *Id = malloc(sizeof(double) * n * n); eye(Id, n); MC_CHECK(maxdiff(pr, Id, n * n) <= 1e-13 * n * (1 + kap), "inverse", "n=%d: A*inverse differs from I by %g", n, maxdiff(pr, Id, n * n)); free(Id); free(a); mc_buffree(x); free(b); mc_buffree(inv); free(pr); free(ip); mc_count("regular", 1); }
    else if (isinf(kap)) { double *a = dup_(A, n * n); int *ip = malloc(sizeof(int) * n); ludecomp(a, n, ip); double mn = INFINITY; for (int i = 0; i < n; i++) mn = fmin(mn, fabs(a[i * n + i])); MC_CHECK(mn <= 1e-12 * (1 + na), "singular", "n=%d: singular matrix but smallest pivot %g", n, mn); free(a); free(ip); mc_count("singular", 1); }
    if (!eigtoo) return;
    double *H = mc_buf(n * n); memcpy(H, A, sizeof(double) * n * n); hessenberg(H, n); mc_ops(1); mc_bufcheck("hessenberg bounds", H, n * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < i - 1; j++) MC_CHECK(fabs(H[i * n + j]) <= 1e-13 * n * (1 + na), "hessenberg", "n=%d: entry below the subdiagonal %g", n, H[i * n + j]);
    MC_CHECK(mc_close(nrm(H, n * n), na, 1e-12, 1e-12), "hessenberg", "n=%d: not an orthogonal similarity (norm %g, was %g)", n, nrm(H, n * n), na);
    /* characteristic polynomials by Faddeev-LeVerrier in long double */
    ld ca[24], ch[24]; for (int w = 0; w < 2; w++) { const double *X = w ? H : A; ld *c = w ? ch : ca, *M = calloc(n * n, sizeof(ld)), *N = malloc(sizeof(ld) * n * n); c[n] = 1; for (int k = 1; k <= n; k++) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ld s = 0; for (int l = 0; l < n; l++) s += (ld)X[i * n + l] * M[l * n + j]; N[i * n + j] = s + (i == j ? c[n - k + 1] : 0); } memcpy(M, N, sizeof(ld) * n * n); ld t = 0; for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) t += (ld)X[i * n + l] * M[l * n + i]; c[n - k] = -t / k; } free(M); free(N); }
    double pn = 1; for (int k = n; k >= 0; k--, pn *= 1 + na) MC_CHECK(mc_close((double)ca[k], (double)ch[k], 1e-12 * pn, 1e-11), "hessenberg", "n=%d: characteristic polynomial changed at z^%d: %Lg vs %Lg", n, k, ca[k], ch[k]);
    mc_buffree(H);
    double *re = mc_buf(n), *im = mc_buf(n), *a = dup_(A, n * n); eig(a, n, re, im); mc_ops(1); mc_bufcheck("eig bounds", re, n); mc_bufcheck("eig bounds", im, n); MC_CHECK(!memcmp(a, A, sizeof(double) * n * n), "eig input", "matrix modified"); free(a);
    long double complex e[24] = {1}; for (int i = 0; i < n; i++) { long double complex l = (ld)re[i] + (ld)im[i] * I; for (int k = i + 1; k >= 1; k--) e[k] = e[k - 1] - l * e[k]; e[0] = -l * e[0]; }
    pn = 1; for (int k = n - 1; k >= 0; k--) { pn *= 1 + na; MC_CHECK(cabsl(e[k] - ca[k]) <= 1e-10 * pn, "eig", "n=%d: product over the eigenvalues has z^%d coefficient %.10Lg%+.2Lgi, the characteristic polynomial %.10Lg", n, k, creall(e[k]), cimagl(e[k]), ca[k]); }
    mc_state_d(re, n); mc_buffree(re); mc_buffree(im); }
/* ---- symmetric eigensystem and Cholesky ---- */
static void symmetric(const double *A, int n) {
    double na = nrm(A, n * n), *a = dup_(A, n * n), *ev = mc_buf(n), *V = mc_buf(n * n), *X = malloc(sizeof(double) * n * n), *W = malloc(sizeof(double) * n * n); eigensystem(a, n, ev, V); mc_ops(1); mc_bufcheck("eigensystem bounds", ev, n); mc_bufcheck("eigensystem bounds", V, n * n); MC_CHECK(!memcmp(a, A, sizeof(double) * n * n), "eigensystem input", "matrix modified");
    MC_CHECK(defect_orth(V, n, n) <= 1e-12 * n, "eigensystem", "n=%d: eigenvectors not orthonormal (%g)", n, defect_orth(V, n, n)); mulref(A, V, X, n, n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[i * n + j] = V[i * n + j] * ev[j]; MC_CHECK(maxdiff(X, W, n * n) <= 1e-13 * n * (1 + na), "eigensystem", "n=%d: A v differs from lambda v by %g", n, maxdiff(X, W, n * n));
    double mn = INFINITY; for (int i = 0; i < n; i++) mn = fmin(mn, ev[i]); mc_state_d(ev, n);
    int (*CH[])(double *, int) = {cholu, chol, bcholu};
    for (int k = 0; k < 3; k++) { double *c = mc_buf(n * n), *t = malloc(sizeof(double) * n * n); memcpy(c, A, sizeof(double) * n * n); int rc = CH[k](c, n); mc_ops(1); mc_bufcheck("cholesky bounds", c, n * n);
        if (mn > 1e-9 * na) { MC_CHECK(rc == 0, "cholesky", "n=%d kernel %d: positive definite matrix rejected", n, k); for (int i = 0; i < n; i++) { MC_CHECK(c[i * n + i] > 0, "cholesky structure", "diagonal %g", c[i * n + i]); for (int j = 0; j < i; j++) MC_CHECK(c[i * n + j] == 0, "cholesky structure", "lower entry %g", c[i * n + j]); } tr(c, t, n, n); mulref(t, c, X, n, n, n); MC_CHECK(maxdiff(X, A, n * n) <= 1e-13 * n * (1 + na), "cholesky", "n=%d kernel %d: U'U differs from A by %g", n, k, maxdiff(X, A, n * n)); mc_count("positive definite", 1); }
        else if (mn < -1e-9 * na) { MC_CHECK(rc == -1, "cholesky singular", "n=%d kernel %d: indefinite matrix (smallest eigenvalue %g) accepted", n, k, mn); mc_count("indefinite", 1); } mc_buffree(c); free(t); }
    if (mn > 1e-9 * na) { double *c = mc_buf(n * n), *L = malloc(sizeof(double) * n * n), *D = malloc(sizeof(double) * n * n); memcpy(c, A, sizeof(double) * n * n); chold(c, n); mc_bufcheck("cholesky bounds", c, n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double u = i == j ? 1 : c[i * n + j]; D[i * n + j] = (i > j ? 0 : u) * c[i * n + i]; L[j * n + i] = i > j ? 0 : u; } mulref(L, D, X, n, n, n); MC_CHECK(maxdiff(X, A, n * n) <= 1e-13 * n * (1 + na), "ldl", "n=%d: L D L' differs from A by %g", n, maxdiff(X, A, n * n)); mc_buffree(c); free(L); free(D); }
    free(a); mc_buffree(ev); mc_buffree(V); free(X); free(W); }
/* ---- rectangular: QR, SVD, rank, least squares ---- */
static void rect(const double *A, int m, int n) {
    double na = nrm(A, m * n), tol = 1e-13 * (m + n) * (1 + na); int rk = exact_rank(A, m, n), mn = m < n ? m : n;
    if (m >= n) { double *a = mc_buf(m * n), *Q = mc_buf(m * n), *R = mc_buf(n * n), *bv = mc_buf(n), *X = malloc(sizeof(double) * m * n); memcpy(a, A, sizeof(double) * m * n); qrdecomp(a, m, n, bv); getQR(a, m, n, bv, Q, R); mc_ops(2); mc_bufcheck("qr bounds", a, m * n); mc_bufcheck("qr bounds", bv, n); mc_bufcheck("qr bounds", Q, m * n); mc_bufcheck("qr bounds", R, n * n);
        MC_CHECK(defect_orth(Q, m, n) <= 1e-12 * n, "qr", "%dx%d: Q not orthonormal (%g)", m, n, defect_orth(Q, m, n)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) MC_CHECK(R[i * n + j] == 0, "qr structure", "R not triangular"); mulref(Q, R, X, m, n, n); MC_CHECK(maxdiff(X, A, m * n) <= tol, "qr", "%dx%d: QR differs from A by %g", m, n, maxdiff(X, A, m * n)); mc_state_d(R, n * n > 8 ? 8 : n * n);
        mc_buffree(a); mc_buffree(Q); mc_buffree(R); mc_buffree(bv); free(X); }
    /* SVD in all three variants */
    double *sv = malloc(sizeof(double) * mn);
    for (int k = 0; k < 3; k++) { if (m < n && k) continue; double *a = dup_(A, m * n), *U, *V, *q = mc_buf(mn); int uc = m >= n ? m * n : m * m, vc = m >= n ? n * n : n * m, rc; U = mc_buf(uc); V = mc_buf(vc);
        rc = m < n ? svd_transpose(a, m, n, U, V, q) : k == 0 ? svd(a, m, n, U, V, q) : k == 1 ? svd_gr(a, m, n, U, V, q) : svd_gr2(a, m, n, U, V, q); mc_ops(1); mc_bufcheck("svd bounds", U, uc); mc_bufcheck("svd bounds", V, vc); mc_bufcheck("svd bounds", q, mn); MC_CHECK(rc == 0, "svd", "%dx%d variant %d: error %d", m, n, k, rc); MC_CHECK(!memcmp(a, A, sizeof(double) * m * n), "svd input", "matrix modified");
        double *S = malloc(sizeof(double) * m * n), w = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { ld s = 0; for (int l = 0; l < mn; l++) s += (ld)U[i * mn + l] * q[l] * V[j * mn + l]; S[i * n + j] = (double)s; }
        MC_CHECK(maxdiff(S, A, m * n) <= tol, "svd", "%dx%d variant %d: U diag(q) V' differs from A by %g", m, n, k, maxdiff(S, A, m * n));
        for (int l = 0; l < mn; l++) { MC_CHECK(q[l] >= 0, "svd", "%dx%d variant %d: negative singular value %g", m, n, k, q[l]); if (l && k == 0) MC_CHECK(q[l] <= q[l - 1], "svd", "%dx%d: singular values not sorted", m, n); }
        w = m >= n ? defect_orth(V, n, n) : defect_orth(U, m, m); MC_CHECK(w <= 1e-12 * (m + n), "svd", "%dx%d variant %d: the square factor is not orthogonal (%g)", m, n, k, w);
        if (rk == mn) { w = m >= n ? defect_orth(U, m, n) : defect_orth(V, n, m); double lo = INFINITY; for (int l = 0; l < mn; l++) lo = fmin(lo, q[l]); if (lo > 1e-6 * na) MC_CHECK(w <= 1e-10 * (m + n), "svd", "%dx%d variant %d: the tall factor is not orthonormal (%g)", m, n, k, w); }
        if (k == 0) memcpy(sv, q, sizeof(double) * mn); free(a); free(S); mc_buffree(U); mc_buffree(V); mc_buffree(q); }
    /* rank */
    int clear = 1; for (int l = 0; l < mn; l++) if (l < rk ? sv[l] < 1e-8 * na : sv[l] > 1e-12 * (1 + na)) clear = 0;
    if (!clear) { free(sv); mc_count("unclear rank", 1); MC_CHECK(rk && sv[rk - 1] < 1e-6 * na, "singular values", "%dx%d: exact rank %d but singular values beyond it are not negligible", m, n, rk); return; }
    { double *a = dup_(A, m * n); int r = rank(a, m, n); mc_ops(1); MC_CHECK(r == rk, "rank", "%dx%d: rank %d, exact %d", m, n, r, rk); free(a); }
    /* least squares: consistent and inconsistent right-hand sides */
    for (int k = 0; k < 3; k++) { double *b = malloc(sizeof(double) * m), *x = mc_buf(n), *r = malloc(sizeof(double) * m), *g = malloc(sizeof(double) * n), *At = malloc(sizeof(double) * m * n); tr(A, At, m, n); for (int i = 0; i < m; i++) b[i] = k == 0 ? (i % 3) - 1 : k == 1 ? i * i - 2 : (i == 0);
        for (int h = 0; h < 4; h++) { double *a = dup_(A, m * n), *bb = dup_(b, m); int rc; if (h == 0 && (m < n || rk < n)) { if (m >= n && rk < n) { rc = lls_normal(a, bb, m, n, x); mc_count("rank deficient normal equations", 1); } free(a); free(bb); continue; } if (h == 2 && m < n) { free(a); free(bb); continue; } if (h == 3 && m < n) { free(a); free(bb); continue; } mc_bufinit(x, n);
            rc = h == 0 ? lls_normal(a, bb, m, n, x) : h == 1 ? lls_qr(a, bb, m, n, x) : h == 2 ? lls_svd(a, bb, m, n, x) : lls_svd2(a, bb, m, n, x); mc_ops(1); mc_bufcheck("lls bounds", x, n); MC_CHECK(!memcmp(a, A, sizeof(double) * m * n) && !memcmp(bb, b, sizeof(double) * m), "lls input", "data modified"); free(a); free(bb);
            if (h == 0) MC_CHECK(rc == 0, "lls", "%dx%d normal equations: full rank reported as failure", m, n); if (h == 1) { MC_CHECK(rc == rk, "lls", "%dx%d qr: reported rank %d, exact %d", m, n, rc, rk); if (rk < mn) continue; } if (h >= 2) MC_CHECK(rc == 0, "lls", "%dx%d svd: failure %d", m, n, rc);
            mulref(A, x, r, m, n, 1); for (int i = 0; i < m; i++) r[i] = b[i] - r[i]; mulref(At, r, g, n, m, 1); double lim = (h == 0 ? 1e-9 : 1e-11) * (1 + na) * (nrm(b, m) + na * nrm(x, n)) * (h == 0 ? na / sv[mn - 1] : 1); MC_CHECK(nrm(g, n) <= lim, "lls", "%dx%d method %d rhs %d: normal equations violated by %g (limit %g, rank %d)", m, n, h, k, nrm(g, n), lim, rk);
            /* minimum norm: x in the row space (SVD methods and underdetermined QR) */
            if (h >= 2 || m < n) { double *aug = malloc(sizeof(double) * (m + 1) * n); memcpy(aug, A, sizeof(double) * m * n); ld dst = 0; /* project x onto null space through the SVD-free way: solve least squares A' y = x */ double *q = malloc(sizeof(double) * m); ld *X = malloc(sizeof(ld) * n * m), *y = malloc(sizeof(ld) * n); (void)aug; (void)q; 
                /* Gram-Schmidt on rows */ int cnt = 0; for (int i = 0; i < m; i++) { ld v[64]; for (int j = 0; j < n; j++) v[j] = A[i * n + j]; ld n0 = 0; for (int j = 0; j < n; j++) n0 += v[j] * v[j]; for (int rep = 0; rep < 2; rep++) for (int c = 0; c < cnt; c++) { ld s = 0; for (int j = 0; j < n; j++) s += v[j] * X[c * n + j]; for (int j = 0; j < n; j++) v[j] -= s * X[c * n + j]; } ld s = 0; for (int j = 0; j < n; j++) s += v[j] * v[j]; if (s > 1e-20L * n0 && cnt < n) { s = sqrtl(s); for (int j = 0; j < n; j++) X[cnt * n + j] = v[j] / s; cnt++; } }
                for (int j = 0; j < n; j++) y[j] = x[j]; for (int c = 0; c < cnt; c++) { ld s = 0; for (int j = 0; j < n; j++) s += y[j] * X[c * n + j]; for (int j = 0; j < n; j++) y[j] -= s * X[c * n + j]; } for (int j = 0; j < n; j++) dst += y[j] * y[j]; MC_CHECK(sqrtl(dst) <= 1e-9 * (1 + nrm(x, n)), "lls minimum norm", "%dx%d method %d rank %d: solution has a null-space component %Lg", m, n, h, rk, sqrtl(dst)); free(aug); free(q); free(X); free(y); } }
        free(b); mc_buffree(x); free(r); free(g); free(At); }
    free(sv); }
static void digits(double *A, int n, long c, int base, const double *vals) { for (int i = 0; i < n; i++, c /= base) A[i] = vals[c % base]; }
static void family(int f, int m, int n, double *A) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double v; switch (f) { case 0: v = gen(i, j, 1); break; case 1: v = 1.0 / (i + j + 1) + (i == j); break; case 2: v = (i == j) ? -1 - i : 0; break; case 3: v = i == (j + 1) % m ? 1 : 0; break; case 4: v = i >= j ? 1 : -1; break; case 5: v = gen(i, j / 2, 2); break; case 6: v = (i + 1) * (j + 1); break; case 7: v = abs(i - j) == 1 ? -1 : i == j ? 2 : 0; break; case 8: v = 1e-6 * gen(i, j, 3); break; case 9: v = 1e5 * gen(i, j, 4) + (i == j); break; case 10: v = i == j ? 0.5 : i == j + 1 ? 1 : 0; break; case 11: v = i < j ? gen(i, j, 5) : 0; break; default: v = cos(i * (j + 0.5)); } A[i * n + j] = v; } }
void mc_enumerate(void) {
    int T = mc_thorough, S = T ? 10 : 7;
    for (int m = 1; m <= S; m++) for (int n = 1; n <= S; n++) if (mc_case("product small m=%d n=%d", m, n)) for (int p = 1; p <= S; p++) { double A[256], B[256]; for (int k = 0; k < 2; k++) { for (int i = 0; i < m * n; i++) A[i] = gen(i, k, 7); for (int i = 0; i < n * p; i++) B[i] = gen(i, k, 8); product(A, B, m, n, p); }
        if (m <= 4 && n <= 4 && p <= 4) for (int i = 0; i < m * n; i++) for (int j = 0; j < n * p; j++) { memset(A, 0, sizeof A); memset(B, 0, sizeof B); A[i] = 1; B[j] = 1; product(A, B, m, n, p); } }
    static const int DQ[] = {1, 2, 31, 33, 64, 65, 97, 130, 193, 200}, DT[] = {1, 2, 3, 16, 31, 32, 33, 63, 64, 65, 95, 97, 127, 130, 191, 192, 193, 200, 257, 390}; const int *D = T ? DT : DQ; int nd = T ? 20 : 10;
    for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) if (mc_case("product large m=%d n=%d", D[a], D[b])) for (int c = 0; c < nd; c++) { int m = D[a], n = D[b], p = D[c]; if ((long)m * n * p > (T ? 12000000 : 3000000)) continue; double *A = malloc(sizeof(double) * m * n), *B = malloc(sizeof(double) * n * p); for (int i = 0; i < m * n; i++) A[i] = gen(i, 1, 7); for (int i = 0; i < n * p; i++) B[i] = gen(i, 2, 8); product(A, B, m, n, p); free(A); free(B); }
    static const int TD[] = {1, 2, 3, 5, 8, 16, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200};
    for (int a = 0; a < 16; a++) if (mc_case("transpose rows=%d", TD[a])) for (int b = 0; b < 16; b++) trans(TD[a], TD[b]);
    static const double V3[] = {0, 1, -1}, V5[] = {0, 1, -2, 3, -0.5}, V2[] = {0, 1}, V4[] = {0, 2, -1, 1};
    if (mc_case("square 1x1, 2x2 over five values")) { for (int i = 0; i < 5; i++) { square(V5 + i, 1, 1); symmetric(V5 + i, 1); } for (int c = 0; c < 625; c++) { double A[4]; digits(A, 4, c, 5, V5); square(A, 2, 1); rect(A, 2, 2); if (A[1] == A[2]) symmetric(A, 2); } }
    for (int blk = 0; blk < 27; blk++) if (mc_case("square 3x3 ternary block=%d", blk)) for (int c = blk; c < 19683; c += 27) { double A[9]; digits(A, 9, c, 3, V3); square(A, 3, 1); rect(A, 3, 3); }
    for (int blk = 0; blk < 64; blk++) if (mc_case("square 4x4 binary block=%d", blk)) for (int c = blk; c < 65536; c += T ? 64 : 192) { double A[16]; digits(A, 16, c, 2, V2); square(A, 4, 1); rect(A, 4, 4); }
    for (int blk = 0; blk < 16; blk++) if (mc_case("symmetric 3x3 4x4 block=%d", blk)) { for (int c = blk; c < 15625; c += 16) { double u[6], A[9]; digits(u, 6, c, 5, V5); int k = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) A[i * 3 + j] = A[j * 3 + i] = u[k++]; symmetric(A, 3); } for (long c = blk; c < 1048576; c += 16 * (T ? 3 : 29)) { double u[10], A[16]; digits(u, 10, c, 4, V4); int k = 0; for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) A[i * 4 + j] = A[j * 4 + i] = u[k++] + (i == j && c % 2 ? 3 : 0); symmetric(A, 4); } }
    for (int m = 1; m <= 5; m++) for (int n = 1; n <= 5; n++) if (m != n && m * n <= (T ? 12 : 10)) for (int blk = 0; blk < 8; blk++) if (mc_case("rect %dx%d ternary block=%d", m, n, blk)) { long tot = 1; for (int i = 0; i < m * n; i++) tot *= 3; for (long c = blk; c < tot; c += 8 * (tot > 20000 ? (T ? 5 : 7) : 1)) { double A[16]; digits(A, m * n, c, 3, V3); rect(A, m, n); lu_rect(A, m, n); } }
    int F = 13, mx = T ? 20 : 12;
    for (int f = 0; f < F; f++) for (int m = 1; m <= mx; m++) if (mc_case("family=%d rows=%d", f, m)) for (int n = 1; n <= mx; n++) { double A[400]; family(f, m, n, A); rect(A, m, n); lu_rect(A, m, n); if (m == n) { square(A, n, 1); double B[400]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B[i * n + j] = A[i * n + j] + A[j * n + i]; symmetric(B, n); mulref(A, A, B, 1, 1, 1); double t[400]; tr(A, t, n, n); mulref(t, A, B, n, n, n); for (int i = 0; i < n; i++) B[i * n + i] += 0.5 * (1 + fabs(B[i * n + i])); symmetric(B, n); for (int i = 0; i < n * n; i++) B[i] = -B[i]; symmetric(B, n); } }
    static const int BG[] = {30, 63, 64, 65, 70, 127, 128, 129, 130, 140};
    for (int b = 0; b < (T ? 10 : 7); b++) for (int f = 0; f < F; f++) if (mc_case("big n=%d family=%d", BG[b], f)) { int n = BG[b]; double *A = malloc(sizeof(double) * n * n), *B = malloc(sizeof(double) * n * n), *t = malloc(sizeof(double) * n * n); family(f, n, n, A); square(A, n, 0); tr(A, t, n, n); mulref(t, A, B, n, n, n); for (int i = 0; i < n; i++) B[i * n + i] += 0.5 * (1 + fabs(B[i * n + i])); symmetric(B, n);
        static const int POS[] = {0, 1, 5, 62, 63, 64, 65, 100, 126, 127, 128}; for (int p = 0; p < 11; p++) if (POS[p] < n) { double s = B[POS[p] * n + POS[p]]; B[POS[p] * n + POS[p]] = -1; symmetric(B, n); B[POS[p] * n + POS[p]] = s; } free(A); free(B); free(t); }
    /* randomised SVD of exactly low-rank tall matrices: the environment (clock, generator) is fixed by stand-ins */
    for (int m = 6; m <= (T ? 30 : 18); m += 3) for (int n = 5; n < m; n += 2) if (mc_case("rsvd %dx%d", m, n)) for (int K = 1; K <= 3; K++) for (int ov = 1; K + ov < n && ov <= 3; ov++) for (int it = -1; it <= 2; it++) if (it) { double *A = calloc(m * n, sizeof(double)), *U = mc_buf(m * K), *V = mc_buf(n * K), *q = mc_buf(K); for (int k = 0; k < K; k++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i * n + j] += gen(i, k, 11) * gen(j, k, 12) * (K - k); double *a = dup_(A, m * n); rsvd(a, m, n, K, ov, it, U, V, q); mc_ops(1); mc_bufcheck("rsvd bounds", U, m * K); mc_bufcheck("rsvd bounds", V, n * K); mc_bufcheck("rsvd bounds", q, K); double w = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < K; k++) s += U[i * K + k] * q[k] * V[j * K + k]; w = fmax(w, fabs(s - A[i * n + j])); if (isnan(s)) w = INFINITY; } MC_CHECK(w <= 1e-9 * (1 + nrm(A, m * n)), "rsvd", "%dx%d rank %d oversample %d iter %d: reconstruction off by %g", m, n, K, ov, it, w); mc_state_d(q, K); free(a); free(A); mc_buffree(U); mc_buffree(V); mc_buffree(q); }
}
