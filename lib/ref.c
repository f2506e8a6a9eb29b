#include "ref.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
int ref_solve(const ld *A0, const ld *b0, int n, ld *x) {
    ld *A = malloc(sizeof(ld) * (n * n + 1)); memcpy(A, A0, sizeof(ld) * n * n); memcpy(x, b0, sizeof(ld) * n);
    int bad = 0; ld mx = 0; for (int i = 0; i < n * n; i++) if (fabsl(A[i]) > mx) mx = fabsl(A[i]);
    for (int c = 0; c < n && !bad; c++) {
        int p = c; for (int r = c + 1; r < n; r++) if (fabsl(A[r * n + c]) > fabsl(A[p * n + c])) p = r;
        if (fabsl(A[p * n + c]) <= 1e-17L * mx) { bad = 1; break; }
        if (p != c) { for (int j = 0; j < n; j++) { ld t = A[p * n + j]; A[p * n + j] = A[c * n + j]; A[c * n + j] = t; } ld t = x[p]; x[p] = x[c]; x[c] = t; }
        for (int r = c + 1; r < n; r++) { ld f = A[r * n + c] / A[c * n + c]; if (f == 0) continue; for (int j = c; j < n; j++) A[r * n + j] -= f * A[c * n + j]; x[r] -= f * x[c]; }
    }
    if (!bad) for (int c = n - 1; c >= 0; c--) { for (int j = c + 1; j < n; j++) x[c] -= A[c * n + j] * x[j]; x[c] /= A[c * n + c]; }
    free(A); return bad;
}
int ref_inverse(const ld *A, int n, ld *inv) {
    ld *e = calloc(n + 1, sizeof(ld)), *x = malloc(sizeof(ld) * (n + 1)); int bad = 0;
    for (int c = 0; c < n && !bad; c++) { memset(e, 0, sizeof(ld) * n); e[c] = 1; bad = ref_solve(A, e, n, x); for (int r = 0; r < n; r++) inv[r * n + c] = x[r]; }
    free(e); free(x); return bad;
}
ld ref_det(const ld *A0, int n) {
    ld *A = malloc(sizeof(ld) * (n * n + 1)); memcpy(A, A0, sizeof(ld) * n * n); ld d = 1;
    for (int c = 0; c < n; c++) {
        int p = c; for (int r = c + 1; r < n; r++) if (fabsl(A[r * n + c]) > fabsl(A[p * n + c])) p = r;
        if (A[p * n + c] == 0) { d = 0; break; }
        if (p != c) { d = -d; for (int j = 0; j < n; j++) { ld t = A[p * n + j]; A[p * n + j] = A[c * n + j]; A[c * n + j] = t; } }
        d *= A[c * n + c];
        for (int r = c + 1; r < n; r++) { ld f = A[r * n + c] / A[c * n + c]; for (int j = c; j < n; j++) A[r * n + j] -= f * A[c * n + j]; }
    }
    free(A); return d;
}
void ref_acvf(const double *x, int n, int M, ld *g) {
    ld m = 0; for (int i = 0; i < n; i++) m += x[i]; m /= n;
    for (int k = 0; k < M; k++) { g[k] = 0; for (int t = 0; t + k < n; t++) g[k] += (x[t] - m) * (x[t + k] - m); g[k] /= n; }
}
int ref_yw(const ld *g, int p, ld *phi, ld *var) {
    ld *A = malloc(sizeof(ld) * (p * p + 1)); for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) A[i * p + j] = g[abs(i - j)];
    int bad = ref_solve(A, g + 1, p, phi); free(A); if (bad) return 1;
    ld v = g[0]; for (int i = 0; i < p; i++) v -= phi[i] * g[i + 1]; if (var) *var = v; return 0;
}
int ref_burg(const double *x, int n, int p, ld *phi, ld *var, ld *refl) {
    ld *f = malloc(sizeof(ld) * n), *b = malloc(sizeof(ld) * n), *a = calloc(p + 2, sizeof(ld)), *t = calloc(p + 2, sizeof(ld));
    ld s0 = 0; for (int i = 0; i < n; i++) { f[i] = b[i] = x[i]; s0 += f[i] * f[i]; }
    int m; for (m = 1; m <= p; m++) {
        ld num = 0, den = 0; for (int i = m; i < n; i++) { num += f[i] * b[i - 1]; den += f[i] * f[i] + b[i - 1] * b[i - 1]; }
        if (!(den > 1e-4L * s0)) break;
        ld k = 2 * num / den; refl[m - 1] = k;
        for (int i = 1; i < m; i++) t[i] = a[i] - k * a[m - i]; t[m] = k; memcpy(a + 1, t + 1, sizeof(ld) * m);
        ld sse = 0;
        for (int i = n - 1; i >= m; i--) { ld F = f[i] - k * b[i - 1], B = b[i - 1] - k * f[i]; f[i] = F; b[i] = B; sse += F * F + B * B; }
        for (int i = 0; i < p; i++) phi[(m - 1) * p + i] = i < m ? a[i + 1] : 0;
        var[m - 1] = sse / (2 * (n - m));
    }
    free(f); free(b); free(a); free(t); return m - 1;
}
int ref_expand_ar(const double *phi, int p, const double *PHI, int P, int s, ld *a) {
    int n = p + s * P; ld *c = calloc(n + 1, sizeof(ld));
    for (int i = 0; i <= p; i++) for (int j = 0; j <= P; j++) c[i + s * j] += (i ? -(ld)phi[i - 1] : 1) * (j ? -(ld)PHI[j - 1] : 1);
    for (int i = 1; i <= n; i++) a[i - 1] = -c[i];
    free(c); return n;
}
int ref_expand_ma(const double *th, int q, const double *TH, int Q, int s, ld *b) {
    int n = q + s * Q; ld *c = calloc(n + 1, sizeof(ld));
    for (int i = 0; i <= q; i++) for (int j = 0; j <= Q; j++) c[i + s * j] += (i ? (ld)th[i - 1] : 1) * (j ? (ld)TH[j - 1] : 1);
    for (int i = 1; i <= n; i++) b[i - 1] = c[i];
    free(c); return n;
}
void ref_psi(const ld *a, int p, const ld *b, int q, ld *psi, int n) {
    for (int j = 0; j < n; j++) { psi[j] = j == 0 ? 1 : (j <= q ? b[j - 1] : 0); for (int i = 1; i <= p && i <= j; i++) psi[j] += a[i - 1] * psi[j - i]; }
}
int ref_arma_acvf(const ld *a, int p, const ld *b, int q, ld *g, int n) {
    int m = (p > q ? p : q) + 1; ld *psi = malloc(sizeof(ld) * (q + 2)), *A = calloc(m * m, sizeof(ld)), *r = calloc(m, sizeof(ld)), *x = calloc(m, sizeof(ld));
    ref_psi(a, p, b, q, psi, q + 1);
    for (int k = 0; k < m; k++) {
        A[k * m + k] += 1; for (int i = 1; i <= p; i++) A[k * m + abs(k - i)] -= a[i - 1];
        for (int j = k; j <= q; j++) r[k] += (j == 0 ? 1 : b[j - 1]) * psi[j - k];
    }
    int bad = ref_solve(A, r, m, x);
    if (!bad) for (int k = 0; k < n; k++) { if (k < m) g[k] = x[k]; else { g[k] = 0; for (int i = 1; i <= p; i++) g[k] += a[i - 1] * (k - i < n ? g[k - i] : 0); } }
    free(psi); free(A); free(r); free(x); return bad;
}
int ref_gauss(const ld *w, int n, const ld *g, ld *S, ld *logdet) {
    /* Durbin-Levinson innovations: exact for a stationary process */
    ld *ph = calloc(n + 1, sizeof(ld)), *t = calloc(n + 1, sizeof(ld)); ld v = g[0]; *S = 0; *logdet = 0; int bad = 0;
    for (int k = 0; k < n; k++) {
        if (k > 0) {
            ld num = g[k]; for (int i = 1; i < k; i++) num -= ph[i] * g[k - i];
            ld r = num / v; for (int i = 1; i < k; i++) t[i] = ph[i] - r * ph[k - i]; t[k] = r; memcpy(ph + 1, t + 1, sizeof(ld) * k); v *= 1 - r * r;
        }
        if (!(v > 0)) { bad = 1; break; }
        ld e = w[k]; for (int i = 1; i <= k; i++) e -= ph[i] * w[k - i];
        *S += e * e / v; *logdet += logl(v);
    }
    free(ph); free(t); return bad;
}
int ref_stationary(const ld *a, int p) {
    ld *c = malloc(sizeof(ld) * (p + 1)), *t = malloc(sizeof(ld) * (p + 1)); memcpy(c, a, sizeof(ld) * p); int ok = 1;
    while (p > 0 && ok) { ld r = c[p - 1]; if (!(fabsl(r) < 1)) { ok = 0; break; } for (int i = 0; i < p - 1; i++) t[i] = (c[i] + r * c[p - 2 - i]) / (1 - r * r); p--; memcpy(c, t, sizeof(ld) * p); }
    free(c); free(t); return ok;
}
int ref_difference(const double *x, int n, int d, int D, int s, double *o) {
    double *t = malloc(sizeof(double) * (n + 1)); memcpy(t, x, sizeof(double) * n); 
    for (int k = 0; k < d; k++) { for (int i = 0; i + 1 < n; i++) t[i] = t[i + 1] - t[i]; n--; }
    for (int k = 0; k < D; k++) { for (int i = 0; i + s < n; i++) t[i] = t[i + s] - t[i]; n -= s; }
    memcpy(o, t, sizeof(double) * n); free(t); return n;
}
int ref_ols(const ld *X, const ld *y, int n, int k, ld *beta, ld *rss, ld *xtxinv) {
    ld *A = calloc(k * k + 1, sizeof(ld)), *r = calloc(k + 1, sizeof(ld));
    for (int i = 0; i < n; i++) for (int p = 0; p < k; p++) { r[p] += X[i * k + p] * y[i]; for (int q = 0; q < k; q++) A[p * k + q] += X[i * k + p] * X[i * k + q]; }
    int bad = ref_solve(A, r, k, beta);
    if (!bad && xtxinv) bad = ref_inverse(A, k, xtxinv);
    if (!bad && rss) { *rss = 0; for (int i = 0; i < n; i++) { ld e = y[i]; for (int p = 0; p < k; p++) e -= X[i * k + p] * beta[p]; *rss += e * e; } }
    free(A); free(r); return bad;
}
