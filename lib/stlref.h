/* reference STL (Cleveland et al. 1990, with the jump interpolation and span adjustments of the published program), long double */
#ifndef STLREF_H
#define STLREF_H
#include "ref.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef struct { int ns, nt, nl, ds, dt, dl, js, jt, jl, inner, outer, periodic; ld mincmad; } stlopt;
static int rs_odd(int x) { return x % 2 ? x : x + 1; }
/* local fit at x (1-based positions) over the window a..b of y */
static int rs_est(const ld *y, int n, int q, int deg, ld x, int a, int b, const ld *rw, ld *out) {
    ld h = fmaxl(x - a, b - x); if (q > n) h += (q - n) / 2; ld w[2048], s = 0; 
    for (int j = a; j <= b; j++) { ld r = fabsl(j - x); w[j] = 0; if (r <= 0.999L * h) { ld u = r / h; w[j] = r <= 0.001L * h ? 1 : powl(1 - u * u * u, 3); if (rw) w[j] *= rw[j - 1]; } s += w[j]; }
    if (!(s > 0)) return 0; for (int j = a; j <= b; j++) w[j] /= s;
    if (h > 0 && deg > 0) { ld m = 0, v = 0; for (int j = a; j <= b; j++) m += w[j] * j; for (int j = a; j <= b; j++) v += w[j] * (j - m) * (j - m); if (sqrtl(v) > 0.001L * (n - 1)) for (int j = a; j <= b; j++) w[j] *= 1 + (x - m) * (j - m) / v; }
    *out = 0; for (int j = a; j <= b; j++) *out += w[j] * y[j - 1]; return 1; }
static void rs_win(int i, int n, int q, int *a, int *b) { if (q >= n) { *a = 1; *b = n; return; } int h = (q + 1) / 2; *a = i - h + 1; if (*a < 1) *a = 1; if (*a > n - q + 1) *a = n - q + 1; *b = *a + q - 1; }
static void rs_loess(const ld *y, int n, int q, int deg, int jump, const ld *rw, ld *out) {
    if (n < 2) { out[0] = y[0]; return; } if (jump > n - 1) jump = n - 1; int a = 1, b = n, last = 1;
    for (int i = 1; i <= n; i += jump) { rs_win(i, n, q, &a, &b); if (!rs_est(y, n, q, deg, i, a, b, rw, &out[i - 1])) out[i - 1] = y[i - 1]; if (i > 1) for (int j = last + 1; j < i; j++) out[j - 1] = out[last - 1] + (out[i - 1] - out[last - 1]) * (j - last) / (ld)(i - last); last = i; }
    if (last != n) { if (!rs_est(y, n, q, deg, n, a, b, rw, &out[n - 1])) out[n - 1] = y[n - 1]; for (int j = last + 1; j < n; j++) out[j - 1] = out[last - 1] + (out[n - 1] - out[last - 1]) * (j - last) / (ld)(n - last); } }
static void rs_step(const ld *y, int n, int np, const stlopt *o, int ns, int nt, int nl, const ld *rw, int ni, ld *S, ld *T) {
    ld *C = malloc(sizeof(ld) * (n + 2 * np)), *A = malloc(sizeof(ld) * (n + 2 * np)), *B = malloc(sizeof(ld) * (n + 2 * np)), sub[2048], sr[2048], so[2050];
    for (int it = 0; it < ni; it++) {
        for (int j = 0; j < np; j++) { int k = 0; for (int i = j; i < n; i += np, k++) { sub[k] = y[i] - T[i]; if (rw) sr[k] = rw[i]; }
            rs_loess(sub, k, ns, o->ds, o->js, rw ? sr : NULL, so + 1);
            int nr = ns < k ? ns : k; if (!rs_est(sub, k, ns, o->ds, 0, 1, nr, rw ? sr : NULL, &so[0])) so[0] = so[1]; int nlft = k - ns + 1 > 1 ? k - ns + 1 : 1; if (!rs_est(sub, k, ns, o->ds, k + 1, nlft, k, rw ? sr : NULL, &so[k + 1])) so[k + 1] = so[k];
            for (int m = 0; m < k + 2; m++) C[m * np + j] = so[m]; }
        int L = n + 2 * np; for (int i = 0; i + np <= L; i++) { ld s = 0; for (int k = 0; k < np; k++) s += C[i + k]; A[i] = s / np; } L -= np - 1; for (int i = 0; i + np <= L; i++) { ld s = 0; for (int k = 0; k < np; k++) s += A[i + k]; B[i] = s / np; } L -= np - 1; for (int i = 0; i + 3 <= L; i++) A[i] = (B[i] + B[i + 1] + B[i + 2]) / 3;
        rs_loess(A, n, nl, o->dl, o->jl, NULL, B); for (int i = 0; i < n; i++) S[i] = C[np + i] - B[i];
        for (int i = 0; i < n; i++) A[i] = y[i] - S[i]; rs_loess(A, n, nt, o->dt, o->jt, rw, T); }
    free(C); free(A); free(B); }
static int rs_cmp(const void *a, const void *b) { ld x = *(const ld *)a, y = *(const ld *)b; return x < y ? -1 : x > y; }
static ld rs_weights(const ld *y, int n, const ld *S, const ld *T, ld *rw) { ld *r = malloc(sizeof(ld) * n), *t = malloc(sizeof(ld) * n); for (int i = 0; i < n; i++) t[i] = r[i] = fabsl(y[i] - S[i] - T[i]); qsort(t, n, sizeof(ld), rs_cmp); ld c = 3 * (t[n / 2] + t[n - n / 2 - 1]); for (int i = 0; i < n; i++) { ld u = r[i] / c; rw[i] = r[i] <= 0.001L * c ? 1 : r[i] <= 0.999L * c ? powl(1 - u * u, 2) : 0; } free(r); free(t); return c; }
static int rs_span(int s) { return rs_odd(s < 3 ? 3 : s); }
static void ref_stl(const ld *y, int n, int np, stlopt *o, ld *S, ld *T) {
    int ns = rs_span(o->ns), nt = rs_span(o->nt), nl = rs_span(o->nl); ld *rw = malloc(sizeof(ld) * n); o->mincmad = INFINITY; for (int i = 0; i < n; i++) T[i] = 0;
    for (int k = 0;; k++) { rs_step(y, n, np, o, ns, nt, nl, k ? rw : NULL, o->inner, S, T); if (k >= o->outer) break; ld c = rs_weights(y, n, S, T, rw); if (c < o->mincmad) o->mincmad = c; }
    if (o->periodic) for (int j = 0; j < np; j++) { ld s = 0; int k = 0; for (int i = j; i < n; i += np, k++) s += S[i]; for (int i = j; i < n; i += np) S[i] = s / k; }
    free(rw); }
static int rs_tw(int f, int ns) { return rs_odd((int)ceil(1.5 * f / (1.0 - 1.5 / (double)ns))); /* the default is defined in double arithmetic */ }
static int rs_j(int w) { return (w + 9) / 10; }
/* program defaults for everything left out */
static stlopt rs_default(int n, int f, int periodic, int ns) { stlopt o; memset(&o, 0, sizeof o); o.periodic = periodic; o.ns = periodic ? 10 * n + 1 : ns; o.ds = 0; o.nt = rs_tw(f, o.ns); o.dt = 1; o.nl = rs_odd(f); o.dl = 1; o.js = rs_j(o.ns); o.jt = rs_j(o.nt); o.jl = rs_j(o.nl); o.inner = 2; o.outer = 0; return o; }
/* the multiple-season driver: periods below n/2 in ascending order, each fitted to the series with the other seasonals removed */
static int ref_mstl(const ld *y, int n, const int *f, int nf, int ns, int iterate, int *used, ld *S, ld *T, ld *R) { int m = 0; for (int i = 0; i < nf; i++) if (f[i] < n / 2) used[m++] = f[i]; for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) if (used[j] < used[i]) { int t = used[i]; used[i] = used[j]; used[j] = t; }
    ld *d = malloc(sizeof(ld) * n); memcpy(d, y, sizeof(ld) * n); for (int i = 0; i < n * m; i++) S[i] = 0; for (int i = 0; i < n; i++) T[i] = 0;
    for (int it = 0; it < iterate; it++) for (int k = 0; k < m; k++) { for (int i = 0; i < n; i++) d[i] += S[k * n + i]; stlopt o = rs_default(n, used[k], 0, ns); ref_stl(d, n, used[k], &o, S + k * n, T); for (int i = 0; i < n; i++) d[i] -= S[k * n + i]; }
    for (int i = 0; i < n; i++) R[i] = d[i] - T[i]; free(d); return m; }
#endif
