/* C32: Box-Jenkins fits (method 2) against an independent back-forecast sum of squares */
#include "arima.h"
const char *mc_property = "C32";
/* residuals over qd back-forecasts and n observations, first one dropped; th in w_t = ... + a_t - sum th a */
static int resid(const model_t *m, int qd, ld *a) {
    int p = m->ip, q = m->iq, n = m->n, k = p > q ? p : q; const ld *w = m->w, *ph = m->a, *b = m->b; if (k >= n) return 1;
    ld *e = calloc(n + k + qd + 2, sizeof(ld)), *w2 = calloc(qd + 1, sizeof(ld)), *z = malloc(sizeof(ld) * (n + qd)), *al = calloc(n + qd + 1, sizeof(ld));
    /* backward: w_i = sum ph w_{i+t} + e_i + sum b e_{i+t}, shocks after the last evaluable one taken as zero */
    for (int i = n - k - 1; i >= 0; i--) { ld v = w[i]; for (int t = 1; t <= p; t++) v -= ph[t - 1] * w[i + t]; for (int t = 1; t <= q; t++) v -= b[t - 1] * (i + t < n ? e[i + t] : 0); e[i] = v; }
    /* back-forecasts: w2[i] stands for time -(i+1) */
    for (int i = 0; i < qd; i++) { ld v = 0; for (int t = 1; t <= p; t++) { int at = t - (i + 1); v += ph[t - 1] * (at < 0 ? w2[-at - 1] : w[at]); } for (int t = 1; t <= q; t++) { int at = t - (i + 1); if (at >= 0) v += b[t - 1] * e[at]; } w2[i] = v; }
    for (int i = 0; i < qd; i++) z[i] = w2[qd - 1 - i]; for (int i = 0; i < n; i++) z[qd + i] = w[i];
    for (int i = 0; i < qd + n; i++) { ld v = z[i]; for (int t = 1; t <= p && t <= i; t++) v -= ph[t - 1] * z[i - t]; for (int t = 1; t <= q && t <= i; t++) v -= b[t - 1] * al[i - t]; al[i] = v; }
    memcpy(a, al + 1, sizeof(ld) * (qd + n - 1)); free(e); free(w2); free(z); free(al); return 0;
}
typedef struct { spec_t sp; double *x; int qd, k, n; } P_t;
static model_t mk(const P_t *P, const double *c) { const spec_t *s = &P->sp; const double *th = c + s->p, *PH = th + s->q, *TH = PH + (s->cls ? s->P : 0); int na = s->p + s->q + (s->cls ? s->P + s->Q : 0); return model_of(s, c, th, PH, TH, spec_hasmean(s) ? c[na] : 0, NULL, P->x, NULL); }
static int ssq(const P_t *P, const double *c, ld *a, ld *S) { model_t m = mk(P, c); int bad = resid(&m, P->qd, a); *S = 0; if (!bad) for (int i = 0; i < P->qd + m.n - 1; i++) *S += a[i] * a[i]; ld nb[64]; for (int i = 0; i < m.iq; i++) nb[i] = -m.b[i]; if (!bad && (!ref_stationary(m.a, m.ip) || !ref_stationary(nb, m.iq))) bad = 2; model_free(&m); return bad; }
static int inv(ld *A, int n, ld *B) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B[i * n + j] = i == j; for (int c = 0; c < n; c++) { int pv = c; for (int r = c; r < n; r++) if (fabsl(A[r * n + c]) > fabsl(A[pv * n + c])) pv = r; if (fabsl(A[pv * n + c]) < 1e-14L * 1) return 1; for (int j = 0; j < n; j++) { ld t = A[c * n + j]; A[c * n + j] = A[pv * n + j]; A[pv * n + j] = t; t = B[c * n + j]; B[c * n + j] = B[pv * n + j]; B[pv * n + j] = t; } ld d = A[c * n + c]; for (int j = 0; j < n; j++) { A[c * n + j] /= d; B[c * n + j] /= d; } for (int r = 0; r < n; r++) if (r != c) { ld f = A[r * n + c]; for (int j = 0; j < n; j++) { A[r * n + j] -= f * A[c * n + j]; B[r * n + j] -= f * B[c * n + j]; } } } return 0; }
static void one(spec_t sp, int kind, int seed) {
    P_t P = {sp, malloc(sizeof(double) * sp.N)}; series(kind, seed, sp.N, P.x);
    int SP = sp.cls ? sp.P : 0, SQ = sp.cls ? sp.Q : 0, s = sp.cls ? sp.s : 0, D = sp.cls ? sp.D : 0, na = sp.p + sp.q + SP + SQ, M = spec_hasmean(&sp); P.k = na + M; P.n = sp.N - sp.d - D * s;
    P.qd = sp.q + s * SQ + 20 * (sp.p + s * SP); int mn = 15 + D * s; if (P.qd < mn) P.qd = mn;
    fit_t f = fit_new(sp); if (sp.cls) sarima_setMethod(f.o, 2); else arima_setMethod(f.o, 2); double *x = mc_buf(sp.N); memcpy(x, P.x, sizeof(double) * sp.N); fit_exec(&f, x, NULL); mc_ops(1); mc_bufcheck("bounds", x, sp.N);
    char nm[64]; snprintf(nm, 64, "status_%d", f.retval); mc_count(nm, 1);
    const char *id = spec_str(&sp); MC_CHECK(!memcmp(x, P.x, sizeof(double) * sp.N), "input", "%s: input modified", id);
    MC_CHECK(f.M == M, "mean flag", "%s: M = %d", id, f.M);
    if (f.retval == 1) {
        double c[16]; int k = 0; for (int i = 0; i < sp.p; i++) c[k++] = f.phi[i]; for (int i = 0; i < sp.q; i++) c[k++] = f.theta[i]; for (int i = 0; i < SP; i++) c[k++] = f.PHI[i]; for (int i = 0; i < SQ; i++) c[k++] = f.THETA[i]; if (M) c[k++] = f.mean; else MC_CHECK(f.mean == 0, "mean", "%s: differenced model reports mean %g", id, f.mean);
        int fin = isfinite(f.var); for (int i = 0; i < k; i++) fin &= isfinite(c[i]) != 0; MC_CHECK(fin, "finite", "%s %s: success with non-finite estimates", id, kname[kind]);
        if (!fin) goto out;
        ld *a = malloc(sizeof(ld) * (P.qd + sp.N)), *a2 = malloc(sizeof(ld) * (P.qd + sp.N)), *a3 = malloc(sizeof(ld) * (P.qd + sp.N)), S; int bad = ssq(&P, c, a, &S), m = P.qd + P.n - 1; mc_state_d(c, k);
        MC_CHECK(bad != 2, "admissible", "%s %s#%d: successful fit with a non-stationary or non-invertible polynomial (first coefficient %g)", id, kname[kind], seed, c[0]);
        if (bad) { free(a); free(a2); free(a3); goto out; }
        ld var = S / (P.n - na - M); mc_max("variance rel", fabsl(f.var / var - 1)); MC_CHECK(fabsl(f.var - var) <= 1e-6L * var, "variance", "%s %s#%d: variance %g, back-forecast sum of squares at the reported coefficients %Lg over %d degrees of freedom gives %Lg", id, kname[kind], seed, f.var, S, P.n - na - M, var);
        for (int i = 0; i < P.n; i++) { ld dd = fabsl(f.res[i] - a[P.qd - 1 + i]) / sqrtl(var); mc_max("residual", dd); if (dd > 1e-6L) { mc_fail("residuals", "%s %s#%d: residual %d is %g, difference equation gives %Lg", id, kname[kind], seed, i, f.res[i], a[P.qd - 1 + i]); break; } }
        model_t mo = mk(&P, c); ld nb[64]; for (int i = 0; i < mo.iq; i++) nb[i] = -mo.b[i]; ld am = ar_margin(mo.a, mo.ip), bm = ar_margin(nb, mo.iq), *g = malloc(sizeof(ld) * (P.n + 1)), Se, lg;
        if (am > 0.3L && bm > 0.3L && !ref_arma_acvf(mo.a, mo.ip, mo.b, mo.iq, g, P.n) && !innov(mo.w, P.n, g, NULL, &Se, &lg)) { mc_count("compared with the exact unconditional sum of squares", 1); mc_max("exact rel", fabsl(S / Se - 1)); MC_CHECK(fabsl(S / Se - 1) < (s > 4 ? 0.06L : 0.02L), "unconditional", "%s %s#%d: sum of squares %Lg, exact unconditional %Lg", id, kname[kind], seed, S, Se); }
        free(g); model_free(&mo);
        /* optimality along one and two coordinates */
        ld best = 0; for (int i = 0; i < k; i++) for (int j = i; j < k; j++) for (int sa = -1; sa <= 1; sa += 2) for (int sb = -1; sb <= 1; sb += 2) for (int h = 0; h < 3; h++) { if (i == j && sb == 1) continue; double d[16], hh = h == 0 ? 1e-3 : h == 1 ? 0.01 : 0.05; ld T; memcpy(d, c, sizeof d); double sd = sqrt((double)var); d[i] += sa * hh * (i >= na ? sd : 1); if (j != i) d[j] += sb * hh * (j >= na ? sd : 1); if (!ssq(&P, d, a2, &T) && (S - T) / var > best) best = (S - T) / var; }
        mc_max("improvement", best); if (best > 0.02L) if (getenv("C32M")) fprintf(stderr,"IMPROVE %s %s#%d %Lg  am %Lg bm %Lg c0 %g\n", id, kname[kind], seed, best, am, bm, c[0]); if (am > 0.15L && bm > 0.15L) mc_count("interior optima probed", 1); MC_CHECK(best <= 0.05L || am < 0.15L || bm < 0.15L, "optimal", "%s %s#%d: a neighbouring point lowers the sum of squares by %Lg residual variances", id, kname[kind], seed, best);
        /* covariance */
        ld *J = malloc(sizeof(ld) * (k + 1) * m), A[256], A0[256], B[256]; for (int i = 0; i < k; i++) { double d[16]; ld T, h = 1e-5L * (i >= na ? sqrtl(var) : 1); memcpy(d, c, sizeof d); d[i] = c[i] + h; ld hp = (ld)d[i] - c[i]; ssq(&P, d, a2, &T); d[i] = c[i] - h; ld hm = (ld)c[i] - d[i]; ssq(&P, d, a3, &T); for (int t = 0; t < m; t++) J[i * m + t] = (a2[t] - a3[t]) / (hp + hm); }
        ld sc[16]; for (int i = 0; i < k; i++) { sc[i] = 0; for (int t = 0; t < m; t++) sc[i] += J[i * m + t] * J[i * m + t]; sc[i] = sqrtl(sc[i]); }
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { ld v = 0; for (int t = 0; t < m; t++) v += J[i * m + t] * J[j * m + t]; A[i * k + j] = v / (sc[i] * sc[j]); } memcpy(A0, A, sizeof A);
        if (k && !inv(A, k, B)) { ld cd = 0; for (int i = 0; i < k; i++) if (B[i * k + i] > cd) cd = B[i * k + i]; if (cd < 1e5L && bm > 1e-3L) { int kv = sp.cls ? ((sarima_object)f.o)->lvcov : ((arima_object)f.o)->lvcov; MC_CHECK(kv == k * k, "covariance size", "%s: %d entries", id, kv); mc_count("covariance matrices compared", 1);
            for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { ld w = B[i * k + j] / (sc[i] * sc[j]) * var, si = sqrtl(B[i * k + i] * B[j * k + j]) / (sc[i] * sc[j]) * var, dd = fabsl(f.vcov[i * k + j] - w) / si; mc_max("covariance", dd / cd); if (dd > 1e-3L + 1e-5L * cd) { mc_fail("covariance", "%s %s#%d: entry (%d,%d) is %g, variance times inverse cross-product of the derivatives gives %Lg", id, kname[kind], seed, i, j, f.vcov[i * k + j], w); i = k; break; } } } }
        free(J);
        /* forecasts: difference equation beyond the shocks, long-run value */
        int L = 24; double fc[400], se[400]; mo = mk(&P, c); if (am > 0.25L && sp.d + D == 0 && s <= 4) L = 300; memset(fc, 0, sizeof fc); fit_predict(&f, x, NULL, L, NULL, fc, se); mc_ops(1); int full = 1 + sp.d + D * s + mo.ip; ld *dl = calloc(full + 8, sizeof(ld)); /* (phi * differences) */ dl[0] = 1; for (int i = 0; i < mo.ip; i++) dl[i + 1] = -mo.a[i]; int nd = mo.ip; for (int t = 0; t < sp.d; t++) { nd++; for (int i = nd; i >= 1; i--) dl[i] -= dl[i - 1]; } for (int t = 0; t < D; t++) { nd += s; for (int i = nd; i >= s; i--) dl[i] -= dl[i - s]; }
        ld mx = 0; for (int i = 0; i < sp.N; i++) if (fabsl(P.x[i]) > mx) mx = fabsl(P.x[i]);
        for (int h = mo.iq; h < L; h++) { ld v = M ? f.mean : 0; for (int t = 1; t <= nd; t++) { int at = h - t; v -= dl[t] * ((at >= 0 ? fc[at] : P.x[sp.N + at]) - (M ? f.mean : 0)); } if (fabsl(v - fc[h]) > 1e-6L * (1 + mx + fabsl(v))) { mc_fail("forecast", "%s %s#%d: forecast %d is %g, difference equation gives %Lg", id, kname[kind], seed, h + 1, fc[h], v); break; } }
        if (L == 300) MC_CHECK(fabs(fc[299] - f.mean) < 1e-4 * (1 + sqrt(f.var)), "reversion", "%s %s#%d: forecast 300 is %g, mean %g", id, kname[kind], seed, fc[299], f.mean);
        for (int h = 0; h < L; h++) MC_CHECK(se[h] > 0, "forecast error", "%s: MSE %d is %g", id, h + 1, se[h]);
        free(dl); model_free(&mo); free(a); free(a2); free(a3);
    } else mc_state(f.retval);
out: fit_free(&f); mc_buffree(x); free(P.x);
}
static int MC_ITER;
void mc_enumerate(void) {
    int T = mc_thorough; (void)MC_ITER;
    for (int p = 0; p <= (T ? 3 : 2); p++) for (int q = 0; q <= (T ? 3 : 2); q++) for (int d = 0; d <= 2; d++) for (int N = 40; N <= 80; N += 40) for (int k = 0; k < NKIND; k++) if (mc_case("arima(%d,%d,%d) N=%d %s", p, d, q, N, kname[k])) for (int sd = 0; sd < 8; sd++) one((spec_t){0, p, d, q, 0, 0, 0, 0, 0, 1, N}, k, sd);
    for (int p = 0; p <= (T ? 2 : 1); p++) for (int q = 0; q <= (T ? 2 : 1); q++) for (int d = 0; d <= 1; d++) for (int SP = 0; SP <= 1; SP++) for (int SQ = 0; SQ <= 1; SQ++) for (int D = 0; D <= 1; D++) for (int s = 4; s <= (T ? 12 : 4); s += 4) { if (s == 8) continue; for (int k = 0; k < NKIND; k++) if (mc_case("sarima(%d,%d,%d)(%d,%d,%d)%d %s", p, d, q, SP, D, SQ, s, kname[k])) for (int sd = 0; sd < 4; sd++) one((spec_t){1, p, d, q, SP, D, SQ, s, 0, 1, s == 4 ? 64 : 120}, k, sd); }
}
