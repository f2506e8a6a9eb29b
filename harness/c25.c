/* C25: psi/pi weights and theoretical autocovariances */
#include "mc.h"
#include "ref.h"
#include "talg.h"
const char *mc_property = "C25";
static const double PAC[] = {0, 0.5, -0.4, 0.9, -0.85};
static const double TH[] = {0, 0.6, -0.5, 1.0, 1.7};
static void par2ar(const double *r, int p, double *phi) { double t[8]; for (int k = 0; k < p; k++) { for (int i = 0; i < k; i++) t[i] = phi[i] - r[k] * phi[k - 1 - i]; memcpy(phi, t, sizeof(double) * k); phi[k] = r[k]; } }
static void one(const double *phi, const double *th, int p, int q) {
    ld a[8], b[8], psi[64]; for (int i = 0; i < p; i++) a[i] = phi[i]; for (int i = 0; i < q; i++) b[i] = th[i];
    static const int J[] = {1, 2, 3, 5, 8, 40}; double ph[8], t[8]; memcpy(ph, phi, sizeof(double) * p); memcpy(t, th, sizeof(double) * q);
    for (int k = 0; k < 6; k++) { int j = J[k]; double *w = mc_buf(j);
        psiweight(ph, t, w, p, q, j); mc_ops(1); mc_bufcheck("bounds", w, j); ref_psi(a, p, b, q, psi, j); for (int i = 0; i < j; i++) MC_CHECK(mc_close(w[i], (double)psi[i], 1e-11, 1e-11), "psi", "p=%d q=%d psi[%d] = %g, theta/phi gives %Lg", p, q, i, w[i], psi[i]);
        /* pi: piw(B) theta(B) = phi(B) with piw_0 = 1, phi(B) = 1 - sum phi_i B^i */
        mc_buffree(w); w = mc_buf(j); piweight(ph, t, w, p, q, j); mc_ops(1); mc_bufcheck("bounds", w, j); ld na[8], nb[8]; for (int i = 0; i < p; i++) nb[i] = -phi[i]; for (int i = 0; i < q; i++) na[i] = -th[i]; ref_psi(na, q, nb, p, psi, j);
        for (int i = 0; i < j; i++) MC_CHECK(mc_close(w[i], (double)psi[i], 1e-9 * (1 + fabs((double)psi[i])), 1e-9), "pi", "p=%d q=%d pi[%d] = %g, phi/theta gives %Lg", p, q, i, w[i], psi[i]); mc_buffree(w); }
    ld g[64]; if (ref_arma_acvf(a, p, b, q, g, 40)) return; double first[40];
    static const int LG[] = {40, 1, 2, 4, 7, 20}; static const double V[] = {1, 2.5};
    for (int k = 0; k < 6; k++) for (int v = 0; v < 2; v++) { int L = LG[k]; double *w = mc_buf(L); arma_autocovar(ph, t, p, q, V[v], w, L); mc_ops(1); mc_bufcheck("bounds", w, L);
        for (int i = 0; i < L; i++) { MC_CHECK(mc_close(w[i], (double)(V[v] * g[i]), 1e-9 * (double)(V[v] * g[0]), 1e-9), "acvf", "p=%d q=%d lags=%d var=%g: autocovariance %d = %g, psi-weight sum %Lg", p, q, L, V[v], i, w[i], V[v] * g[i]); }
        if (k == 0) mc_state_d(w, L); mc_buffree(w); }
    MC_CHECK(!memcmp(ph, phi, sizeof(double) * p) && !memcmp(t, th, sizeof(double) * q), "input", "coefficients modified");
    /* twacf: autocovariances for unit variance with Box-Jenkins signs, cross covariances = psi weights */
    int m = p > q ? p : q; double nq[8]; for (int i = 0; i < q; i++) nq[i] = -th[i];
    for (int MA = m + 1; MA <= m + 12; MA += 11) { double *acf = mc_buf(MA), *cv = mc_buf(m + 1), *al = mc_buf(m > 0 ? m : 1); int f = twacf(ph, p, nq, q, acf, MA, cv, m + 1, al, m); mc_ops(1); mc_bufcheck("bounds", acf, MA); mc_bufcheck("bounds", cv, m + 1);
        MC_CHECK(f == 0, "twacf", "fault %d", f); ref_psi(a, p, b, q, psi, m + 1);
        if (!f) { for (int i = 0; i < MA; i++) MC_CHECK(mc_close(acf[i], (double)g[i], 1e-8 * (double)g[0], 1e-8), "twacf", "p=%d q=%d MA=%d acvf[%d] = %g want %Lg", p, q, MA, i, acf[i], g[i]); for (int i = 0; i <= q; i++) MC_CHECK(mc_close(cv[i], (double)psi[i], 1e-10, 1e-10), "twacf psi", "p=%d q=%d psi[%d]=%g want %Lg", p, q, i, cv[i], psi[i]); }
        mc_buffree(acf); mc_buffree(cv); mc_buffree(al); }
}
void mc_enumerate(void) {
    int T = mc_thorough, mx = T ? 4 : 3;
    for (int p = 0; p <= mx; p++) for (int q = 0; q <= mx; q++) for (int f = 0; f < 5; f++) if (mc_case("weights p=%d q=%d first=%d", p, q, f)) {
        int tp = 1, tq = 1; for (int i = 0; i < p; i++) tp *= 5; for (int i = 0; i < q; i++) tq *= 5;
        for (int x = 0; x < tp; x++) for (int y = 0; y < tq; y++) { if ((x + y) % 5 != f) continue; double r[8], phi[8], th[8]; int c = x; for (int i = 0; i < p; i++, c /= 5) r[i] = PAC[c % 5]; par2ar(r, p, phi); c = y; for (int i = 0; i < q; i++, c /= 5) th[i] = TH[c % 5]; one(phi, th, p, q); }
    }
    for (int p = 4; p <= 7; p++) for (int q = 0; q <= 7; q++) if (mc_case("high p=%d q=%d", p, q)) for (int k = 0; k < 5; k++) { double r[8], phi[8], th[8]; for (int i = 0; i < p; i++) r[i] = PAC[(i * 2 + k) % 5] * 0.8; par2ar(r, p, phi); for (int i = 0; i < q; i++) th[i] = TH[(i + k) % 5] * 0.7; one(phi, th, p, q); }
    /* argument checks of twacf */
    if (mc_case("twacf faults")) { double P[2] = {0.5, 0}, Q[2] = {0.3, 0}, A[8], C[8], L[8]; MC_CHECK(twacf(P, 1, Q, 1, A, 4, C, 2, L, 2) != 0, "twacf fault", "wrong MXPQ accepted"); MC_CHECK(twacf(P, 1, Q, 1, A, 4, C, 3, L, 1) != 0, "twacf fault", "wrong MXPQ1 accepted"); MC_CHECK(twacf(P, 1, Q, 1, A, 1, C, 2, L, 1) != 0, "twacf fault", "short ACF accepted"); P[0] = 1; MC_CHECK(twacf(P, 1, Q, 1, A, 4, C, 2, L, 1) != 0, "twacf fault", "unit root accepted"); mc_ops(4); mc_state(4); }
}
