/* C02: fits are optimal for the objective they claim to optimise */
#include "arima.h"
#define EDGE_TOL 10.0
#define LAT_TOL 1.0
#define AGREE_TOL 1.5
#define WALL 2e-5L
const char *mc_property = "C02";
typedef struct { spec_t sp; double *x, *xr; int method, k; } prob_t;
/* coefficient vector layout: phi, theta(reported sign), PHI, THETA, mean, exog ; returns minus the log-likelihood-scale objective (n/2 log etc), larger is better */
static int objective(const prob_t *P, const double *c, double *val) {
    const spec_t *s = &P->sp; int k = 0; const double *phi = c; k += s->p; const double *th = c + k; k += s->q; const double *PHI = c + k; k += s->P; const double *TH = c + k; k += s->Q;
    double mean = 0; if (spec_hasmean(s)) mean = c[k++]; const double *ex = c + k;
    model_t m = model_of(s, phi, th, PHI, TH, mean, ex, P->x, P->xr); int bad = 0;
    if (P->method < 2) { ld ll, var; bad = model_ml(&m, &ll, &var, NULL); *val = (double)ll; }
    else { ld ssq, *e = malloc(sizeof(ld) * (m.n + 1)); int used; model_css(&m, &ssq, &used, e); free(e); *val = (double)(-0.5L * used * logl(ssq / used)); }
    model_free(&m); return bad || !isfinite(*val);
}
static void margins(const prob_t *P, const double *c, ld *am, ld *bm) { const spec_t *s = &P->sp; const double *th = c + s->p, *PH = th + s->q, *TH = PH + s->P; double z[16] = {0}; model_t m = model_of(s, c, th, PH, TH, 0, z, P->x, P->xr); ld nb[64]; for (int i = 0; i < m.iq; i++) nb[i] = -m.b[i]; *am = ar_margin(m.a, m.ip); *bm = ar_margin(nb, m.iq); model_free(&m); }
static const char *optn[] = {"nm", "nt_ls", "nt_hook", "nt_dogleg", "cg", "bfgs", "lbfgs", "bfgs_mt"};
static void one(spec_t sp, int kind, int seed, int method, unsigned opts) {
    prob_t P = {sp, malloc(sizeof(double) * sp.N), malloc(sizeof(double) * sp.N * (sp.r + 1)), method, 0};
    series(kind, seed, sp.N, P.x); regressors(sp.r, sp.N, 0, P.xr);
    if (sp.cls == 2) for (int i = 0; i < sp.N; i++) for (int j = 0; j < sp.r; j++) P.x[i] += (j + 0.5) * P.xr[j * sp.N + i];
    int na = sp.p + sp.q + sp.P + sp.Q; P.k = na + (spec_hasmean(&sp) ? 1 : 0) + (sp.cls == 2 ? sp.r : 0);
    double val[8], cc[8][16]; int okc[8];
    for (int o = 0; o < 8; o++) { okc[o] = 0; if (!(opts >> o & 1)) continue;
        fit_t f = fit_new(sp); fit_method(&f, method, o); fit_exec(&f, P.x, sp.cls == 2 && sp.r ? P.xr : NULL); mc_ops(1);
        char nm[48]; snprintf(nm, 48, "rv_%s_%s_%d", method == 2 ? "css" : method ? "ml" : "cssml", optn[o], f.retval); mc_count(nm, 1);
        if (f.retval == 1) {
            int k = 0; for (int i = 0; i < sp.p; i++) cc[o][k++] = f.phi[i]; for (int i = 0; i < sp.q; i++) cc[o][k++] = f.theta[i];
            if (sp.cls) { for (int i = 0; i < sp.P; i++) cc[o][k++] = f.PHI[i]; for (int i = 0; i < sp.Q; i++) cc[o][k++] = f.THETA[i]; }
            if (spec_hasmean(&sp)) cc[o][k++] = f.mean; if (sp.cls == 2) for (int j = 0; j < sp.r; j++) cc[o][k++] = f.exog[j];
            if (!objective(&P, cc[o], &val[o])) { okc[o] = 1; mc_state_d(&val[o], 1); }
        }
        fit_free(&f);
    }
    int wall[8] = {0}; static const char *mn[] = {"cssml", "ml", "css"}; char nm[64];
    for (int o = 0; o < 8; o++) if (okc[o]) {
        /* local: every one- and two-coordinate move of two sizes */
        double worst = 0, c[16]; int wi = -1, wj = -1; ld am, bm;
        for (int i = 0; i < P.k; i++) for (int j = i; j < P.k; j++) for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2) for (int hh = 0; hh < 2; hh++) {
            if (i == j && b == 1) continue; double h = hh ? 0.01 : 0.03, v; memcpy(c, cc[o], sizeof c);
            c[i] += a * h * (i >= na ? fabs(c[i]) + 1 : 1); if (j != i) c[j] += b * h * (j >= na ? fabs(c[j]) + 1 : 1);
            if (!objective(&P, c, &v) && v - val[o] > worst) { worst = v - val[o]; wi = i; wj = j; }
        }
        margins(&P, cc[o], &am, &bm); int interior = am > 0.05L && bm > 0.05L;
        snprintf(nm, 64, "%s_%s_%s", interior ? "local" : "edge", mn[method], optn[o]); mc_max(nm, worst);
        if (interior) { double tol = o == 4 || o >= 6 ? 1.0 : 0.3; if (worst > tol) mc_fail("local", "%s: moving coefficient %d/%d raises the log-likelihood (scale) by %.4g (tolerance %g) from %.8g; margins %.3Lg %.3Lg", optn[o], wi, wj, worst, tol, val[o], am, bm); }
        else if (worst > EDGE_TOL) { wall[o] = o >= 1 && o <= 3 && method < 2 && am < WALL; snprintf(nm, 64, "%s-%s", wall[o] ? "wall" : "edge", optn[o]); mc_fail(nm, "%s: reported success near the boundary (margins %.3Lg %.3Lg) where a small move of coefficient %d/%d raises the log-likelihood (scale) by %.4g from %.8g", optn[o], am, bm, wi, wj, worst, val[o]); }
    }
    /* lattice over the ARMA coefficients; the remaining (regression) coefficients are kept at the best fit's */
    int bo = -1; for (int o = 0; o < 8; o++) if (okc[o] && (bo < 0 || val[o] > val[bo])) bo = o;
    if (na <= 2 && na > 0) {
        double G[21][21], c[16] = {0}; int nb = na > 1 ? 19 : 1, ia = 0, ib = 0, nmax = 0;
        if (bo >= 0) memcpy(c, cc[bo], sizeof c);
        for (int a = 0; a < 21; a++) for (int b = 0; b < 21; b++) G[a][b] = -1e300;
        for (int a = 0; a < 19; a++) for (int b = 0; b < nb; b++) { double v; c[0] = (a - 9) / 10.0 * (sp.p == 2 ? 2 : 1); if (na > 1) c[1] = (b - 9) / 10.0; if (!objective(&P, c, &v)) G[a + 1][b + 1] = v; if (G[a + 1][b + 1] > G[ia][ib]) { ia = a + 1; ib = b + 1; } }
        for (int a = 1; a <= 19; a++) for (int b = 1; b <= nb; b++) if (G[a][b] > -1e299) { int top = 1; for (int u = -1; u <= 1; u++) for (int w = -1; w <= 1; w++) if ((u || w) && G[a + u][b + w] >= G[a][b]) top = 0; nmax += top; }
        int inner = ia > 2 && ia < 18 && (na < 2 || (ib > 2 && ib < 18)) && (na < 2 || sp.p != 2 || fabs((ib - 10) / 10.0) < 0.85);
        int single = nmax == 1 && inner; mc_count(single ? "single-optimum" : "several-or-edge", 1);
        for (int o = 0; o < 8; o++) if (opts >> o & 1) {
            if (!okc[o]) { if (single) { snprintf(nm, 64, "failed_%s_%s", mn[method], optn[o]); mc_count(nm, 1); if (getenv("C02M")) fprintf(stderr, "FAILED %s %s %s m%d\n", optn[o], kname[kind], spec_str(&sp), method); } continue; }
            snprintf(nm, 64, "%s_%s_%s", single ? "lattice" : "latmulti", mn[method], optn[o]); mc_max(nm, G[ia][ib] - val[o]);
            if (!single || wall[o]) continue;
            if (G[ia][ib] - val[o] > LAT_TOL) { snprintf(nm, 64, "lattice-%s", optn[o]); mc_fail(nm, "%s: lattice point %g %g has log-likelihood (scale) %.6g, the fit only %.6g, and the objective has a single optimum", optn[o], (ia - 10) / 10.0 * (sp.p == 2 ? 2 : 1), na > 1 ? (ib - 10) / 10.0 : 0, G[ia][ib], val[o]); }
            snprintf(nm, 64, "agree_%s_%s", mn[method], optn[o]); mc_max(nm, val[bo] - val[o]);
            if (val[bo] - val[o] > AGREE_TOL) { snprintf(nm, 64, "agree-%s", optn[o]); mc_fail(nm, "%s: reaches %.6g while %s reaches %.6g and the objective has a single optimum", optn[o], val[o], optn[bo], val[bo]); }
        }
    }
    free(P.x); free(P.xr);
}
void mc_enumerate(void) {
    mc_case_limit = 120; int T = mc_thorough;
    static const int O[][5] = {{1,0,0,0,0},{0,1,0,0,0},{1,1,0,0,0},{2,0,0,0,0},{0,2,0,0,0},{0,0,1,0,4},{0,0,0,1,4},{1,0,1,0,4},{0,1,0,1,4},{2,1,0,0,0},{1,1,1,1,4}};
    for (int seed = 5; seed <= (T ? 9 : 5); seed++) for (int N = 60; N <= (T ? 120 : 60); N += 60) for (int kind = 0; kind < NKIND; kind++) for (int k = 0; k < 11; k++) for (int dd = 0; dd < 3; dd++) for (int cls = 0; cls < 3; cls++) for (int m = 0; m < 3; m++) {
        spec_t s = {cls, O[k][0], dd == 1, O[k][1], O[k][2], dd == 2, O[k][3], O[k][4], 0, 1, N}; if (dd == 2 && !s.s) continue; if (cls == 0 && s.s) continue;
        if (cls == 2) s.r = kind % 3;
        if (mc_case("%s %s m%d seed%d", kname[kind], spec_str(&s), m, seed)) one(s, kind, seed, m, 0xff);
    }
    if (!T) { spec_t s = {0, 1, 1, 0, 0, 0, 0, 0, 0, 1, 60}; if (mc_case("ma2 %s m1 seed7", spec_str(&s))) one(s, 9, 7, 1, 0xff); }
}
