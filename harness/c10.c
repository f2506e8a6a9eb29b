/* C10: recommended number of (seasonal) differences = first one at which the series is constant or the test stops asking */
#include "mc.h"
#include "unitroot.h"
#include "seastest.h"
#include "autoutils.h"
const char *mc_property = "C10";
enum { T_KPSS, T_DF, T_ADF, T_PP, NT };
static const char *tn[] = {"kpss", "df", "adf", "pp"};
enum { F_WALK, F_DRIFT, F_I2, F_TREND, F_WHITE, F_AR, F_NEAR, F_SEAS, F_SWALK, F_LIN, F_QUAD, F_PER, F_STEP, F_NEGMA, NF };
static const char *fn[] = {"walk", "walk+drift", "I(2)", "trend", "white", "AR(.5)", "AR(.97)", "seasonal", "seasonal walk", "linear", "quadratic", "periodic", "step", "noninvertible"};
static void mk(int k, int n, int f, int seed, double *x) { mc_rng g; mc_seed(&g, 131 * k + 17 * seed + f); double s = 0, s2 = 0, a = 0, b = 0, pe = 0; double h[64] = {0};
    for (int t = 0; t < n; t++) { double e = mc_n(&g); s += e; s2 += s; a = .5 * a + e; b = .97 * b + e; h[t % f] += e; double p = (t % f) * 5 % 7;
        switch (k) { case F_WALK: x[t] = s; break; case F_DRIFT: x[t] = s + .5 * t; break; case F_I2: x[t] = s2; break; case F_TREND: x[t] = .2 * t + e; break; case F_WHITE: x[t] = e; break; case F_AR: x[t] = a; break; case F_NEAR: x[t] = b; break; case F_SEAS: x[t] = 3 * p + e; break; case F_SWALK: x[t] = h[t % f] + p; break; case F_LIN: x[t] = 3 + 2 * t; break; case F_QUAD: x[t] = t * t - 5; break; case F_PER: x[t] = p; break; case F_STEP: x[t] = (t > n / 3) * 8 + .5 * e; break; default: x[t] = e - pe; } pe = e; } }
static int constant(const double *x, int n) { for (int i = 1; i < n; i++) if (x[i] != x[0]) return 0; return 1; }
/* table p-value by linear interpolation through (critical value, probability), clamped */
static double pinterp(const double *cv, double st) { static const double P[3] = {.01, .05, .1}; if (st != st) return NAN; if (st <= cv[0]) return P[0]; if (st >= cv[2]) return P[2]; int i = st > cv[1]; return P[i] + (P[i + 1] - P[i]) * (st - cv[i]) / (cv[i + 1] - cv[i]); }
/* does the configured test ask for another difference?  edge: p within rounding of the level */
static int asks(double *x, int n, int test, int trend, double alpha, int *edge) { double st, p, cv[9], cp[3], ts[3], ax[2]; int r, c, l, k; *edge = 0;
    if (test == T_KPSS) { k = (int)(3 * sqrt(n) / 13); ur_kpss(x, n, trend ? "trend" : "level", 1, &k, &st, &p); *edge = fabs(p - alpha) < 1e-12 && p > .01 && p < .1; return p < alpha; }
    if (test == T_PP) { ur_pp2(x, n, "Z-tau", trend ? "trend" : "constant", 1, NULL, cv, cp, ax, &l, &st); p = pinterp(cv, st); }
    else { k = 1; ur_df2(x, n, trend ? "trend" : "drift", &k, "fixed", cv, &r, &c, cp, ts, &l); p = pinterp(cv, ts[0]); }
    *edge = fabs(p - alpha) < 1e-12 && p > .01 && p < .1; return p > alpha; }
static int minlen(int test, int trend) { return test == T_KPSS ? 4 + trend : 8; }
static void check_n(const double *x0, int n, const char *nm, int few) { static const double AL[] = {-1, .05, .01, .1, .03, .075, .001, .5};
    for (int te = 0; te < NT; te++) for (int tr = 0; tr < 2; tr++) for (int ai = 0; ai < (mc_thorough ? few ? 4 : 8 : few ? 2 : n > 60 ? 3 : 8); ai++) { double al = AL[ai] < 0 ? .05 : AL[ai] < .01 ? .01 : AL[ai] > .1 ? .1 : AL[ai];
        /* expected number for every maximum, from one walk */
        int ask[6], top = -1, stop = 0, edge = 0; double y[400]; memcpy(y, x0, sizeof(double) * n); int m = n; for (int d = 0; d <= 4; d++) { if (m < minlen(te, tr)) { stop = 1; break; } int c = constant(y, m), e; ask[d] = c ? 0 : asks(y, m, te, tr, al, &e); if (!c && e) edge = 1; top = d; if (!ask[d]) break; for (int i = 0; i + 1 < m; i++) y[i] = y[i + 1] - y[i]; m--; }
        if (edge) { mc_count("p-value at the level", 1); continue; }
        for (int mx = -1; mx <= 4 && mc_ok(); mx++) { if ((few || n > 60) && !mc_thorough && (mx == 1 || mx == 4)) continue; int M = mx < 0 ? 2 : mx; if (stop && M > top) continue; int e = 0; while (e < M && ask[e]) e++; double *x = mc_buf(n); memcpy(x, x0, sizeof(double) * n); double a = AL[ai]; int md = mx; int got = ndiffs(x, n, AL[ai] < 0 ? NULL : &a, tn[te], tr ? "trend" : "level", mx < 0 ? NULL : &md); mc_ops(1);
            MC_CHECK(got == e, "number of differences", "ndiffs %s N=%d %s %s alpha %g max %d: %d, sequential rule gives %d", nm, n, tn[te], tr ? "trend" : "level", AL[ai], mx, got, e); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", nm); MC_CHECK(md == mx && a == AL[ai], "settings modified", "%s", nm); mc_bufcheck("series", x, n); mc_buffree(x); mc_state(te + 10 * tr + 100 * e + 1000 * M + 10000 * ai); char cn[24]; snprintf(cn, 24, "d=%d", e); mc_count(cn, 1); } } }
static int asks_s(double *x, int n, int f, int ocsb, int *edge) { double st, cr; *edge = 0; if (ocsb) OCSBtest(x, n, f, 3, "aic", &st, &cr); else { int p = f; SHtest(x, n, &p, 1, &st); cr = .64; *edge = fabs(st - cr) < 1e-12; } return st > cr; }
/* (1-B)(1-B^f) of the series is constant: the OCSB regression is singular and the library refuses */
static int flat(const double *y, int n, int f) { double w[600]; for (int i = f + 1; i < n; i++) w[i - f - 1] = y[i] - y[i - 1] - y[i - f] + y[i - f - 1]; return constant(w, n - f - 1); }
static void check_s(const double *x0, int n, int f, const char *nm) { static const double AL[] = {-1, .05, .01, .5};
    for (int oc = 0; oc < 2; oc++) { int ask[6] = {0}, top = -1, stop = 0, edge = 0; double y[600]; memcpy(y, x0, sizeof(double) * n); int m = n; for (int d = 0; d <= 3; d++) { int c = constant(y, m), e = 0; if (m < 8 || (oc && !c && (m < f + 24 || flat(y, m, f)))) { stop = 1; break; } ask[d] = c || f <= 1 ? 0 : asks_s(y, m, f, oc, &e); if (e) edge = 1; top = d; if (!ask[d]) break; for (int i = 0; i + f < m; i++) y[i] = y[i + f] - y[i]; m -= f; if (m < 3) { stop = 1; break; } }
        if (edge) continue;
        for (int ai = 0; ai < 4; ai++) for (int mx = -1; mx <= 3 && mc_ok(); mx++) { int M = mx < 0 ? 1 : mx; if (stop && M > top) continue; int e = 0; while (e < M && ask[e]) e++; double *x = mc_buf(n); memcpy(x, x0, sizeof(double) * n); double a = AL[ai]; int md = mx, got = nsdiffs(x, n, f, AL[ai] < 0 ? NULL : &a, oc ? "ocsb" : "seas", mx < 0 ? NULL : &md); mc_ops(1); MC_CHECK(got == e, "number of seasonal differences", "nsdiffs %s N=%d f=%d %s max %d: %d, sequential rule gives %d", nm, n, f, oc ? "ocsb" : "seas", mx, got, e); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", nm); MC_CHECK(md == mx && a == AL[ai], "settings modified", "%s", nm); mc_bufcheck("series", x, n); mc_buffree(x); mc_state(777 + oc + 10 * f + 1000 * e + 100000 * M); char cn[24]; snprintf(cn, 24, "D=%d", e); mc_count(cn, 1); } } }
static void shortall(int n, int block, int blocks) { int tot = 1; for (int i = 0; i < n; i++) tot *= 3; static const double V[] = {0, 1, 3}; for (int c = block; c < tot && mc_ok(); c += blocks) { double x[16]; char nm[20]; int q = c; for (int i = 0; i < n; i++, q /= 3) { x[i] = V[q % 3]; nm[i] = '0' + (int)x[i]; } nm[n] = 0; if (!mc_thorough && x[0] != 0) continue; check_n(x, n, nm, 1); int cst = constant(x, n); MC_CHECK(is_constant(x, n) == cst, "constancy", "is_constant(%s)", nm); } }
void mc_enumerate(void) { mc_case_limit = 300;
    for (int n = 4; n <= (mc_thorough ? 8 : 6); n++) { int bl = n < 7 ? 4 : n == 7 ? 16 : 48; for (int b = 0; b < bl; b++) if (mc_case("ternary n=%d block %d/%d", n, b, bl)) shortall(n, b, bl); }
    for (int n = 10; n <= 12; n += 2) for (int b = 0; b < 16; b++) if (mc_case("binary n=%d block %d/16", n, b)) for (int c = b; c < 1 << (n - 1); c += mc_thorough ? 16 : 160) { double x[16]; char nm[20]; for (int i = 0; i < n; i++) { x[i] = c >> i & 1; nm[i] = '0' + (c >> i & 1); } nm[n] = 0; check_n(x, n, nm, 1); }
    static const int N[] = {8, 12, 15, 18, 19, 20, 25, 26, 30, 40, 51, 75, 76, 100, 101, 150, 169, 250, 301}; for (unsigned i = 0; i < sizeof N / sizeof *N; i++) for (int k = 0; k < NF; k++) for (int s = 0; s < (mc_thorough ? 4 : 1); s++) if ((mc_thorough || (N[i] != 250 && N[i] != 150 && N[i] != 100 && N[i] != 75)) && mc_case("structured N=%d %s #%d", N[i], fn[k], s)) { double x[400]; mk(k, N[i], 4, s, x); check_n(x, N[i], fn[k], 0); }
    for (int f = 1; f <= 12; f++) for (int k = 0; k < NF; k++) for (int j = 0; j < (mc_thorough ? 8 : 4); j++) { int n = 2 * f + 4 + j * (f + 11); if (n > 400) continue; if (mc_case("seasonal f=%d N=%d %s", f, n, fn[k])) for (int s = 0; s < (mc_thorough ? 6 : 2); s++) { double x[600]; mk(k, n, f, s, x); check_s(x, n, f, fn[k]); } }
    for (int n = 3; n <= 40; n++) if (mc_case("constant N=%d", n)) { double x[40]; static const double V[] = {0, -3, 1e-300, 1e300, 0.1}; for (int v = 0; v < 5; v++) { for (int i = 0; i < n; i++) x[i] = V[v]; for (int t = 0; t < NT; t++) for (int tr = 0; tr < 2; tr++) { int mx = 2; MC_CHECK(ndiffs(x, n, NULL, tn[t], tr ? "trend" : "level", &mx) == 0, "constant series", "N=%d value %g %s", n, V[v], tn[t]); } for (int f = 1; f < 6; f++) for (int oc = 0; oc < 2; oc++) MC_CHECK(nsdiffs(x, n, f, NULL, oc ? "ocsb" : "seas", NULL) == 0, "constant series", "seasonal N=%d f=%d", n, f); mc_ops(1); } }
}
