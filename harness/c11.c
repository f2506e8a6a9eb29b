/* C11: unit-root and seasonality statistics against textbook long-double computations */
#include "mc.h"
#include "ref.h"
#include "stlref.h"
#include "unitroot.h"
#include "seastest.h"
#include "talg.h"
const char *mc_property = "C11";
enum { F_WALK, F_DRIFT, F_TREND, F_AR, F_NEAR, F_WHITE, F_SEAS, F_STEP, F_MA, F_OUT, NF };
static const char *fn[] = {"walk", "walk+drift", "trend+noise", "AR(.5)", "AR(.97)", "white", "seasonal", "step", "MA(-.8)", "outlier walk"};
static void mk(int k, int n, int seed, double *x) {
    mc_rng g; mc_seed(&g, 97 * k + seed); double s = 0, a = 0, b = 0, pe = 0;
    for (int t = 0; t < n; t++) { double e = mc_n(&g); s += e; a = 0.5 * a + e; b = 0.97 * b + e;
        switch (k) { case F_WALK: x[t] = s; break; case F_DRIFT: x[t] = s + 0.3 * t; break; case F_TREND: x[t] = 2 - 0.05 * t + e; break; case F_AR: x[t] = 3 + a; break; case F_NEAR: x[t] = b; break; case F_WHITE: x[t] = 7 + e; break;
        case F_SEAS: x[t] = 2 * ((t * 5) % 4) + e; break; case F_STEP: x[t] = e + (t > n / 2) * 4; break; case F_MA: x[t] = e - 0.8 * pe; break; default: x[t] = s + (t % 13 == 5) * 20; } pe = e; } }
/* ---- reference least squares */
typedef struct { ld b[40], se[40], rss, tss; int n, k, bad; ld *res; } ols;
static ols fit(ld *X, const ld *y, int n, int k) { /* X row-major n x k */
    ols o; memset(&o, 0, sizeof o); o.n = n; o.k = k; o.res = calloc(n + 1, sizeof(ld)); for (int i = 0; i < n; i++) o.tss += y[i] * y[i];
    if (n <= k) { o.bad = 1; return o; }
    if (k == 0) { o.rss = o.tss; for (int i = 0; i < n; i++) o.res[i] = y[i]; return o; }
    ld *inv = calloc(k * k, sizeof(ld)); o.bad = ref_ols(X, y, n, k, o.b, &o.rss, inv);
    if (!o.bad) for (int j = 0; j < k; j++) { ld ss = 0; for (int i = 0; i < n; i++) ss += X[i * k + j] * X[i * k + j]; o.se[j] = sqrtl(o.rss / (n - k) * inv[j * k + j]); if (!(ss * inv[j * k + j] < 1e9L) || !(inv[j * k + j] > 0)) o.bad = 1; }
    if (!o.bad) for (int i = 0; i < n; i++) { ld e = y[i]; for (int j = 0; j < k; j++) e -= X[i * k + j] * o.b[j]; o.res[i] = e; }
    if (!(o.rss > 1e-11L * o.tss)) o.bad = 1; /* exact fit: t ratios undefined */
    free(inv); return o; }
static ld interp(const ld *x, const ld *y, int n, ld z) { if (z <= x[0]) return y[0]; if (z >= x[n - 1]) return y[n - 1]; int i = 0; while (z > x[i + 1]) i++; return y[i] + (y[i + 1] - y[i]) * (z - x[i]) / (x[i + 1] - x[i]); }
static const ld PR[8] = {.01L, .025L, .05L, .1L, .9L, .95L, .975L, .99L}, NT[6] = {25, 50, 100, 250, 500, 100000};
static const ld DF[8][6] = {{4.38,4.15,4.04,3.99,3.98,3.96},{3.95,3.80,3.73,3.69,3.68,3.66},{3.60,3.50,3.45,3.43,3.42,3.41},{3.24,3.18,3.15,3.13,3.13,3.12},{1.14,1.19,1.22,1.23,1.24,1.25},{.80,.87,.90,.92,.93,.94},{.50,.58,.62,.64,.65,.66},{.15,.24,.28,.31,.32,.33}};
static const ld ZA[8][6] = {{22.5,25.7,27.4,28.4,28.9,29.5},{19.9,22.4,23.6,24.4,24.8,25.1},{17.9,19.8,20.7,21.3,21.5,21.8},{15.6,16.8,17.5,18.0,18.1,18.3},{3.66,3.71,3.74,3.75,3.76,3.77},{2.51,2.60,2.62,2.64,2.65,2.66},{1.53,1.66,1.73,1.78,1.78,1.79},{.43,.65,.75,.82,.84,.87}};
static ld table_p(const ld t[8][6], int n, ld stat) { ld c[8]; for (int i = 0; i < 8; i++) { ld v[6]; for (int j = 0; j < 6; j++) v[j] = -t[i][j]; c[i] = interp(NT, v, 6, n); } return interp(c, PR, 8, stat); }
static ld longrun(const ld *u, int n, int l) { ld s = 0; for (int i = 0; i < n; i++) s += u[i] * u[i]; for (int k = 1; k <= l && k < n; k++) { ld c = 0; for (int i = k; i < n; i++) c += u[i] * u[i - k]; s += 2 * (1 - (ld)k / (l + 1)) * c; } return s / n; }
static double TL;
static void eq(const char *tag, const char *w, double g, ld e) { ld sc = fabsl(e) > 1 ? fabsl(e) : 1; MC_CHECK(fabsl(g - e) <= TL * sc, tag, "%s: %.12g, definition gives %.12Lg", w, g, e); mc_max("relative error", (double)(fabsl(g - e) / sc)); }
static int shortlag(int n, int s) { return (int)((s ? 4.0 : 12.0) * pow(n / 100.0, 0.25)); }
/* ---- KPSS */
static void kpss(double *x, int n, const char *nm) { double *x0 = malloc(sizeof(double) * n); memcpy(x0, x, sizeof(double) * n); ld *X = malloc(sizeof(ld) * n * 2), *y = malloc(sizeof(ld) * n);
    for (int tr = 0; tr < (n > 6000 ? 1 : 2); tr++) { int k = tr + 1; for (int i = 0; i < n; i++) { y[i] = x[i]; X[i * k] = 1; if (tr) X[i * k + 1] = i + 1; } ols o = fit(X, y, n, k); if (!tr) { ld m = o.b[0], v = 0; for (int i = 0; i < n; i++) v += (y[i] - m) * (y[i] - m); o.bad = v <= 1e-11L * o.tss; }
        if (o.bad) { mc_count("degenerate regressions", 1); free(o.res); continue; }
        for (int ls = 0; ls < 2; ls++) for (int kl = -2; kl <= (n < 60 ? mc_thorough ? 6 : 4 : n > 2000 ? -2 : n > 150 && !mc_thorough ? 1 : 2) && mc_ok(); kl++) { if (n > 6000 && !ls) continue; int lag = kl, L = kl > 0 ? kl : shortlag(n, ls); double st = -99, pv = -99; ur_kpss(x, n, tr ? "trend" : "level", ls, kl == -2 ? NULL : &lag, &st, &pv); mc_ops(1);
            char w[200]; snprintf(w, 200, "kpss %s N=%d %s lshort %d lag %d", nm, n, tr ? "trend" : "level", ls, kl); ld eta = 0, c = 0; for (int i = 0; i < n; i++) { c += o.res[i]; eta += c * c; } ld s2 = longrun(o.res, n, L), e = eta / ((ld)n * n) / s2;
            if (kl > -2) MC_CHECK(lag == L, "lag", "%s: %d, expected %d", w, lag, L); eq("KPSS statistic", w, st, e); static const ld TA[2][4] = {{.347L,.463L,.574L,.739L},{.119L,.146L,.176L,.216L}}, P[4] = {.1L,.05L,.025L,.01L}; eq("KPSS p-value", w, pv, interp(TA[tr], P, 4, e)); mc_state_d(&st, 1); }
        free(o.res); }
    MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "kpss %s", nm); free(x0); free(X); free(y); }
/* ---- augmented Dickey-Fuller regression: dy_t on [const] [trend] y_{t-1} and L lagged differences, sample fixed by maxlag */
static ols adf(const double *x, int n, int cons, int trend, int lev, int L, int maxlag) { int m = n - 1 - maxlag, k = cons + trend + lev + L; ld *X = malloc(sizeof(ld) * (m > 0 ? m : 1) * (k + 1)), *y = malloc(sizeof(ld) * (m > 0 ? m : 1)); for (int r = 0; r < m; r++) { int t = r + maxlag + 1, c = 0; y[r] = (ld)x[t] - x[t - 1]; if (lev) X[r * k + c++] = x[t - 1]; if (cons) X[r * k + c++] = 1; if (trend) X[r * k + c++] = t; for (int j = 1; j <= L; j++) X[r * k + c++] = (ld)x[t - j] - x[t - j - 1]; } ols o = fit(X, y, m > 0 ? m : 0, k); free(X); free(y); return o; }
static void df(double *x, int n, const char *nm, int maxl) { double *x0 = malloc(sizeof(double) * n); memcpy(x0, x, sizeof(double) * n);
    for (int L = -1; L <= maxl && mc_ok(); L++) { int l = L; if (L < 0) { l = (int)cbrtl(n - 1 + 1e-9L); if (l * l * l == n - 1) continue; } if (n - 1 - l < l + 5) continue; ols o = adf(x, n, 1, 1, 1, l, l); if (o.bad) mc_count("degenerate regressions", 1);
        if (!o.bad) for (int al = 0; al < 2; al++) { int lag = L; double st = -99, pv = -99; ur_df(x, n, al ? "explosive" : "stationary", L < 0 ? NULL : &lag, &st, &pv); mc_ops(1); char w[200]; snprintf(w, 200, "df %s N=%d lag %d %s", nm, n, L, al ? "explosive" : "stationary"); if (L >= 0) MC_CHECK(lag == L, "lag", "%s: %d", w, lag); ld e = o.b[0] / o.se[0]; eq("ADF statistic", w, st, e); ld p = table_p(DF, n - 1, e); eq("ADF p-value", w, pv, al ? 1 - p : p); mc_state_d(&st, 1); }
        free(o.res); }
    MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "df %s", nm); free(x0); }
static const double T1[6][3] = {{-2.66,-1.95,-1.60},{-2.62,-1.95,-1.61},{-2.60,-1.95,-1.61},{-2.58,-1.95,-1.62},{-2.58,-1.95,-1.62},{-2.58,-1.95,-1.62}}, T2[6][3] = {{-3.75,-3.00,-2.63},{-3.58,-2.93,-2.60},{-3.51,-2.89,-2.58},{-3.46,-2.88,-2.57},{-3.44,-2.87,-2.57},{-3.43,-2.86,-2.57}}, T3[6][3] = {{-4.38,-3.60,-3.24},{-4.15,-3.50,-3.18},{-4.04,-3.45,-3.15},{-3.99,-3.43,-3.13},{-3.98,-3.42,-3.13},{-3.96,-3.41,-3.12}},
    P1[6][3] = {{7.88,5.18,4.12},{7.06,4.86,3.94},{6.70,4.71,3.86},{6.52,4.63,3.81},{6.47,4.61,3.79},{6.43,4.59,3.78}}, P2[6][3] = {{8.21,5.68,4.67},{7.02,5.13,4.31},{6.50,4.88,4.16},{6.22,4.75,4.07},{6.15,4.71,4.05},{6.09,4.68,4.03}}, P3[6][3] = {{10.61,7.24,5.91},{9.31,6.73,5.61},{8.73,6.49,5.47},{8.43,6.49,5.47},{8.34,6.30,5.36},{8.27,6.25,5.34}};
static void df2(double *x, int n, const char *nm, int maxl) { double *x0 = malloc(sizeof(double) * n); memcpy(x0, x, sizeof(double) * n); static const char *TY[] = {"none", "drift", "trend"}, *SE[] = {"fixed", "aic", "bic"};
    for (int ty = 0; ty < 3; ty++) for (int se = 0; se < 3; se++) for (int L = -1; L <= maxl && mc_ok(); L++) { int max = L < 0 ? 1 : L, sel = max; if (n - 1 - max < max + 6) continue; char w[200]; snprintf(w, 200, "df2 %s N=%d %s lags %d %s", nm, n, TY[ty], L, SE[se]);
        int cons = ty > 0, tr = ty > 1, bad = 0; if (se && max > 0) { ld best = 1e300L, second = 1e300L; for (int i = 1; i <= max; i++) { ols o = adf(x, n, cons, tr, 1, i, max); if (o.bad) bad = 1; else { ld c = o.n * logl(o.rss / o.n) + (se == 1 ? 2 : logl(o.n)) * o.k; if (c < best) { second = best; best = c; sel = i; } else if (c < second) second = c; } free(o.res); } if (!(second - best > 1e-8L)) bad = 1; }
        ols o = adf(x, n, cons, tr, 1, sel, max); if (o.bad || bad) { mc_count("degenerate regressions", 1); free(o.res); continue; }
        double cv[9], cp[3] = {0}, st[3] = {-99, -99, -99}; for (int i = 0; i < 9; i++) cv[i] = -77; int cr = -1, cc = -1, ls = -1, lag = L; ur_df2(x, n, TY[ty], L < 0 ? NULL : &lag, SE[se], cv, &cr, &cc, cp, st, &ls); mc_ops(1);
        MC_CHECK(cr == ty + 1 && cc == 3 && ls == ty + 1, "shape", "%s: %d x %d, %d statistics", w, cr, cc, ls); MC_CHECK(cp[0] == 0.01 && cp[1] == 0.05 && cp[2] == 0.1, "probabilities", "%s", w); int row = n - 1 < 25 ? 0 : n - 1 < 50 ? 1 : n - 1 < 100 ? 2 : n - 1 < 250 ? 3 : n - 1 < 500 ? 4 : 5; const double (*tab[3][3])[3] = {{T1, 0, 0}, {T2, P1, 0}, {T3, P2, P3}};
        for (int r = 0; r <= ty; r++) for (int c = 0; c < 3; c++) MC_CHECK(cv[3 * r + c] == tab[ty][r][row][c], "critical value", "%s: [%d,%d] %g, table %g", w, r, c, cv[3 * r + c], tab[ty][r][row][c]); for (int i = 3 * (ty + 1); i < 9; i++) MC_CHECK(cv[i] == -77, "critical value overrun", "%s", w);
        eq("ADF tau", w, st[0], o.b[0] / o.se[0]); ld sg = o.rss / (o.n - o.k);
        if (ty >= 1) { ols h = adf(x, n, 0, 0, 0, sel, max); eq("ADF phi", w, st[1], (h.rss - o.rss) / (o.k - h.k) / sg); free(h.res); }
        if (ty == 2) { ols h = adf(x, n, 1, 0, 0, sel, max); eq("ADF phi3", w, st[2], (h.rss - o.rss) / (o.k - h.k) / sg); free(h.res); }
        mc_state_d(st, ty + 1); free(o.res); }
    MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "df2 %s", nm); free(x0); }
/* ---- Phillips-Perron (tseries form) */
static void pp(double *x, int n, const char *nm) { int m = n - 1; double *x0 = malloc(sizeof(double) * n); memcpy(x0, x, sizeof(double) * n); ld *X = malloc(sizeof(ld) * m * 3), *y = malloc(sizeof(ld) * m); for (int i = 0; i < m; i++) { X[3 * i] = 1; X[3 * i + 1] = i + 1 - m / 2.0L; X[3 * i + 2] = x[i]; y[i] = x[i + 1]; } ols o = fit(X, y, m, 3);
    if (!o.bad) for (int ty = 0; ty < (n > 6000 ? 1 : 2); ty++) for (int al = 0; al < (n > 6000 ? 1 : 2); al++) for (int ls = 0; ls < 2; ls++) for (int kl = -2; kl <= (n < 60 ? mc_thorough ? 6 : 4 : n > 2000 ? -2 : n > 150 && !mc_thorough ? 1 : 2) && mc_ok(); kl++) { if (n > 6000 && !ls) continue; int lag = kl, L = kl > 0 ? kl : shortlag(m, ls); double st = -99, pv = -99; ur_pp(x, n, al ? "explosive" : "stationary", ty ? "Z(t_alpha)" : "Z(alpha)", ls, kl == -2 ? NULL : &lag, &st, &pv); mc_ops(1);
        char w[200]; snprintf(w, 200, "pp %s N=%d %s %s lshort %d lag %d", nm, n, ty ? "t" : "alpha", al ? "explosive" : "stationary", ls, kl); if (kl > -2) MC_CHECK(lag == L, "lag", "%s: %d, expected %d", w, lag, L);
        ld su = o.rss / m, sl = longrun(o.res, m, L), G[9]; memset(G, 0, sizeof G); for (int i = 0; i < m; i++) { ld v[3] = {1, i + 1, x[i]}; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) G[3 * a + b] += v[a] * v[b]; } ld D = ref_det(G, 3), N3 = (ld)m * m * m, e = ty ? sqrtl(su / sl) * ((o.b[2] - 1) / o.se[2]) - N3 / (4 * sqrtl(3) * sqrtl(D) * sqrtl(sl)) * (sl - su) : m * (o.b[2] - 1) - N3 * N3 / (24 * D) * (sl - su);
        eq("PP statistic", w, st, e); ld p = table_p(ty ? DF : ZA, m, e); eq("PP p-value", w, pv, al ? 1 - p : p); mc_state_d(&st, 1); } else mc_count("degenerate regressions", 1);
    MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "pp %s", nm); free(o.res); free(X); free(y); free(x0); }
/* ---- Phillips-Perron (urca form) */
static void pp2(double *x, int n, const char *nm) { int m = n - 1; double *x0 = malloc(sizeof(double) * n); memcpy(x0, x, sizeof(double) * n); ld *X = malloc(sizeof(ld) * m * 3), *y = malloc(sizeof(ld) * m);
    for (int tr = 0; tr < (n > 6000 ? 1 : 2); tr++) { int k = 2 + tr; for (int i = 0; i < m; i++) { X[k * i] = 1; X[k * i + 1] = x[i]; if (tr) X[k * i + 2] = i + 1 - m / 2.0L; y[i] = x[i + 1]; } ols o = fit(X, y, m, k); ld d = m, s = o.rss / m, mu = 0, yy = 0, yb = 0, ty = 0; for (int i = 0; i < m; i++) { mu += y[i]; yy += y[i] * y[i]; ty += (i + 1) * y[i]; } ld mean = mu / m; for (int i = 0; i < m; i++) yb += (y[i] - mean) * (y[i] - mean); yb /= d * d; yy /= d * d; ty *= powl(d, -2.5L); ld my = mu * powl(d, -1.5L), M = (1 - 1 / (d * d)) * yy - 12 * ty * ty + 12 * (1 + 1 / d) * ty * my - (4 + 6 / d + 2 / (d * d)) * my * my;
        if (o.bad || yb < 1e-9L * yy || M < 1e-9L * yy) { mc_count("degenerate regressions", 1); free(o.res); continue; }
        for (int za = 0; za < (n > 6000 ? 1 : 2); za++) for (int ls = 0; ls < 2; ls++) for (int kl = -2; kl <= (n < 60 ? mc_thorough ? 6 : 4 : n > 2000 ? -2 : n > 150 && !mc_thorough ? 1 : 2) && mc_ok(); kl++) { if (n > 6000 && !ls) continue; int lag = kl, L = kl > 0 ? kl : shortlag(m, ls); if (L >= m) continue; double cv[3] = {0}, cp[3] = {0}, ax[2] = {-99, -99}, st = -99; int la = -1; ur_pp2(x, n, za ? "Z-alpha" : "Z-tau", tr ? "trend" : "constant", ls, kl == -2 ? NULL : &lag, cv, cp, ax, &la, &st); mc_ops(1);
            char w[200]; snprintf(w, 200, "pp2 %s N=%d %s %s lshort %d lag %d", nm, n, za ? "alpha" : "tau", tr ? "trend" : "constant", ls, kl); ld sg = longrun(o.res, m, L), lam = (sg - s) / 2, lp = lam / sg, q = tr ? M : yb; MC_CHECK(la == 1 + tr, "auxiliary statistics", "%s: %d", w, la);
            eq("PP2 statistic", w, st, za ? m * (o.b[1] - 1) - lam / q : sqrtl(s / sg) * (o.b[1] - 1) / o.se[1] - lp * sqrtl(sg) / sqrtl(q));
            ld a0 = sqrtl(s / sg) * o.b[0] / o.se[0] - lp * sqrtl(sg) * my / (tr ? sqrtl(M) * sqrtl(M + my * my) : sqrtl(yy) * sqrtl(yb)); eq("PP2 intercept statistic", w, ax[0], a0); if (tr) eq("PP2 trend statistic", w, ax[1], sqrtl(s / sg) * o.b[2] / o.se[2] - lp * sqrtl(sg) * (my / 2 - ty) / (sqrtl(M / 12) * sqrtl(yb)));
            static const ld C[2][3][3] = {{{-3.4335L,-5.999L,-29.25L},{-2.8621L,-2.738L,-8.36L},{-2.5671L,-1.438L,-4.48L}},{{-3.9638L,-8.353L,-47.44L},{-3.4126L,-4.039L,-17.83L},{-3.1279L,-2.418L,-7.58L}}}; static const double PB[3] = {.01, .05, .1}; for (int i = 0; i < 3; i++) { MC_CHECK(cp[i] == PB[i], "probabilities", "%s", w); if (za) MC_CHECK(isnan(cv[i]), "critical value", "%s: %g for Z-alpha", w, cv[i]); else eq("critical value", w, cv[i], C[tr][i][0] + C[tr][i][1] / d + C[tr][i][2] / (d * d)); } mc_state_d(&st, 1); }
        free(o.res); }
    MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "pp2 %s", nm); free(x0); free(X); free(y); }
/* ---- OCSB */
static ols ocsb(const double *x, int n, int f, int L, int max) { TL = 1e-7; int n1 = n - f, n2 = n1 - 1, m = n2 - max; ols bad; memset(&bad, 0, sizeof bad); bad.bad = 1; if (m < L + 5) return bad; ld *s = malloc(sizeof(ld) * n), *y = malloc(sizeof(ld) * n), *z = malloc(sizeof(ld) * n); /* indexed by time */
    for (int t = f; t < n; t++) s[t] = (ld)x[t] - x[t - f]; for (int t = 1; t < n; t++) z[t] = (ld)x[t] - x[t - 1]; for (int t = f + 1; t < n; t++) y[t] = s[t] - s[t - 1]; int t0 = f + 1 + max, k = L + 1; ld *X = malloc(sizeof(ld) * m * (L + 2)), *Y = malloc(sizeof(ld) * m); for (int r = 0; r < m; r++) { Y[r] = y[t0 + r]; X[r * k] = 1; for (int j = 1; j <= L; j++) X[r * k + j] = y[t0 + r - j]; } ols a = fit(X, Y, m, k), o = bad;
    if (!a.bad) { k = L + 2; for (int r = 0; r < m; r++) { int t = t0 + r; for (int j = 1; j <= L; j++) X[r * k + j - 1] = y[t - j]; ld u = s[t - 1] - a.b[0], v = z[t - f] - a.b[0]; for (int j = 1; j <= L; j++) { u -= a.b[j] * s[t - 1 - j]; v -= a.b[j] * z[t - f - j]; } X[r * k + L] = u; X[r * k + L + 1] = v; } o = fit(X, Y, m, k); }
    free(a.res); free(s); free(y); free(z); free(X); free(Y); return o; }
static void seasroot(double *x, int n, int f, const char *nm, int top) { double *x0 = malloc(sizeof(double) * n); memcpy(x0, x, sizeof(double) * n); static const char *ME[] = {"fixed", "aic", "bic", "aicc", "AIC", "BIC"};
    for (int max = 1; max <= top; max++) for (int me = 0; me < 6 && mc_ok(); me++) { int sel = max, bad = 0; if (me) { ld best = 1e300L, second = 1e300L; for (int i = 1; i <= max; i++) { ols o = ocsb(x, n, f, i, max); if (o.bad) bad = 1; else { ld c = o.n * logl(o.rss / o.n) + (me == 2 || me == 5 ? logl(o.n) : 2) * o.k; if (me == 3) { c += 2 * o.k * ((ld)o.n / (o.n - o.k - 1) - 1); if (o.n - o.k - 1 <= 0) bad = 1; } if (c < best) { second = best; best = c; sel = i; } else if (c < second) second = c; } free(o.res); } if (!(second - best > 1e-7L)) bad = 1; }
        ols o = ocsb(x, n, f, sel, sel); if (bad || o.bad) { mc_count("degenerate regressions", 1); free(o.res); continue; } double st = -99, cr = -99; OCSBtest(x, n, f, max, ME[me], &st, &cr); mc_ops(1); char w[200]; snprintf(w, 200, "ocsb %s N=%d f=%d maxlag %d %s (lag %d)", nm, n, f, max, ME[me], sel); eq("OCSB statistic", w, st, o.b[o.k - 1] / o.se[o.k - 1]); ld lf = logl(f) - 0.7656451L; eq("OCSB critical value", w, cr, -0.2937411L * expl(-0.2850853L * lf - 0.05983644L * lf * lf) - 1.652202L); mc_state_d(&st, 1); mc_count("ocsb selected lags", 1); free(o.res); }
    MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "ocsb %s", nm); free(x0); }
/* ---- seasonal strength */
static void strength(double *x, int n, const int *f, int nf, const char *nm) { double x0[400], g[4]; memcpy(x0, x, sizeof(double) * n); int p[4]; for (int i = 0; i < nf; i++) { p[i] = f[i]; g[i] = -9; } SHtest(x, n, p, nf, g); mc_ops(1); char w[200]; snprintf(w, 200, "strength %s N=%d periods %d,%d", nm, n, f[0], nf > 1 ? f[1] : 0); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", w);
    ld y[400], S[1200], T[400], R[400]; int used[4]; for (int i = 0; i < n; i++) y[i] = x[i]; int m = ref_mstl(y, n, f, nf, 13, 2, used, S, T, R); ld mr = 0, vr = 0; for (int i = 0; i < n; i++) mr += R[i] / n; for (int i = 0; i < n; i++) vr += (R[i] - mr) * (R[i] - mr); double sc = 0; for (int i = 0; i < n; i++) sc = fmax(sc, fabs(x[i]));
    for (int k = 0; k < nf && mc_ok(); k++) { if (k >= m) { MC_CHECK(g[k] == 0, "strength of an unused period", "%s: %g", w, g[k]); continue; } ld mu = 0, v = 0; for (int i = 0; i < n; i++) mu += (R[i] + S[k * n + i]) / n; for (int i = 0; i < n; i++) { ld u = R[i] + S[k * n + i] - mu; v += u * u; } if (v < 1e-12L * sc * sc * n) { mc_count("strength undefined", 1); continue; } ld e = 1 - vr / v; if (e < 0) e = 0; MC_CHECK(fabsl(g[k] - e) <= 1e-7, "seasonal strength", "%s: [%d] %.12g, definition %.12Lg", w, k, g[k], e); mc_state_d(g, nf); } }
/* ---- helpers */
static void ppsums(int n) { static const double V[] = {-1, 0, 2}; double u[8]; int tot = 1; for (int i = 0; i < n; i++) tot *= 3; for (int c = 0; c < tot; c++) { int q = c; ld v[8]; for (int i = 0; i < n; i++, q /= 3) v[i] = u[i] = V[q % 3]; for (int l = 0; l <= n + 1 && mc_ok(); l++) { double s = 0; ld b = 0; for (int i = 0; i < n; i++) { s += u[i] * u[i]; } s /= n; b = longrun(v, n, l); ppsum(u, n, l, &s); mc_ops(1); MC_CHECK(fabsl(s - b) <= 1e-13, "long-run variance", "n=%d case %d l=%d: %.15g, %.15Lg", n, c, l, s, b); } } }
static void all(double *x, int n, const char *nm, int L) { TL = n < 1000 ? 1e-7 : 1e-5; kpss(x, n, nm); df(x, n, nm, L); df2(x, n, nm, L); pp(x, n, nm); pp2(x, n, nm); }
static void shortall(int n, int block, int blocks) { static const double V[] = {0, 1, 3}; int tot = 1; for (int i = 0; i < n; i++) tot *= 3; for (int c = block; c < tot && mc_ok(); c += blocks) { double x[16]; int q = c, v = 0; char nm[16]; for (int i = 0; i < n; i++, q /= 3) { x[i] = V[q % 3]; nm[i] = '0' + (int)x[i]; v |= x[i] != x[0]; } nm[n] = 0; if (!v || (!mc_thorough && x[0] != 0)) continue; all(x, n, nm, 1); } }
/* shifts and scalings the definitions ignore */
static void invariance(int n, int k) { double x[600], y[600]; mk(k, n, 5, x); static const double A[] = {0, 100, -7}, B[] = {1, -1, 1000, 0.01}; double base[40], got[40]; for (int a = 0; a < 3; a++) for (int b = 0; b < 4 && mc_ok(); b++) { for (int i = 0; i < n; i++) y[i] = A[a] * B[b] + B[b] * x[i]; int m = 0, l = 2; double pv, cv[9], cp[3], st[3], ax[2]; int r, c, ls; double *o = a || b ? got : base;
        ur_kpss(y, n, "level", 1, NULL, o + m++, &pv); o[m++] = pv; ur_kpss(y, n, "trend", 0, NULL, o + m++, &pv); o[m++] = pv; ur_df(y, n, "stationary", NULL, o + m++, &pv); o[m++] = pv; ur_pp(y, n, "stationary", "Z(alpha)", 1, NULL, o + m++, &pv); o[m++] = pv; ur_pp(y, n, "explosive", "Z(t_alpha)", 0, NULL, o + m++, &pv); o[m++] = pv; for (int ty = 1; ty < 3; ty++) { ur_df2(y, n, ty == 1 ? "drift" : "trend", &l, "fixed", cv, &r, &c, cp, st, &ls); o[m++] = st[0]; if (ty == 2) o[m++] = st[2]; } ur_pp2(y, n, "Z-tau", "constant", 1, NULL, cv, cp, ax, &ls, o + m); m++; ur_pp2(y, n, "Z-tau", "trend", 1, NULL, cv, cp, ax, &ls, o + m); m++; ur_pp2(y, n, "Z-alpha", "constant", 0, NULL, cv, cp, ax, &ls, o + m); m++; OCSBtest(y, n, 4, 2, "fixed", o + m, cv); m++; int p = 4; SHtest(y, n, &p, 1, o + m); m++; mc_ops(13);
        if (a || b) for (int i = 0; i < m; i++) MC_CHECK(fabs(got[i] - base[i]) <= 1e-6 * (1 + fabs(base[i])), "invariance", "%s N=%d shift %g scale %g: value %d is %.10g, unshifted %.10g", fn[k], n, A[a], B[b], i, got[i], base[i]); } }
void mc_enumerate(void) { mc_case_limit = 400;
    for (int n = 1; n <= (mc_thorough ? 8 : 6); n++) if (mc_case("long-run variance n=%d", n)) ppsums(n);
    for (int n = 7; n <= (mc_thorough ? 9 : 7); n++) { int bl = n == 7 ? 16 : n == 8 ? 32 : 64; for (int b = 0; b < bl; b++) if (mc_case("all ternary n=%d block %d/%d", n, b, bl)) shortall(n, b, bl); }
    static const int N[] = {9,12,14,19,20,24,25,26,27,30,37,50,51,52,99,100,101,102,180,240,249,250,251,252,330,499,500,501,502}; for (unsigned i = 0; i < sizeof N / sizeof *N; i++) for (int k = 0; k < NF; k++) for (int s = 0; s < (mc_thorough ? 4 : 1); s++) if (mc_case("structured N=%d %s #%d", N[i], fn[k], s)) { double x[600]; mk(k, N[i], 1 + s, x); all(x, N[i], fn[k], mc_thorough ? 6 : N[i] < 60 ? 4 : N[i] < 150 ? 2 : 1); }
    static const int BIG[] = {700, 1300, 1025, 2200, 5000, 47000, 100005}; for (unsigned i = 0; i < (mc_thorough ? 6 : 2); i++) for (int k = 0; k < NF; k++) { if (BIG[i] > 5000 && k != F_AR && k != F_NEAR) continue; if (mc_case("long N=%d %s", BIG[i], fn[k])) { int n = BIG[i]; double *x = malloc(sizeof(double) * n); mk(k, n, 1, x); TL = 1e-4; if (n > 5000) { kpss(x, n, fn[k]); pp(x, n, fn[k]); pp2(x, n, fn[k]); } else all(x, n, fn[k], 1); free(x); } }
    for (int f = 2; f <= 12; f++) { if (f > 7 && f < 12) continue; for (int k = 0; k < NF; k++) for (int j = 0; j < (mc_thorough ? 6 : 3); j++) { int n = 2 * f + 16 + 17 * j; if (mc_case("ocsb f=%d N=%d %s", f, n, fn[k])) for (int s = 0; s < 3; s++) { double x[300]; mk(k, n, 11 + s, x); for (int t = 0; t < n; t++) x[t] += s * ((t % f) == 1) * 3; seasroot(x, n, f, fn[k], 4); } } }
    static const int P[][2] = {{4,0},{7,0},{12,0},{2,0},{4,7},{7,4},{12,5},{4,500},{500,0},{500,4}}; for (unsigned i = 0; i < sizeof P / sizeof *P; i++) for (int k = 0; k < NF; k++) for (int n = 28; n <= (mc_thorough ? 140 : 64); n += 12) if (mc_case("strength %d,%d N=%d %s", P[i][0], P[i][1], n, fn[k])) for (int s = 0; s < 3; s++) { double x[400]; mk(k, n, 3, x); int f = P[i][0] < 100 ? P[i][0] : 4; for (int t = 0; t < n; t++) x[t] += s * ((t * 7 % f) - f / 2.0); strength(x, n, P[i], P[i][1] ? 2 : 1, fn[k]); }
    for (int k = 0; k < NF; k++) for (int n = 40; n <= 300; n += 130) if (mc_case("invariance N=%d %s", n, fn[k])) invariance(n, k);
}
