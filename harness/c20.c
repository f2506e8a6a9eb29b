/* C20: STL and relatives against an independent long-double STL over every combination of given/omitted options */
#include "mc.h"
#include "stlref.h"
#include "seastest.h"
#include "boxcox.h"
const char *mc_property = "C20";
enum { S_PER, S_LIN, S_PERLIN, S_CONST, S_RAND, S_WALK, S_OUT, S_GROW, S_STEP, S_IMP, NS };
static const char *sn[] = {"periodic", "linear", "periodic+linear", "constant", "random", "walk", "outliers", "growing season", "step", "impulse"};
static void mk(int k, int n, int f, int seed, double *x) { mc_rng g; mc_seed(&g, 31 * k + 7 * f + seed); double c = 0; for (int t = 0; t < n; t++) { double e = mc_n(&g), p = ((t % f) * 7 % 5) - 2.0 + 0.5 * ((t % f) == 1); c += e; switch (k) {
    case S_PER: x[t] = 3 + p; break; case S_LIN: x[t] = 4 - 0.7 * t; break; case S_PERLIN: x[t] = 1 + 0.25 * t + p; break; case S_CONST: x[t] = 5; break; case S_RAND: x[t] = 2 + e; break; case S_WALK: x[t] = 10 + c + p; break; case S_OUT: x[t] = 10 + p + 0.3 * e + (t % 11 == 4 ? 25 : 0); break; case S_GROW: x[t] = 20 + 0.1 * t + p * (1 + 0.05 * t) + 0.5 * e; break; case S_STEP: x[t] = p + 0.2 * e + (t > n / 2 ? 8 : 0); break; default: x[t] = t == n / 3; } } }
static void pos(double *x, int n) { double m = x[0]; for (int i = 0; i < n; i++) if (x[i] < m) m = x[i]; for (int i = 0; i < n; i++) x[i] += 1 - m; }
static double absmax(const double *x, int n) { double m = 0; for (int i = 0; i < n; i++) m = fmax(m, fabs(x[i])); return m; }
static double ctol = 1e-9;
static void cmp(const char *tag, const char *w, const double *g, const ld *e, int n, double sc) { double worst = 0; for (int i = 0; i < n; i++) { double d = fabsl(g[i] - e[i]); if (!(d <= ctol * sc)) { mc_fail(tag, "%s: [%d] = %.12g, reference %.12Lg", w, i, g[i], e[i]); return; } worst = fmax(worst, d / sc); } mc_max("relative error", worst); }
/* option word: which optional arguments are given */
typedef struct { int per, ns, ds, nt, dt, nl, dl, js, jt, jl, rob, inner, outer; } opt;   /* -1 = omitted */
static const char *ostr(const opt *o) { static char b[160]; snprintf(b, 160, "%s s%d,%d t%d,%d l%d,%d j%d,%d,%d rob%d in%d out%d", o->per ? "period" : "window", o->ns, o->ds, o->nt, o->dt, o->nl, o->dl, o->js, o->jt, o->jl, o->rob, o->inner, o->outer); return b; }
static stlopt resolve(const opt *o, int n, int f) { stlopt r = rs_default(n, f, o->per, o->ns); if (!o->per && o->ds >= 0) r.ds = o->ds; if (o->nt >= 0) { r.nt = o->nt; r.jt = rs_j(o->nt); } if (o->dt >= 0) r.dt = r.dl = o->dt; if (o->nl >= 0) { r.nl = o->nl; r.jl = rs_j(o->nl); } if (o->dl >= 0) r.dl = o->dl; if (o->js >= 0) r.js = o->js; if (o->jt >= 0) r.jt = o->jt; if (o->jl >= 0) r.jl = o->jl; int rob = o->rob > 0; r.inner = o->inner >= 0 ? o->inner : rob ? 1 : 2; r.outer = o->outer >= 0 ? o->outer : rob ? 15 : 0; return r; }
#define A(v) ((v) < 0 ? NULL : &(v))
static void one(const double *x0, int n, int f, opt o, const char *ser, int kind) {
    double *x = mc_buf(n), *s = mc_buf(n), *t = mc_buf(n), *r = mc_buf(n); mc_bufinit(s, n); mc_bufinit(t, n); mc_bufinit(r, n); memcpy(x, x0, sizeof(double) * n); opt in = o;
    stl(x, n, f, o.per ? "period" : "null", o.ns < 0 ? NULL : &o.ns, A(o.ds), A(o.nt), A(o.dt), A(o.nl), A(o.dl), A(o.js), A(o.jt), A(o.jl), A(o.rob), A(o.inner), A(o.outer), s, t, r); mc_ops(1);
    char w[256]; snprintf(w, 256, "%s N=%d f=%d %s", ser, n, f, ostr(&in)); MC_CHECK(!memcmp(&in, &o, sizeof o), "options modified", "%s", w); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", w);
    double sc = absmax(x0, n) + 1e-300; for (int i = 0; i < n && mc_ok(); i++) { MC_CHECK(isfinite(s[i]) && isfinite(t[i]) && isfinite(r[i]), "not finite", "%s: [%d] %g %g %g", w, i, s[i], t[i], r[i]); MC_CHECK(fabs(s[i] + t[i] + r[i] - x0[i]) <= 1e-12 * sc, "not additive", "%s: [%d] %g + %g + %g != %g", w, i, s[i], t[i], r[i], x0[i]); if (in.per && i >= f) MC_CHECK(s[i] == s[i - f], "seasonal not periodic", "%s: [%d] %.17g, %.17g one period before", w, i, s[i], s[i - f]); }
    ld y[512], S[512], T[512]; for (int i = 0; i < n; i++) y[i] = x0[i]; stlopt q = resolve(&in, n, f); ref_stl(y, n, f, &q, S, T);
    int k_ok = n >= 3 * f, exact = kind == S_PER || kind == S_CONST || ((kind == S_LIN || kind == S_PERLIN) && q.ds == 1 && q.dt == 1 && q.dl == 1 && !q.periodic); if (exact && (k_ok || kind == S_PER || kind == S_CONST) && (q.outer == 0 || kind == S_CONST)) for (int i = 0; i < n; i++) MC_CHECK(fabs(r[i]) <= 1e-9 * sc, "remainder of an exact series", "%s: [%d] %g", w, i, r[i]);
    /* robustness weights are undetermined when the fit is exact */
    if (q.outer == 0 || q.mincmad > 1e-4 * sc) { ctol = q.outer ? 1e-5 : 1e-9; /* reweighting amplifies rounding */ cmp("seasonal", w, s, S, n, sc); cmp("trend", w, t, T, n, sc); mc_state_d(s, n); mc_state_d(t, n); ctol = 1e-9; } else mc_count("exact fits with robustness weights", 1);
    mc_bufcheck("seasonal", s, n); mc_bufcheck("trend", t, n); mc_bufcheck("remainder", r, n); mc_buffree(x); mc_buffree(s); mc_buffree(t); mc_buffree(r); }
static opt omitted(int per, int ns) { opt o; memset(&o, 0xff, sizeof o); o.per = per; o.ns = per ? -1 : ns; return o; }
static void settings(int n, int f, int kind) { double x[512]; mk(kind, n, f, 1, x);
    static const int NSv[] = {3, 4, 5, 7, 9, 13, 21, 35}, NT[] = {3, 5, 6, 9, 15, 31}, NLv[] = {3, 4, 5, 7, 13}, J[] = {1, 2, 3, 5};
    for (int b = -1; b < 8 && mc_ok(); b++) { opt o = omitted(b < 0, b < 0 ? 0 : NSv[b]); one(x, n, f, o, sn[kind], kind);
#define EACH(fld, arr) for (unsigned i = 0; i < sizeof arr / sizeof *arr && mc_ok(); i++) { opt p = o; p.fld = arr[i]; one(x, n, f, p, sn[kind], kind); }
        static const int D[] = {0, 1}, IN[] = {1, 2, 3}, OU[] = {0, 1, 3}; EACH(ds, D) EACH(nt, NT) EACH(dt, D) EACH(nl, NLv) EACH(dl, D) EACH(js, J) EACH(jt, J) EACH(jl, J) EACH(rob, D) EACH(inner, IN) EACH(outer, OU)
        if (b < 0) { opt p = o; p.ns = 7; one(x, n, f, p, sn[kind], kind); } } }
/* every subset of optional arguments given */
static void subsets(int n, int f, int kind, int per) { double x[512]; mk(kind, n, f, 2, x); int step = mc_thorough || 1 ? 1 : 3; for (int m = 0; m < 2048 && mc_ok(); m += step) { opt o = omitted(per, 7); int b = 0;
#define G(fld, v) if (m >> b++ & 1) o.fld = v;
    G(ds, 1) G(nt, 9) G(dt, 0) G(nl, 3) G(dl, 1) G(js, 2) G(jt, 3) G(jl, 1) G(rob, 1) G(inner, 2) G(outer, 2) one(x, n, f, o, sn[kind], kind); } }
static void mods(int n, int f, int kind) { double x[512], x0[512], lam[] = {0, 0.5, 1, -0.3}; mk(kind, n, f > 1 ? f : 4, 3, x); pos(x, n); memcpy(x0, x, sizeof x); static const int W[] = {-1, 5, 7, 13, 21};
    for (int l = -1; l < 4; l++) for (int wi = 0; wi < 5 && mc_ok(); wi++) { double y[512]; if (l >= 0 && kind == S_CONST) continue; if (l >= 0) { double la = lam[l]; boxcox(x, n, &la, y); } else memcpy(y, x, sizeof y); double *s = mc_buf(n), *t = mc_buf(n), *r = mc_buf(n); mc_bufinit(s, n); mc_bufinit(t, n); mc_bufinit(r, n); int sw = W[wi]; double la = l >= 0 ? lam[l] : 0; char w[128]; snprintf(w, 128, "modstl %s N=%d f=%d lambda %g window %d", sn[kind], n, f, l >= 0 ? la : NAN, sw);
        modstl(x, n, f, sw < 0 ? NULL : &sw, l >= 0 ? &la : NULL, s, t, r); mc_ops(1); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", w); double sc = absmax(y, n) + 1e-300; for (int i = 0; i < n && mc_ok(); i++) MC_CHECK(fabs(s[i] + t[i] + r[i] - y[i]) <= 1e-12 * sc, "not additive", "%s: [%d]", w, i);
        ld Y[512], S[512], T[512]; for (int i = 0; i < n; i++) Y[i] = y[i]; if (f > 1) { stlopt q = rs_default(n, f, 0, sw < 0 ? 13 : sw); ref_stl(Y, n, f, &q, S, T); cmp("seasonal", w, s, S, n, sc); cmp("trend", w, t, T, n, sc); } else { double tt[512], o[512]; for (int i = 0; i < n; i++) tt[i] = i; supsmu(tt, n, y, NULL, 1, 0, -1.0, o); for (int i = 0; i < n; i++) MC_CHECK(s[i] == 0 && t[i] == o[i], "non-seasonal trend", "%s: [%d] %g %g, super-smoother %g", w, i, s[i], t[i], o[i]); }
        mc_bufcheck("seasonal", s, n); mc_bufcheck("trend", t, n); mc_bufcheck("remainder", r, n); mc_state_d(t, n); mc_buffree(s); mc_buffree(t); mc_buffree(r); } }
static void multi(int n, int kind) { static const int F[][3] = {{4,0,0},{7,0,0},{3,7,0},{7,3,0},{4,6,0},{6,4,0},{2,5,9},{9,2,5},{5,9,2},{4,300,0},{300,0,0},{300,4,0}}; double x[512], x0[512]; mk(kind, n, 4, 4, x); for (int t = 0; t < n; t++) x[t] += 1.3 * ((t % 7) == 2) - 0.8 * ((t % 3) == 0); pos(x, n); memcpy(x0, x, sizeof x);
    for (unsigned k = 0; k < sizeof F / sizeof *F; k++) for (int it = -1; it <= 3; it++) for (int wi = 0; wi < 3; wi++) for (int l = -1; l < 2 && mc_ok(); l++) { if (it == 0) continue; int f[3], nf = 0; while (nf < 3 && F[k][nf]) { f[nf] = F[k][nf]; nf++; } int sw = wi == 0 ? -1 : wi == 1 ? 7 : 13, ite = it; double la = l == 0 ? 0 : 0.5, y[512]; if (l >= 0) { double q = la; boxcox(x, n, &q, y); } else memcpy(y, x, sizeof y); double *s[3], *t = mc_buf(n), *r = mc_buf(n); for (int i = 0; i < 3; i++) { s[i] = mc_buf(n); mc_bufinit(s[i], n); } mc_bufinit(t, n); mc_bufinit(r, n);
        int m = nf; mstl(x, n, f, &m, sw < 0 ? NULL : &sw, l >= 0 ? &la : NULL, it < 0 ? NULL : &ite, s, t, r); mc_ops(1); char w[128]; snprintf(w, 128, "mstl %s N=%d periods %d,%d,%d iterate %d window %d lambda %g", sn[kind], n, F[k][0], F[k][1], F[k][2], it, sw, l >= 0 ? la : NAN);
        ld Y[512], S[3 * 512], T[512], R[512]; int used[3]; for (int i = 0; i < n; i++) Y[i] = y[i]; int em = ref_mstl(Y, n, F[k], nf, sw < 0 ? 13 : sw, it < 0 ? 2 : it, used, S, T, R); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", w); MC_CHECK(m == em, "number of seasons", "%s: %d, expected %d", w, m, em); if (m != em) return; double sc = absmax(y, n) + 1e-300;
        for (int i = 0; i < n && mc_ok(); i++) { double q = t[i] + r[i]; for (int j = 0; j < m; j++) q += s[j][i]; MC_CHECK(fabs(q - y[i]) <= 1e-11 * sc, "not additive", "%s: [%d] %g, %g", w, i, q, y[i]); }
        if (em) { for (int j = 0; j < m; j++) { MC_CHECK(f[j] == used[j], "period list", "%s: [%d] = %d, expected %d", w, j, f[j], used[j]); cmp("seasonal", w, s[j], S + j * n, n, sc); } cmp("trend", w, t, T, n, sc); }
        else { double tt[512], o[512]; for (int i = 0; i < n; i++) tt[i] = i; supsmu(tt, n, y, NULL, 1, 0, -1.0, o); for (int i = 0; i < n; i++) MC_CHECK(t[i] == o[i], "non-seasonal trend", "%s", w); }
        mc_state_d(t, n); for (int i = 0; i < 3; i++) { mc_bufcheck("seasonal", s[i], n); mc_buffree(s[i]); } mc_bufcheck("trend", t, n); mc_bufcheck("remainder", r, n); mc_buffree(t); mc_buffree(r); } }
static void classical(int n, int f) { for (int kind = 0; kind < NS; kind++) for (int mul = 0; mul < 2; mul++) for (int ft = 0; ft < 2 && mc_ok(); ft++) { double x[512], x0[512], fl[64]; mk(kind, n, f, 5, x); if (mul) pos(x, n); memcpy(x0, x, sizeof x); int c = n - f + 1 - (f % 2 == 0), f2 = f / 2; for (int i = 0; i < f; i++) fl[i] = ft ? (1.0 + i) / (f * (f + 1) / 2.0) : 1.0 / f; int lt = -7, ls = -7, lr = -7; double *t = mc_buf(n), *s = mc_buf(n), *r = mc_buf(n); mc_bufinit(t, n); mc_bufinit(s, n); mc_bufinit(r, n);
    decompose(x, n, f, ft ? fl : NULL, mul ? "multiplicative" : "additive", t, &lt, s, &ls, r, &lr); mc_ops(1); char w[128]; snprintf(w, 128, "decompose %s N=%d f=%d %s filter %d", sn[kind], n, f, mul ? "multiplicative" : "additive", ft); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", w); MC_CHECK(lt == c && ls == c && lr == c, "lengths", "%s: %d %d %d, expected %d", w, lt, ls, lr, c); if (lt != c || ls != c || lr != c) return; double sc = absmax(x, n) + 1e-300;
    ld det[512], mean[64], T[512]; int cnt[64] = {0}; for (int i = 0; i < f; i++) mean[i] = 0; for (int i = 0; i < c; i++) { ld m = 0; for (int k = 0; k < f; k++) m += (ld)fl[k] * x[i + f - 1 - k]; T[i] = m; det[i] = mul ? x[i + f2] / m : x[i + f2] - m; mean[i % f] += det[i]; cnt[i % f]++; } cmp("trend", w, t, T, c, sc); ld S[512]; for (int i = 0; i < c; i++) S[i] = mean[i % f] / cnt[i % f]; cmp("seasonal", w, s, S, c, mul ? 1 + absmax(s, c) : sc);
    for (int i = 0; i < c && mc_ok(); i++) { double q = mul ? t[i] * s[i] * r[i] : t[i] + s[i] + r[i]; MC_CHECK(fabs(q - x[i + f2]) <= 1e-11 * sc, "not additive", "%s: [%d] %g, data %g", w, i, q, x[i + f2]); if (i >= f) MC_CHECK(s[i] == s[i - f], "seasonal not periodic", "%s", w); if (!mul && (kind == S_PER || kind == S_CONST || kind == S_LIN || kind == S_PERLIN) ) MC_CHECK(fabs(r[i]) <= 1e-11 * sc, "remainder of an exact series", "%s: [%d] %g", w, i, r[i]); }
    mc_state_d(s, c); mc_bufcheck("trend", t, n); mc_bufcheck("seasonal", s, n); mc_bufcheck("remainder", r, n); mc_buffree(t); mc_buffree(s); mc_buffree(r); } }
static void dummies(int n) { for (int f = 2; f <= 12 && mc_ok(); f++) { double x[512]; mk(S_RAND, n, f, 1, x); int r, c; double *o = seasdummy(x, n, f, &r, &c); mc_ops(1); MC_CHECK(r == f - 1 && c == n, "dummy shape", "N=%d f=%d: %d x %d", n, f, r, c); if (mc_ok()) for (int j = 0; j < r; j++) for (int t = 0; t < n; t++) { int k = j / 2 + 1; double e = j % 2 ? sin(2 * M_PI * k * (t + 1) / f) : cos(2 * M_PI * k * (t + 1) / f); MC_CHECK(fabs(o[j * n + t] - e) <= 1e-9, "seasonal dummies", "N=%d f=%d column %d row %d: %g, expected %g", n, f, j, t, o[j * n + t], e); } free(o); } }
static void median_kernel(int n, int nv) { static const double V[] = {0.25, 0, 1.5, 1.75, -2, 3}; long tot = 1; for (int i = 0; i < n; i++) tot *= nv; for (long k = 0; k < tot && mc_ok(); k++) { double y[16], z[16] = {0}, rw[16]; ld Y[16], Z[16] = {0}, R[16]; long q = k; for (int i = 0; i < n; i++) { y[i] = V[q % nv]; Y[i] = y[i]; q /= nv; } ld c = rs_weights(Y, n, Z, Z, R); stlrwt_(y, &n, z, rw); mc_ops(1); if (c == 0) for (int i = 0; i < n; i++) R[i] = y[i] == 0; for (int i = 0; i < n; i++) MC_CHECK(fabsl(rw[i] - R[i]) <= 1e-12, "robustness weights", "n=%d #%ld: [%d] = %.12g, reference %.12Lg", n, k, i, rw[i], R[i]); mc_state_d(rw, n); } }
static void wide_median(int n) { for (int sh = 0; sh < 40 && mc_ok(); sh++) { double y[400], z[400] = {0}, rw[400]; ld Y[400], Z[400] = {0}, R[400]; mc_rng g; mc_seed(&g, n * 50 + sh); for (int i = 0; i < n; i++) { y[i] = sh < 20 ? mc_n(&g) : sh < 30 ? floor(6 * mc_u(&g)) / 2 : (i * (sh - 25)) % n - n / 2.5; Y[i] = y[i]; } rs_weights(Y, n, Z, Z, R); stlrwt_(y, &n, z, rw); mc_ops(1); for (int i = 0; i < n; i++) if (R[i] == R[i]) MC_CHECK(fabsl(rw[i] - R[i]) <= 1e-11, "robustness weights", "n=%d shape %d: [%d] = %.12g, reference %.12Lg", n, sh, i, rw[i], R[i]); mc_state_d(rw, n); } }
static void easy(int n, int f, int kind) { static const int NSv[] = {3, 5, 7, 8, 13, 35}; double x[512], x0[512]; mk(kind, n, f, 6, x); memcpy(x0, x, sizeof x); for (int b = 0; b < 6; b++) for (int m = 0; m < 8 && mc_ok(); m++) { int ds = m & 1, dt = m >> 1 & 1, rob = m >> 2, no = -1, ns = NSv[b]; double *wk = calloc(7 * (n + 2 * f), sizeof(double)), *rw = mc_buf(n), *s = mc_buf(n), *t = mc_buf(n); mc_bufinit(rw, n); mc_bufinit(s, n); mc_bufinit(t, n); stlez_(x, &n, &f, &ns, &ds, &dt, &rob, &no, rw, s, t, wk); mc_ops(1); char w[128]; snprintf(w, 128, "stlez %s N=%d f=%d window %d degrees %d,%d robust %d", sn[kind], n, f, ns, ds, dt, rob); MC_CHECK(!memcmp(x, x0, sizeof(double) * n), "input modified", "%s", w);
    stlopt o; memset(&o, 0, sizeof o); o.ns = rs_span(ns); o.nt = rs_span((int)(f * 1.5L / (1 - 1.5L / o.ns) + 0.5L)); o.nl = rs_odd(f); o.ds = ds; o.dt = o.dl = dt; o.js = rs_j(o.ns); o.jt = rs_j(o.nt); o.jl = rs_j(o.nl); ld y[512], S[512], T[512], P[512], Q[512], R[512]; for (int i = 0; i < n; i++) { y[i] = x[i]; T[i] = 0; R[i] = 1; } int ni = rob ? 1 : 2, k = 0, fragile = 0; double sc = absmax(x, n) + 1e-300; rs_step(y, n, f, &o, o.ns, o.nt, o.nl, NULL, ni, S, T);
    if (rob) for (k = 1; k <= 15; k++) { memcpy(P, S, sizeof(ld) * n); memcpy(Q, T, sizeof(ld) * n); if (rs_weights(y, n, S, T, R) < 1e-4 * sc) fragile = 1; rs_step(y, n, f, &o, o.ns, o.nt, o.nl, R, ni, S, T); ld a = 0, c = 0, hs = P[0], ls = P[0], ht = Q[0], lt = Q[0]; for (int i = 0; i < n; i++) { a = fmaxl(a, fabsl(S[i] - P[i])); c = fmaxl(c, fabsl(T[i] - Q[i])); hs = fmaxl(hs, P[i]); ls = fminl(ls, P[i]); ht = fmaxl(ht, Q[i]); lt = fminl(lt, Q[i]); } ld u = a / (hs - ls), v = c / (ht - lt); if (fabsl(u - 0.01L) < 1e-9 || fabsl(v - 0.01L) < 1e-9) fragile = 1; if (u < 0.01L && v < 0.01L) break; }
    if (rob && k > 15) k = 15; ctol = rob ? 1e-5 : 1e-9; if (!fragile) { cmp("seasonal", w, s, S, n, sc); cmp("trend", w, t, T, n, sc); cmp("robustness weights", w, rw, R, n, 1); MC_CHECK(no == (rob ? k : 0), "robustness iterations", "%s: %d, reference %d", w, no, k); } ctol = 1e-9;
    for (int i = 0; i < n; i++) MC_CHECK(isfinite(s[i]) && isfinite(t[i]), "not finite", "%s", w); mc_bufcheck("seasonal", s, n); mc_bufcheck("trend", t, n); mc_bufcheck("weights", rw, n); mc_state_d(s, n); mc_buffree(s); mc_buffree(t); mc_buffree(rw); free(wk); } }
void mc_enumerate(void) { mc_case_limit = 120;
    static const int F[] = {2, 3, 4, 5, 7, 12}; static const int NN[][4] = {{4,5,9,24},{6,8,13,25},{8,9,11,30},{10,12,19,33},{14,16,20,40},{24,25,31,60}};
    for (int i = 0; i < 6; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < NS; k++) if (mc_case("stl settings f=%d N=%d %s", F[i], NN[i][j], sn[k])) settings(NN[i][j], F[i], k);
    for (int i = 0; i < 6; i++) for (int per = 0; per < 2; per++) for (int k = 0; k < NS; k++) { if (!mc_thorough && k != S_WALK && k != S_OUT && k != S_PERLIN) continue; int n = NN[i][mc_thorough ? 3 : 2] + 2; if (mc_case("stl subsets f=%d N=%d %s %s", F[i], n, sn[k], per ? "period" : "window")) subsets(n, F[i], k, per); }
    for (int f = 1; f <= 7; f++) for (int k = 0; k < NS; k++) for (int n = 2 * f + 6; n <= 45; n += 11) if (mc_case("modstl f=%d N=%d %s", f, n, sn[k])) mods(n, f, k);
    for (int k = 0; k < NS; k++) for (int n = 21; n <= (mc_thorough ? 90 : 45); n += 12) if (mc_case("mstl N=%d %s", n, sn[k])) multi(n, k);
    for (int f = 2; f <= 13; f++) for (int n = 2 * f; n <= 4 * f + 2; n++) if (mc_case("decompose f=%d N=%d", f, n)) classical(n, f);
    for (int n = 3; n <= 40; n += (mc_thorough ? 1 : 6)) if (mc_case("dummies N=%d", n)) dummies(n);
    for (int n = 2; n <= (mc_thorough ? 8 : 7); n++) if (mc_case("weights n=%d", n)) median_kernel(n, n <= 6 ? 6 : 4);
    for (int n = 9; n <= (mc_thorough ? 300 : 100); n++) if (mc_case("wide weights n=%d", n)) wide_median(n);
    for (int i = 0; i < 6; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < NS; k++) if (mc_case("stlez f=%d N=%d %s", F[i], NN[i][j], sn[k])) easy(NN[i][j], F[i], k);
}
