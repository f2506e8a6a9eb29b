/* C08: automatic order search against an adversary that chooses the outcome of every candidate fit.
 * as154x/cssx (candidate fits) and ndiffs/nsdiffs (differencing) are replaced at link time; the search in ctsa.c is the real one.
 * Stateless DFS over the adversary's answers with a bounded number of deviations from the default answer, plus every complete ranking
 * of small candidate sets. */
#include "mc.h"
#include "ctsa.h"
const char *mc_property = "C08";
#define MAXC 400
typedef struct { int p, q, P, Q, c, full; double V; int ok; } ev_t;   /* V criterion, ok: fitted and admissible */
typedef struct { int N, s, r, d, D, pm, qm, Pm, Qm, st[4], mean, drift, approx, step, models, omax, ic, method; } cfg_t;
static cfg_t C;
static ev_t memo[MAXC]; static int nmemo;            /* distinct (candidate, kind) */
static int call[4 * MAXC], ncall, overflow, badcall;  /* sequence of evaluations as memo indices */
static int noffset, ndeval;
enum { O_WORSE, O_BETTER, O_SECOND, O_TIE, O_FAIL, O_AR, O_MA, O_ARL, O_MAL, O_SAR, O_SMA, NOPT };
static int rich;               /* number of deviation kinds offered at each fit */
static int seq[MAXC], nopt[MAXC][NOPT], nno[MAXC], len, prefix;
static const int *rankp; static int nrank; static unsigned rankfail;   /* complete ranking mode */
static double best, worst, second;
static int choose(int p, int q, int P, int Q, int full) {
    if (len >= MAXC - 1) { overflow = 1; return O_WORSE; }
    int n = 0, *o = nopt[len];
    o[n++] = O_WORSE;
    if (rich >= 1) o[n++] = O_BETTER;
    if (rich >= 2) o[n++] = O_FAIL;
    if (rich >= 3) { if (p) o[n++] = O_ARL; if (q) o[n++] = O_MAL; if (P) o[n++] = O_SAR; if (Q) o[n++] = O_SMA; }
    if (rich >= 4) { if (p > 1) o[n++] = O_AR; if (q > 1) o[n++] = O_MA; o[n++] = O_SECOND; o[n++] = O_TIE; }
    nno[len] = n; int k = len < prefix ? seq[len] : 0; seq[len] = k; len++; return o[k < n ? k : 0];
}
static int fit_mock(int full, int imean, double *xreg, int N, int p, int d, int q, int s, int P, int D, int Q, double *phi, double *theta, double *PHI, double *THETA, double *exog, int r, double *wmean, double *var, double *loglik) {
    for (int i = 0; i < p; i++) phi[i] = 0; for (int i = 0; i < q; i++) theta[i] = 0; for (int i = 0; i < P; i++) PHI[i] = 0; for (int i = 0; i < Q; i++) THETA[i] = 0;
    for (int i = 0; i < r; i++) exog[i] = 0;
    *wmean = 0; *var = 1; *loglik = 0;
    if (N != C.N || d != C.d || D != C.D) { if (!badcall) mc_fail("differencing", "fit with N %d d %d D %d, expected %d %d %d", N, d, D, C.N, C.d, C.D); badcall = 1; }
    if (C.approx && !noffset && full && p + q + P + Q == 0 && nmemo == 0) { noffset++; return 1; }   /* reference fit for the scale of approximate criteria */
    int c = 0, bad = 0;
    if (d + D == 0) c = imean; 
    if (d + D == 1) { c = r == C.r + 1; if (c) for (int i = 1; i < N; i++) if (!(fabs(xreg[i] - xreg[i - 1] - 1) < 1e-12)) bad = 1; }
    else if (r != C.r) bad = 1;
    if (r != C.r && r != C.r + 1) bad = 1;
    if (bad && !badcall) { mc_fail("regressors", "candidate with %d regressors, d %d D %d (model has %d)", r, d, D, C.r); badcall = 1; }
    if ((p > C.pm || q > C.qm || P > C.Pm || Q > C.Qm) && !badcall) { mc_fail("outside_maxima", "candidate (%d,%d,%d)(%d,%d,%d) outside maxima %d %d %d %d", p, d, q, P, D, Q, C.pm, C.qm, C.Pm, C.Qm); badcall = 1; }
    if ((P + Q + D > 0) && s != C.s && !badcall) { mc_fail("period", "candidate with period %d", s); badcall = 1; }
    if (c && !(d + D == 0 ? C.mean : C.drift) && !badcall) { mc_fail("constant_not_allowed", "candidate with a constant although it is not allowed"); badcall = 1; }
    int k; for (k = 0; k < nmemo; k++) if (memo[k].p == p && memo[k].q == q && memo[k].P == P && memo[k].Q == Q && memo[k].c == c && memo[k].full == full) break;
    static int opt[MAXC];
    if (k == nmemo) {
        if (nmemo >= MAXC) { overflow = 1; return 0; }
        memo[k] = (ev_t){p, q, P, Q, c, full, 0, 1}; nmemo++;
        int o = O_WORSE;
        if (rankp) { int id = k < nrank ? k : nrank - 1; memo[k].V = 1000 + rankp[id]; if (rankfail >> id & 1) o = O_FAIL; }
        else {
            o = choose(p, q, P, Q, full);
            if (o == O_BETTER) memo[k].V = best - 8; else if (o == O_TIE) memo[k].V = best; else if (o == O_SECOND) memo[k].V = (best + second) / 2; else memo[k].V = worst + 8;
        }
        memo[k].ok = o < O_FAIL; opt[k] = o;
        if (memo[k].ok) { double V = memo[k].V; if (V > worst) worst = V; if (V < best) { second = best; best = V; } else if (V > best && V < second) second = V; }
    }
    if (ncall < 4 * MAXC) call[ncall++] = k; else overflow = 1;
    mc_ops(1);
    int M = r + (d + D == 0 && imean), nc = p + q + P + Q + M + 1, nu = N - d - s * D;
    double A = memo[k].V, l2 = log(2 * 3.14159);
    if (C.ic == 1) A -= nc * (log((double)nu) - 2.0); else if (C.ic == 0) A -= 2.0 * nc * (nc + 1) / (double)(nu - nc - 1);
    *loglik = ((A - 2 * nc) / nu - 1 - l2) / 2; *var = exp((A - nu * (1 + l2) - 2 * nc) / nu);
    switch (opt[k]) { case O_FAIL: return (k % 3) ? 15 : 4; case O_AR: phi[0] = 0.9995; break; case O_ARL: phi[p - 1] = (k & 1) ? 0.9995 : -0.9995; break;
    case O_MA: theta[0] = 0.9995; break; case O_MAL: theta[q - 1] = (k & 1) ? 0.9995 : -0.9995; break; case O_SAR: PHI[P - 1] = 0.9995; break; case O_SMA: THETA[Q - 1] = (k & 1) ? 0.9995 : -0.9995; break;
    default: for (int i = 0; i < p; i++) phi[i] = 0.3 / p; for (int i = 0; i < q; i++) theta[i] = -0.3 / q; }
    return 1;
}
int __wrap_as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q, double *phi, double *theta, double *PHI, double *THETA, double *exog, int r, double *wmean, double *var, double *resid, double *loglik, double *hess, int cssml, int start, int imean) {
    return fit_mock(1, imean, xreg, N, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, exog, r, wmean, var, loglik);
}
int __wrap_cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q, double *phi, double *theta, double *PHI, double *THETA, double *exog, int r, double *wmean, double *var, double *resid, double *loglik, double *hess, int start, int imean) {
    return fit_mock(0, imean, xreg, N, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, exog, r, wmean, var, loglik);
}
int __wrap_ndiffs(double *x, int N, double *alpha, const char *test, const char *type, int *max_d) { return C.d; }
int __wrap_nsdiffs(double *x, int N, int f, double *alpha, const char *test, int *max_D) { return C.D; }
static int find(int p, int q, int P, int Q, int c, int full) { for (int k = 0; k < nmemo; k++) if (memo[k].p == p && memo[k].q == q && memo[k].P == P && memo[k].Q == Q && memo[k].c == c && memo[k].full == full) return k; return -1; }
static char trace[2400];
static const char *tr(void) { int n = 0; trace[0] = 0; for (int i = 0; i < ncall && n < 2200; i++) { ev_t *e = &memo[call[i]]; n += sprintf(trace + n, " %s(%d,%d)(%d,%d)%s%s=%g", e->full ? "F" : "", e->p, e->q, e->P, e->Q, e->c ? "c" : "", e->ok ? "" : "!", e->V); } return trace; }
static void run_once(void) {
    static double x[64], xr[64]; static int init; if (!init) { mc_rng g; mc_seed(&g, 5); for (int i = 0; i < 64; i++) { x[i] = 10 + mc_n(&g); xr[i] = mc_n(&g); } init = 1; }
    nmemo = ncall = overflow = badcall = noffset = 0; len = 0; best = 1000; worst = 1000; second = 1400;
    int a[3] = {C.pm, 2, C.qm}, b[3] = {C.Pm, 1, C.Qm};
    auto_arima_object o = auto_arima_init(a, b, C.s, C.r, C.N);
    o->p_start = C.st[0]; o->q_start = C.st[1]; o->P_start = C.st[2]; o->Q_start = C.st[3]; o->num_models = C.models; o->Order_max = C.omax;
    strcpy(o->information_criteria, C.ic == 0 ? "aicc" : C.ic == 1 ? "bic" : "aic");
    auto_arima_setApproximation(o, C.approx); auto_arima_setStepwise(o, C.step); auto_arima_allowMean(o, C.mean); auto_arima_allowDrift(o, C.drift); auto_arima_setMethod(o, C.method);
    auto_arima_exec(o, x, C.r ? xr : NULL); ndeval++;
    int p = o->p, q = o->q, P = o->P, Q = o->Q, dt = C.d + C.D, c = dt == 0 ? o->M == C.r + 1 : dt == 1 ? o->idrift : 0, od = o->d, oD = o->D;
    auto_arima_free(o);
    if (badcall) return;
    if (overflow) { mc_fail("runaway", "more than %d candidates evaluated", MAXC); return; }
    /* effective bounds */
    int m = C.s > 1 ? C.s : 1, N3 = C.N / 3, pm = C.pm < N3 ? C.pm : N3, qm = C.qm < N3 ? C.qm : N3, N3m = N3 / m, Pm = C.Pm < N3m ? C.Pm : N3m, Qm = C.Qm < N3m ? C.Qm : N3m;
    if (m == 1) Pm = Qm = 0; if (m > 1) { if (Pm > 0 && pm > m - 1) pm = m - 1; if (Qm > 0 && qm > m - 1) qm = m - 1; }
    int constant = dt == 0 ? C.mean : dt == 1 ? C.drift : 0;
    /* kinds: search phase kind, final kind */
    int kf = C.method == 2 ? 0 : 1, ks = C.method ? kf : C.approx ? 0 : 1, twophase = C.approx && ks != kf;
    int h = 0; for (int i = 0; i < ncall; i++) h = h * 31 + call[i]; int key[6] = {h, p, q, P, Q, c}; mc_state(mc_hash(1, key, sizeof key));
    MC_CHECK(od == C.d && oD == C.D, "differencing_reported", "reported d %d D %d, tests selected %d %d", od, oD, C.d, C.D);
    int bi = -1, nsearch = 0, nany = 0; for (int k = 0; k < nmemo; k++) { if (memo[k].full == ks) { nsearch++; if (memo[k].ok && (bi < 0 || memo[k].V < memo[bi].V)) bi = k; } nany += memo[k].ok && memo[k].full == kf; 
        if (!C.step && memo[k].p + memo[k].q + memo[k].P + memo[k].Q > C.omax) { mc_fail("total_order", "exhaustive search fitted (%d,%d)(%d,%d), total order limit %d", memo[k].p, memo[k].q, memo[k].P, memo[k].Q, C.omax); return; } }
    int ri = find(p, q, P, Q, c, kf);
    /* no admissible full candidate at all: nothing to judge about the answer */
    if (bi >= 0 && !twophase) { if (ri < 0 || !memo[ri].ok || memo[ri].V > memo[bi].V + 1e-6) { mc_fail("not_best", "returned (%d,%d)(%d,%d)%s although (%d,%d)(%d,%d)%s is better; evaluated:%s", p, q, P, Q, c ? "c" : "", memo[bi].p, memo[bi].q, memo[bi].P, memo[bi].Q, memo[bi].c ? "c" : "", tr()); return; } }
    if (twophase && bi >= 0) {
        if (C.step) {   /* ranking of the approximate criteria, first whose full fit is admissible */
            if (nany) {
                int rs = find(p, q, P, Q, c, ks);
                if (ri < 0 || !memo[ri].ok || rs < 0) { mc_fail("inadmissible_returned", "returned (%d,%d)(%d,%d)%s whose full fit is not admissible; evaluated:%s", p, q, P, Q, c ? "c" : "", tr()); return; }
                for (int k = 0; k < nmemo; k++) if (memo[k].full == ks && memo[k].ok && memo[k].V < memo[rs].V - 1e-6) { int f = find(memo[k].p, memo[k].q, memo[k].P, memo[k].Q, memo[k].c, kf);
                    if (f < 0 || memo[f].ok) { mc_fail("approx_ranking", "returned (%d,%d)(%d,%d)%s although (%d,%d)(%d,%d)%s ranks before it; evaluated:%s", p, q, P, Q, c ? "c" : "", memo[k].p, memo[k].q, memo[k].P, memo[k].Q, memo[k].c ? "c" : "", tr()); return; } }
            }
        } else {
            int f = find(memo[bi].p, memo[bi].q, memo[bi].P, memo[bi].Q, memo[bi].c, kf), tie = 0;
            for (int k = 0; k < nmemo; k++) if (memo[k].full == ks && memo[k].ok && k != bi && memo[k].V < memo[bi].V + 1e-6) tie = 1;
            if (!tie) {
                if (f < 0) { mc_fail("no_full_fit", "winner of the approximate search was not refitted; evaluated:%s", tr()); return; }
                if (memo[f].ok) { if (f != ri) { mc_fail("not_best", "returned (%d,%d)(%d,%d)%s instead of the approximate winner; evaluated:%s", p, q, P, Q, c ? "c" : "", tr()); return; } }
                else { int fb = -1; for (int k = 0; k < nmemo; k++) if (memo[k].full == kf && memo[k].ok && (fb < 0 || memo[k].V < memo[fb].V)) fb = k;
                    if (fb >= 0 && (ri < 0 || !memo[ri].ok || memo[ri].V > memo[fb].V + 1e-6)) { mc_fail("not_best", "returned (%d,%d)(%d,%d)%s, best full fit is better; evaluated:%s", p, q, P, Q, c ? "c" : "", tr()); return; } }
            }
        }
    }
    /* fits per candidate: a repeat ends the search phase */
    if (C.step) {
        int rep = 0, seen[MAXC] = {0}, lim = C.approx ? nsearch + 1 : 1, ninit = 2 + (pm > 0 || Pm > 0) + (qm > 0 || Qm > 0) + constant, lim2 = C.models > ninit ? C.models : ninit;
        for (int i = 0; i < ncall; i++) {
            if (i < ninit && (memo[call[i]].full == ks || !twophase)) { seen[call[i]] = 1; continue; }   /* the fixed initial candidates may coincide */
            if (memo[call[i]].full != ks && twophase) { rep++; continue; }
            if (seen[call[i]]) rep++; else if (rep) { mc_fail("refitted_during_search", "a candidate was fitted again before the search ended;%s", tr()); return; }
            seen[call[i]] = 1;
        }
        if (rep > lim + (twophase ? 1 : 0)) { mc_fail("refits", "%d refits after the search (%d candidates);%s", rep, nsearch, tr()); return; }
        if (nsearch > lim2) { mc_fail("budget", "%d candidates evaluated, limit %d;%s", nsearch, lim2, tr()); return; }
        /* local optimum */
        if (bi >= 0 && nsearch < C.models) {
            ev_t *b = &memo[bi]; int cc = b->c, tie = 0;
            for (int k = 0; k < nmemo; k++) if (k != bi && memo[k].full == ks && memo[k].ok && fabs(memo[k].V - b->V) < 1e-6) tie = 1;
            if (!tie) {
                static const int nb[17][4] = {{0,0,-1,0},{0,0,0,-1},{0,0,1,0},{0,0,0,1},{0,0,-1,-1},{0,0,-1,1},{0,0,1,-1},{0,0,1,1},{-1,0,0,0},{0,-1,0,0},{1,0,0,0},{0,1,0,0},{-1,-1,0,0},{-1,1,0,0},{1,-1,0,0},{1,1,0,0}};
                int null0 = constant && !cc && b->p + b->q + b->P + b->Q == 0;   /* as published: the search keeps its constant after the bare null model wins */
                for (int i = 0; i < 16; i++) {
                    int np = b->p + nb[i][0], nq = b->q + nb[i][1], nP = b->P + nb[i][2], nQ = b->Q + nb[i][3];
                    if (np < 0 || nq < 0 || nP < 0 || nQ < 0 || np > pm || nq > qm || nP > Pm || nQ > Qm) continue;
                    int f = find(np, nq, nP, nQ, cc, ks), f1 = null0 ? find(np, nq, nP, nQ, 1, ks) : -1;
                    if (f < 0 && f1 < 0) { mc_fail("neighbour_not_tried", "search ended at (%d,%d)(%d,%d)%s without trying (%d,%d)(%d,%d);%s", b->p, b->q, b->P, b->Q, cc ? "c" : "", np, nq, nP, nQ, tr()); return; }
                }
                if (constant && find(b->p, b->q, b->P, b->Q, !cc, ks) < 0) { mc_fail("constant_not_tried", "search ended at (%d,%d)(%d,%d)%s without trying the other constant;%s", b->p, b->q, b->P, b->Q, cc ? "c" : "", tr()); return; }
            }
        }
    } else {
        for (int i = 0; i <= pm; i++) for (int j = 0; j <= qm; j++) for (int I = 0; I <= Pm; I++) for (int J = 0; J <= Qm; J++) for (int k = 0; k <= constant; k++)
            if (i + j + I + J <= C.omax && find(i, j, I, J, k, ks) < 0) { mc_fail("not_exhaustive", "exhaustive search skipped (%d,%d)(%d,%d)%s", i, j, I, J, k ? "c" : ""); return; }
    }
}
/* every answer sequence with at most K deviations */
static void dfs(int K, long limit) {
    prefix = 0; ndeval = 0;
    for (;;) {
        run_once(); if (!mc_ok()) { char b[600]; int n = 0; for (int i = 0; i < len && n < 500; i++) n += sprintf(b + n, "%d", seq[i]); mc_note("answers %s", b); return; }
        if (ndeval >= limit) { mc_count("truncated_searches", 1); break; }
        int i, dev = 0, pre[MAXC]; for (i = 0; i < len; i++) { pre[i] = dev; dev += seq[i] > 0; }
        for (i = len - 1; i >= 0; i--) if (seq[i] + 1 < nno[i] && (seq[i] > 0 || pre[i] < K)) { seq[i]++; prefix = i + 1; break; }
        if (i < 0) break;
    }
    mc_count("answer_sequences", ndeval);
}
static void ranks(int n, int nfail) {   /* every ranking of n candidates in order of first evaluation, every subset of <= nfail failures */
    int a[10], c[10] = {0}; for (int i = 0; i < n; i++) a[i] = i; nrank = n; rankp = a; ndeval = 0;
    int i = 0;
    for (;;) {
        for (unsigned f = 0; f < (1u << n); f++) { if (__builtin_popcount(f) > nfail) continue; rankfail = f; run_once(); if (!mc_ok()) { rankp = NULL; return; } }
        while (i < n && c[i] >= i) c[i++] = 0;
        if (i >= n) break;
        int j = i % 2 ? c[i] : 0, t = a[j]; a[j] = a[i]; a[i] = t; c[i]++; i = 0;
    }
    rankp = NULL; mc_count("rankings", ndeval);
}
static const char *cs(void) { static char b[200]; sprintf(b, "N%d s%d r%d d%d D%d max%d%d%d%d start%d%d%d%d mean%d drift%d approx%d step%d models%d omax%d ic%d method%d", C.N, C.s, C.r, C.d, C.D, C.pm, C.qm, C.Pm, C.Qm, C.st[0], C.st[1], C.st[2], C.st[3], C.mean, C.drift, C.approx, C.step, C.models, C.omax, C.ic, C.method); return b; }
static void go(int rc, int K, long lim) { if (mc_case("dfs K%d rich%d %s", K, rc, cs())) { rich = rc; rankp = NULL; dfs(K, lim); } }
static const cfg_t DEF = {60, 0, 0, 0, 0, 3, 3, 2, 2, {2, 2, 1, 1}, 1, 1, 0, 1, 94, 5, 0, 0};
void mc_enumerate(void) {
    int th = mc_thorough; long LIM = th ? 300000 : 200000; mc_case_limit = 300;
    static const int dd[5][2] = {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}};
    /* every maxima menu, differencing, constants, approximation */
    for (int s = 0; s <= 4; s += 4) for (int pm = 0; pm <= 3; pm++) for (int qm = 0; qm <= 3; qm++) for (int Pm = 0; Pm <= (s ? 2 : 0); Pm++) for (int Qm = 0; Qm <= (s ? 2 : 0); Qm++)
        for (int k = 0; k < (s ? 5 : 3); k++) for (int co = 0; co < 2; co++) for (int ap = 0; ap < 2; ap++) {
            C = DEF; C.s = s; C.pm = pm; C.qm = qm; C.Pm = Pm; C.Qm = Qm; C.d = dd[k][0]; C.D = dd[k][1]; C.mean = C.drift = co; C.approx = ap;
            int small = pm + qm + Pm + Qm <= 4; go(3, th ? (small ? 4 : 3) : small ? 2 : 1, LIM);
            if (s && pm + qm + Pm + Qm > 6 && !th) continue;
            C.step = 0; C.omax = 5; if ((pm + 1) * (qm + 1) * (Pm + 1) * (Qm + 1) <= (th ? 144 : 36)) go(3, 1, LIM);
            if (pm == 2) { C.omax = 2; go(3, th ? 2 : 1, LIM); C.omax = 0; go(3, 1, LIM); }
        }
    /* deeper on a few configurations */
    for (int k = 0; k < 5; k++) for (int ap = 0; ap < 2; ap++) for (int s = 0; s <= 4; s += 4) {
        if (!s && dd[k][1]) continue;
        C = DEF; C.s = s; C.d = dd[k][0]; C.D = dd[k][1]; C.approx = ap; C.pm = C.qm = 2; C.Pm = C.Qm = s ? 1 : 0; go(4, th ? 3 : 2, LIM); go(1, th ? 7 : 5, LIM); go(2, th ? 4 : 3, LIM);
        C.pm = C.qm = 5; C.Pm = C.Qm = s ? 2 : 0; go(1, th ? 5 : 3, LIM);
    }
    /* starts, budgets, criteria, methods, regressors, short series */
    for (int k = 0; k < 5; k++) for (int ap = 0; ap < 2; ap++) for (int s = 0; s <= 4; s += 4) {
        if (!s && dd[k][1]) continue;
        cfg_t B = DEF; B.s = s; B.d = dd[k][0]; B.D = dd[k][1]; B.approx = ap; B.Pm = B.Qm = s ? 1 : 0;
        for (int st = 0; st < 16; st++) { C = B; C.st[0] = st & 1 ? 3 : 0; C.st[1] = st & 2 ? 3 : 0; C.st[2] = st & 4 ? 1 : 0; C.st[3] = st & 8 ? 2 : 0; go(2, th ? 3 : 1, LIM); }
        for (int mo = 0; mo <= (th ? 40 : 14); mo++) { C = B; C.models = mo; go(2, th ? 3 : 2, LIM); }
        for (int ic = 0; ic < 3; ic++) for (int me = 0; me < 3; me++) for (int r = 0; r < 2; r++) for (int step = 0; step < 2; step++) { C = B; C.ic = ic; C.method = me; C.r = r; C.step = step; if (!step) { C.pm = C.qm = 1; } go(3, th && step ? 3 : 1, LIM); }
        for (int mn = 0; mn < 2; mn++) for (int dr = 0; dr < 2; dr++) { C = B; C.mean = mn; C.drift = dr; go(3, th ? 3 : 2, LIM); C.step = 0; C.pm = C.qm = 1; go(3, th ? 3 : 1, LIM); }
        static const int Ns[] = {14, 16, 20, 26, 32}; for (int i = 0; i < 5; i++) { C = B; C.N = Ns[i]; C.ic = 2; C.Pm = C.Qm = s ? 2 : 0; C.pm = C.qm = 5; go(1, th ? 3 : 1, LIM); }
    }
    for (int N = 5; N <= 13; N++) for (int d = 0; d < 2; d++) { C = DEF; C.N = N; C.ic = 2; C.d = d; C.pm = C.qm = 4; go(2, th ? 3 : 2, LIM); C.step = 0; go(2, 1, LIM); }
    /* every ranking */
    for (int step = 0; step < 2; step++) for (int d = 0; d < 3; d++) for (int co = 0; co < 2; co++) {
        C = DEF; C.d = d; C.mean = C.drift = co; C.pm = C.qm = 1; C.step = step; int n = (co && d < 2) ? 8 : 4; if (mc_case("rank%d %s", n, cs())) { rich = 0; ranks(n, th ? 2 : n == 8 ? 0 : 4); }
        C.s = 4; C.pm = C.qm = 1; C.Pm = 1; C.Qm = 0; if (n == 4) { if (mc_case("rank8 %s", cs())) { rich = 0; ranks(8, th ? 2 : 0); } }
        C.pm = C.qm = 0; C.Pm = C.Qm = 1; if (mc_case("rank%d %s", n, cs())) { rich = 0; ranks(n, th ? 2 : n == 8 ? 0 : 4); }
        C.pm = 2; C.qm = 0; C.Pm = C.Qm = 0; C.s = 0; int n2 = (co && d < 2) ? 6 : 3; if (mc_case("rank%d %s", n2, cs())) { rich = 0; ranks(n2, 3); }
        C.pm = 2; C.qm = 1; n2 = 6; if (n == 4) if (mc_case("rank%d %s", n2, cs())) { rich = 0; ranks(n2, 3); }
        C.pm = C.qm = 2; if (n == 4 && th) if (mc_case("rank9 %s", cs())) { rich = 0; ranks(9, 0); }
    }
}
