/* C30: Levenberg-Marquardt on a catalogue of problems with known Jacobians, every start of a lattice; QR/triangular/parameter kernels on whole matrix families */
#include "mc.h"
#include "ref.h"
#include "optimc.h"
const char *mc_property = "C30";
enum { LINF, LIN1, ROS, HELIX, POWELL, FREUD, BARD, KOW, BOX, EXPF, LOGIST, BROWND, CIRCLE, SINE, ZEROCOL, CHEB, BROWNA, NPROB };
static const char *PN[] = {"linear", "linear rank one", "rosenbrock", "helical valley", "powell singular", "freudenstein-roth", "bard", "kowalik-osborne", "box", "exponential fit", "logistic fit", "brown-dennis", "circle fit", "sine fit", "unused parameter", "chebyquad", "brown almost linear"};
typedef struct { int id, M, N; long nf, nj; int first; double x1[8]; } prob;
static const double BY[15] = {.14,.18,.22,.25,.29,.32,.35,.39,.37,.58,.73,.96,1.34,2.1,4.39};
static const double KV[11] = {4,2,1,.5,.25,.167,.125,.1,.0833,.0714,.0625}, KY[11] = {.1957,.1947,.1735,.16,.0844,.0627,.0456,.0342,.0323,.0235,.0246};
static double la(int i, int j) { return (i == j) + 0.3 * ((i * 3 + j * 5) % 7) - 0.6; }
static double noise(int i) { return 0.05 * (((i * 37) % 11) - 5.0); }
/* residuals f (M) and Jacobian J (M x N row major); either may be NULL */
static void R(const prob *p, const double *x, double *f, double *J) { int M = p->M, N = p->N;
#define SET(i, v) do { if (f) f[i] = (v); } while (0)
#define JAC(i, j, v) do { if (J) J[(i) * N + (j)] = (v); } while (0)
    switch (p->id) {
    case LINF: for (int i = 0; i < M; i++) { double s = -(1 + 0.4 * i - (i % 3)); for (int j = 0; j < N; j++) { s += la(i, j) * x[j]; JAC(i, j, la(i, j)); } SET(i, s); } break;
    case LIN1: for (int i = 0; i < M; i++) { double s = 0; for (int j = 0; j < N; j++) { s += (j + 1.0) * x[j]; JAC(i, j, (i + 1.0) * (j + 1.0)); } SET(i, (i + 1.0) * s - 1); } break;
    case ROS: SET(0, 10 * (x[1] - x[0] * x[0])); SET(1, 1 - x[0]); JAC(0, 0, -20 * x[0]); JAC(0, 1, 10); JAC(1, 0, -1); JAC(1, 1, 0); break;
    case HELIX: { double tp = 2 * M_PI, q = x[0] * x[0] + x[1] * x[1], r = sqrt(q), t = x[0] > 0 ? atan(x[1] / x[0]) / tp : x[0] < 0 ? atan(x[1] / x[0]) / tp + 0.5 : x[1] < 0 ? -0.25 : 0.25; SET(0, 10 * (x[2] - 10 * t)); SET(1, 10 * (r - 1)); SET(2, x[2]); JAC(0, 0, 100 * x[1] / (tp * q)); JAC(0, 1, -100 * x[0] / (tp * q)); JAC(0, 2, 10); JAC(1, 0, 10 * x[0] / r); JAC(1, 1, 10 * x[1] / r); JAC(1, 2, 0); JAC(2, 0, 0); JAC(2, 1, 0); JAC(2, 2, 1); } break;
    case POWELL: { double s5 = sqrt(5.), s10 = sqrt(10.), a = x[1] - 2 * x[2], b = x[0] - x[3]; SET(0, x[0] + 10 * x[1]); SET(1, s5 * (x[2] - x[3])); SET(2, a * a); SET(3, s10 * b * b); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) JAC(i, j, 0); JAC(0, 0, 1); JAC(0, 1, 10); JAC(1, 2, s5); JAC(1, 3, -s5); JAC(2, 1, 2 * a); JAC(2, 2, -4 * a); JAC(3, 0, 2 * s10 * b); JAC(3, 3, -2 * s10 * b); } break;
    case FREUD: SET(0, -13 + x[0] + ((5 - x[1]) * x[1] - 2) * x[1]); SET(1, -29 + x[0] + ((1 + x[1]) * x[1] - 14) * x[1]); JAC(0, 0, 1); JAC(1, 0, 1); JAC(0, 1, x[1] * (10 - 3 * x[1]) - 2); JAC(1, 1, x[1] * (2 + 3 * x[1]) - 14); break;
    case BARD: for (int i = 0; i < 15; i++) { double a = i + 1, b = 15 - i, c = a > b ? b : a, d = x[1] * b + x[2] * c; SET(i, BY[i] - (x[0] + a / d)); JAC(i, 0, -1); JAC(i, 1, a * b / (d * d)); JAC(i, 2, a * c / (d * d)); } break;
    case KOW: for (int i = 0; i < 11; i++) { double v = KV[i], n = v * (v + x[1]), d = v * (v + x[2]) + x[3]; SET(i, KY[i] - x[0] * n / d); JAC(i, 0, -n / d); JAC(i, 1, -v * x[0] / d); JAC(i, 2, x[0] * n * v / (d * d)); JAC(i, 3, x[0] * n / (d * d)); } break;
    case BOX: for (int i = 0; i < M; i++) { double t = (i + 1) / 10.0, a = exp(-t * x[0]), b = exp(-t * x[1]), c = exp(-10 * t) - exp(-t); SET(i, a - b + c * x[2]); JAC(i, 0, -t * a); JAC(i, 1, t * b); JAC(i, 2, c); } break;
    case EXPF: for (int i = 0; i < M; i++) { double t = 0.3 * i, e = exp(-x[1] * t); SET(i, x[0] * e + x[2] - (2 * exp(-0.7 * t) + 0.5 + noise(i))); JAC(i, 0, e); JAC(i, 1, -t * x[0] * e); JAC(i, 2, 1); } break;
    case LOGIST: for (int i = 0; i < M; i++) { double t = i - 4, e = exp(-x[1] * (t - x[2])), d = 1 + e; SET(i, x[0] / d - (3 / (1 + exp(-0.8 * (t - 1))) + noise(i))); JAC(i, 0, 1 / d); JAC(i, 1, x[0] * e * (t - x[2]) / (d * d)); JAC(i, 2, -x[0] * e * x[1] / (d * d)); } break;
    case BROWND: for (int i = 0; i < M; i++) { double t = (i + 1) / 5.0, a = x[0] + t * x[1] - exp(t), b = x[2] + sin(t) * x[3] - cos(t); SET(i, a * a + b * b); JAC(i, 0, 2 * a); JAC(i, 1, 2 * a * t); JAC(i, 2, 2 * b); JAC(i, 3, 2 * b * sin(t)); } break;
    case CIRCLE: for (int i = 0; i < M; i++) { double an = 0.9 * i, px = 1 + 2 * cos(an) + noise(i), py = -0.5 + 2 * sin(an), dx = x[0] - px, dy = x[1] - py, r = sqrt(dx * dx + dy * dy + 1e-12); SET(i, r - x[2]); JAC(i, 0, dx / r); JAC(i, 1, dy / r); JAC(i, 2, -1); } break;
    case SINE: for (int i = 0; i < M; i++) { double t = 0.25 * i; SET(i, x[0] * sin(t + x[1]) - 1.5 * sin(t + 0.4) - noise(i)); JAC(i, 0, sin(t + x[1])); JAC(i, 1, x[0] * cos(t + x[1])); } break;
    case ZEROCOL: for (int i = 0; i < M; i++) { SET(i, x[0] * (i + 1) - 2 + (i % 2) + (N > 2 ? x[2] * x[2] * i : 0)); JAC(i, 0, i + 1); JAC(i, 1, 0); if (N > 2) JAC(i, 2, 2 * x[2] * i); } break;
    case CHEB: for (int i = 0; i < M; i++) { double s = 0; for (int j = 0; j < N; j++) { double t0 = 1, t1 = 2 * x[j] - 1, d0 = 0, d1 = 2, u = 2 * x[j] - 1; for (int k = 1; k < i + 1; k++) { double t2 = 2 * u * t1 - t0, d2 = 4 * t1 + 2 * u * d1 - d0; t0 = t1; t1 = t2; d0 = d1; d1 = d2; } s += t1; JAC(i, j, d1 / N); } s /= N; if (i % 2) s += 1 / ((i + 1.) * (i + 1) - 1); SET(i, s); } break;
    case BROWNA: { double s = 0, pr = 1; for (int j = 0; j < N; j++) { s += x[j]; pr *= x[j]; } for (int i = 0; i < N - 1; i++) { SET(i, x[i] + s - (N + 1)); for (int j = 0; j < N; j++) JAC(i, j, 1 + (i == j)); } SET(N - 1, pr - 1); for (int j = 0; j < N; j++) { double q = 1; for (int k = 0; k < N; k++) if (k != j) q *= x[k]; JAC(N - 1, j, q); } } break; } }
static void FV(double *x, int M, int N, double *f, void *v) { prob *p = v; if (p->nf++ == 0) memcpy(p->x1, x, sizeof(double) * N); MC_CHECK(M == p->M && N == p->N, "callback dimensions", "M %d N %d", M, N); R(p, x, f, NULL); }
static void JV(double *x, int M, int N, double *J, void *v) { prob *p = v; p->nj++; R(p, x, NULL, J); }
static const double START[NPROB][4] = {{1,1,1,1},{1,1,1,1},{-1.2,1},{-1,0.1,0.1},{3,-1,0.1,1},{0.5,-2},{1,1,1},{.25,.39,.415,.39},{0,10,20},{1,1,0.1},{2,0.5,0.3},{25,5,-5,-1},{0.5,0.2,1},{1,0.3},{1,1,1},{.2,.4,.6,.8},{.5,.5,.5,.5}};
static const double MULT[] = {1, 0.4, 2, -1, 5};
static const char *xs(const double *x, int N) { static char b[4][160]; static int k; char *o = b[k++ & 3]; int l = 0; o[0] = 0; for (int i = 0; i < N && l < 130; i++) l += snprintf(o + l, 160 - l, " %.6g", x[i]); return o; }
static double norm(const double *f, int M) { long double s = 0; for (int i = 0; i < M; i++) s += (ld)f[i] * f[i]; return sqrtl(s); }
/* gradient test: largest cosine between residual and Jacobian columns */
static double cosine(const prob *p, const double *x, double *fn, double *scale) { double f[64], J[64 * 6]; R(p, x, f, J); *fn = norm(f, p->M); *scale = 0; double c = 0; for (int j = 0; j < p->N; j++) { ld s = 0, n = 0; for (int i = 0; i < p->M; i++) { s += (ld)f[i] * J[i * p->N + j]; n += (ld)J[i * p->N + j] * J[i * p->N + j]; } n = sqrtl(n); if (n > 0 && *fn > 0 && fabsl(s) * fmax(fabs(x[j]), 1) > 1e-4L * *fn * *fn) c = fmax(c, fabsl(s) / n / *fn); *scale = fmax(*scale, n * fmax(fabs(x[j]), 1e-8)); } return c; }
static void judge(const char *what, prob *p, int an, int std, const double *x0, const double *xf, int info) { double f0[64]; R(p, x0, f0, NULL); double n0 = norm(f0, p->M), fn, sc, c = cosine(p, xf, &fn, &sc); int N = p->N; mc_ops(1); mc_state_d(xf, N);
    MC_CHECK(info >= 1 && info <= 8, "return code", "%s from%s: %d", what, xs(x0, N), info); MC_CHECK(!memcmp(p->x1, x0, sizeof(double) * N), "start not used", "%s: first evaluation at%s, start%s", what, xs(p->x1, N), xs(x0, N));
    MC_CHECK(isfinite(fn) || !isfinite(n0), "result not finite", "%s from%s: code %d at%s", what, xs(x0, N), info, xs(xf, N)); MC_CHECK(!(fn > n0 * (1 + 1e-14)), "worse than the start", "%s from%s: residual norm %.12g, at the start %.12g (code %d)", what, xs(x0, N), fn, n0, info);
    MC_CHECK(p->nf <= 1001 + (an ? 0 : 1001L * N), "evaluation budget", "%s from%s: %ld evaluations", what, xs(x0, N), p->nf);
    /* forward-difference Jacobians have relative errors of 1.5e-8 in each column and so cosines of that order; codes 1 and 3 allow relative reductions of 3.7e-11, i.e. cosines of 6e-6 for a full step */
    double tol = an ? 6.2e-6 : 1e-4; if (info != 5) { double t = info == 4 ? tol : 1e-2; int tiny = fn <= 1e-10 * (1 + sc); if (!tiny) { char b[40]; snprintf(b, 40, "cosine over tolerance, code %d", info); mc_max(b, c / t); }
        MC_CHECK(tiny || c <= t, "not a stationary point", "%s from%s: code %d at%s with residual norm %.6g and cosine %.3g", what, xs(x0, N), info, xs(xf, N), fn, c); }
    else { mc_count("budget exhausted", 1); MC_CHECK(!std, "not converged", "%s from%s: evaluation limit at%s, residual norm %.6g, cosine %.3g", what, xs(x0, N), xs(xf, N), fn, c); } }
static int starts(int N, int thorough) { int n = 1, k = thorough ? 5 : 3; for (int i = 0; i < N; i++) n *= k; return n; }
static void start(const prob *p, int k, double *x) { int ns = mc_thorough ? 5 : 3; for (int i = 0; i < p->N; i++) { x[i] = START[p->id][i % 4] * MULT[k % ns] + (p->id <= LIN1 ? 0.3 * i : 0); k /= ns; } }
static const double DG[][4] = {{1, 1, 1, 1}, {0.1, 10, 1, 3}, {100, 1, 0.01, 1}};
static void linear_solution(const prob *p, const double *xf, const char *w, const double *x0, int an) { /* exact least squares by normal equations */
    double z[8] = {0}, f[64], J[64 * 6]; R(p, z, f, J); int M = p->M, N = p->N; ld *X = malloc(sizeof(ld) * M * N), *y = malloc(sizeof(ld) * M), b[8], rss, V[64]; for (int i = 0; i < M * N; i++) X[i] = J[i]; for (int i = 0; i < M; i++) y[i] = -f[i];
    if (!ref_ols(X, y, M, N, b, &rss, V)) for (int j = 0; j < N; j++) { double e = fabsl(b[j] - xf[j]), s = 0; for (int k = 0; k < N; k++) s = fmax(s, fabsl(b[k])); double sd = sqrtl(V[j * N + j] * fmaxl(rss, 1e-20)); mc_max("linear solution error", e / (s + 1));
        /* one Gauss-Newton step from any start; finite differences add 1e-7 relative */
        MC_CHECK(e <= (an ? 1e-9 : 1e-6) * (1 + s) + 1e-5 * sd, "linear least squares", "%s from%s: x[%d] = %.12g, exact %.12Lg", w, xs(x0, N), j, xf[j], b[j]); }
    free(X); free(y); }
static void block(int id, int M, int N) { for (int an = 1; an >= 0; an--) for (int k = 0, n = starts(N, mc_thorough); k < n && mc_ok(); k++) { prob p = {id, M, N}; double x[8], x0[8], xf[8], J[64 * 6], f[64]; start(&p, k, x); memcpy(x0, x, sizeof x); char w[96]; snprintf(w, 96, "%s M=%d N=%d %s", PN[id], M, N, an ? "Jacobian" : "differences"); R(&p, x, f, J); if (!isfinite(norm(f, M))) continue; int std = 0; for (int i = 0, kk = k; i < N; i++) { if (kk % (mc_thorough ? 5 : 3)) break; kk /= (mc_thorough ? 5 : 3); if (i == N - 1) std = 1; }
        custom_funcmult F = {FV, &p}; custom_jacobian G = {JV, &p}; int info = levmar(&F, an ? &G : NULL, x, M, N, xf); MC_CHECK(!memcmp(x, x0, sizeof(double) * N), "start modified", "%s", w); MC_CHECK(an ? p.nj > 0 : p.nj == 0, "Jacobian mode", "%s: %ld Jacobian calls", w, p.nj); judge(w, &p, an, std, x0, xf, info); if (id == LINF) linear_solution(&p, xf, w, x0, an);
        /* object interface: same answer; scaled; then unscaled again on the same object */
        nls_object o = nls_init(M, N); p.nf = 0; nls(o, &F, an ? &G : NULL, x); MC_CHECK(o->retval == info && !memcmp(o->xopt, xf, sizeof(double) * N), "entry points disagree", "%s from%s: levmar code %d at%s, nls code %d at%s", w, xs(x0, N), info, xs(xf, N), o->retval, xs(o->xopt, N)); MC_CHECK(o->nfev == (an ? p.nf : p.nf - N * (o->njev / N)), "evaluation count", "%s: nfev %d, calls %ld", w, o->nfev, p.nf);
        for (int d = 0; d < 3; d++) { double dg[8]; for (int i = 0; i < N; i++) dg[i] = DG[d][i % 4]; p.nf = 0; nls_scale(o, &F, an ? &G : NULL, dg, x); snprintf(w, 96, "%s M=%d N=%d %s scaled(%d)", PN[id], M, N, an ? "Jacobian" : "differences", d); judge(w, &p, an, 0, x0, o->xopt, o->retval); if (id == LINF && o->retval != 5) linear_solution(&p, o->xopt, w, x0, an); for (int i = 0; i < N; i++) MC_CHECK(dg[i] == DG[d][i % 4], "scaling modified", "%s", w); }
        nls(o, &F, an ? &G : NULL, x); MC_CHECK(o->retval == info && !memcmp(o->xopt, xf, sizeof(double) * N), "object remembers the scaling", "%s from%s: code %d at%s, alone %d at%s", w, xs(x0, N), o->retval, xs(o->xopt, N), info, xs(xf, N)); double zero[8] = {0}; nls_scale(o, &F, NULL, zero, x); MC_CHECK(o->retval == 0 && !memcmp(o->xopt, x, sizeof(double) * N), "bad scaling accepted", "%s: code %d", w, o->retval);
        setnlsTOL(o, 1e-2, 1e-2, 1e-2); MC_CHECK(o->gtol == 1e-2 && o->ftol == 1e-2 && o->xtol == 1e-2, "setnlsTOL", "%s", w); setnlsTOL(o, 1e-3, 1e-4, 1e-5); MC_CHECK(o->gtol == 1e-3 && o->ftol == 1e-4 && o->xtol == 1e-5, "setnlsTOL", "%s", w); p.nf = 0; nls(o, &F, an ? &G : NULL, x); double fn, sc, c = cosine(&p, o->xopt, &fn, &sc); if (o->retval == 4) MC_CHECK(c <= 1.01e-3 || fn <= 1e-10 * (1 + sc), "gradient tolerance ignored", "%s from%s: cosine %.3g", w, xs(x0, N), c);
        for (int mf = 1; mf <= 6; mf++) { o->Maxfev = mf; p.nf = 0; nls(o, &F, an ? &G : NULL, x); double f1[64]; R(&p, o->xopt, f1, NULL); MC_CHECK(o->nfev <= mf + 1, "evaluation budget", "%s: %d evaluations with budget %d", w, o->nfev, mf); MC_CHECK(!(norm(f1, M) > norm(f, M) * (1 + 1e-14)), "worse than the start", "%s budget %d from%s", w, mf, xs(x0, N)); }
        free_nls(o); } }
/* ---- kernels ---- */
static void one_qr(const double *A0, int m, int n, const char *w) { for (int piv = 0; piv < 2 && mc_ok(); piv++) { double A[64], rd[8], an[8], AP[64], Q[64]; int ip[8]; memcpy(A, A0, sizeof(double) * m * n); qrfac(A, m, n, m, piv, ip, n, rd, an, DBL_EPSILON); mc_ops(1); if (!piv) for (int j = 0; j < n; j++) ip[j] = j; int seen = 0; for (int j = 0; j < n; j++) { MC_CHECK(ip[j] >= 0 && ip[j] < n, "permutation", "%s", w); if (!mc_ok()) return; seen |= 1 << ip[j]; } MC_CHECK(seen == (1 << n) - 1, "permutation", "%s pivot %d", w, piv);
    double sc = 0; int mn = m < n ? m : n; for (int j = 0; j < n; j++) { double c[8]; for (int i = 0; i < m; i++) { c[i] = A0[i * n + j]; AP[i * n + j] = A0[i * n + ip[j]]; } double s = norm(c, m); sc = fmax(sc, s); MC_CHECK(mc_close(an[j], s, 1e-300, 1e-14), "column norms", "%s pivot %d: acnorm[%d] = %.17g, %.17g", w, piv, j, an[j], s); }
    /* R from rdiag and the upper part; apply the stored reflections in reverse to rebuild A P */
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Q[i * n + j] = i == j ? rd[j] : i < j ? A[i * n + j] : 0;
    for (int k = mn - 1; k >= 0; k--) if (A[k * n + k] != 0) for (int j = 0; j < n; j++) { ld s = 0; for (int i = k; i < m; i++) s += (ld)A[i * n + k] * Q[i * n + j]; s /= A[k * n + k]; for (int i = k; i < m; i++) Q[i * n + j] -= s * A[i * n + k]; }
    for (int i = 0; i < m * n; i++) MC_CHECK(fabs(Q[i] - AP[i]) <= 2e-14 * sc, "QR does not rebuild the matrix", "%s pivot %d: entry %d is %.12g, %.12g expected", w, piv, i, Q[i], AP[i]);
    if (piv) for (int k = 0; k < mn; k++) for (int j = k + 1; j < n; j++) { ld s = 0; for (int i = k; i < mn && i <= j; i++) { ld v = i == j ? rd[j] : A[i * n + j]; s += v * v; } MC_CHECK(fabs(rd[k]) >= sqrtl(s) * (1 - 1e-7) - 1e-13 * sc, "pivot order", "%s: |r%d%d| = %.12g, remaining column norm %.12Lg", w, k, k, rd[k], sqrtl(s)); }
    mc_state_d(rd, mn); } }
/* solve (R'R + P'D2P) z = R'qtb and compare */
static int regularised(const double *r, int n, const int *ip, const double *dg, ld par, const double *qtb, ld *x, ld *Mout) { ld A[36], b[6], z[6]; for (int i = 0; i < n; i++) { b[i] = 0; for (int k = 0; k <= i; k++) b[i] += (ld)r[k * n + i] * qtb[k]; for (int j = 0; j < n; j++) { ld s = 0; for (int k = 0; k <= (i < j ? i : j); k++) s += (ld)r[k * n + i] * r[k * n + j]; A[i * n + j] = s + (i == j ? par * dg[ip[i]] * dg[ip[i]] : 0); } } if (Mout) memcpy(Mout, A, sizeof(ld) * n * n); if (ref_solve(A, b, n, z)) return 1; for (int j = 0; j < n; j++) x[ip[j]] = z[j]; return 0; }
static const int PERM[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
static void kern(double *r0, int n, const char *w) { static const double DD[][3] = {{1,1,1},{0.5,2,1},{1e-3,1,30},{0,1,2},{0,0,0}}; static const double QB[][3] = {{1,2,-1},{0,0,3},{-2,0,0},{0,0,0}}; int sing = 0; for (int j = 0; j < n; j++) if (r0[j * n + j] == 0) sing = 1;
    for (int pi = 0; pi < (n == 1 ? 1 : n == 2 ? 2 : 6); pi++) { int ip[3]; if (n < 3) { ip[0] = pi; ip[1] = 1 - pi; if (n == 1) ip[0] = 0; } else memcpy(ip, PERM[pi], sizeof ip);
        for (int d = 0; d < 5; d++) for (int q = 0; q < 4 && mc_ok(); q++) { double r[9], x[3], sd[3]; memcpy(r, r0, sizeof(double) * n * n); qrsolv(r, n, n, ip, (double *)DD[d], (double *)QB[q], x, sd); mc_ops(1); ld xe[3], Mx[9]; int bad = regularised(r0, n, ip, DD[d], 1, QB[q], xe, Mx); double sc = 0; for (int i = 0; i < n; i++) sc = fmax(sc, (double)Mx[i * n + i]);
            for (int i = 0; i < n; i++) for (int j = i; j < n; j++) MC_CHECK(r[i * n + j] == r0[i * n + j], "upper triangle altered", "%s", w);
            /* S'S = R'R + P'D2P with S upper triangular: diagonal sd, rest stored transposed below the diagonal */
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ld s = 0; for (int k = 0; k <= i && k <= j; k++) s += (ld)(k == i ? sd[i] : r[i * n + k]) * (k == j ? sd[j] : r[j * n + k]); MC_CHECK(fabsl(s - Mx[i * n + j]) <= 1e-13 * (sc + 1e-300), "S'S identity", "%s diag %d perm %d: entry %d,%d is %.12Lg, %.12Lg", w, d, pi, i, j, s, Mx[i * n + j]); }
            if (!bad && !(sing && d >= 3)) for (int j = 0; j < n; j++) MC_CHECK(mc_close(x[j], xe[j], 1e-9, 1e-9), "triangular solution", "%s diag %d perm %d rhs %d: x[%d] = %.12g, exact %.12Lg", w, d, pi, q, j, x[j], xe[j]);
            mc_state_d(x, n);
            if (d < 3) for (int g = 0; g < 6; g++) { static const double DE[] = {1e-3, 0.1, 1, 10, 0.03, 1e4}, P0[] = {0, 0, 0.5, 0, 30, 0}; double par = P0[g], delta = DE[g]; memcpy(r, r0, sizeof(double) * n * n); lmpar(r, n, n, ip, (double *)DD[d], (double *)QB[q], delta, &par, x, sd); mc_ops(1); ld dn = 0; for (int j = 0; j < n; j++) dn += (ld)DD[d][j] * x[j] * DD[d][j] * x[j]; dn = sqrtl(dn);
                MC_CHECK(par >= 0 && par == par, "parameter sign", "%s: par %g", w, par); if (par > 0) { int b2 = regularised(r0, n, ip, DD[d], par, QB[q], xe, NULL); double mxx = 0; for (int j = 0; j < n; j++) mxx = fmax(mxx, fabsl(xe[j])); if (!b2 && !(sing && par < 1e-6)) for (int j = 0; j < n; j++) MC_CHECK(fabsl(x[j] - xe[j]) <= 1e-8 * (1e-6 + mxx), "regularised step", "%s diag %d perm %d rhs %d delta %g: x[%d] = %.12g, exact %.12Lg (par %g)", w, d, pi, q, delta, j, x[j], xe[j], par);
                    mc_max("step norm over delta", dn / delta); if (q < 3) MC_CHECK(dn <= 1.1001 * delta, "step longer than the region", "%s diag %d perm %d rhs %d delta %g: %.6Lg (par %g)", w, d, pi, q, delta, dn, par); if (!sing) MC_CHECK(q == 3 || dn >= 0.8999 * delta, "step shorter than the region", "%s diag %d perm %d rhs %d delta %g: %.6Lg (par %g)", w, d, pi, q, delta, dn, par); }
                else { MC_CHECK(dn <= 1.1001 * delta, "Gauss-Newton step outside the region", "%s: %.6Lg > %g", w, dn, delta); if (!sing) { regularised(r0, n, ip, DD[d], 0, QB[q], xe, NULL); for (int j = 0; j < n; j++) MC_CHECK(mc_close(x[j], xe[j], 1e-9, 1e-9), "Gauss-Newton step", "%s diag %d perm %d rhs %d: x[%d] = %.12g, exact %.12Lg", w, d, pi, q, j, x[j], xe[j]); } } } } } }
void mc_enumerate(void) {
    static const int SH[NPROB][4] = {{0},{0},{2,2},{3,3},{4,4},{2,2},{15,3},{11,4},{0},{12,3},{10,3},{20,4},{0},{9,2},{0},{0},{0}};
    for (int id = 0; id < NPROB; id++) { if (SH[id][0]) { if (mc_case("%s", PN[id])) block(id, SH[id][0], SH[id][1]); continue; }
        if (id == LINF || id == LIN1) { for (int n = 1; n <= (mc_thorough ? 5 : 4); n++) for (int m = n; m <= n + 3; m++) if (mc_case("%s M=%d N=%d", PN[id], m, n)) block(id, m, n); }
        else if (id == BOX) { for (int m = 3; m <= 12; m++) if (mc_case("box M=%d", m)) block(id, m, 3); }
        else if (id == CIRCLE) { for (int m = 3; m <= 9; m++) if (mc_case("circle M=%d", m)) block(id, m, 3); }
        else if (id == ZEROCOL) { for (int n = 2; n <= 3; n++) for (int m = n; m <= 5; m++) if (mc_case("unused parameter M=%d N=%d", m, n)) block(id, m, n); }
        else if (id == CHEB) { for (int n = 1; n <= 4; n++) for (int m = n; m <= n + 2; m++) if (mc_case("chebyquad M=%d N=%d", m, n)) block(id, m, n); }
        else { for (int n = 2; n <= 4; n++) if (mc_case("brown almost linear N=%d", n)) block(id, n, n); } }
    if (mc_case("norm")) { static const double V[] = {0, 1, -3, 1e-200, 3e-200, 1e200, -2e200, 4e-20, 3e19, 1e-308, 5e-324, 1e308}; int nv = sizeof V / sizeof *V; for (int n = 1; n <= 4; n++) { long t = 1; for (int i = 0; i < n; i++) t *= nv; for (long k = 0; k < t && mc_ok(); k++) { double x[4]; long q = k; ld s = 0; for (int i = 0; i < n; i++) { x[i] = V[q % nv]; q /= nv; s += (ld)x[i] * x[i]; } double g = enorm(x, n); mc_ops(1); ld e = sqrtl(s); if (e < 1.7e308L) MC_CHECK(fabsl(g - e) <= 1e-14L * e + 1e-322L, "euclidean norm", "(%g %g %g %g) n=%d: %.17g, exact %.17Lg", x[0], n > 1 ? x[1] : 0, n > 2 ? x[2] : 0, n > 3 ? x[3] : 0, n, g, e); mc_state_d(&g, 1); } } }
    static const double AV[] = {-1, 0, 1, 2, 1e-9};
    static const int S[][3] = {{1,1,5},{2,1,5},{1,2,5},{2,2,5},{3,2,4},{2,3,4},{3,3,3},{4,2,3},{4,3,2}};
    for (unsigned s = 0; s < sizeof S / sizeof *S; s++) { int m = S[s][0], n = S[s][1], nv = S[s][2]; if (m * n > 8 && !mc_thorough && nv == 2) nv = 2; long t = 1; for (int i = 0; i < m * n; i++) t *= nv; for (int part = 0; part < 8; part++) if (mc_case("qr %dx%d over %d values part %d", m, n, nv, part)) for (long k = part; k < t && mc_ok(); k += 8) { double A[16]; long q = k; for (int i = 0; i < m * n; i++) { A[i] = AV[q % nv]; q /= nv; } char w[64]; snprintf(w, 64, "%dx%d matrix #%ld", m, n, k); one_qr(A, m, n, w); } }
    if (mc_case("qr graded")) for (int m = 1; m <= 7; m++) for (int n = 1; n <= 7; n++) for (int f = 0; f < 5; f++) { double A[49]; mc_rng g; mc_seed(&g, m * 100 + n * 10 + f); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i * n + j] = f == 0 ? mc_n(&g) : f == 1 ? 1 / (1.0 + i + j) : f == 2 ? pow(10, -3 * j) * mc_n(&g) : f == 3 ? (i == j ? 1 : 1e-9) : 1e120 * mc_n(&g); char w[64]; snprintf(w, 64, "family %d %dx%d", f, m, n); one_qr(A, m, n, w); }
    static const double RV[] = {0, 1, -2, 0.5};
    for (int n = 1; n <= 3; n++) { int ne = n * (n + 1) / 2, nv = n == 3 ? (mc_thorough ? 4 : 3) : 4; long t = 1; for (int i = 0; i < ne; i++) t *= nv; int parts = n == 3 ? 16 : 1; for (int part = 0; part < parts; part++) if (mc_case("triangular n=%d part %d", n, part)) for (long k = part; k < t && mc_ok(); k += parts) { double r[9] = {0}; long q = k; int ok = 1; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { r[i * n + j] = RV[q % nv]; q /= nv; }
        /* pivoted factors have trailing zero rows after a zero pivot */
        for (int i = 0; i < n; i++) if (r[i * n + i] == 0) for (int a = i; a < n; a++) for (int b = a; b < n; b++) if (r[a * n + b] != 0) ok = 0;
        if (!ok) continue; char w[64]; snprintf(w, 64, "R%d #%ld", n, k); kern(r, n, w); } }
}
