/* C23: minimisers and scalar solvers on a catalogue of problems with known gradients, every start of a lattice, every iteration budget */
#include "mc.h"
#include "ref.h"
#include "optimc.h"
#include "brent.h"
const char *mc_property = "C23";
typedef struct { int id, N; double a; long nf; double A[6][6]; double first[8]; double best; const double *target; int hit; } pr;
enum { QUAD, ROSEN, QUART, LCOSH, EXPO, LBAR, WELL, ABSQ, LOGQ, NFUN };
static const char *FN[] = {"quadratic", "rosenbrock", "quartic", "log-cosh", "exponential", "barrier", "double well", "large offset", "log-quadratic"};
static double F0(const double *x, const pr *p) { double s = 0; int N = p->N; switch (p->id) {
    case QUAD: for (int i = 0; i < N; i++) { double w = pow(p->a, N > 1 ? (double)i / (N - 1) : 0), u = 0; for (int j = 0; j < N; j++) u += p->A[i][j] * (x[j] - (j + 1 - N / 2.0)); s += 0.5 * w * u * u; } return s + 3;
    case ROSEN: for (int i = 0; i + 1 < N; i++) s += 100 * pow(x[i + 1] - x[i] * x[i], 2) + pow(1 - x[i], 2); return s;
    case QUART: for (int i = 0; i < N; i++) { double d = x[i] - 0.5 * (i + 1); s += d * d * d * d + d * d; } return s - 2;
    case LCOSH: for (int i = 0; i < N; i++) { double d = x[i] - 0.3; s += log(cosh(d)) + 0.1 * d * d; } return s;
    case EXPO: for (int i = 0; i < N; i++) s += exp(x[i]) - x[i] * (1 + 0.1 * i); for (int i = 0; i + 1 < N; i++) s += 0.5 * pow(x[i] - x[i + 1], 2); return s;
    case LBAR: for (int i = 0; i < N; i++) { double v = x[i] + 5; if (v <= 0) return p->a > 0 ? INFINITY : NAN; s += v - 3 * log(v); } return s;
    case WELL: for (int i = 0; i < N; i++) s += pow(x[i] * x[i] - 1, 2) + 0.3 * x[i]; return s;
    case ABSQ: for (int i = 0; i < N; i++) s += (i + 1) * pow(x[i] - 2, 2); return s - 1000;
    case LOGQ: for (int i = 0; i < N; i++) s += (i + 1) * pow(x[i] + 1, 2); return log(1 + s); } return 0; }
static void G0(const double *x, double *g, const pr *p) { int N = p->N; for (int i = 0; i < N; i++) g[i] = 0; switch (p->id) {
    case QUAD: for (int i = 0; i < N; i++) { double w = pow(p->a, N > 1 ? (double)i / (N - 1) : 0), u = 0; for (int j = 0; j < N; j++) u += p->A[i][j] * (x[j] - (j + 1 - N / 2.0)); for (int j = 0; j < N; j++) g[j] += w * u * p->A[i][j]; } break;
    case ROSEN: for (int i = 0; i + 1 < N; i++) { double t = x[i + 1] - x[i] * x[i]; g[i] += -400 * x[i] * t - 2 * (1 - x[i]); g[i + 1] += 200 * t; } break;
    case QUART: for (int i = 0; i < N; i++) { double d = x[i] - 0.5 * (i + 1); g[i] = 4 * d * d * d + 2 * d; } break;
    case LCOSH: for (int i = 0; i < N; i++) { double d = x[i] - 0.3; g[i] = tanh(d) + 0.2 * d; } break;
    case EXPO: for (int i = 0; i < N; i++) g[i] = exp(x[i]) - (1 + 0.1 * i); for (int i = 0; i + 1 < N; i++) { g[i] += x[i] - x[i + 1]; g[i + 1] -= x[i] - x[i + 1]; } break;
    case LBAR: for (int i = 0; i < N; i++) g[i] = 1 - 3 / (x[i] + 5); break;
    case WELL: for (int i = 0; i < N; i++) g[i] = 4 * x[i] * (x[i] * x[i] - 1) + 0.3; break;
    case ABSQ: for (int i = 0; i < N; i++) g[i] = 2 * (i + 1) * (x[i] - 2); break;
    case LOGQ: { double s = 0; for (int i = 0; i < N; i++) s += (i + 1) * pow(x[i] + 1, 2); for (int i = 0; i < N; i++) g[i] = 2 * (i + 1) * (x[i] + 1) / (1 + s); } } }
static double F(double *x, int N, void *v) { pr *p = v; double f = F0(x, p); if (p->nf++ == 0) memcpy(p->first, x, sizeof(double) * N); if (f < p->best) p->best = f; if (p->target && !memcmp(x, p->target, sizeof(double) * N)) p->hit = 1; return f; }
static void G(double *x, int N, double *g, void *v) { G0(x, g, v); }
static pr problem(int id, int N, double a) { pr p; memset(&p, 0, sizeof p); p.id = id; p.N = N; p.a = a; p.best = INFINITY; double v[8], n = 0; for (int i = 0; i < N; i++) { v[i] = 1 + i * 0.7; n += v[i] * v[i]; } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) p.A[i][j] = (i == j) - 2 * v[i] * v[j] / n; return p; }
static const double ST[] = {-3, 0.2, 1, 4, -0.7};
static void startpt(long k, int N, double *x, int ns) { for (int i = 0; i < N; i++) { x[i] = ST[k % ns] + 0.01 * i; k /= ns; } }
static double curv(const pr *p) { return p->id == QUAD ? p->a : p->id == ROSEN ? 1000 : p->id == QUART ? 2 : 12; }
static const char *xs(const double *x, int N) { static char b[4][160]; static int k; char *o = b[k++ & 3]; int l = 0; o[0] = 0; for (int i = 0; i < N && l < 130; i++) l += snprintf(o + l, 160 - l, " %.6g", x[i]); return o; }
/* the contract of one finished run; converge: success is demanded */
static void judge(const char *what, pr *p, int m, int gr, const double *x0, const double *xf, double obj, int ret, int iter, int maxit, int converge) {
    int N = p->N; double f0 = F0(x0, p), f = F0(xf, p), g[8]; mc_ops(1); mc_state_d(xf, N);
    MC_CHECK(ret == 1 || ret == 2 || ret == 3 || ret == 4 || ret == 6 || ret == 15, "return code", "%s from%s: code %d", what, xs(x0, N), ret);
    if (maxit > 0) MC_CHECK(iter >= 0 && iter <= maxit, "iteration budget", "%s from%s: %d iterations, budget %d", what, xs(x0, N), iter, maxit);
    if (ret == 15) { MC_CHECK(!converge, "no result", "%s from%s: overflow reported on a function finite everywhere", what, xs(x0, N)); return; }
    if (ret == 0) return;
    MC_CHECK(isfinite(f) || !isfinite(f0), "result not finite", "%s from%s: code %d, f = %g", what, xs(x0, N), ret, f); if (!isfinite(f)) return;
    if (obj == obj || f != f) MC_CHECK(obj == f, "reported value", "%s from%s: objfunc %.17g, objective at the returned point %.17g", what, xs(x0, N), obj, f);
    MC_CHECK(f <= f0 + 1e-12 * (1 + fabs(f0)) + (gr ? 0 : 1e-15 * curv(p)), "worse than the start", "%s from%s: code %d, f = %.12g, start value %.12g", what, xs(x0, N), ret, f, f0);
    G0(xf, g, p); double sg = 0, c = curv(p); for (int i = 0; i < N; i++) { double q = fabs(g[i]) * fmax(fabs(xf[i]), 1) / fmax(fabs(f), 1); if (!(q <= sg)) sg = q; }
    /* gradient differencing with step 1.5e-8 leaves errors of curvature x step and of |f| x eps / step */
    double noise = gr && m ? 0 : 3e-8 * c * 4 + 6e-8 * fmax(1, fabs(f)); double base = m == 0 ? 2e-6 * sqrt(c) : m == 4 || m >= 6 ? 6.1e-6 * N * fmax(1, fmax(fabs(xf[0]), fabs(xf[N - 1]))) * 2 : 6.1e-6 * 1.01;
    if (ret == 1) { mc_max("gradient over tolerance on success", sg / (base + noise)); MC_CHECK(sg <= base + noise, "success without a stationary point", "%s from%s: code 1 at%s with scaled gradient %.3g (tolerance %.3g), f = %.10g", what, xs(x0, N), xs(xf, N), sg, base + noise, f); }
    if (converge) { MC_CHECK(ret != 4 || (sg <= (m == 0 ? 1e-4 * sqrt(c) : 1e-4 + 20 * noise)), "not converged", "%s from%s: iteration limit at%s with scaled gradient %.3g", what, xs(x0, N), xs(xf, N), sg);
        if (ret == 2 || ret == 3 || ret == 6) { char t[40]; snprintf(t, 40, "gradient at code %d, method %d", ret, m); double lim = ret == 6 ? 2e-5 * sqrt(c) * fmax(1, fabs(f)) * 4 + 40 * noise : 1e-5 + 4 * noise + (m == 5 && !gr ? 1e-4 * sqrt(c / 10) : 0); mc_max(t, sg / lim); MC_CHECK(sg <= lim, "possible success far from a minimum", "%s from%s: code %d at%s with scaled gradient %.3g", what, xs(x0, N), ret, xs(xf, N), sg); } } }
static int exhaustive_ns(int N) { return N <= 2 ? 5 : 4; }
static void block(int id, double a, int N, int m, int gr, int T) { int ns = exhaustive_ns(N); long tot = 1; for (int i = 0; i < N; i++) tot *= ns; char w[96]; snprintf(w, 96, "%s(cond %g) N=%d method %d %s", FN[id], a, N, m, gr ? "gradient" : "differences");
    for (long k = 0; k < tot && mc_ok(); k++) { double x[8], x0[8]; startpt(k, N, x, ns); memcpy(x0, x, sizeof x); pr p = problem(id, N, a); p.target = x0; custom_function cf = {F, &p}; custom_gradient cg = {G, &p}; opt_object o = opt_init(N); optimize(o, &cf, gr ? &cg : NULL, N, x, m);
        MC_CHECK(!memcmp(x, x0, sizeof(double) * N), "start modified", "%s from%s", w, xs(x0, N)); MC_CHECK(p.hit, "start not used", "%s: first evaluation at%s, start%s", w, xs(p.first, N), xs(x0, N));
        judge(w, &p, m, gr, x0, o->xopt, o->objfunc, o->retval, o->Iter, o->MaxIter, id != LBAR); mc_max("evaluations", p.nf);
        /* convenience entry points follow the same path */
        if (m || o->Iter < 200 * N) { pr p2 = problem(id, N, a); custom_function c2 = {F, &p2}; custom_gradient g2 = {G, &p2}; double xf[8] = {0}; int r = fminunc(&c2, gr ? &g2 : NULL, N, x, -1.0, m, xf); MC_CHECK(r == o->retval && (r == 15 || !memcmp(xf, o->xopt, sizeof(double) * N)), "entry points disagree", "%s from%s: fminunc code %d at%s, optimize code %d at%s", w, xs(x0, N), r, xs(xf, N), o->retval, xs(o->xopt, N));
            if (m == 0) { r = fminsearch(&c2, N, x, xf); MC_CHECK(r == o->retval && !memcmp(xf, o->xopt, sizeof(double) * N), "entry points disagree", "%s from%s: fminsearch", w, xs(x0, N)); } }
        free_opt(o); } }
static void newt(int id, int N, int m, int gr) { static const double DX[] = {1, 0.1, 10, 3}; static const double DE[] = {-1, 0.05, 5}; int nd = N == 1 ? 4 : 16; for (int d = 0; d < nd; d++) for (int e = 0; e < (m == 1 ? 1 : 3); e++) for (int ms = 0; ms < (m == 1 ? 3 : 1); ms++) { long tot = N == 1 ? 5 : 25; for (long k = 0; k < tot && mc_ok(); k++) { double x[8], x0[8], dx[8] = {DX[d % 4], DX[d / 4]}, dx0[8], xf[8] = {0}; memcpy(dx0, dx, sizeof dx); startpt(k, N, x, 5); memcpy(x0, x, sizeof x); pr p = problem(id, N, 10); p.target = x0; custom_function cf = {F, &p}; custom_gradient cg = {G, &p}; double mst = ms == 0 ? -1 : ms == 1 ? 0.7 : 50;
        int r = fminnewt(&cf, gr ? &cg : NULL, N, x, DE[e], dx, 1.0, mst, m, xf); char w[128]; snprintf(w, 128, "fminnewt %s N=%d method %d %s dx%s delta %g maxstep %g", FN[id], N, m, gr ? "gradient" : "differences", xs(dx0, N), DE[e], mst);
        MC_CHECK(p.hit, "start not used", "%s: first evaluation at%s, start%s", w, xs(p.first, N), xs(x0, N)); for (int i = 0; i < N; i++) MC_CHECK(fabs(x[i] - x0[i]) <= 1e-15 * fabs(x0[i]) && fabs(dx[i] - dx0[i]) <= 1e-15 * dx0[i], "start modified", "%s from%s: now%s, scaling%s", w, xs(x0, N), xs(x, N), xs(dx, N));
        double f = F0(xf, &p), f0 = F0(x0, &p), g[8]; G0(xf, g, &p); mc_ops(1); mc_state_d(xf, N); MC_CHECK(r == 1 || r == 2 || r == 3 || r == 4, "return code", "%s: %d", w, r); MC_CHECK(f <= f0 + 1e-12 * (1 + fabs(f0)), "worse than the start", "%s from%s: code %d f = %.12g, start %.12g", w, xs(x0, N), r, f, f0);
        double sg = 0; for (int i = 0; i < N; i++) { double q = fabs(g[i]) * fmax(fabs(xf[i]), dx0[i]) / fmax(fabs(f), 1); if (q > sg) sg = q; } double noise = gr ? 0 : 2e-7 * curv(&p) * 100 + 6e-8 * fmax(1, fabs(f)); if (r != 4) { mc_max("fminnewt scaled gradient", sg); MC_CHECK(sg <= (r == 1 ? 6.2e-6 : 1e-3) + noise, "success without a stationary point", "%s from%s: code %d at%s scaled gradient %.3g", w, xs(x0, N), r, xs(xf, N), sg); } else MC_CHECK(sg < 1e-3, "not converged", "%s from%s: code %d at%s scaled gradient %.3g", w, xs(x0, N), r, xs(xf, N), sg); } } }
static void budget(int id, int N, int m, int gr, int T) { int ns = N <= 2 ? 5 : 3; long tot = 1; for (int i = 0; i < N; i++) tot *= ns; int B = T ? 60 : 25; char w[96]; for (long k = 0; k < tot && mc_ok(); k++) { double x0[8], prev = INFINITY; int done = 0; startpt(k, N, x0, ns); for (int b = 1; b <= B && !done; b++) { double x[8]; memcpy(x, x0, sizeof x); pr p = problem(id, N, 100); custom_function cf = {F, &p}; custom_gradient cg = {G, &p}; opt_object o = opt_init(N); setMaxIter(o, b); optimize(o, &cf, gr ? &cg : NULL, N, x, m); snprintf(w, 96, "%s N=%d method %d %s budget %d", FN[id], N, m, gr ? "gradient" : "differences", b); judge(w, &p, m, gr, x0, o->xopt, o->objfunc, o->retval, o->Iter, b, 0); if (o->retval != 15) { MC_CHECK(m == 0 || o->objfunc <= prev + 1e-12 * (1 + fabs(prev)), "descent", "%s from%s: value %.15g after %d iterations, %.15g after %d", w, xs(x0, N), o->objfunc, b, prev, b - 1); prev = o->objfunc; if (o->retval != 4) done = 1; } if (m == 0) MC_CHECK(o->objfunc <= p.best + 1e-12 * (1 + fabs(p.best)) || o->retval == 1, "best point not returned", "%s from%s: returned %.12g, evaluated %.12g", w, xs(x0, N), o->objfunc, p.best); free_opt(o); } } }
static void reuse(int m1, int m2) { int N = 3; opt_object o = opt_init(N); for (int id = 0; id < 3; id++) for (int k = 0; k < 4; k++) { double x[8], y[8]; pr p = problem(id, N, 100); custom_function cf = {F, &p}; custom_gradient cg = {G, &p}; startpt(k * 7 + id, N, x, 4); startpt(k * 5 + 1, N, y, 4); optimize(o, &cf, k & 1 ? &cg : NULL, N, x, m1); optimize(o, &cf, k & 1 ? NULL : &cg, N, y, m2); opt_object q = opt_init(N); optimize(q, &cf, k & 1 ? NULL : &cg, N, y, m2); mc_ops(3); mc_state_d(o->xopt, N); MC_CHECK(o->retval == q->retval && o->Iter == q->Iter && !memcmp(o->xopt, q->xopt, sizeof(double) * N) && o->Method == m2, "object reuse", "methods %d then %d on %s: code %d/%d iterations %d/%d", m1, m2, FN[id], o->retval, q->retval, o->Iter, q->Iter); free_opt(q); } free_opt(o); }
static void limits(int m, int gr) { static const double MS[] = {0.05, 0.5, 3, 1e4}; for (int ms = 0; ms < 4; ms++) for (int N = 1; N <= 3; N++) for (int id = 0; id < NFUN; id++) { if (id == ROSEN && N < 2) continue; if (id == LBAR) continue; long tot = N == 1 ? 5 : N == 2 ? 25 : 64; for (long k = 0; k < tot && mc_ok(); k++) { double x[8], x0[8]; startpt(k, N, x, N < 3 ? 5 : 4); memcpy(x0, x, sizeof x); pr p = problem(id, N, 30); custom_function cf = {F, &p}; custom_gradient cg = {G, &p}; opt_object o = opt_init(N); setMaxStep(o, MS[ms]); setMaxIter(o, 20000); optimize(o, &cf, gr ? &cg : NULL, N, x, m); char w[96]; snprintf(w, 96, "%s N=%d method %d %s maxstep %g", FN[id], N, m, gr ? "gradient" : "differences", MS[ms]); judge(w, &p, m, gr, x0, o->xopt, o->objfunc, o->retval, o->Iter, o->MaxIter, id != ROSEN && (m == 1 || m == 5)); free_opt(o); } } }
/* scalar */
typedef struct { int id; double c, lo, hi; long n; int out; } us; static double U0(double x, const us *u) { double d = x - u->c; switch (u->id) { case 0: return d * d; case 1: return d * d * d * d + 0.5 * d * d; case 2: return fabs(d); case 3: return exp(d) - d; case 4: return -1 / (1 + d * d); case 5: return d; default: return -d; } }
static double U(double x, void *v) { us *u = v; u->n++; if (!(x >= u->lo && x <= u->hi)) u->out++; return U0(x, u); }
static double R0(double x, const us *u) { double d = x - u->c; switch (u->id) { case 0: return d; case 1: return d * d * d; case 2: return atan(10 * d); case 3: return exp(d) - 1; case 4: return d * fabs(d) * fabs(d) * d * d; default: return d < 0 ? -1 : 1; } } static double R(double x, void *v) { us *u = v; u->n++; if (!(x >= u->lo && x <= u->hi)) u->out++; return R0(x, u); }
static void scalar(int id) { static const double LO[] = {-10, -1, 0, 0.5, 3}, WI[] = {1e-6, 0.1, 1, 7, 100}; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int k = -2; k <= 22; k++) { us u = {id, LO[i] + WI[j] * k / 20.0, LO[i], LO[i] + WI[j], 0, 0}; custom_funcuni f = {U, &u}; double x = fminbnd(&f, u.lo, u.hi), t = u.c < u.lo ? u.lo : u.c > u.hi ? u.hi : u.c; if (id == 5) t = u.lo; if (id == 6) t = u.hi; mc_ops(1); mc_state_d(&x, 1); MC_CHECK(x >= u.lo && x <= u.hi && !u.out, "minimiser outside the interval", "shape %d on [%g,%g]: x=%.17g, %d evaluations outside", id, u.lo, u.hi, x, u.out); double tol = 1e-8 * (1 + fabs(t)) * 4 * (id == 2 || id >= 5 ? 1e-2 : 1) ; if (id == 2 || id >= 5) tol = 1e-11 * (1 + fabs(t)); MC_CHECK(fabs(x - t) <= tol, "scalar minimiser", "shape %d centre %g on [%g,%g]: x=%.15g, minimum at %.15g", id, u.c, u.lo, u.hi, x, t); mc_max("fminbnd evaluations", u.n); MC_CHECK(u.n <= 400, "scalar evaluations", "%ld", u.n);
        static const double TT[] = {1e-3, 1e-6, 1e-10}; for (int q = 0; q < 3; q++) { double y, fy = brent_local_min(&f, u.lo, u.hi, TT[q], 1e-9, &y); MC_CHECK(fy == U0(y, &u), "scalar value", "shape %d: value %.17g at x=%.17g where the function is %.17g", id, fy, y, U0(y, &u)); MC_CHECK(y >= u.lo && y <= u.hi, "minimiser outside the interval", "shape %d on [%g,%g] t=%g: %.17g", id, u.lo, u.hi, TT[q], y); MC_CHECK(fabs(y - t) <= 3.1 * (TT[q] + 1e-9 * fabs(y)) + 1e-7 * (1 + fabs(t)), "scalar tolerance", "shape %d centre %g on [%g,%g], t=%g: x=%.15g, minimum at %.15g", id, u.c, u.lo, u.hi, TT[q], y, t); }
        if (id < 6 && (k > 0 || id < 5) && k >= 0 && k <= 20) for (int q = 0; q < 3; q++) { us r = {id, u.c, u.lo, u.hi, 0, 0}; custom_funcuni fr = {R, &r}; for (int rev = 0; rev < 2; rev++) { double z = brent_zero(&fr, rev ? u.hi : u.lo, rev ? u.lo : u.hi, TT[q], 2.3e-16); mc_ops(1); MC_CHECK(z >= u.lo && z <= u.hi && !r.out, "root outside the bracket", "shape %d root %g on [%g,%g]: %.17g, %d evaluations outside", id, u.c, u.lo, u.hi, z, r.out); MC_CHECK(fabs(z - u.c) <= 2.01 * TT[q] + 1e-14 * fabs(z) || R0(z, &r) == 0, "root", "shape %d root %.15g on [%g,%g] tol %g: %.15g", id, u.c, u.lo, u.hi, TT[q], z); mc_max("root evaluations", r.n); r.n = 0; } } } }
void mc_enumerate(void) { int T = mc_thorough; mc_case_limit = 120;
    for (int m = 0; m < 8; m++) for (int gr = 0; gr < (m ? 2 : 1); gr++) {
        for (int id = 0; id < NFUN; id++) for (int ai = 0; ai < (id == QUAD ? 3 : id == LBAR ? 2 : 1); ai++) for (int N = id == ROSEN ? 2 : 1; N <= (T ? 5 : 4); N++) if (mc_case("%s cond 1e%d N=%d method %d gradient %d", FN[id], 2 * ai, N, m, gr)) block(id, id == LBAR ? ai : pow(100, ai), N, m, gr, T);
        for (int id = 0; id < NFUN; id++) for (int N = id == ROSEN ? 2 : 1; N <= 3; N++) if (mc_case("budgets %s N=%d method %d gradient %d", FN[id], N, m, gr)) budget(id, N, m, gr, T);
        if (m >= 1 && m <= 3) for (int id = 0; id < NFUN; id++) if (id != LBAR) for (int N = id == ROSEN ? 2 : 1; N <= 2; N++) if (mc_case("scaling %s N=%d method %d gradient %d", FN[id], N, m, gr)) newt(id, N, m, gr);
        if (m && mc_case("step limits method %d gradient %d", m, gr)) limits(m, gr); }
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) if (mc_case("object history %d %d", a, b)) reuse(a, b);
    for (int id = 0; id < 7; id++) if (mc_case("scalar shape %d", id)) scalar(id);
}
