/* C22: special functions, distributions, densities and inverses on exhaustive grids of arguments and parameters */
#include "mc.h"
#include "ref.h"
#include "pdist.h"
const char *mc_property = "C22";
static const ld PIL = 3.14159265358979323846264338327950288L;
static ld lbeta_(ld a, ld b) { return lgammal(a) + lgammal(b) - lgammal(a + b); }
/* regularised incomplete gamma, lower (up=0) or upper (up=1) */
static ld rgam(ld a, ld x, int up) { if (x <= 0) return up ? 1 : 0; ld f = expl(-x + a * logl(x) - lgammal(a)); if (x < a + 1) { ld t = 1 / a, s = t; for (int k = 1; k < 100000; k++) { t *= x / (a + k); s += t; if (t < s * 1e-21L) break; } s *= f; return up ? 1 - s : s; } ld tiny = 1e-4000L, b = x + 1 - a, c = 1 / tiny, d = 1 / b, h = d; for (int i = 1; i < 100000; i++) { ld an = -i * (i - a); b += 2; d = an * d + b; if (fabsl(d) < tiny) d = tiny; c = b + an / c; if (fabsl(c) < tiny) c = tiny; d = 1 / d; ld e = d * c; h *= e; if (fabsl(e - 1) < 1e-20L) break; } h *= f; return up ? h : 1 - h; }
/* regularised incomplete beta from x and its complement y = 1-x */
static ld rbet(ld x, ld y, ld a, ld b) { if (x <= 0) return 0; if (y <= 0) return 1; if (x > (a + 1) / (a + b + 2)) return 1 - rbet(y, x, b, a); ld f = expl(a * logl(x) + b * logl(y) - lbeta_(a, b)) / a, tiny = 1e-4000L, c = 1, d = 1 - (a + b) * x / (a + 1); if (fabsl(d) < tiny) d = tiny; d = 1 / d; ld h = d; for (int m = 1; m < 200000; m++) { ld aa = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m)); d = 1 + aa * d; if (fabsl(d) < tiny) d = tiny; c = 1 + aa / c; if (fabsl(c) < tiny) c = tiny; d = 1 / d; h *= d * c; aa = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1)); d = 1 + aa * d; if (fabsl(d) < tiny) d = tiny; c = 1 + aa / c; if (fabsl(c) < tiny) c = tiny; d = 1 / d; ld e = d * c; h *= e; if (fabsl(e - 1) < 1e-20L) break; } return f * h; }
static ld tl(ld t, int df) { /* lower tail */ ld x = df / (df + t * t), y = t * t / (df + t * t), I = rbet(x, y, df / 2.0L, 0.5L) / 2; return t < 0 ? I : 1 - I; }
static ld fl(ld f, int a, int b) { ld z = b + a * f; return rbet(a * f / z, b / z, a / 2.0L, b / 2.0L); }
static ld nl(ld z) { return 0.5L * erfcl(-z / sqrtl(2)); }
static double relerr(double g, ld w) { return (double)(fabsl(g - w) / (fabsl(w) + 1e-300L)); }
#define CK(tag, g, w, at, rt, ...) do { double g_ = (g); ld w_ = (w); mc_ops(1); if (getenv("C22M")) mc_max(tag " excess", (double)(fabsl(g_ - w_) / ((at) + (rt) * fabsl(w_)))); if (!(g_ == (double)w_) && !(fabsl(g_ - w_) <= (at) + (rt) * fabsl(w_))) { char b_[160]; snprintf(b_, sizeof b_, __VA_ARGS__); mc_fail(tag, "%s = %.15g, independent evaluation %.15Lg (relative error %.2g)", b_, g_, w_, relerr(g_, w_)); } } while (0)
static const double PV[] = {1e-300, 1e-100, 1e-30, 1e-15, 1e-10, 1e-6, 1e-4, 0.001, 0.005, 0.01, 0.025, 0.05, 0.0624, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45, 0.49, 0.499, 0.4999999, 0.5, 0.5000001, 0.501, 0.55, 0.6, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 0.96875, 0.975, 0.99, 0.995, 0.999, 0.9999, 0.999999, 0.9999999999};
#define NP (int)(sizeof PV / sizeof *PV)
static void errfn(int blk, int T) { int n = T ? 4000 : 800; for (int i = 0; i <= n; i++) { double x = -7 + 0.875 * blk * 2 + 1.75 * i / n * 1.0; CK("erf", erf(x), erfl(x), 0, 4e-15, "erf(%.17g)", x); CK("erfc", erfc(x), erfcl(x), 1e-300, 1e-13, "erfc(%.17g)", x); if (x > -5 && x < 26) CK("erfcx", erfcx(x), expl((ld)x * x) * erfcl(x), 0, 2e-14 * (1 + 0), "erfcx(%.17g)", x); double e = erf(x); MC_CHECK(erf(-x) == -e && fabs(e) <= 1, "erf symmetry", "erf(%.17g)", x); } double s = 0; s = erf(-7 + 1.75 * blk); mc_state_d(&s, 1); }
static void errinv(int T) { int n = T ? 20000 : 4000; for (int i = -n + 1; i < n; i++) { double x = (double)i / n, u = erfinv(x); CK("erfinv", (double)erfl(u), x, 2e-15, 4e-15, "erf(erfinv(%.17g))", x); double v = erfinv(-x); MC_CHECK(v == -u, "erfinv symmetry", "erfinv(%.17g) = %.17g, erfinv(-x) = %.17g", x, u, v); mc_state_d(&u, 1); } for (int e = 1; e < 15; e++) { double x = 1 - pow(10, -e); CK("erfinv tail", (double)erfcl(erfinv(x)), 1 - (ld)x, 4e-16, 1e-12, "erfc(erfinv(1-1e-%d))", e); } for (int e = 0; e <= 307; e++) for (int k = 1; k < 10; k++) { double x = k * pow(10, -e); if (x < 2) { double u = erfcinv(x); CK("erfcinv", (double)logl(erfcl(u)), logl(x), x > 0.07 ? 1e-13 : 2e-9, x > 0.07 ? 2e-9 : 1e-7, "log erfc(erfcinv(%.17g))", x); mc_state_d(&u, 1); } } for (int i = 1; i < n; i++) { double x = 2.0 * i / n, u = erfcinv(x); CK("erfcinv", (double)erfcl(u), x, 1e-15, 1e-6, "erfc(erfcinv(%.17g))", x); } MC_CHECK(erfcinv(0) > 1e300 && erfcinv(2) < -1e300 && erfinv(1) > 1e300 && erfinv(-1) < -1e300, "inverse at the ends", "%g %g %g %g", erfcinv(0), erfcinv(2), erfinv(1), erfinv(-1)); MC_CHECK(erfinv(0) == 0, "erfinv", "erfinv(0) = %g", erfinv(0)); }
static void gam(int T) { int n = T ? 20000 : 4000; for (int i = 1; i <= n; i++) { double x = 171.6 * i / n; CK("gamma", gamma(x), tgammal(x), 0, 1e-15 * (4 + 4 * x * log(1 + x) / 4), "gamma(%.17g)", x); CK("gamma_log", gamma_log(x), lgammal(x), 4e-15, 4e-15, "gamma_log(%.17g)", x); x = 12.5 * i / n; CK("gamma", gamma(x), tgammal(x), 0, 1e-14, "gamma(%.17g)", x); CK("gamma_log", gamma_log(x), lgammal(x), 1e-15, 1e-14, "gamma_log(%.17g)", x); double g = gamma(x); mc_state_d(&g, 1); if (fabs(x - rint(x)) > 1e-3) CK("gamma", gamma(-x), tgammal(-(ld)x), 0, 1e-13 / fmin(1, 10 * fabs(x - rint(x))), "gamma(%.17g)", -x); } for (int k = 1; k <= 170; k++) { ld f = 1; for (int j = 2; j < k; j++) f *= j; CK("gamma", gamma(k), f, 0, 2e-15 * (4 + k * log(1 + k) / 4), "gamma(%d)", k); if (k < 26) CK("factorial", factorial(k), f * k, 0, 1e-14, "factorial(%d)", k); } for (int e = -300; e <= 300; e++) { double x = 1.2345 * pow(10, e); CK("gamma_log", gamma_log(x), lgammal(x), 1e-15, 4e-15, "gamma_log(%.17g)", x); if (e >= -20 && e <= 20) { CK("log1p", log1p(x), log1pl(x), 0, 4e-16, "log1p(%.17g)", x); if (x < 1) CK("log1p", log1p(-x), log1pl(-x), 0, 4e-16, "log1p(%.17g)", -x); } }
    static const double A[] = {0.01, 0.1, 0.5, 1, 1.5, 2, 3.7, 5, 10, 25.5, 60, 100, 333, 1000}; for (int i = 0; i < 14; i++) for (int j = 0; j < 14; j++) { double a = A[i], b = A[j], sc = fabs((double)lgammal(a)) + fabs((double)lgammal(b)) + fabs((double)lgammal(a + b)) + 1; CK("beta_log", beta_log(a, b), lbeta_(a, b), 4e-15 * sc, 0, "beta_log(%g,%g)", a, b); CK("beta", beta(a, b), expl(lbeta_(a, b)), 1e-300, 8e-15 * sc, "beta(%g,%g)", a, b); } }
static const double GA[] = {0.05, 0.3, 0.5, 1, 1.5, 2, 2.5, 3, 4.5, 6, 10, 17.5, 30, 50, 100, 250, 500, 1000};
static void igam(int k, int T) { double a = GA[k], prev = 0; int n = T ? 3000 : 500; for (int i = 0; i <= n; i++) { double sd = sqrt(a) + 1, x = i < n / 2 ? 2.0 * i / n * (a + 2 * sd) : (a + 2 * sd) + (2.0 * i / n - 1) * 10 * sd; double p = pgamma(x, a), q = qgamma(x, a); ld L = rgam(a, x, 0), U = rgam(a, x, 1); double tol = 1e-14 * (2 + a * 0.5 + fabs(a * log(x + 1e-9))); CK("pgamma", p, L, 1e-15 * 10, tol, "pgamma(%.17g,%g)", x, a); CK("qgamma", q, U, 1e-13 + tol * 0.02, tol, "qgamma(%.17g,%g)", x, a); MC_CHECK(p >= 0 && p <= 1 && q >= 0 && q <= 1, "range", "pgamma(%g,%g)=%.17g", x, a, p); MC_CHECK(p >= prev - 1e-12, "monotone", "pgamma(%.17g,%g) = %.17g below its predecessor %.17g", x, a, p, prev); prev = p;
        if (x > 0) for (int s = 0; s < 3; s++) { double th = s == 0 ? 1 : s == 1 ? 2 : 0.3; ld d = expl((a - 1) * logl(x) - x - lgammal(a)) / th; CK("gammapdf", gammapdf(x * th, a, th), d, 1e-300, tol * 2, "gammapdf(%.17g,%g,%g)", x * th, a, th); CK("gammacdf", gammacdf(x * th, a, th), L, 1e-14, tol * 2, "gammacdf(%.17g,%g,%g)", x * th, a, th); } mc_state_d(&p, 1); }
    for (int i = 0; i < NP; i++) for (int s = 0; s < 2; s++) { double th = s ? 3 : 1, p = PV[i]; if (pow(p, 1 / a) < 1e-280) continue; double x = gammainv(p, a, th); ld g = p < 0.5 ? rgam(a, (ld)x / th, 0) : rgam(a, (ld)x / th, 1), w = p < 0.5 ? (ld)p : 1 - (ld)p; CK("gammainv", (double)g, w, 4e-14, p < 1e-14 ? 1e-7 : 1e-10, "gammacdf(gammainv(%.12g,%g,%g))%s", p, a, th, p < 0.5 ? "" : " upper tail"); MC_CHECK(x >= 0, "gammainv", "gammainv(%g,%g)=%g", p, a, x); }
    MC_CHECK(gammainv(0, a, 2) == 0 && gammainv(1, a, 2) > 1e300, "gammainv ends", "%g %g", gammainv(0, a, 2), gammainv(1, a, 2)); MC_CHECK(gammacdf(0, a, 1) == 0 && gammacdf(-1, a, 1) == 0, "gammacdf", "below zero %g %g", gammacdf(0, a, 1), gammacdf(-1, a, 1)); if (a > 1) MC_CHECK(gammapdf(0, a, 2) == 0, "gammapdf", "density at 0 for shape %g is %g", a, gammapdf(0, a, 2)); if (a == 1) MC_CHECK(gammapdf(0, a, 2) == 0.5, "gammapdf", "density at 0 for shape 1 is %g", gammapdf(0, a, 2)); if (a < 1) MC_CHECK(isinf(gammapdf(0, a, 2)) || gammapdf(0, a, 2) > 1e300, "gammapdf", "density at 0 for shape %g is %g", a, gammapdf(0, a, 2)); MC_CHECK(gammapdf(-1, a, 2) == 0, "gammapdf", "density below 0 is %g", gammapdf(-1, a, 2)); }
static const double BA[] = {0.1, 0.5, 1, 1.5, 2, 3, 4.5, 7, 10, 15.5, 30, 60, 125, 500};
static void ibet(int i, int j, int T) { double a = BA[i], b = BA[j], prev = 0; int n = T ? 800 : 160; for (int k = 0; k <= n; k++) { double x = k < n / 2 ? pow(2.0 * k / n, 3) / 2 : 1 - pow(2 - 2.0 * k / n, 3) / 2; double p = ibeta(x, a, b); ld L = rbet(x, 1 - (ld)x, a, b), U = rbet(1 - (ld)x, x, b, a); double tol = 1e-14 * (4 + 2 * (a + b)); CK("ibeta", p, L, 1e-14 + tol * 0.01, tol + 1e-10, "ibeta(%.17g,%g,%g)", x, a, b); CK("ibetac", ibetac(x, a, b), U, 1e-14 + tol * 0.01, tol + 1e-10, "ibetac(%.17g,%g,%g)", x, a, b); MC_CHECK(p >= -1e-12 && p <= 1 + 1e-12, "range", "ibeta(%g,%g,%g)=%.17g", x, a, b, p); MC_CHECK(p >= prev - 1e-12, "monotone", "ibeta(%.17g,%g,%g) = %.17g below its predecessor %.17g", x, a, b, p, prev); prev = p; double c = betacdf(x, a, b); CK("betacdf", c, L, 1e-14 + tol * 0.01, tol + 1e-10, "betacdf(%.17g,%g,%g)", x, a, b); if (k && k < n) { ld d = expl((a - 1) * logl(x) + (b - 1) * log1pl(-(ld)x) - lbeta_(a, b)); CK("betapdf", betapdf(x, a, b), d, 1e-300, tol * 2 + 1e-14 * fabs((b - 1) * log1p(-x)) + 1e-14 * fabs((a - 1) * log(x)) + fabs(b - 1) * 1e-16 / (1 - x), "betapdf(%.17g,%g,%g)", x, a, b); } mc_state_d(&p, 1); }
    CK("ibeta", ibeta(0, a, b), 0, 0, 0, "ibeta(0,%g,%g)", a, b); CK("ibeta", ibeta(1, a, b), 1, 0, 1e-13, "ibeta(1,%g,%g)", a, b); double d0 = betapdf(0, a, b), d1 = betapdf(1, a, b); if (a > 1) MC_CHECK(d0 == 0, "betapdf", "density at 0 for a=%g is %g", a, d0); if (b > 1) MC_CHECK(d1 == 0, "betapdf", "density at 1 for b=%g is %g", b, d1); if (a == 1) CK("betapdf", d0, b, 0, 1e-12, "betapdf(0,1,%g)", b); if (b == 1) CK("betapdf", d1, a, 0, 1e-12, "betapdf(1,%g,1)", a); if (a < 1) MC_CHECK(d0 > 1e300, "betapdf", "density at 0 for a=%g is %g", a, d0); if (b < 1) MC_CHECK(d1 > 1e300, "betapdf", "density at 1 for b=%g is %g", b, d1);
    for (int k = 0; k < NP; k++) { double p = PV[k]; if (p < 1e-6 || 1 - p < 1e-6) continue; if (pow(p, 1 / a) < 1e-3 || pow(1 - p, 1 / b) < 1e-3) continue; /* the inverse itself underflows the algorithm's bracket */ double x = betainv(p, a, b); ld pd = expl((a - 1) * logl(x) + (b - 1) * log1pl(-(ld)x) - lbeta_(a, b)); CK("betainv", (double)rbet(x, 1 - (ld)x, a, b), p, 2e-9 + (double)pd * 3e-7, 1e-8, "betacdf(betainv(%.12g,%g,%g))", p, a, b); mc_state_d(&x, 1); } MC_CHECK(betainv(0, a, b) == 0 && betainv(1, a, b) == 1, "betainv ends", "%g %g", betainv(0, a, b), betainv(1, a, b)); }
static void norm(int T) { static const double MU[] = {0, 1, -30, 1e3}, SG[] = {1, 0.01, 7, 100}; int n = T ? 4000 : 800; for (int m = 0; m < 4; m++) for (int s = 0; s < 4; s++) { double prev = 0; for (int i = 0; i <= n; i++) { double z = -9 + 18.0 * i / n, x = MU[m] + SG[s] * z; ld zz = ((ld)x - MU[m]) / SG[s], d = expl(-zz * zz / 2) / sqrtl(2 * PIL) / SG[s]; double rc = 4e-15 * (1 + 4 * z * z); CK("normalpdf", normalpdf(x, MU[m], SG[s]), d, 0, rc, "normalpdf(%.17g,%g,%g)", x, MU[m], SG[s]); double p = normalcdf(x, MU[m], SG[s]); CK("normalcdf", p, nl(zz), 4e-16, 4e-15, "normalcdf(%.17g,%g,%g)", x, MU[m], SG[s]); MC_CHECK(p >= prev, "monotone", "normalcdf(%.17g)", x); MC_CHECK(p >= 0 && p <= 1, "range", "normalcdf(%.17g) = %g", x, p); prev = p; mc_state_d(&p, 1); } for (int k = 0; k < NP; k++) { double p = PV[k], x = normalinv(p, MU[m], SG[s]); if (p < 1e-15) continue; CK("normalinv", (double)nl(((ld)x - MU[m]) / SG[s]), p, 4e-16 + 1e-16 * fabs(MU[m]) / SG[s], 1e-13, "normalcdf(normalinv(%.12g,%g,%g))", p, MU[m], SG[s]); double q = 1 - p; if (1 - q == p && m == 0) MC_CHECK(fabs(normalinv(q, 0, SG[s]) + x) <= 1e-12 * (1 + fabs(x)), "normalinv symmetry", "p=%g", p); } } }
static const int DF[] = {1, 2, 3, 4, 5, 7, 10, 15, 29, 30, 60, 61, 100, 199, 250, 999, 1000, 1001, 2000, 10000};
static void student(int k, int T) { int df = DF[k], n = T ? 4000 : 600; double prev = 0; for (int i = -n; i <= n; i++) { double t = i == 0 ? 0 : (i < 0 ? -1 : 1) * 1e-3 * pow(10, 6.0 * abs(i) / n); ld L = tl(t, df); double p = tcdf(t, df); CK("tcdf", p, L, 2e-15 * (10 + df), 1e-9, "tcdf(%.17g,%d)", t, df); MC_CHECK(p >= 0 && p <= 1, "range", "tcdf(%g,%d)=%.17g", t, df, p); MC_CHECK(p >= prev - 1e-12, "monotone", "tcdf(%.17g,%d) = %.17g below its predecessor %.17g", t, df, p, prev); prev = p; MC_CHECK(fabs(p + tcdf(-t, df) - 1) <= 1e-14, "tcdf symmetry", "t=%g df=%d", t, df); ld d = expl(lgammal((df + 1) / 2.0L) - lgammal(df / 2.0L) - (df + 1) / 2.0L * log1pl((ld)t * t / df)) / sqrtl(PIL * df); CK("tpdf", tpdf(t, df), d, 1e-300, 1e-14 * (2 + df), "tpdf(%.17g,%d)", t, df); mc_state_d(&p, 1); }
    static const double TB[] = {1e10, 1e100, 1e155, 1e200, 1e308, INFINITY}; for (int i = 0; i < 6; i++) { CK("tcdf tail", tcdf(TB[i], df), 1, 1e-9, 0, "tcdf(%g,%d)", TB[i], df); CK("tcdf tail", tcdf(-TB[i], df), 0, 1e-9, 0, "tcdf(%g,%d)", -TB[i], df); }
    for (int i = 0; i < NP; i++) { double p = PV[i]; if (p < 1e-10 || 1 - p < 1e-10) continue; double t = tinv(p, df); /* quantile accuracy of the bundled inverse: relative 1e-5 in the smaller tail */ ld g = p < 0.5 ? tl(t, df) : tl(-(ld)t, df), w = p < 0.5 ? (ld)p : 1 - (ld)p; ld bx = df / (df + (ld)t * t), pd = expl((df / 2.0L - 1) * logl(bx) - 0.5L * log1pl(-bx) - lbeta_(df / 2.0L, 0.5L)); CK("tinv", (double)g, w, df > 1000 ? 1e-8 : 1e-9 + (double)pd * 3e-7, df > 1000 ? 1e-5 : 1e-8, "tcdf(tinv(%.12g,%d))%s", p, df, p < 0.5 ? "" : " upper tail"); if (w > 1e-9 && w < 0.01) CK("tinv tail", (double)g, w, 0, df > 1000 ? 1e-5 : 1e-6, "tcdf(tinv(%.12g,%d))%s", p, df, p < 0.5 ? "" : " upper tail"); MC_CHECK((t > 0) == (p > 0.5) || t == 0 || fabs(p - 0.5) < 1e-6, "tinv sign", "tinv(%g,%d)=%g", p, df, t); mc_state_d(&t, 1); }
    MC_CHECK(tinv(0, df) < -1e300 && tinv(1, df) > 1e300, "tinv ends", "%g %g", tinv(0, df), tinv(1, df)); }
static const int FD[] = {1, 2, 3, 4, 5, 8, 13, 30, 60, 120, 500, 1000};
static void fisher(int i, int j, int T) { int a = FD[i], b = FD[j], n = T ? 1500 : 250; double prev = 0; for (int k = 0; k <= n; k++) { double f = k == 0 ? 0 : 1e-4 * pow(10, 8.0 * k / n); double p = fcdf(f, a, b); double tol = 1e-13 * (4 + a + b); CK("fcdf", p, fl(f, a, b), 1e-14 * (4 + a + b), tol + 1e-10, "fcdf(%.17g,%d,%d)", f, a, b); MC_CHECK(p >= -1e-12 && p <= 1 + 1e-12, "range", "fcdf(%g,%d,%d)=%.17g", f, a, b, p); MC_CHECK(p >= prev - 1e-12, "monotone", "fcdf(%.17g,%d,%d) = %.17g below its predecessor %.17g", f, a, b, p, prev); prev = p; if (k) { ld z = b + (ld)a * f, d = expl(a / 2.0L * logl(a * f / z) + b / 2.0L * logl(b / z) - logl(f) - lbeta_(a / 2.0L, b / 2.0L)); CK("fpdf", fpdf(f, a, b), d, 1e-300, tol, "fpdf(%.17g,%d,%d)", f, a, b); } mc_state_d(&p, 1); }
    double d0 = fpdf(0, a, b); if (a > 2) MC_CHECK(d0 == 0, "fpdf", "density at 0 for %d degrees of freedom is %g", a, d0); if (a == 2) CK("fpdf", d0, 1, 0, 1e-12, "fpdf(0,2,%d)", b); if (a == 1) MC_CHECK(d0 > 1e300, "fpdf", "density at 0 for 1 degree of freedom is %g", d0); CK("fcdf tail", fcdf(1e300, a, b), 1, 1e-9, 0, "fcdf(1e300,%d,%d)", a, b); CK("fcdf tail", fcdf(INFINITY, a, b), 1, 1e-9, 0, "fcdf(inf,%d,%d)", a, b);
    for (int k = 0; k < NP; k++) { double p = PV[k]; if (p < 0.001 || p > 0.999) continue; double x = finv(p, a, b); if (a == 1 && p < 0.05) continue; if (b == 1 && p > 0.95) continue; ld bx = a * (ld)x / (b + a * (ld)x), pd = expl((a / 2.0L - 1) * logl(bx) + (b / 2.0L - 1) * log1pl(-bx) - lbeta_(a / 2.0L, b / 2.0L)); CK("finv", (double)fl(x, a, b), p, 1e-8 + (double)pd * 3e-7, 1e-8, "fcdf(finv(%.12g,%d,%d))", p, a, b); mc_state_d(&x, 1); } MC_CHECK(finv(0, a, b) == 0 && finv(1, a, b) > 1e300, "finv ends", "%g %g", finv(0, a, b), finv(1, a, b)); }
static void chisq(int k, int T) { int df = DF[k], n = T ? 3000 : 500; double prev = 0; for (int i = 0; i <= n; i++) { double x = (df + 20 * sqrt(2.0 * df)) * pow((double)i / n, 2); ld L = rgam(df / 2.0L, x / 2.0L, 0); double p = chicdf(x, df), tol = 1e-14 * (4 + df * (1 + fabs(log(x / df + 1e-9)))); CK("chicdf", p, L, 1e-14 + 1e-16 * df, tol, "chicdf(%.17g,%d)", x, df); MC_CHECK(p >= prev - 1e-12 && p <= 1, "monotone", "chicdf(%.17g,%d) = %.17g after %.17g", x, df, p, prev); prev = p; if (i) CK("chipdf", chipdf(x, df), expl((df / 2.0L - 1) * logl(x / 2.0L) - x / 2.0L - lgammal(df / 2.0L)) / 2, 1e-300, tol, "chipdf(%.17g,%d)", x, df); mc_state_d(&p, 1); }
    double d0 = chipdf(0, df); MC_CHECK(df == 1 ? d0 > 1e300 : df == 2 ? d0 == 0.5 : d0 == 0, "chipdf", "density at 0 for %d degrees of freedom is %g", df, d0);
    for (int i = 0; i < NP; i++) { double p = PV[i]; if (pow(p, 2.0 / df) < 1e-280) continue; double x = chiinv(p, df); ld g = p < 0.5 ? rgam(df / 2.0L, x / 2.0L, 0) : rgam(df / 2.0L, x / 2.0L, 1), w = p < 0.5 ? (ld)p : 1 - (ld)p; CK("chiinv", (double)g, w, 4e-14, p < 1e-14 ? 1e-7 : 1e-10, "chicdf(chiinv(%.12g,%d))", p, df); mc_state_d(&x, 1); } }
void mc_enumerate(void) { int T = mc_thorough;
    for (int b = 0; b < 20; b++) if (mc_case("error function block %d", b)) errfn(b, T);
    if (mc_case("inverse error functions")) errinv(T); if (mc_case("gamma and beta")) gam(T);
    for (int k = 0; k < 18; k++) if (mc_case("incomplete gamma a=%g", GA[k])) igam(k, T);
    for (int i = 0; i < 14; i++) for (int j = 0; j < 14; j++) if (mc_case("incomplete beta a=%g b=%g", BA[i], BA[j])) ibet(i, j, T);
    if (mc_case("normal")) norm(T);
    for (int k = 0; k < 20; k++) { if (mc_case("student df=%d", DF[k])) student(k, T); if (mc_case("chi-square df=%d", DF[k])) chisq(k, T); }
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) if (mc_case("F df=%d,%d", FD[i], FD[j])) fisher(i, j, T);
}
