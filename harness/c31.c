/* C31: standard errors and summaries.  (a) the reported covariance matrix is the inverse observed information of the objective that
 * was maximised, in the order and sign of the reported coefficients; (b) every summary prints, next to each label, the value and the
 * standard error the object holds. */
#include "arima.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <ctype.h>
#include "regression.h"
const char *mc_property = "C31";
/* ---- (a) ---- */
static int npar(const spec_t *s) { return s->p + s->q + (s->cls ? s->P + s->Q : 0) + (s->cls == 2 ? s->r : 0) + spec_hasmean(s); }
/* parameter vector in the order of the covariance matrix: AR, MA, SAR, SMA, mean, regressors */
static void getpar(const fit_t *f, double *v) { const spec_t *s = &f->sp; int n = 0; for (int i = 0; i < s->p; i++) v[n++] = f->phi[i]; for (int i = 0; i < s->q; i++) v[n++] = f->theta[i]; if (s->cls) { for (int i = 0; i < s->P; i++) v[n++] = f->PHI[i]; for (int i = 0; i < s->Q; i++) v[n++] = f->THETA[i]; } if (spec_hasmean(s)) v[n++] = f->mean; if (s->cls == 2) for (int i = 0; i < s->r; i++) v[n++] = f->exog[i]; }
static int objective(const spec_t *s, int css, const double *v, const double *x, const double *z, ld *ll) {
    int n = 0; const double *phi = v; n += s->p; const double *th = v + n; n += s->q; const double *PH = v + n, *TH = v + n; if (s->cls) { n += s->P; TH = v + n; n += s->Q; } double mean = 0; if (spec_hasmean(s)) mean = v[n++];
    model_t m = model_of(s, phi, th, PH, TH, mean, v + n, x, z); int bad = 0;
    if (css) { ld ssq; int used; ld *e = malloc(sizeof(ld) * (m.n + 1)); model_css(&m, &ssq, &used, e); free(e); if (!(ssq > 0)) bad = 1; else *ll = -0.5L * m.n * logl(ssq / used); }
    else { ld var; bad = model_ml(&m, ll, &var, NULL); }
    model_free(&m); return bad;
}
static double symmetric_margin(const fit_t *f) { const spec_t *s = &f->sp; ld m = 1, g; ld a[16]; for (int i = 0; i < s->p; i++) a[i] = f->phi[i]; g = ar_margin(a, s->p); if (s->p && g < m) m = g; for (int i = 0; i < s->q; i++) a[i] = f->theta[i]; g = ar_margin(a, s->q); if (s->q && g < m) m = g; if (s->cls) { for (int i = 0; i < s->P; i++) a[i] = f->PHI[i]; g = ar_margin(a, s->P); if (s->P && g < m) m = g; for (int i = 0; i < s->Q; i++) a[i] = f->THETA[i]; g = ar_margin(a, s->Q); if (s->Q && g < m) m = g; } return m; }
static void covcase(spec_t sp, int kind, int seed, int method, int opt) {
    double x[200], z[600]; series(kind, seed, sp.N, x); regressors(3, sp.N, 0, z); double *xr = sp.cls == 2 && sp.r ? z : NULL;
    fit_t f = fit_new(sp); fit_method(&f, method, opt); fit_exec(&f, x, xr); mc_ops(1);
    if (f.retval != 1) { mc_count("fits without success", 1); fit_free(&f); return; }
    int k = npar(&sp); MC_CHECK(f.lvcov == k * k, "covariance size", "length %d for %d parameters", f.lvcov, k);
    if (symmetric_margin(&f) < 0.06) { mc_count("near-boundary fits skipped", 1); fit_free(&f); return; }
    double v[16], w[16]; getpar(&f, v); ld H[256], V[256], sc[16]; int bad = 0;
    double h[16]; ld l0; bad |= objective(&sp, method == 2, v, x, xr, &l0);
    for (int i = 0; i < k; i++) h[i] = 2e-4 * (i < k - spec_hasmean(&sp) - (sp.cls == 2 ? sp.r : 0) ? 1 : 0.5);
    for (int i = 0; i < k && !bad; i++) for (int j = i; j < k && !bad; j++) {
        ld l[4]; if (i == j) { memcpy(w, v, sizeof w); w[i] = v[i] + h[i]; bad |= objective(&sp, method == 2, w, x, xr, &l[0]); w[i] = v[i] - h[i]; bad |= objective(&sp, method == 2, w, x, xr, &l[1]); H[i * k + i] = -(l[0] - 2 * l0 + l[1]) / ((ld)h[i] * h[i]); }
        else { for (int c = 0; c < 4; c++) { memcpy(w, v, sizeof w); w[i] += (c & 1 ? -1 : 1) * h[i]; w[j] += (c & 2 ? -1 : 1) * h[j]; bad |= objective(&sp, method == 2, w, x, xr, &l[c]); } H[i * k + j] = H[j * k + i] = -(l[0] - l[1] - l[2] + l[3]) / (4 * (ld)h[i] * h[j]); }
    }
    if (bad) { mc_count("not evaluable", 1); fit_free(&f); return; }
    /* conditioning: correlation-scaled information must be well away from singular */
    for (int i = 0; i < k; i++) { if (!(H[i * k + i] > 0)) bad = 1; else sc[i] = sqrtl(H[i * k + i]); }
    if (!bad) { ld S[256]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) S[i * k + j] = H[i * k + j] / (sc[i] * sc[j]); bad |= ref_inverse(S, k, V); for (int i = 0; i < k && !bad; i++) if (!(V[i * k + i] > 0 && V[i * k + i] < 60)) bad = 1; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) V[i * k + j] /= sc[i] * sc[j]; }
    if (bad) { mc_count("ill-conditioned information skipped", 1); fit_free(&f); return; }
    mc_count("covariances compared", 1); mc_state_d(f.vcov, k * k);
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double got = f.vcov[i * k + j], want = V[i * k + j], s = sqrt((double)(V[i * k + i] * V[j * k + j])), e = fabs(got - want) / s; char nm[48]; sprintf(nm, "covariance error %s", i == j ? "diag" : "off"); mc_max(nm, e); MC_CHECK(e <= 0.02, i == j ? "variance" : "covariance", "%s entry (%d,%d) = %g, inverse observed information %g (scale %g)", method == 2 ? "CSS" : "ML", i, j, got, want, s); }
    fit_free(&f);
}
/* ---- (b) summaries ---- */
static char txt[1 << 16];
static void capture(void (*fn)(void *), void *o) {
    fflush(stdout); int old = dup(1), fd = memfd_create("summary", 0); dup2(fd, 1); fn(o); fflush(stdout); dup2(old, 1); close(old);
    long n = lseek(fd, 0, SEEK_END); if (n > (long)sizeof txt - 1) n = sizeof txt - 1; lseek(fd, 0, SEEK_SET); long g = read(fd, txt, n); txt[g < 0 ? 0 : g] = 0; close(fd); mc_ops(1);
}
static void c_arima(void *o) { arima_summary(o); } static void c_sarima(void *o) { sarima_summary(o); } static void c_sarimax(void *o) { sarimax_summary(o); } static void c_auto(void *o) { auto_arima_summary(o); } static void c_wrap(void *o) { sarimax_wrapper_summary(o); } static void c_my(void *o) { myarima_summary(o); } static void c_aa(void *o) { aa_ret_summary(o); } static void c_ar(void *o) { ar_summary(o); } static void c_reg(void *o) { summary(o); } static void c_anova(void *o) { anova(o); } static void c_conf(void *o) { confint(o); }
static reg_object *lst; static int nlst; static void c_list(void *o) { (void)o; anova_list(lst, nlst); }
/* k-th line whose first token is lab; its numbers.  Returns how many numbers follow, -1 when the line is missing */
static int row(const char *lab, int k, double *v, int max) {
    int L = strlen(lab);
    for (const char *p = txt; p && *p; p = strchr(p, '\n'), p = p ? p + 1 : NULL) {
        const char *q = p; while (*q == ' ') q++; if (strncmp(q, lab, L) || (q[L] != ' ' && q[L] != ':' && q[L] != '=')) continue; if (k--) continue;
        q += L; int n = 0; while (n < max) { while (*q == ' ' || *q == ':' || *q == '=' || *q == ',' || *q == '\t') q++; if (*q == '\n' || !*q) break; char *e; double d = strtod(q, &e); if (e == q) { while (*q && *q != ' ' && *q != '\n') q++; continue; } v[n++] = d; q = e; } return n;
    }
    return -1;
}
static int rows(const char *lab) { int n = 0; double v[8]; while (row(lab, n, v, 8) >= 0) n++; return n; }
static int shown(double got, double want) { if (want != want) return got != got; if (isinf(want)) return got == want; return fabs(got - want) <= 1e-5 * fabs(want) + 1e-12; }
static void coef(const char *lab, int k, double val, double se, const char *what) {
    double v[4] = {0}; int n = row(lab, k, v, 4); MC_CHECK(n >= 1, "summary row", "%s: no row %s", what, lab); if (n < 1) return;
    MC_CHECK(shown(v[0], val), "summary value", "%s: row %s shows %g, the object holds %g", what, lab, v[0], val);
    if (se == se && se >= 0) MC_CHECK(n >= 2 && shown(v[1], se), "summary standard error", "%s: row %s shows standard error %g, the object holds %g", what, lab, v[1], se);
}
/* EQUATION FORM: coefficients of x by lag (left side), constant and coefficients of a by lag */
static void equation(const double *phi, int p, const double *th, int q, double mean, const char *what) {
    char *e = strstr(txt, "EQUATION FORM : x[t]"); MC_CHECK(e != NULL, "equation", "%s: no equation", what); if (!e) return;
    char *nl = strchr(e, '\n'), *c = e + strlen("EQUATION FORM : x[t]"); double px[16] = {0}, pa[16] = {0}, cst = 0; int rhs = 0, bad = 0, lead = 0; double sg = 1; px[0] = 1;
    while (c < nl) {
        if (*c == ' ' || *c == ']' ) { c++; continue; } if (*c == '=') { rhs = 1; sg = 1; c++; continue; } if (*c == '+') { sg = 1; c++; continue; } if (*c == '-' && (c[1] == ' ')) { sg = -1; c++; continue; }
        double v = 1; char *z = c; if (strncmp(c, "a[t]", 4)) { v = strtod(c, &z); if (z == c) { bad = 1; break; } }
        if (*z == '*') z++;
        if ((*z == 'x' || *z == 'a') && z[1] == '[' && z[2] == 't') { int isx = *z == 'x', lag = 0; z += 3; if (*z != ']') { sscanf(z, " - %d", &lag); z = strchr(z, ']'); } z++; if (lag < 0 || lag > 15 || (isx && rhs) || (!isx && !rhs)) { bad = 1; break; } if (isx) px[lag] += sg * v; else { pa[lag] += sg * v; if (!lag) lead = 1; } }
        else { if (!rhs) { bad = 1; break; } cst += sg * v; }
        sg = 1; c = z;
    }
    MC_CHECK(!bad && lead, "equation", "%s: cannot read the equation", what); if (bad) return;
    double k = mean; for (int i = 0; i < p; i++) k -= mean * phi[i];
    MC_CHECK(fabs(cst - k) <= 1e-5 * (fabs(mean) + fabs(k)), "equation constant", "%s: constant %g, expected mean*(1-sum phi) = %g", what, cst, k);
    for (int i = 1; i < 16; i++) { double wx = i <= p ? -phi[i - 1] : 0, wa = i <= q ? -th[i - 1] : 0; MC_CHECK(shown(px[i], wx), "equation autoregressive term", "%s: lag %d coefficient %g, expected %g", what, i, px[i], wx); MC_CHECK(shown(pa[i], wa), "equation moving-average term", "%s: lag %d coefficient %g, expected %g", what, i, pa[i], wa); }
}
/* rows common to the model summaries.  kind 0: arima/sarima/sarimax; 1: TREND row */
typedef struct { int p, d, q, P, D, Q, s, M, r, idrift, hasmean, retval, method, lv; const double *phi, *th, *PH, *TH, *ex, *vc; double mean, var; } sm_t;
static double sd(const sm_t *m, int t) { int k = m->p + m->q + m->P + m->Q + m->M; return sqrt(m->vc[t * k + t]); }
static void common(const sm_t *m, int trend, int xprinted, const char *w) {
    char l[32]; int t = 0; double v[16];
    for (int i = 0; i < m->p; i++) { sprintf(l, "AR%d", i + 1); coef(l, 0, m->phi[i], sd(m, t++), w); }
    for (int i = 0; i < m->q; i++) { sprintf(l, "MA%d", i + 1); coef(l, 0, m->th[i], sd(m, t++), w); }
    for (int i = 0; i < m->P; i++) { sprintf(l, "SAR%d", i + 1); coef(l, 0, m->PH[i], sd(m, t++), w); }
    for (int i = 0; i < m->Q; i++) { sprintf(l, "SMA%d", i + 1); coef(l, 0, m->TH[i], sd(m, t++), w); }
    sprintf(l, "AR%d", m->p + 1); MC_CHECK(row(l, 0, v, 4) < 0, "summary extra row", "%s: row %s", w, l); sprintf(l, "MA%d", m->q + 1); MC_CHECK(row(l, 0, v, 4) < 0, "summary extra row", "%s: row %s", w, l);
    coef("MEAN", 0, m->mean, m->hasmean ? sd(m, t++) : -1, w);
    if (trend) { if (m->idrift) { coef("TREND", 0, m->ex[0], sd(m, t++), w); } else coef("TREND", 0, 0, -1, w); }
    if (xprinted) { for (int i = 0; i < m->r; i++) coef("EXOG", i, m->ex[m->idrift + i], sd(m, t++), w); MC_CHECK(rows("EXOG") == m->r, "summary extra row", "%s: %d EXOG rows, %d regressors", w, rows("EXOG"), m->r); }
    coef("SIGMA^2", 0, m->var, -1, w);
    char *o = strstr(txt, "Order : ("); int a[6] = {-1, -1, -1, -1, -1, -1}, n = o ? sscanf(o, "Order : ( %d, %d, %d) * (%d, %d, %d)", a, a + 1, a + 2, a + 3, a + 4, a + 5) : 0;
    MC_CHECK(n >= 3 && a[0] == m->p && a[1] == m->d && a[2] == m->q && (n < 6 ? m->P + m->D + m->Q == 0 : a[3] == m->P && a[4] == m->D && a[5] == m->Q), "summary order", "%s: orders shown (%d,%d,%d)(%d,%d,%d)", w, a[0], a[1], a[2], a[3], a[4], a[5]);
    char *rc = strstr(txt, "Return Code : "); if (rc) MC_CHECK(atoi(rc + 14) == m->retval, "summary exit status", "%s: code %d, object %d", w, atoi(rc + 14), m->retval);
    char *sx = strstr(txt, "Probable Success"); if (sx) MC_CHECK(m->retval == 1, "summary exit status", "%s: success printed for code %d", w, m->retval);
}
static void stat(const char *lab, double want, const char *w) { char *o = strstr(txt, lab); MC_CHECK(o != NULL, "summary statistic", "%s: no %s", w, lab); if (!o) return; o = strchr(o, ':'); double g = strtod(o + 1, NULL); MC_CHECK(shown(g, want), "summary statistic", "%s: %s %g, the object holds %g", w, lab, g, want); }
static int says(const char *sect, const char *name) { char *o = strstr(txt, sect); if (!o) return 0; o += strlen(sect); char *e = strchr(o, '\n'); size_t n = e ? (size_t)(e - o) : strlen(o); while (n && o[n - 1] == ' ') n--; return n == strlen(name) && !strncmp(o, name, n); }
static const char *OM[] = {"Nelder-Mead", "Newton Line Search", "Newton Trust Region - Hook Step", "Newton Trust Region - Double Dog-Leg", "Conjugate Gradient", "BFGS", "L-BFGS", "BFGS More-Thuente Line Search"};
static void sumcase(spec_t sp, int kind, int method, int opt, int fail) {
    double x[200], z[600]; series(kind, 0, sp.N, x); regressors(3, sp.N, 0, z); if (fail == 1) x[sp.N / 2] = NAN; if (fail == 2) for (int i = 0; i < sp.N; i++) z[sp.N + i] = 2 * z[i]; double *xr = sp.cls == 2 && sp.r ? z : NULL;
    fit_t f = fit_new(sp); if (method == 3) { if (sp.cls == 0) arima_setMethod(f.o, 2); else sarima_setMethod(f.o, 2); } else fit_method(&f, method, opt); fit_exec(&f, x, xr);
    if (fail) { fit_read(&f); capture(sp.cls == 0 ? c_arima : sp.cls == 1 ? c_sarima : c_sarimax, f.o); char *rc = strstr(txt, "Return Code : "); if (rc) MC_CHECK(atoi(rc + 14) == f.retval, "summary exit status", "code %d, object %d", atoi(rc + 14), f.retval); if (f.retval != 1) MC_CHECK(!strstr(txt, "Probable Success"), "summary exit status", "success printed for code %d", f.retval); mc_count("failed fits", f.retval != 1); fit_free(&f); return; }
    sm_t m = {sp.p, sp.d, sp.q, sp.cls ? sp.P : 0, sp.cls ? sp.D : 0, sp.cls ? sp.Q : 0, sp.s, f.M, sp.cls == 2 ? sp.r : 0, 0, spec_hasmean(&sp), f.retval, method, f.lvcov, f.phi, f.theta, f.PHI, f.THETA, f.exog, f.vcov, f.mean, f.var};
    char w[160]; sprintf(w, "%s %s", spec_str(&sp), kname[kind]);
    capture(sp.cls == 0 ? c_arima : sp.cls == 1 ? c_sarima : c_sarimax, f.o); mc_count("summaries", 1); mc_state(mc_hash(0, txt, strlen(txt)));
    common(&m, 0, sp.cls == 2, w);
    if (method < 3) { stat("Log Likelihood", f.loglik, w); if (method < 2) stat("AIC criterion", f.aic, w); MC_CHECK(says("OPTIMIZATION METHOD : ", OM[opt]), "summary optimiser", "%s: optimiser %d not named", w, opt); MC_CHECK(says("ESTIMATION METHOD : ", sp.cls == 2 ? (method == 0 ? "CSS-MLE" : method == 1 ? "MLE" : "CSS") : method == 2 ? "CSS" : "MLE"), "summary method", "%s: method %d not named", w, method); }
    if (sp.cls == 0 || (sp.cls == 2 && !(sp.P + sp.Q))) equation(f.phi, sp.p, f.theta, sp.q, f.mean, w);
    fit_free(&f);
}
static void wrapcase(int which, int kind, int p, int d, int q, int P, int D, int Q, int drift, int mean, int r) {
    double x[200], z[600]; int N = 80, s = P + D + Q ? 4 : 0, od[3] = {p, d, q}, se[4] = {P, D, Q, s}; series(kind, 1, N, x); for (int i = 0; i < N; i++) x[i] += 0.2 * i * (drift != 0); regressors(3, N, 0, z); double *xr = r ? z : NULL;
    char w[120]; sprintf(w, "%s (%d,%d,%d)(%d,%d,%d) drift %d mean %d r %d", which ? "myarima" : "wrapper", p, d, q, P, D, Q, drift, mean, r);
    sarimax_object o; double aic, bic, aicc, s2; int idr; void *ob, *keep = NULL; (void)keep;
    if (!which) { sarimax_wrapper_object W = sarimax_wrapper(NULL, x, N, od, s ? se : NULL, xr, r, drift, mean, NULL, 0, 0); ob = W; o = W->sarimax; aic = W->aic; bic = W->bic; aicc = W->aicc; s2 = W->sigma2; idr = W->idrift; capture(c_wrap, W); }
    else { myarima_object W = myarima(x, N, od, s ? se : NULL, drift || mean, "aicc", 0, 0, 0.0, xr, r, NULL); ob = W; o = W->sarimax; if (!o || W->ic > 1e300) { mc_count("models rejected by myarima", 1); myarima_free(W); return; } aic = W->aic; bic = W->bic; aicc = W->aicc; s2 = W->sigma2; idr = W->idrift; capture(c_my, W); }
    mc_count("summaries", 1); mc_state(mc_hash(0, txt, strlen(txt)));
    sm_t m = {o->p, o->d, o->q, o->P, o->D, o->Q, o->s, o->M, o->r - idr, idr, o->M - o->r > 0, o->retval, o->method, o->lvcov, o->phi, o->theta, o->PHI, o->THETA, o->exog, o->vcov, o->mean, s2};
    MC_CHECK(o->p == p && o->d == d && o->q == q && o->P == P && o->D == D && o->Q == Q, "wrapper orders", "%s", w);
    if (o->lvcov && o->retval == 1) { common(&m, 1, 1, w); stat("Log Likelihood", o->loglik, w); }
    stat("AIC criterion", aic, w); stat("BIC criterion", bic, w); stat("AICC criterion", aicc, w);
    { struct aa_ret_set A = {0}; char one[1 << 13]; strncpy(one, txt, sizeof one - 1); one[sizeof one - 1] = 0; if (!which) { A.Arima = ob; A.otype = 2; } else { A.myarima = ob; A.otype = 1; } capture(c_aa, &A); MC_CHECK(!strncmp(one, txt, sizeof one - 1), "summary dispatch", "%s: aa_ret_summary prints another text", w); }
    if (!which) sarimax_wrapper_free(ob); else myarima_free(ob);
}
static void autocase(int kind, int trend, int seas, int r, int stepwise, int approx, int method) {
    double x[200], z[600]; int N = 72, a[3] = {2, 1, 2}, b[3] = {1, 1, 1}; series(kind, 2, N, x); for (int i = 0; i < N; i++) x[i] += 0.3 * i * (trend != 0) + (seas ? 3 * ((i % 4) == 1) : 0); regressors(3, N, 0, z);
    auto_arima_object o = auto_arima_init(a, b, seas ? 4 : 1, r, N); auto_arima_setStepwise(o, stepwise); auto_arima_setApproximation(o, approx); if (method >= 0) auto_arima_setMethod(o, method); auto_arima_exec(o, x, r ? z : NULL);
    char w[120]; sprintf(w, "auto %s trend %d seasonal %d r %d stepwise %d approx %d method %d", kname[kind], trend, seas, r, stepwise, approx, method); capture(c_auto, o); mc_count("summaries", 1); mc_state(mc_hash(0, txt, strlen(txt)));
    if (o->retval == 1) { sm_t m = {o->p, o->d, o->q, o->P, o->D, o->Q, o->s, o->M, o->r, o->idrift, o->M - o->r - o->idrift > 0, o->retval, o->method, o->lvcov, o->phi, o->theta, o->PHI, o->THETA, o->exog, o->vcov, o->mean, o->sigma2}; common(&m, 1, 1, w); stat("Log Likelihood", o->loglik, w); mc_count("automatic models with drift", o->idrift); mc_count("automatic models with mean", m.hasmean); }
    else mc_count("automatic models without success", 1);
    stat("AIC criterion", o->aic, w); stat("BIC criterion", o->bic, w); stat("AICC criterion", o->aicc, w);
    MC_CHECK(says("Approximation: ", approx ? "TRUE" : "FALSE") && says("Stepwise: ", stepwise ? "TRUE" : "FALSE"), "summary settings", "%s: search settings", w);
    auto_arima_free(o);
}
static void arcase(int kind, int method, int N) {
    double x[200]; series(kind, 3, N, x); ar_object o = ar_init(method, N); ar_exec(o, x); capture(c_ar, o); mc_count("summaries", 1); char l[16], w[60]; sprintf(w, "ar %s method %d N %d", kname[kind], method, N); mc_state(mc_hash(0, txt, strlen(txt)));
    for (int i = 0; i < o->p; i++) { sprintf(l, "AR%d", i + 1); coef(l, 0, o->phi[i], -1, w); } sprintf(l, "AR%d", o->p + 1); double v[4]; MC_CHECK(row(l, 0, v, 4) < 0, "summary extra row", "%s: row %s", w, l); coef("MEAN", 0, o->mean, -1, w); coef("SIGMA^2", 0, o->var, -1, w); MC_CHECK(says("ESTIMATION METHOD : ", method == 0 ? "Yule Walker" : method == 1 ? "Burg" : "MLE"), "summary method", "%s", w); ar_free(o);
}
static int near6(double a, double b) { return fabs(a - b) <= 2e-6 + 1e-5 * fabs(b); }
static void regcase(int N, int r, int icpt, double alpha) {
    double y[200], z[600], res[200]; double vc[64]; series(K_AR1, 4, N, y); regressors(3, N, 0, z); for (int i = 0; i < N; i++) y[i] += z[i]; int P = r + 1; reg_object o = reg_init(N, P); if (!icpt) setIntercept(o, 0); regress(o, r ? z : NULL, y, res, vc, alpha);
    char w[60], l[16]; sprintf(w, "regression N %d r %d intercept %d", N, r, icpt); double v[8]; capture(c_reg, o); mc_count("summaries", 1); mc_state(mc_hash(0, txt, strlen(txt)));
    for (int i = 0; i < o->p; i++) { sprintf(l, "B%d", i); int n = row(l, 0, v, 8); MC_CHECK(n == 2 && near6(v[0], o->beta[i].value) && shown(v[1], o->beta[i].stdErr), "regression summary", "%s: row %s", w, l); }
    char *q = strstr(txt, "Residual Variance ="); MC_CHECK(q && near6(strtod(q + 19, NULL), o->sigma), "regression summary", "%s: variance", w); q = strstr(txt, "R-Squared ="); double r2, ra; MC_CHECK(q && sscanf(q, "R-Squared = %lf , Adjusted R-Squared = %lf", &r2, &ra) == 2 && near6(r2, o->R2[0]) && (near6(ra, o->R2[1]) || (ra != ra && o->R2[1] != o->R2[1])), "regression summary", "%s: R-squared", w);
    capture(c_conf, o); for (int i = 0; i < o->p; i++) { sprintf(l, "B%d", i); int n = row(l, 0, v, 8); MC_CHECK(n == 3 && near6(v[0], o->beta[i].value) && near6(v[1], o->beta[i].lower) && near6(v[2], o->beta[i].upper), "confidence summary", "%s: row %s", w, l); }
    { char *c = strstr(txt, "Residual Variance  "); MC_CHECK(c && sscanf(c, "Residual Variance %lf %lf %lf", v, v + 1, v + 2) == 3 && near6(v[0], o->sigma) && near6(v[1], o->sigma_lower) && near6(v[2], o->sigma_upper), "confidence summary", "%s: variance row", w); }
    { double lev = 0; char *c = strchr(txt, '%'); if (c) { lev = strtod(txt + strspn(txt, "\n "), NULL); MC_CHECK(near6(lev, 100 * (1 - alpha)), "confidence summary", "%s: level %g for alpha %g", w, lev, alpha); } }
    if (r > 0) { capture(c_anova, o); char *c = strstr(txt, "Due to Regression"); MC_CHECK(c && sscanf(c, "Due to Regression %lf %lf %lf", v, v + 1, v + 2) == 3 && v[0] == o->df_ESS && near6(v[1], o->ESS) && near6(v[2], o->ESS / o->df_ESS), "anova", "%s: regression row", w); c = strstr(txt, "Due to Residual"); MC_CHECK(c && sscanf(c, "Due to Residual %lf %lf %lf", v, v + 1, v + 2) == 3 && v[0] == o->df_RSS && near6(v[1], o->RSS) && near6(v[2], o->RSS / o->df_RSS), "anova", "%s: residual row", w); c = strstr(txt, "Total"); MC_CHECK(c && sscanf(c, "Total %lf %lf", v, v + 1) == 2 && v[0] == o->df_RSS + o->df_ESS && near6(v[1], o->TSS), "anova", "%s: total row", w); c = strstr(txt, "F Statistics ="); MC_CHECK(c && shown(strtod(c + 14, NULL), o->FStat), "anova", "%s: F", w); c = strstr(txt, "P Value (F)  ="); MC_CHECK(c && shown(strtod(c + 14, NULL), o->PVal), "anova", "%s: p", w); }
    free(o);
}
static void listcase(int N) {
    double y[200], z[600], res[200], vc[64]; reg_object L[4]; series(K_AR1, 5, N, y); regressors(3, N, 0, z); for (int r = 0; r < 4; r++) { L[r] = reg_init(N, r + 1); regress(L[r], r ? z : NULL, y, res, vc, 0.05); }
    for (nlst = 1; nlst <= 4; nlst++) { lst = L; capture(c_list, NULL); for (int i = 0; i < nlst; i++) { char l[8]; double v[8]; sprintf(l, "%d", i); int n = row(l, 0, v, 8); MC_CHECK(n == (i ? 4 : 2) && v[0] == L[i]->df_RSS && near6(v[1], L[i]->RSS) && (!i || (v[2] == L[i - 1]->df_RSS - L[i]->df_RSS && near6(v[3], L[i - 1]->RSS - L[i]->RSS))), "anova of several models", "row %d of %d", i, nlst); } }
    for (int r = 0; r < 4; r++) free(L[r]);
}
void mc_enumerate(void) {
    int th = mc_thorough; mc_case_limit = 120; (void)th;
    static const int KD[] = {K_AR1, K_MA1, K_ARMA, K_AR2C, K_SEAS, K_MA2, K_RW};
    for (int cls = 0; cls < 3; cls++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= (cls ? 1 : 0); P++) for (int Q = 0; Q <= (cls ? 1 : 0); Q++) for (int d = 0; d <= 1; d++) for (int D = 0; D <= (cls ? 1 : 0); D++) for (int r = 0; r <= (cls == 2 ? 2 : 0); r++) for (int im = 0; im <= (cls == 2 && d + D == 0); im++) {
        spec_t sp = {cls, p, d, q, P, D, Q, cls && P + D + Q ? 4 : (cls == 1 ? 1 : 0), r, im, 80}; if (cls == 1 && !(P + D + Q)) sp.s = 4; if (!npar(&sp)) continue; if (!th && p + q + P + Q > 3) continue;
        for (int m = 0; m < 3; m++) if (mc_case("cov %s method %d", spec_str(&sp), m)) for (int k = 0; k < 7; k++) for (int se = 0; se < (th ? 3 : 1); se++) covcase(sp, KD[k], se, m, 5);
    }
    static const int KS[] = {K_AR1, K_ARMA, K_SEAS, K_MA2};
    for (int cls = 0; cls < 3; cls++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= (cls ? (th ? 2 : 1) : 0); P++) for (int Q = 0; Q <= (cls ? (th ? 2 : 1) : 0); Q++) for (int d = 0; d <= 1; d++) for (int D = 0; D <= (cls ? 1 : 0); D++) for (int r = 0; r <= (cls == 2 ? 3 : 0); r += 1 + (!th && r == 1)) for (int im = 0; im <= (cls == 2 && d + D == 0); im++) {
        if (!th && p + q + P + Q > 4) continue;
        spec_t sp = {cls, p, d, q, P, D, Q, cls ? 4 : 0, r, im, 60}; 
        for (int m = 0; m < 4; m++) { if (m == 3 && (cls == 2 || p + q + P + Q == 0)) continue; if (mc_case("summary %s method %d", spec_str(&sp), m)) for (int k = 0; k < (th ? 4 : 1); k++) sumcase(sp, KS[th ? k : (p + q + P + Q) % 4], m, 5, 0); }
    }
    for (int cls = 0; cls < 3; cls++) if (mc_case("summary optimisers class %d", cls)) for (int o = 0; o < 8; o++) for (int m = 0; m < 3; m++) { spec_t sp = {cls, 1, 0, 1, 0, 0, 0, cls ? 4 : 0, cls == 2, cls == 2, 60}; sumcase(sp, K_ARMA, m, o, 0); }
    for (int cls = 0; cls < 3; cls++) if (mc_case("summary failures class %d", cls)) for (int fl = 1; fl <= 2; fl++) for (int m = 0; m < 2; m++) { if (fl == 2 && cls < 2) continue; spec_t sp = {cls, 1, 0, 1, 0, 0, 0, cls ? 4 : 0, cls == 2 ? 2 : 0, cls == 2, 60}; sumcase(sp, K_ARMA, m, 5, fl); }
    for (int which = 0; which < 2; which++) for (int p = 0; p <= 2; p++) for (int q = 0; q <= 2; q++) for (int P = 0; P <= 1; P++) for (int Q = 0; Q <= 1; Q++) for (int d = 0; d <= 1; d++) for (int D = 0; D <= 1; D++) for (int dr = 0; dr <= 1; dr++) for (int me = 0; me <= 1; me++) { if (dr && d + D != 1) continue; if (me && d + D) continue; if (!th && p + q + P + Q > 3) continue;
        if (mc_case("%s (%d,%d,%d)(%d,%d,%d) drift %d mean %d", which ? "myarima" : "wrapper", p, d, q, P, D, Q, dr, me)) for (int r = 0; r <= 2; r++) wrapcase(which, p ? K_ARMA : K_MA1, p, d, q, P, D, Q, dr, me, r); }
    for (int k = 0; k < 7; k++) for (int tr = 0; tr < 2; tr++) for (int se = 0; se < 2; se++) for (int r = 0; r < 3; r++) if (mc_case("automatic %s trend %d seasonal %d r %d", kname[KD[k]], tr, se, r)) for (int sw = 0; sw < 2; sw++) for (int ap = 0; ap < 2; ap++) { if (!th && se && !sw) continue; autocase(KD[k], tr, se, r, sw, ap, -1); if (th) for (int m = 0; m < 3; m++) autocase(KD[k], tr, se, r, sw, ap, m); }
    for (int k = 0; k < NKIND; k++) for (int m = 0; m < 3; m++) if (mc_case("ar summary %s method %d", kname[k], m)) for (int N = 20; N <= 80; N += 30) arcase(k, m, N);
    for (int N = 6; N <= 60; N += 6) if (mc_case("regression summaries N=%d", N)) { for (int r = 0; r <= 3; r++) for (int ic = 0; ic < 2; ic++) { if (!r && !ic) continue; static const double AL[] = {0.05, 0.1, 0.01}; for (int a = 0; a < 3; a++) regcase(N, r, ic, AL[a]); } listcase(N); }
}
