/* C06: model objects behave the same whatever calls preceded.  Explicit-state reachability: the state is the byte image of
 * the real object (restored in place) plus the specification's settings; every operation of the alphabet is applied to every
 * reachable state until no new state appears, so the verdict covers call histories of any length over the alphabet. */
#include "arima.h"
#include <malloc.h>
#include <stddef.h>
#include "regression.h"
#include "wavelib.h"
const char *mc_property = "C06";
enum { ARIMA, SARIMA, SARIMAX, AR, AUTO };
#define NSET 12
enum { S_METHOD, S_OPT, S_CSSML, S_START, S_APPROX, S_STEP, S_STAT, S_SEAS, S_TEST, S_STEST, S_MEAN, S_DRIFT };
static const char *sname[NSET] = {"method", "optimiser", "cssml", "params", "approximation", "stepwise", "stationary", "seasonal", "test", "seasonal test", "mean", "drift"};
static int cls, armeth; static spec_t sp; static int pdq[3], PDQ[3];
enum { MAXN = 64, NSER = 3, L = 3 };
static double X[NSER][MAXN], X0[NSER][MAXN], Z[3 * MAXN], Z0[3 * MAXN], NZ[3 * L], NZ0[3 * L];
static void *mk(void) {
    switch (cls) {
    case ARIMA: return arima_init(sp.p, sp.d, sp.q, sp.N);
    case SARIMA: return sarima_init(sp.p, sp.d, sp.q, sp.s, sp.P, sp.D, sp.Q, sp.N);
    case SARIMAX: return sarimax_init(sp.p, sp.d, sp.q, sp.P, sp.D, sp.Q, sp.s, sp.r, sp.imean, sp.N);
    case AR: return ar_init(armeth, sp.N);
    default: return auto_arima_init(pdq, PDQ, sp.s, sp.r, sp.N);
    }
}
static void del(void *o) { switch (cls) { case ARIMA: arima_free(o); break; case SARIMA: sarima_free(o); break; case SARIMAX: sarimax_free(o); break; case AR: ar_free(o); break; default: auto_arima_free(o); } }
static void exec_(void *o, int k) { double *x = X[k]; switch (cls) { case ARIMA: arima_exec(o, x); break; case SARIMA: sarima_exec(o, x); break; case SARIMAX: sarimax_exec(o, x, sp.r ? Z : NULL); break; case AR: ar_exec(o, x); break; default: auto_arima_exec(o, x, sp.r ? Z : NULL); } mc_ops(1); }
static void pred_(void *o, int k, double *f, double *m) { double *x = X[k]; switch (cls) { case ARIMA: arima_predict(o, x, L, f, m); break; case SARIMA: sarima_predict(o, x, L, f, m); break; case SARIMAX: sarimax_predict(o, x, sp.r ? Z : NULL, L, sp.r ? NZ : NULL, f, m); break; case AR: ar_predict(o, x, L, f, m); break; default: auto_arima_predict(o, x, sp.r ? Z : NULL, L, sp.r ? NZ : NULL, f, m); } mc_ops(1); }
static void summ_(void *o) { switch (cls) { case ARIMA: arima_summary(o); break; case SARIMA: sarima_summary(o); break; case SARIMAX: sarimax_summary(o); break; case AR: ar_summary(o); break; default: auto_arima_summary(o); } }
static const double START[3][8] = {{0.3, -0.2, 0.1, 0.15}, {-0.4, 0.25, -0.3, 0.2}, {0, 0, 0, 0}};
static struct { const char *t; double a; const char *y; } TEST[4] = {{"kpss", 0.05, "level"}, {"adf", 0.05, "level"}, {"pp", 0.03, "trend"}, {"df", 0.08, "level"}};
static struct { const char *t; double a; } STEST[3] = {{"seas", 0.05}, {"ocsb", 0.05}, {"seas", 0.03}};
static int valid(int i, int v) { switch (i) { case S_METHOD: return v >= 0 && v <= 2; case S_OPT: return v >= 0 && v <= 7; case S_START: return 1; case S_TEST: case S_STEST: return 1; default: return v == 0 || v == 1; } }
static void set_(void *o, int i, int v) {
    mc_ops(1);
    switch (i) {
    case S_METHOD: if (cls == ARIMA) arima_setMethod(o, v); else if (cls == SARIMA) sarima_setMethod(o, v); else if (cls == SARIMAX) sarimax_setMethod(o, v); else auto_arima_setMethod(o, v); break;
    case S_OPT: if (cls == ARIMA) arima_setOptMethod(o, v); else if (cls == SARIMA) sarima_setOptMethod(o, v); else if (cls == SARIMAX) sarimax_setOptMethod(o, v); else auto_arima_setOptMethod(o, v); break;
    case S_CSSML: if (cls == ARIMA) arima_setCSSML(o, v); else sarima_setCSSML(o, v); break;
    case S_START: { double c[8]; memcpy(c, START[v - 1], sizeof c); double *q = c + sp.p, *P = q + sp.q, *Q = P + sp.P; if (v == 3) sarimax_setParams(o, NULL, NULL, NULL, NULL); else sarimax_setParams(o, c, q, P, Q); } break;
    case S_APPROX: auto_arima_setApproximation(o, v); break; case S_STEP: auto_arima_setStepwise(o, v); break; case S_STAT: auto_arima_setStationary(o, v); break; case S_SEAS: auto_arima_setSeasonal(o, v); break;
    case S_TEST: auto_arima_setStationarityParameters(o, TEST[v].t, TEST[v].a, TEST[v].y); break; case S_STEST: auto_arima_setSeasonalParameters(o, STEST[v].t, STEST[v].a); break;
    case S_MEAN: auto_arima_allowMean(o, v); break; case S_DRIFT: auto_arima_allowDrift(o, v); break;
    }
}
/* the settings as the object reports them */
static int get_(void *o, int i) {
#define F(f) (cls == ARIMA ? ((arima_object)o)->f : cls == SARIMA ? ((sarima_object)o)->f : cls == SARIMAX ? ((sarimax_object)o)->f : ((auto_arima_object)o)->f)
    auto_arima_object a = o;
    switch (i) {
    case S_METHOD: return F(method); case S_OPT: return F(optmethod); case S_CSSML: return cls == ARIMA ? ((arima_object)o)->cssml : ((sarima_object)o)->cssml;
    case S_START: return -1;
    case S_APPROX: return a->approximation; case S_STEP: return a->stepwise; case S_STAT: return a->stationary; case S_SEAS: return a->seasonal; case S_MEAN: return a->imean; case S_DRIFT: return a->allowdrift;
    case S_TEST: for (int v = 0; v < 4; v++) if (!strcmp(a->test, TEST[v].t) && a->alpha_test == TEST[v].a && !strcmp(a->type, TEST[v].y)) return v; return -2;
    default: for (int v = 0; v < 3; v++) if (!strcmp(a->seas, STEST[v].t) && a->alpha_seas == STEST[v].a) return v; return -2;
    }
}
static int hasset(int i) { return cls == AR ? 0 : cls == AUTO ? i != S_CSSML && i != S_START : cls == SARIMAX ? i == S_METHOD || i == S_OPT || i == S_START : i <= S_CSSML; }
/* every reported result field, plus the fixed configuration */
static int report_(void *o, double *b, int results) {
    int n = 0;
#define P(v) (b[n++] = (v))
#define V(p, k) do { memcpy(b + n, p, sizeof(double) * (k)); n += (k); } while (0)
    if (cls == AR) {
        ar_object a = o; P(a->N); P(a->method); P(a->optmethod); P(a->ordermax); P(a->retval); if (!results || a->retval != 1) return n;
        P(a->p); P(a->order); P(a->mean); P(a->var); P(a->aic); V(a->phi, a->p); V(a->res, a->N); return n;
    }
#define COMMON(a) P(a->N); P(a->method); P(a->optmethod); P(a->retval); if (cls != AUTO) { P(a->p); P(a->d); P(a->q); P(a->Nused); P(a->M); P(a->ncoeff); P(a->lvcov); } if (!results || a->retval != 1) return n; P(a->p); P(a->d); P(a->q); P(a->Nused); P(a->M); P(a->ncoeff); P(a->lvcov); P(a->mean); P(a->var); P(a->loglik); V(a->phi, a->p); V(a->theta, a->q); V(a->res, a->Nused); V(a->vcov, a->lvcov);
    if (cls == ARIMA) { arima_object a = o; P(a->cssml); COMMON(a) P(a->aic); }
    else if (cls == SARIMA) { sarima_object a = o; P(a->cssml); P(a->s); P(a->P); P(a->D); P(a->Q); COMMON(a) P(a->aic); V(a->PHI, a->P); V(a->THETA, a->Q); }
    else if (cls == SARIMAX) { sarimax_object a = o; P(a->s); P(a->P); P(a->D); P(a->Q); P(a->r); P(a->imean); COMMON(a) P(a->aic); V(a->PHI, a->P); V(a->THETA, a->Q); V(a->exog, a->M); }
    else { auto_arima_object a = o; P(a->s); P(a->r); P(a->pmax); P(a->dmax); P(a->qmax); P(a->Pmax); P(a->Dmax); P(a->Qmax); P(a->Order_max); P(a->num_models); P(a->imean); P(a->allowdrift); P(a->stationary); P(a->seasonal); P(a->stepwise); P(a->approximation); P(a->p_start); P(a->q_start); P(a->P_start); P(a->Q_start); P(a->alpha_test); P(a->alpha_seas);
        P(mc_hash(mc_hash(mc_hash(mc_hash(1, a->test, strlen(a->test)), a->seas, strlen(a->seas)), a->type, strlen(a->type)), a->information_criteria, strlen(a->information_criteria)) >> 20);
        COMMON(a) P(a->P); P(a->D); P(a->Q); P(a->idrift); P(a->aic); P(a->bic); P(a->aicc); P(a->sigma2); V(a->PHI, a->P); V(a->THETA, a->Q); V(a->exog, a->M); }
    return n;
}
/* one NaN is as good as another */
static void canon(double *b, int n) { for (int i = 0; i < n; i++) if (b[i] != b[i]) b[i] = NAN; }
static int report(void *o, double *b, int results) { int n = report_(o, b, results); canon(b, n); return n; }
static int retval_(void *o) { return cls == AR ? ((ar_object)o)->retval : F(retval); }
typedef struct { int v[NSET]; int ser; double *rep; int n; double f[NSER][L], m[NSER][L]; } oracle_t;
static oracle_t *OR; static int nor, defv[NSET];
static oracle_t *oracle(const int *v, int ser) {
    for (int i = 0; i < nor; i++) if (OR[i].ser == ser && !memcmp(OR[i].v, v, sizeof OR[i].v)) return &OR[i];
    OR = realloc(OR, sizeof(oracle_t) * (nor + 1)); oracle_t *r = &OR[nor++]; memcpy(r->v, v, sizeof r->v); r->ser = ser;
    for (int pass = 0; pass < 2; pass++) {           /* fresh memory filled with two different patterns */
        mallopt(M_PERTURB, pass ? 0x5a : 0xa5); void *o = mk(); for (int i = 0; i < NSET; i++) if (hasset(i) && v[i] != defv[i]) set_(o, i, v[i]); exec_(o, ser);
        double b[4096]; memset(b, 0, sizeof b); int n = report(o, b, 1); double f[NSER][L], m[NSER][L]; memset(f, 0, sizeof f); memset(m, 0, sizeof m); if (retval_(o) == 1) for (int k = 0; k < 2; k++) { pred_(o, k, f[k], m[k]); canon(f[k], L); canon(m[k], L); }
        if (!pass) { r->rep = malloc(sizeof b); memcpy(r->rep, b, sizeof b); r->n = n; memcpy(r->f, f, sizeof f); memcpy(r->m, m, sizeof m); }
        else { MC_CHECK(n == r->n && !memcmp(b, r->rep, sizeof(double) * n), "uninitialised", "two fresh objects with the same settings and data (series %d) report different results", ser); MC_CHECK(!memcmp(f, r->f, sizeof f) && !memcmp(m, r->m, sizeof m), "uninitialised forecasts", "two fresh objects with the same settings and data forecast differently (series %d)", ser); }
        del(o);
    }
    mallopt(M_PERTURB, 0x33); mc_state(mc_hash(0, r->rep, sizeof(double) * r->n)); mc_count(r->rep[cls == AR ? 4 : 0] == 0 ? "oracle" : "oracle", 1); return r;
}
/* alphabet */
typedef struct { int kind, a, b; } op_t; enum { O_SET, O_EXEC, O_PRED, O_VCOV, O_SUM, O_OTHER };
static op_t ops[64]; static int nops;
static const char *opname(op_t p) { static char b[64]; if (p.kind == O_SET) sprintf(b, "set %s=%d", sname[p.a], p.b); else sprintf(b, "%s %d", p.kind == O_EXEC ? "exec" : p.kind == O_PRED ? "predict" : p.kind == O_VCOV ? "vcov" : p.kind == O_SUM ? "summary" : "other object", p.a); return b; }
typedef struct { unsigned char *img; int v[NSET], ser, par; op_t via; int fv[NSET]; } state_t;
static state_t *ST; static int nst, hcap; static int *htab;
static size_t bsz; static void *O;
static const char *path(int s) { static char b[1000]; int st[64], n = 0; while (s > 0 && n < 60) { st[n++] = s; s = ST[s].par; } b[0] = 0; while (n--) { strncat(b, opname(ST[st[n]].via), 60); strcat(b, n ? "; " : ""); if (strlen(b) > 900) break; } return b; }
static int add(const int *v, int ser, const int *fv, int par, op_t via) {
    uint64_t h = mc_hash(mc_hash(mc_hash(7, O, bsz), v, sizeof(int) * NSET), &ser, sizeof ser); h = mc_hash(h, fv, sizeof(int) * NSET);
    if ((nst + 1) * 2 > hcap) { hcap = hcap ? hcap * 2 : 4096; htab = realloc(htab, sizeof(int) * hcap * 3); int *t = htab; for (int i = 0; i < hcap; i++) t[i] = -1; uint64_t *hs = (uint64_t *)(htab + hcap); (void)hs;
        for (int i = 0; i < nst; i++) { uint64_t g = mc_hash(mc_hash(mc_hash(7, ST[i].img, bsz), ST[i].v, sizeof(int) * NSET), &ST[i].ser, sizeof(int)); g = mc_hash(g, ST[i].fv, sizeof(int) * NSET); int j = g & (hcap - 1); while (t[j] >= 0) j = (j + 1) & (hcap - 1); t[j] = i; } }
    int j = h & (hcap - 1);
    while (htab[j] >= 0) { state_t *s = &ST[htab[j]]; if (s->ser == ser && !memcmp(s->v, v, sizeof s->v) && !memcmp(s->fv, fv, sizeof s->fv) && !memcmp(s->img, O, bsz)) return 0; j = (j + 1) & (hcap - 1); }
    htab[j] = nst; ST = realloc(ST, sizeof(state_t) * (nst + 1)); state_t *s = &ST[nst++]; s->img = malloc(bsz); memcpy(s->img, O, bsz); memcpy(s->v, v, sizeof s->v); memcpy(s->fv, fv, sizeof s->fv); s->ser = ser; s->par = par; s->via = via; return 1;
}
static void inputs(int s, op_t p) { if (memcmp(X, X0, sizeof X) || memcmp(Z, Z0, sizeof Z) || memcmp(NZ, NZ0, sizeof NZ)) { mc_fail("inputs modified", "%s modified the caller's arrays after [%s]", opname(p), path(s)); memcpy(X, X0, sizeof X); memcpy(Z, Z0, sizeof Z); memcpy(NZ, NZ0, sizeof NZ); } }
static void other(void) {
    double y[30], f[4], m[4]; for (int i = 0; i < 30; i++) y[i] = 50 + 3 * sin(i * 1.3) + i % 5; static double z[60]; for (int i = 0; i < 60; i++) z[i] = cos(i);
    arima_object a = arima_init(2, 0, 1, 30); arima_setOptMethod(a, 6); arima_exec(a, y); arima_predict(a, y, 4, f, m); arima_summary(a); arima_free(a);
    sarimax_object b = sarimax_init(1, 1, 0, 0, 0, 1, 3, 1, 1, 30); sarimax_setMethod(b, 2); sarimax_exec(b, y, z); sarimax_predict(b, y, z, 4, z + 30, f, m); sarimax_free(b);
    ar_object c = ar_init(1, 30); ar_exec(c, y); ar_free(c); mc_ops(6);
}
static void explore(long cap) {
    memcpy(X0, X, sizeof X); memcpy(Z0, Z, sizeof Z); memcpy(NZ0, NZ, sizeof NZ);
    mallopt(M_PERTURB, 0x33); O = mk(); bsz = malloc_usable_size(O); memset(defv, 0, sizeof defv); for (int i = 0; i < NSET; i++) if (hasset(i)) defv[i] = i == S_START ? 0 : get_(O, i);
    int v[NSET], fv[NSET]; memcpy(v, defv, sizeof v); memset(fv, 0, sizeof fv); add(v, -1, fv, -1, (op_t){0, 0, 0}); long trans = 0;
    double *ra = malloc(sizeof(double) * 4096), *rb = malloc(sizeof(double) * 4096); unsigned char *before = malloc(bsz);
    int s; for (s = 0; s < nst && s < cap; s++) for (int k = 0; k < nops; k++) {
        state_t S = ST[s]; op_t p = ops[k]; memcpy(O, S.img, bsz); memcpy(before, O, bsz); memcpy(v, S.v, sizeof v); memcpy(fv, S.fv, sizeof fv); int ser = S.ser; trans++;
        int started = v[S_START] && ser < 0;
        switch (p.kind) {
        case O_SET:
            set_(O, p.a, p.b);
            if (!valid(p.a, p.b)) { MC_CHECK(!memcmp(O, before, bsz), "invalid setter", "%s changed the object after [%s]", opname(p), path(s)); }
            else {
                v[p.a] = p.b; for (int i = 0; i < NSET; i++) if (hasset(i) && i != S_START) MC_CHECK(get_(O, i) == v[i], "setter", "after [%s; %s] the object's %s is %d, expected %d", path(s), opname(p), sname[i], get_(O, i), v[i]);
                if (p.a == S_START) { sarimax_object a = O; const double *c = START[p.b - 1]; int ok = 1; for (int i = 0; i < sp.p; i++) ok &= a->phi[i] == c[i]; for (int i = 0; i < sp.q; i++) ok &= a->theta[i] == c[sp.p + i]; for (int i = 0; i < sp.P; i++) ok &= a->PHI[i] == c[sp.p + sp.q + i]; for (int i = 0; i < sp.Q; i++) ok &= a->THETA[i] == c[sp.p + sp.q + sp.P + i]; MC_CHECK(ok, "setter", "starting values not stored after [%s; %s]", path(s), opname(p)); ser = -1; memset(fv, 0, sizeof fv); /* coefficients no longer those of a fit */ }
                else { /* nothing but the named field changed */
                    void *cur = malloc(bsz); memcpy(cur, O, bsz); int nd = 0; for (size_t i = 0; i < bsz; i++) nd += before[i] != ((unsigned char *)cur)[i]; int lim = p.a == S_TEST || p.a == S_STEST ? 28 : 4; MC_CHECK(nd <= lim, "setter", "%s changed %d bytes of the object after [%s]", opname(p), nd, path(s)); free(cur);
                    void *t = malloc(bsz); memcpy(t, O, bsz); memcpy(O, before, bsz); int na = report(O, ra, 1); memcpy(O, t, bsz); int nb = report(O, rb, 1); int df = 0; if (na == nb) for (int i = 0; i < na; i++) df += memcmp(&ra[i], &rb[i], 8) != 0; MC_CHECK(na == nb && df <= (p.a == S_TEST || p.a == S_STEST ? 2 : 1), "setter", "%s changed %d reported fields after [%s]", opname(p), df, path(s)); free(t);
                }
            }
            break;
        case O_EXEC: {
            exec_(O, p.a); oracle_t *r = oracle(v, p.a); int n = report(O, ra, 1);
            int bad = n != r->n; int at = -1; if (!bad) for (int i = 0; i < n; i++) if (memcmp(&ra[i], &r->rep[i], 8)) { bad = 1; at = i; break; }
            MC_CHECK(!bad, "history", "after [%s] %s reports field %d = %.17g, a fresh object with the same settings %.17g", path(s), opname(p), at, at >= 0 ? ra[at] : n, at >= 0 ? r->rep[at] : r->n);
            ser = p.a; memcpy(fv, v, sizeof fv);
        } break;
        case O_PRED: {
            double f[L], m[L]; pred_(O, p.a, f, m); canon(f, L); canon(m, L); MC_CHECK(!memcmp(O, before, bsz), "predict modifies", "%s changed the object after [%s]", opname(p), path(s));
            if (ser >= 0 && retval_(O) == 1) { oracle_t *r = oracle(fv, ser); MC_CHECK(!memcmp(f, r->f[p.a], sizeof f) && !memcmp(m, r->m[p.a], sizeof m), "predict history", "after [%s] %s gives %.17g (mse %.17g), a fresh object %.17g (%.17g)", path(s), opname(p), f[0], m[0], r->f[p.a][0], r->m[p.a][0]); }
        } break;
        case O_VCOV: {
            double b[1024]; int lv; double *vc; if (cls == ARIMA) { arima_object a = O; lv = a->lvcov; vc = a->vcov; arima_vcov(a, b); } else if (cls == SARIMA) { sarima_object a = O; lv = a->lvcov; vc = a->vcov; sarima_vcov(a, b); } else { sarimax_object a = O; lv = a->lvcov; vc = a->vcov; sarimax_vcov(a, b); }
            MC_CHECK(!memcmp(b, vc, sizeof(double) * lv), "vcov", "covariance differs from the object's after [%s]", path(s)); MC_CHECK(!memcmp(O, before, bsz), "vcov modifies", "vcov changed the object after [%s]", path(s)); mc_ops(1);
        } break;
        case O_SUM: if (ser >= 0 || cls != AUTO) { summ_(O); mc_ops(1); MC_CHECK(!memcmp(O, before, bsz), "summary modifies", "summary changed the object after [%s]", path(s)); } break;
        default: other(); MC_CHECK(!memcmp(O, before, bsz), "interference", "using other objects changed this one after [%s]", path(s));
        }
        (void)started; inputs(s, p); add(v, ser, fv, s, p); if (!mc_ok()) goto out;
    }
    mc_count(s >= nst ? "object configurations explored to closure" : "object configurations stopped at the state cap", 1);
out:
    mc_count("object states", nst); mc_count("object transitions", trans); mc_max("largest state space", nst);
    for (int i = 0; i < nst; i++) { mc_state(mc_hash(3, ST[i].v, sizeof ST[i].v) ^ mc_hash(9, ST[i].fv, sizeof ST[i].fv) ^ ST[i].ser); free(ST[i].img); } free(ST); ST = NULL; nst = 0; free(htab); htab = NULL; hcap = 0; for (int i = 0; i < nor; i++) free(OR[i].rep); free(OR); OR = NULL; nor = 0; free(ra); free(rb); free(before); del(O);
}
static void data(int d) {
    for (int k = 0; k < NSER; k++) series(k == 0 ? K_ARMA : k == 1 ? K_SEAS : K_TREND, 3 + k + d, sp.N, X[k]); for (int i = 0; i < sp.N; i++) { X[1][i] = 1000 + 40 * X[1][i]; X[2][i] = 7; }
    regressors(3, sp.N, 0, Z); regressors(3, L, sp.N, NZ);
}
static void base(int extra) { nops = 0; for (int k = 0; k < 2; k++) ops[nops++] = (op_t){O_EXEC, k, 0}; if (extra) ops[nops++] = (op_t){O_EXEC, 2, 0}; for (int k = 0; k < 2; k++) ops[nops++] = (op_t){O_PRED, k, 0}; if (cls <= SARIMAX) ops[nops++] = (op_t){O_VCOV, 0, 0}; ops[nops++] = (op_t){O_SUM, 0, 0}; ops[nops++] = (op_t){O_OTHER, 0, 0}; }
static void setop(int i, int v) { ops[nops++] = (op_t){O_SET, i, v}; }
/* ---- regression and wavelet objects: complete histories to a depth, each replayed from scratch ---- */
static void reghist(int ic, int depth) {
    enum { N = 14, NO = 9 }; static const char *ME[3] = {"qr", "normal", "svd"}; static const char *on[NO] = {"qr", "normal", "svd", "regress A", "regress B", "fitted", "summary", "anova", "confint"};
    double x[2 * N], ya[2][N]; for (int i = 0; i < N; i++) { x[i] = i % 4 - 1.0; x[N + i] = sin(i * 0.8); ya[0][i] = 2 + x[i] + 0.3 * cos(2.0 * i); ya[1][i] = 50 - x[N + i] * 4 + (i % 3); }
    double *orr = calloc(3 * 2 * 80, sizeof(double)); long total = 1; for (int i = 0; i < depth; i++) total *= NO;
#define REGREP(b) do { int n_ = 0; b[n_++] = o->sigma; b[n_++] = o->r2; b[n_++] = o->r2adj; b[n_++] = o->TSS; b[n_++] = o->ESS; b[n_++] = o->RSS; b[n_++] = o->FStat; b[n_++] = o->PVal; b[n_++] = o->loglik; b[n_++] = o->aic; b[n_++] = o->bic; b[n_++] = o->aicc; b[n_++] = o->df; b[n_++] = o->rank; b[n_++] = o->sigma_lower; b[n_++] = o->sigma_upper; for (int j = 0; j < 3; j++) { b[n_++] = o->beta[j].value; b[n_++] = o->beta[j].lower; b[n_++] = o->beta[j].upper; b[n_++] = o->beta[j].stdErr; } memcpy(b + n_, res, sizeof res); n_ += N; memcpy(b + n_, vc, sizeof vc); } while (0)
    {
        double b[80];
        for (int m = 0; m < 3; m++) for (int k = 0; k < 2; k++) { double res[N], vc[9]; memset(vc, 0, sizeof vc); reg_object o = reg_init(N, 2 + ic); memset(&o->beta[2 + ic - 1] + (ic ? 1 : 1), 0, 0); setIntercept(o, ic); setLLSMethod(o, (char *)ME[m]); regress(o, x, ya[k], res, vc, 0.05); memset(b, 0, sizeof b); REGREP(b); if (!ic) memset(b + 24, 0, sizeof(double) * 4); memcpy(orr + (m * 2 + k) * 80, b, sizeof b); free_reg(o); }
        for (long c = 0; c < total; c++) {
            double res[N], vc[9]; memset(vc, 0, sizeof vc); memset(res, 0, sizeof res); reg_object o = reg_init(N, 2 + ic); setIntercept(o, ic); int m = 0, last = -1, lm = 0; long cc = c; char h[200] = "";
            for (int i = 0; i < depth && mc_ok(); i++, cc /= NO) {
                int op = cc % NO; strcat(h, on[op]); strcat(h, "; "); mc_ops(1); double in[2] = {0.7, -0.4}, var[2];
                if (op < 3) { setLLSMethod(o, (char *)ME[op]); m = op; } else if (op < 5) { regress(o, x, ya[op - 3], res, vc, 0.05); last = op - 3; lm = m; }
                else if (last >= 0) { if (op == 5) fitted(o, in, vc, var); else if (op == 6) summary(o); else if (op == 7) anova(o); else confint(o); }
                if (last >= 0) { memset(b, 0, sizeof b); REGREP(b); if (!ic) memset(b + 24, 0, sizeof(double) * 4); MC_CHECK(!memcmp(b, orr + (lm * 2 + last) * 80, sizeof b), "regression history", "intercept=%d after [%s] the results differ from a fresh object's", ic, h); }
            }
            free_reg(o); if (!mc_ok()) break;
        }
    }
    free(orr); mc_count("regression histories", total);
}
static void wthist(const char *wn, const char *meth, int N, int J, int depth) {
    int st = !strcmp(meth, "dwt") ? 0 : !strcmp(meth, "swt") ? 1 : 2; enum { NO = 8 }; static const char *on[NO] = {"sym", "per", "direct", "fft", "forward A", "forward B", "inverse", "summary"};
    double A[2][64], b[64], b0[64]; for (int i = 0; i < N; i++) { A[0][i] = sin(i * 0.7) + i % 3; A[1][i] = 10 * cos(i * i * 0.3); }
    static double out[2][2][2][1024], inv[2][2][2][64]; static int len[2][2][2]; long total = 1; for (int i = 0; i < depth; i++) total *= NO;
    int next = st == 0 ? 2 : 1;
#define FWD(w, x) (st == 0 ? dwt(w, x) : st == 1 ? swt(w, x) : modwt(w, x))
#define INV(w, x) (st == 0 ? idwt(w, x) : st == 1 ? iswt(w, x) : imodwt(w, x))
    for (int e = 0; e < next; e++) for (int f = 0; f < (st == 2 ? 1 : 2); f++) for (int k = 0; k < 2; k++) { wave_object wv = wave_init(wn); wt_object w = wt_init(wv, meth, N, J); if (st == 0) setDWTExtension(w, e ? "per" : "sym"); setWTConv(w, f ? "fft" : "direct"); FWD(w, A[k]); len[e][f][k] = w->outlength; memcpy(out[e][f][k], w->output, sizeof(double) * w->outlength); INV(w, inv[e][f][k]); wt_free(w); wave_free(wv); }
    for (long c = 0; c < total; c++) {
        wave_object wv = wave_init(wn); wt_object w = wt_init(wv, meth, N, J); int e = st == 0 ? !strcmp(w->ext, "per") : 0, f = strcmp(w->cmethod, "direct") != 0, fe = -1, ff = 0, fk = 0; if (st == 2) f = 0; long cc = c; char h[300] = "";
        for (int i = 0; i < depth && mc_ok(); i++, cc /= NO) {
            int op = cc % NO; strcat(h, on[op]); strcat(h, "; "); mc_ops(1);
            if (op < 2) { if (st == 0) { setDWTExtension(w, op ? "per" : "sym"); e = op; } }
            else if (op < 4) { if (st < 2) { setWTConv(w, op == 3 ? "fft" : "direct"); f = op == 3; } }
            else if (op < 6) { memcpy(b0, A[op - 4], sizeof(double) * N); memcpy(b, b0, sizeof(double) * N); FWD(w, b); MC_CHECK(!memcmp(b, b0, sizeof(double) * N), "inputs modified", "transform input modified after [%s]", h); fe = e; ff = f; fk = op - 4; MC_CHECK(w->outlength == len[e][f][fk] && !memcmp(w->output, out[e][f][fk], sizeof(double) * w->outlength), "wavelet history", "%s %s N=%d J=%d: after [%s] the coefficients differ from a fresh object's", meth, wn, N, J, h); }
            else if (op == 6) { if (fe == e && ff == f && fe >= 0) { INV(w, b); MC_CHECK(!memcmp(b, inv[fe][ff][fk], sizeof(double) * N), "wavelet history", "%s %s N=%d J=%d: after [%s] the reconstruction differs from a fresh object's", meth, wn, N, J, h); MC_CHECK(!memcmp(w->output, out[fe][ff][fk], sizeof(double) * w->outlength), "wavelet history", "%s: inverse changed the coefficients after [%s]", meth, h); } }
            else { wt_summary(w); }
        }
        wt_free(w); wave_free(wv); if (!mc_ok()) break;
    }
    mc_count("wavelet histories", total);
}
void mc_enumerate(void) {
    int th = mc_thorough; mc_case_limit = th ? 600 : 300; long cap = th ? 60000 : 12000;
    static const int OPTQ[3] = {5, 6, 2};
    /* the three model classes: orders x the whole settings alphabet */
    static const spec_t SP[] = {
        {0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 24}, {0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 24}, {0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 20}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 20}, {0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 22}, {0, 0, 2, 1, 0, 0, 0, 0, 0, 0, 22},
        {1, 1, 0, 0, 0, 0, 1, 3, 0, 0, 24}, {1, 0, 1, 1, 1, 0, 0, 4, 0, 0, 28}, {1, 0, 0, 0, 1, 1, 0, 3, 0, 0, 24}, {1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 22},
        {2, 1, 0, 1, 0, 0, 0, 0, 0, 1, 22}, {2, 1, 0, 0, 0, 0, 0, 0, 2, 1, 24}, {2, 0, 1, 1, 0, 0, 0, 0, 1, 0, 22}, {2, 1, 0, 0, 0, 0, 1, 4, 0, 0, 24}, {2, 0, 0, 1, 1, 1, 0, 3, 1, 0, 26}, {2, 2, 0, 0, 0, 0, 0, 0, 0, 1, 20}};
    for (unsigned c = 0; c < sizeof SP / sizeof *SP; c++) for (int om = 0; om < (th ? 3 : 1); om++) {
        if (!mc_case("object %s optimisers%d", spec_str(&SP[c]), om)) continue;
        sp = SP[c]; cls = sp.cls; data(0); base(0); for (int m = -1; m <= 3; m++) setop(S_METHOD, m); setop(S_OPT, -1); setop(S_OPT, 8); for (int i = 0; i < (th || (SP[c].s == 0 && SP[c].r == 0) ? 3 : 2); i++) setop(S_OPT, om == 0 ? OPTQ[i] : om == 1 ? i == 0 ? 0 : i == 1 ? 4 : 7 : i == 0 ? 1 : i == 1 ? 3 : 5);
        if (cls < SARIMAX) for (int i = 0; i < 2; i++) setop(S_CSSML, i); else for (int i = 1; i <= 3; i++) setop(S_START, i);
        explore(cap);
    }
    /* a failing execution (constant series) in the history */
    for (unsigned c = 0; c < sizeof SP / sizeof *SP; c++) { if (!mc_case("failing history %s", spec_str(&SP[c]))) continue; sp = SP[c]; cls = sp.cls; data(0); base(1); for (int m = 0; m <= 1 + (cls == SARIMAX); m++) setop(S_METHOD, m); if (cls == SARIMAX) setop(S_START, 1); explore(cap); }
    for (int m = 0; m <= 2; m++) for (int N = 12; N <= (th ? 60 : 24); N += 12) { if (!mc_case("ar object method %d N%d", m, N)) continue; memset(&sp, 0, sizeof sp); sp.N = N; cls = AR; armeth = m; data(m); base(0); explore(cap); }
    /* automatic models: every pair of settings with the whole operation alphabet */
    static const int auset[] = {S_METHOD, S_OPT, S_APPROX, S_STEP, S_STAT, S_SEAS, S_TEST, S_STEST, S_MEAN, S_DRIFT};
    for (int s = 0; s <= 4; s += 4) for (int r = 0; r <= 1; r++) for (int i = 0; i < 10; i++) for (int j = i + 1; j < 10; j++) {
        if ((s == 4) != (r == 1)) continue; if (!s && (auset[i] == S_SEAS || auset[j] == S_SEAS || auset[i] == S_STEST || auset[j] == S_STEST)) continue; if (!th && s == 4 && (j != i + 1 || (i != 4 && i != 8))) continue;
        if (!mc_case("automatic s%d r%d settings %s, %s", s, r, sname[auset[i]], sname[auset[j]])) continue;
        memset(&sp, 0, sizeof sp); sp.N = s ? th ? 28 : 24 : th ? 24 : 20; sp.s = s; sp.r = r; cls = AUTO; pdq[0] = 1; pdq[1] = 1; pdq[2] = 1; PDQ[0] = 0; PDQ[1] = s ? 1 : 0; PDQ[2] = 0; data(i); for (int t = 0; t < sp.N; t++) X[1][t] = 100 + 3 * t + X[1][t] * 0.02; memcpy(X0, X, sizeof X); base(0);
        for (int h = 0; h < 2; h++) { int q = auset[h ? j : i]; if (q == S_METHOD) { for (int v = -1; v <= 3; v++) setop(q, v); } else if (q == S_OPT) { setop(q, -1); setop(q, 8); setop(q, 7); setop(q, 5); } else if (q == S_TEST) { for (int v = 0; v < 4; v++) setop(q, v); } else if (q == S_STEST) { for (int v = 0; v < 3; v++) setop(q, v); } else for (int v = -1; v <= 2; v++) setop(q, v); }
        explore(cap);
    }
    for (int ic = 0; ic < 2; ic++) if (mc_case("regression histories intercept%d", ic)) reghist(ic, th ? 5 : 4);
    static const char *WN[] = {"haar", "db3", "bior2.2", "sym4"};
    for (int w = 0; w < 4; w++) for (int me = 0; me < 3; me++) for (int J = 1; J <= 2; J++) if ((me < 2 || w != 2) && mc_case("wavelet histories %s method %d J%d", WN[w], me, J)) wthist(WN[w], me == 0 ? "dwt" : me == 1 ? "swt" : "modwt", me == 0 ? 23 : 24, J, th ? 6 : 5);
}
