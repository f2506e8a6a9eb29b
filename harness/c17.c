/* C17: wavelet transforms reconstruct perfectly for every wavelet, length, level, extension and method */
#include "mc.h"
#include "wavelib.h"
const char *mc_property = "C17";
static char W[160][12]; static int nW, orth_[160], modw[160];
static void names(void) {
    nW = 0;
#define ADD(o, m, ...) do { snprintf(W[nW], 12, __VA_ARGS__); orth_[nW] = o; modw[nW] = m; nW++; } while (0)
    ADD(1, 1, "haar"); for (int i = 1; i <= 38; i++) ADD(1, 1, "db%d", i); for (int i = 2; i <= 20; i++) ADD(1, 1, "sym%d", i); for (int i = 1; i <= 17; i++) ADD(1, 1, "coif%d", i);
    static const char *b[] = {"1.1", "1.3", "1.5", "2.2", "2.4", "2.6", "2.8", "3.1", "3.3", "3.5", "3.7", "3.9", "4.4", "5.5", "6.8"};
    for (int i = 0; i < 15; i++) { ADD(i == 0, 0, "bior%s", b[i]); ADD(i == 0, 0, "rbior%s", b[i]); }
    ADD(2, 0, "meyer");   /* FIR approximation: reconstruction only to the accuracy of the truncated filter */
}
static double ptol(int w) { return orth_[w] == 2 ? 2e-3 : 1e-9; }
static int vmom(int w) { const char *n = W[w]; if (!strcmp(n, "haar")) return 1; if (!strncmp(n, "db", 2)) return atoi(n + 2); if (!strncmp(n, "sym", 3)) return atoi(n + 3); if (!strncmp(n, "coif", 4)) return 2 * atoi(n + 4); return 1; }
/* reference single analysis step */
static int step_len(const char *ext, int N, int lf) { return !strcmp(ext, "per") ? (N + 1) / 2 : (N + lf - 1) / 2; }
static void ref_step(const char *ext, const double *x, int N, const double *h, int lf, double *o) {
    int m = step_len(ext, N, lf), P = N + N % 2;
    for (int i = 0; i < m; i++) {
        long double s = 0;
        for (int l = 0; l < lf; l++) {
            int k;
            if (!strcmp(ext, "per")) { k = (2 * i + lf / 2 - l) % P; if (k < 0) k += P; if (k == N) k = N - 1; }
            else { k = 2 * i + 1 - l; int c = 2 * N; k %= c; if (k < 0) k += c; if (k >= N) k = c - 1 - k; }
            s += (long double)h[l] * x[k];
        }
        o[i] = (double)s;
    }
}
static void data(int N, int k, double *x) {
    for (int i = 0; i < N; i++) x[i] = k == 0 ? ((i * 37 + 5) % 23) - 11 + 0.37 * sin(1.0 + i * i) : k == 1 ? 4 + 0.25 * i : k == 2 ? (i % 2 ? -1 : 3) : i == (k - 3);
}
static double vmax(const double *x, int n) { double m = 1e-300; for (int i = 0; i < n; i++) if (fabs(x[i]) > m) m = fabs(x[i]); return m; }
static double en(const double *x, int n) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * x[i]; return s; }

static void filters(int w) {
    wave_object o = wave_init(W[w]); int n = o->filtlength;
    const double *a = o->lpd, *b = o->hpd, *c = o->lpr, *d = o->hpr; double tol = ptol(w);
    mc_ops(1); mc_state_d(a, n > 8 ? 8 : n);
    MC_CHECK(n > 0 && n % 2 == 0, "length", "filter length %d", n);
    double s = 0, sr = 0, sh = 0; for (int i = 0; i < n; i++) { s += a[i]; sr += c[i]; sh += b[i]; }
    MC_CHECK(mc_close(s, sqrt(2), tol, 0) && mc_close(sr, sqrt(2), tol, 0), "dc_gain", "low-pass sums %.12g %.12g", s, sr);
    MC_CHECK(fabs(sh) < tol, "hp_dc", "high-pass sum %g", sh);
    /* two-channel perfect reconstruction: (lpd*lpr + hpd*hpr) = 2 z^-(n-1), alias term cancels */
    for (int k = 0; k < 2 * n - 1; k++) {
        long double p = 0, q = 0; for (int i = 0; i < n; i++) if (k - i >= 0 && k - i < n) { long double t = (long double)a[i] * c[k - i] + (long double)b[i] * d[k - i]; p += t; q += (i % 2 ? -1 : 1) * t; }
        MC_CHECK(fabsl(p - (k == n - 1 ? 2 : 0)) < 2 * tol, "pr", "distortion coefficient %d is %g", k, (double)p);
        MC_CHECK(fabsl(q) < 2 * tol, "alias", "alias coefficient %d is %g", k, (double)q); if (!mc_ok()) break;
    }
    if (orth_[w] == 1) for (int m = 0; m < n / 2; m++) {
        double r1 = 0, r2 = 0, r3 = 0; for (int i = 0; i + 2 * m < n; i++) { r1 += a[i] * a[i + 2 * m]; r2 += b[i] * b[i + 2 * m]; }
        for (int i = 0; i < n; i++) if (i + 2 * m < n) r3 += a[i] * b[i + 2 * m];
        MC_CHECK(mc_close(r1, m == 0, tol, 0) && mc_close(r2, m == 0, tol, 0) && fabs(r3) < tol, "orthogonal", "shift %d: %g %g %g", 2 * m, r1, r2, r3);
        mc_max("orth_err", fabs(r1 - (m == 0)));
    }
    int vm = vmom(w); if (vm > 6) vm = 6;
    for (int p = 1; p < vm; p++) { double t = 0, sc = 0; for (int i = 0; i < n; i++) { double u = pow((double)i / n, p) * b[i]; t += u; sc += fabs(u); } MC_CHECK(fabs(t) < 1e-6 * (sc + 1), "moments", "moment %d of the high-pass is %g", p, t); }
    wave_free(o);
}
static int minlen_per(int N, int J) { while (J--) N = (N + 1) / 2; return N; }
static void do_dwt(int w, int N, int J, const char *ext, int ninp) {
    wave_object o = wave_init(W[w]); int lf = o->filtlength; double *x = mc_buf(N), *y = mc_buf(N), *xc = malloc(8 * N);
    wt_object t[2]; for (int m = 0; m < 2; m++) { t[m] = wt_init(o, "dwt", N, J); setDWTExtension(t[m], ext); setWTConv(t[m], m ? "fft" : "direct"); }
    double *cur = malloc(8 * (2 * N + 2 * lf + 8)), *nx = malloc(8 * (2 * N + 2 * lf + 8)), *dt = malloc(8 * (2 * N + 2 * lf + 8));
    int allin = ninp < 0; if (allin) ninp = N + 3;
    for (int k = 0; k < ninp && mc_ok(); k++) {
        data(N, k, x); memcpy(xc, x, 8 * N); double sc = vmax(x, N), tol = ptol(w) * sc * (J + 1) * 2, ct = 1e-10 * sc * (1 << J);
        for (int m = 0; m < 2; m++) {
            dwt(t[m], x); mc_ops(1);
            MC_CHECK(!memcmp(x, xc, 8 * N), "input", "input modified");
            /* reference coefficients */
            memcpy(cur, x, 8 * N); int L = N, tot = t[m]->outlength, off = tot;
            MC_CHECK(t[m]->length[J + 1] == N, "lengths", "length[J+1]=%d", t[m]->length[J + 1]);
            for (int j = 1; j <= J; j++) {
                int nl = step_len(ext, L, lf); ref_step(ext, cur, L, o->lpd, lf, nx); ref_step(ext, cur, L, o->hpd, lf, dt);
                MC_CHECK(t[m]->length[J - j + 1] == nl, "lengths", "level %d length %d, expected %d", j, t[m]->length[J - j + 1], nl);
                off -= nl; if (off < 0) { mc_fail("lengths", "output length %d too small", tot); break; }
                mc_vec(m ? "detail_fft" : "detail", t[m]->output + off, dt, nl, ct, 0); memcpy(cur, nx, 8 * nl); L = nl;
            }
            if (!mc_ok()) break;
            MC_CHECK(off == L && t[m]->length[0] == L, "lengths", "approximation length %d/%d, expected %d", off, t[m]->length[0], L);
            mc_vec(m ? "approx_fft" : "approx", t[m]->output, cur, L, ct, 0);
            if (!m) mc_state_d(t[m]->output, L > 8 ? 8 : L);
            mc_bufinit(y, N); idwt(t[m], y); mc_ops(1); mc_vec(m ? "idwt_fft" : "idwt", y, x, N, tol, 0); mc_bufcheck("bounds", y, N);
            for (int i = 0; i < N; i++) mc_max("idwt_err", orth_[w] == 2 ? 0 : fabs(y[i] - x[i]) / sc);
            double *mra = getDWTmra(t[m], t[m]->output); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j <= J; j++) s += mra[j * N + i]; y[i] = s; }
            mc_vec("mra", y, x, N, tol, 0); free(mra); mc_ops(1);
            if (orth_[w] == 1 && !strcmp(ext, "per") && N % (1 << J) == 0) MC_CHECK(mc_close(en(t[m]->output, tot), en(x, N), 0, 1e-6), "energy", "energy %g, signal %g", en(t[m]->output, tot), en(x, N));
        }
    }
    for (int m = 0; m < 2; m++) wt_free(t[m]);
    wave_free(o); mc_buffree(x); mc_buffree(y); free(xc); free(cur); free(nx); free(dt);
}
static void do_swt(int w, int N, int J, int modwt_, const char *ext) {
    wave_object o = wave_init(W[w]); int lf = o->filtlength; double *x = mc_buf(N), *y = mc_buf(N), *xc = malloc(8 * N);
    wt_object t[2] = {0}; int m0 = !strcmp(ext, "sym") ? 1 : 0, P = m0 ? 2 * N : N;
    int m1 = modwt_ && P < lf ? 0 : 1;   /* the fft method needs the filter to fit */
    for (int m = m0; m <= m1; m++) { t[m] = wt_init(o, modwt_ ? "modwt" : "swt", N, J); setWTConv(t[m], m ? "fft" : "direct"); if (modwt_) setDWTExtension(t[m], ext); }
    double *cur = malloc(8 * P), *ap = malloc(8 * P), *dt = malloc(8 * P), sq = modwt_ ? sqrt(2) : 1;
    for (int k = 0; k < 5 && mc_ok(); k++) {
        data(N, k == 4 ? N + 2 : k, x); memcpy(xc, x, 8 * N); double sc = vmax(x, N), tol = ptol(w) * sc * (J + 1) * 4;
        for (int m = m0; m <= m1; m++) {
            if (modwt_) modwt(t[m], x); else swt(t[m], x);
            mc_ops(1); MC_CHECK(!memcmp(x, xc, 8 * N), "input", "input modified");
            MC_CHECK(t[m]->outlength == P * (J + 1), "lengths", "outlength %d, expected %d", t[m]->outlength, P * (J + 1));
            for (int i = 0; i < P; i++) cur[i] = i < N ? x[i] : x[2 * N - 1 - i];
            int off = P * (J + 1);
            for (int j = 0; j < J; j++) {
                long M = 1L << j, sh = modwt_ ? 0 : M * lf / 2;
                for (int i = 0; i < P; i++) { long double s = 0, d = 0; for (int l = 0; l < lf; l++) { long q = ((i + sh - l * M) % P + P) % P; s += (long double)o->lpd[l] * cur[q]; d += (long double)o->hpd[l] * cur[q]; } ap[i] = s / sq; dt[i] = d / sq; }
                off -= P; mc_vec(m ? "detail_fft" : "detail", t[m]->output + off, dt, P, 1e-9 * sc * (1 << J), 0); memcpy(cur, ap, 8 * P);
            }
            mc_vec(m ? "approx_fft" : "approx", t[m]->output, cur, P, 1e-9 * sc * (1 << J), 0);
            if (m == m1) mc_state_d(t[m]->output, P > 8 ? 8 : P);
            mc_bufinit(y, N); if (modwt_) imodwt(t[m], y); else iswt(t[m], y);
            mc_ops(1); mc_vec(m ? "inverse_fft" : "inverse", y, x, N, tol, 0); mc_bufcheck("bounds", y, N);
            if (!modwt_ || P >= lf) { double *mra = modwt_ ? getMODWTmra(t[m], t[m]->output) : getSWTmra(t[m], t[m]->output);
                for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j <= J; j++) s += mra[(long)j * N + i]; y[i] = s; }
                mc_vec(m ? "mra_fft" : "mra", y, x, N, tol, 0); free(mra); mc_ops(1); }
            if (modwt_) { double e = en(t[m]->output, P * (J + 1)), ex = en(x, N) * (P / N); MC_CHECK(mc_close(e, ex, 0, 1e-6), "energy", "energy %g, signal %g", e, ex); }
        }
    }
    for (int m = m0; m <= m1; m++) wt_free(t[m]);
    wave_free(o); mc_buffree(x); mc_buffree(y); free(xc); free(cur); free(ap); free(dt);
}
static double ref_cost(const double *x, int N, int e, double p) {
    double v = 0; for (int i = 0; i < N; i++) { double q = x[i] * x[i];
        if (e == 0) { if (x[i] != 0) v -= q * log(q); } else if (e == 1) v += fabs(x[i]) > p; else if (e == 2) v += pow(fabs(x[i]), p); else if (x[i] != 0) v += log(q); } return v;
}
static void do_packet(int w, int N, int J, const char *ext) {
    wave_object o = wave_init(W[w]); int lf = o->filtlength; double *x = mc_buf(N), *y = mc_buf(N), *xc = malloc(8 * N);
    int nn = (2 << J); double **nd = calloc(nn, sizeof(double *)); int *nl = calloc(nn, sizeof(int));   /* heap-ordered reference tree, root 1 */
    int off = 0;
    wtree_object tr = wtree_init(o, N, J); setWTREEExtension(tr, ext);
    for (int k = 0; k < 3 && mc_ok(); k++) {
        data(N, k, x); memcpy(xc, x, 8 * N); double sc = vmax(x, N), tol = ptol(w) * sc * (J + 1) * 4, ct = 1e-10 * sc * (1 << J);
        for (int i = 1; i < nn; i++) { free(nd[i]); if (i == 1) { nl[1] = N; nd[1] = malloc(8 * N); memcpy(nd[1], x, 8 * N); } else { nl[i] = step_len(ext, nl[i / 2], lf); nd[i] = malloc(8 * nl[i]); ref_step(ext, nd[i / 2], nl[i / 2], i % 2 ? o->hpd : o->lpd, lf, nd[i]); } }
        wtree(tr, x); mc_ops(1); MC_CHECK(!memcmp(x, xc, 8 * N), "input", "wtree modified its input");
        for (int X = 1; X <= J && mc_ok(); X++) {
            int L = getWTREENodelength(tr, X); MC_CHECK(L == nl[1 << X], "lengths", "wtree level %d length %d, expected %d", X, L, nl[1 << X]); if (!mc_ok()) break;
            for (int Y = 0; Y < (1 << X); Y++) { double *c = mc_buf(L); getWTREECoeffs(tr, X, Y, c, L); mc_vec("wtree_node", c, nd[(1 << X) + Y], L, ct, 0); mc_bufcheck("bounds", c, L); mc_buffree(c); mc_ops(1); }
        }
        mc_state_d(tr->output, 6);
        for (int e = 0; e < 4 && mc_ok(); e++) {
            static const char *en_[] = {"shannon", "threshold", "norm", "logenergy"}; double ep = e == 1 ? 0.5 : e == 2 ? 1.1 : 0;
            wpt_object wp = wpt_init(o, N, J); setDWPTExtension(wp, ext); setDWPTEntropy(wp, en_[e], ep);
            dwpt(wp, x); mc_ops(1); MC_CHECK(!memcmp(x, xc, 8 * N), "input", "dwpt modified its input");
            /* chosen nodes partition the tree and carry the packet coefficients */
            double *best = calloc(nn, 8), chosen = 0; long cover = 0; int tot = 0;
            for (int i = nn - 1; i >= 1; i--) { best[i] = ref_cost(nd[i], nl[i], e, ep); if (2 * i < nn) { double c = best[2 * i] + best[2 * i + 1]; if (c < best[i]) best[i] = c; } }
            for (int q = 0; q < wp->nodes && mc_ok(); q++) {
                int X = wp->nodeindex[2 * q], Y = wp->nodeindex[2 * q + 1]; if (X < 0 || X > J || Y < 0 || Y >= (1 << X)) { mc_fail("node", "node (%d,%d)", X, Y); break; }
                int id = (1 << X) + Y; cover += 1 << (J - X); chosen += ref_cost(nd[id], nl[id], e, ep); tot += nl[id];
                for (int z = 0; z < q; z++) { int X2 = wp->nodeindex[2 * z], Y2 = wp->nodeindex[2 * z + 1]; int a = X < X2 ? X : X2; MC_CHECK((Y >> (X - a)) != (Y2 >> (X2 - a)), "overlap", "nodes (%d,%d) and (%d,%d) overlap", X, Y, X2, Y2); }
                if (X > 0) { MC_CHECK(getDWPTNodelength(wp, X) == nl[id], "lengths", "dwpt level %d length", X); double *c = mc_buf(nl[id]); getDWPTCoeffs(wp, X, Y, c, nl[id]); mc_vec("dwpt_node", c, nd[id], nl[id], ct, 0); mc_bufcheck("bounds", c, nl[id]); mc_buffree(c); }
                else mc_vec("dwpt_root", wp->output, x, N, 0, 0);
            }
            MC_CHECK(cover == (1L << J), "cover", "chosen nodes cover %ld of %ld", cover, 1L << J);
            MC_CHECK(wp->outlength == tot, "lengths", "dwpt outlength %d, expected %d", wp->outlength, tot);
            double near = 1; for (int i = 1; i < nn; i++) for (int q = 0; q < nl[i]; q++) { double u = e == 1 ? fabs(fabs(nd[i][q]) - ep) : e == 3 ? fabs(nd[i][q]) : 1; if (u < near) near = u; }
            if (near > 1e-6 * sc) MC_CHECK(chosen <= best[1] + 1e-6 * (1 + fabs(best[1])), "best_basis", "%s: chosen basis costs %g, best %g", en_[e], chosen, best[1]);
            mc_bufinit(y, N); idwpt(wp, y); mc_ops(1); mc_vec("idwpt", y, x, N, tol, 0); mc_bufcheck("bounds", y, N);
            mc_state(mc_hash(w * 1000 + N * 10 + J, wp->basisvector, 8 * (nn - 1))); free(best); wpt_free(wp);
        }
    }
    for (int i = 1; i < nn; i++) free(nd[i]);
    free(nd); free(nl); wtree_free(tr); wave_free(o); mc_buffree(x); mc_buffree(y); free(xc); (void)off;
}
static int byname(const char *n) { for (int w = 0; w < nW; w++) if (!strcmp(W[w], n)) return w; return 0; }
void mc_enumerate(void) {
    names(); static const char *X[] = {"per", "sym"};
    /* accepted by the library although the filter is longer than the signal at some level (recorded finding) */
    if (mc_case("short dwt db5 N=7 J=1 sym")) do_dwt(byname("db5"), 7, 1, "sym", 4);
    if (mc_case("short dwt db5 N=3 J=1 per")) do_dwt(byname("db5"), 3, 1, "per", 4);
    if (mc_case("short packet db5 N=3 J=1 sym")) do_packet(byname("db5"), 3, 1, "sym");
    if (mc_case("short packet db4 N=4 J=1 per")) do_packet(byname("db4"), 4, 1, "per");
    for (int w = 0; w < nW; w++) if (mc_case("filters %s", W[w])) filters(w);
    for (int w = 0; w < nW; w++) {
        wave_object o = wave_init(W[w]); int lf = o->filtlength; wave_free(o);
        int small = lf <= 20;
        for (int e = 0; e < 2; e++) {
            int lo = lf, cnt = 0;
            for (int N = lo < 3 ? 3 : lo; cnt < (mc_thorough ? (small ? 70 : 24) : small ? 22 : 6); N += (cnt < 10 || small) ? 1 : 7, cnt++) for (int J = 1; J <= wmaxiter(N); J++) {
                if (e == 0 && minlen_per(N, J) < lf / 2) continue;
                if (mc_case("dwt %s N=%d J=%d %s", W[w], N, J, X[e])) do_dwt(w, N, J, X[e], N <= 24 ? -1 : 5);
                if ((cnt % 3 == 0 || mc_thorough) && mc_case("packet %s N=%d J=%d %s", W[w], N, J, X[e])) do_packet(w, N, J, X[e]);
            }
            static const int big[] = {64, 100, 127, 200, 256};
            for (int q = 0; q < 5; q++) for (int J = 1; J <= wmaxiter(big[q]); J++) { int N = big[q]; if (N < lf || (e == 0 && minlen_per(N, J) < lf / 2)) continue;
                if (mc_case("dwt large %s N=%d J=%d %s", W[w], N, J, X[e])) do_dwt(w, N, J, X[e], 4);
                if ((mc_thorough || q < 2) && mc_case("packet large %s N=%d J=%d %s", W[w], N, J, X[e])) do_packet(w, N, J, X[e]); }
        }
        for (int N = 4; N <= (mc_thorough ? 192 : 64); N += 2) for (int J = 1; J <= wmaxiter(N); J++) { if (N % (1 << J)) continue; if (N > 24 && N % 8) continue; if (mc_case("swt %s N=%d J=%d", W[w], N, J)) do_swt(w, N, J, 0, "per"); }
        if (modw[w]) for (int N = 3; N <= (mc_thorough ? 130 : 48); N += N < 20 || mc_thorough ? 1 : 7) for (int J = 1; J <= wmaxiter(N); J++) {
            if (mc_case("modwt %s N=%d J=%d per", W[w], N, J)) do_swt(w, N, J, 1, "per");
            if (2 * N >= lf && mc_case("modwt %s N=%d J=%d sym", W[w], N, J)) do_swt(w, N, J, 1, "sym"); }
    }
}
