/* Independent reference models (long double, textbook definitions, no code shared with the library). */
#ifndef REF_H
#define REF_H
typedef long double ld;
/* solve A x = b, A row-major n x n (copied); returns 0 on success, 1 if (numerically) singular */
int  ref_solve(const ld *A, const ld *b, int n, ld *x);
int  ref_inverse(const ld *A, int n, ld *inv);
ld   ref_det(const ld *A, int n);
void ref_acvf(const double *x, int n, int M, ld *g);             /* biased, about the mean */
/* order-p Yule-Walker solution from autocovariances g[0..p]; var = g0 - sum phi_i g_i */
int  ref_yw(const ld *g, int p, ld *phi, ld *var);
/* Burg on x[0..n-1]; all orders up to p: phi[k*p..] rows, returns order reached before degenerate denominators */
int  ref_burg(const double *x, int n, int p, ld *phi, ld *var, ld *refl);
/* expand (1-phi B)(1-PHI B^s) -> full AR coefficients a[1..] with convention w_t = sum a_i w_{t-i}; len p+s*P */
int  ref_expand_ar(const double *phi, int p, const double *PHI, int P, int s, ld *a);
/* expand MA with convention  e_t + sum b_i e_{t-i}, given (1+theta B)(1+THETA B^s) */
int  ref_expand_ma(const double *th, int q, const double *TH, int Q, int s, ld *b);
/* psi weights of w_t = sum a_i w_{t-i} + e_t + sum b_j e_{t-j}; psi[0]=1, n values */
void ref_psi(const ld *a, int p, const ld *b, int q, ld *psi, int n);
/* exact autocovariances for unit innovation variance, lags 0..n-1 (solves the linear system); 1 if singular */
int  ref_arma_acvf(const ld *a, int p, const ld *b, int q, ld *g, int n);
/* exact Gaussian likelihood of zero-mean w[0..n-1] with unit-variance autocovariances g: S = w'R^-1 w, logdet = log|R| */
int  ref_gauss(const ld *w, int n, const ld *g, ld *S, ld *logdet);
/* modulus of the smallest root test: 1 if 1 - sum a_i z^i has all roots outside unit circle (Schur-Cohn / step-down) */
int  ref_stationary(const ld *a, int p);
/* difference x: d ordinary then D seasonal; returns length */
int  ref_difference(const double *x, int n, int d, int D, int s, double *o);
/* OLS y on X (n x k row major): beta, returns 0 ok */
int  ref_ols(const ld *X, const ld *y, int n, int k, ld *beta, ld *rss, ld *xtxinv);
#endif
