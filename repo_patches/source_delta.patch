From a24e74b67c563cc940691b80eb78ed6c99eea2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 001/114] fix: deld and delds return the constant polynomial 1
 for order zero

The output coefficient was left uninitialised when d (or D) is 0, so diff and
diffs of order zero scaled the series by garbage.
---
 src/talg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 7db9a90..899c03e 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -116,6 +116,7 @@ void deld(int d, double* C) {
 	vec[0] = 1.;
 	vec[1] = -1.;
 	oup[0] = 1.;
+	C[0] = 1.;
 	// oup has length (d+1)
 	
 	for(i = 0; i < d; ++i) {
@@ -153,6 +154,7 @@ void delds(int D, int s, double *C) {
 	vec[0] = 1.0;
 	vec[s] = -1.0;
 	oup[0] = 1.0;
+	C[0] = 1.0;
 	
 	for(i = 0; i < D; ++i) {
 		poly(oup,vec,C,i*s+1,s+1);
-- 
2.43.0


From 02cc091cc346f2fd05297738baf64d80127297c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 002/114] fix: Burg estimates use the whole series

burgalg already treats its length argument as the number of observations;
every caller passed N-1, so the last observation was ignored.
---
 src/ctsa.c    | 8 ++++----
 src/initest.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..226af0b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2187,7 +2187,7 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N - 1, p, obj->params, &obj->var);
+		burgalg(inp, N, p, obj->params, &obj->var);
 	}
 
 	obj->order = obj->p;
@@ -2338,7 +2338,7 @@ void ar(double *inp, int N, int p,int method,double *phi,double *var) {
 		ywalg2(inp, N, p, phi,var);
 	}
 	else if (method == 1) {
-		burgalg(inp, N - 1, p, phi, var);
+		burgalg(inp, N, p, phi, var);
 	}
 	else if (method == 2) {
 		resid = (double*)malloc(sizeof(double)* N);
@@ -4100,7 +4100,7 @@ int ar_estimate(double *x, int N, int method) {
 			ywalg2(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 1) {
-			burgalg(inp, N-1, i + 1, phi, &var);
+			burgalg(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 2) {
 			as154(inp, N, 7, i + 1, 0, 0, phi, NULL, &wmean, &var, resid, &loglik, hess,cssml);
@@ -4390,7 +4390,7 @@ void yw(double *x, int N, int p, double *phi, double *var) {
 }
 
 void burg(double *x, int N, int p, double *phi, double *var) {
-	burgalg(x, N-1, p, phi, var);
+	burgalg(x, N, p, phi, var);
 }
 
 void hr(double *x, int N, int p, int q, double *phi, double *theta, double *var) {
diff --git a/src/initest.c b/src/initest.c
index 068523b..27370bd 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -437,7 +437,7 @@ void pacf_burg(double* vec, int N, double* par, int M) {
 
 	temp = (double*)malloc(sizeof(double)* M);
 	for (i = 0; i < M; ++i) {
-		burgalg(vec, N-1, i + 1, temp, &var);
+		burgalg(vec, N, i + 1, temp, &var);
 		par[i] = temp[i];
 	}
 	free(temp);
-- 
2.43.0


From c7e7ff0a39989c7d856456df2991c0017c004a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 003/114] fix: ar_estimate starts the order search from the AIC
 of order one

The first candidate's AIC was overwritten with zero instead of being kept, so
order 1 was returned unless a higher order had negative AIC, which depends on
the scale of the series.
---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 226af0b..a312e3f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4114,7 +4114,7 @@ int ar_estimate(double *x, int N, int method) {
 		lvar = log(var);
 		aic = lvar + 2 * (double)(i + 1) / N;
 		if (i == 0) {
-			aic = aic0;
+			aic0 = aic;
 			p = 1;
 		}
 		else {
-- 
2.43.0


From 1f40a3551d5a35cbcf4f3f060aa08cd16fc82daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 004/114] fix: ar_exec fills residuals and AIC and fits Burg to
 the mean-corrected series

The residual pointer of the object was never written (the MLE branch wrote
behind the fitted order instead), AIC was left unset for Yule-Walker and Burg,
and Burg was fitted to the raw series although order selection and prediction
use the mean-corrected one.
---
 src/ctsa.c | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a312e3f..c6dddca 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2163,9 +2163,9 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 }
 
 void ar_exec(ar_object obj, double *inp) {
-	int p, N;
+	int p, N, i, t;
 	double loglik;
-	double *hess;
+	double *hess, *x;
 	N = obj->N;
 
 	obj->p = ar_estimate(inp, N, obj->method);
@@ -2175,19 +2175,37 @@ void ar_exec(ar_object obj, double *inp) {
 
 	if (obj->method == 2) {
 		hess = (double*)malloc(sizeof(double)* (p + 1) * (p + 1));
-		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->params + p, &loglik,
+		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->res, &loglik,
 			hess,cssml);
 		loglik = -0.5 * (N * (2 * loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * loglik + 2.0 * (obj->p + 1) + 2.0;
 		free(hess);
 	}
-	else if (obj->method == 0) {
+	else if (obj->method == 0 || obj->method == 1) {
 		obj->mean = mean(inp, N);
-		ywalg2(inp, N, p, obj->params, &obj->var);
-	}
-	else if (obj->method == 1) {
-		obj->mean = mean(inp, N);
-		burgalg(inp, N, p, obj->params, &obj->var);
+		x = (double*)malloc(sizeof(double)* N);
+		for (t = 0; t < N; ++t) {
+			x[t] = inp[t] - obj->mean;
+		}
+		if (obj->method == 0) {
+			ywalg2(x, N, p, obj->params, &obj->var);
+		}
+		else {
+			burgalg(x, N, p, obj->params, &obj->var);
+		}
+		for (t = 0; t < N; ++t) {
+			obj->res[t] = 0.0;
+			if (t >= p) {
+				obj->res[t] = x[t];
+				for (i = 0; i < p; ++i) {
+					obj->res[t] -= obj->phi[i] * x[t - i - 1];
+				}
+			}
+		}
+		loglik = -0.5 * (N * (log(obj->var) + 1.0 + log(2 * 3.14159)));
+		obj->aic = -2.0 * loglik + 2.0 * (obj->p + 1) + 2.0;
+		obj->retval = 1;
+		free(x);
 	}
 
 	obj->order = obj->p;
-- 
2.43.0


From fa84699421b86da438bb0c9fc1be08e0be3d4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 005/114] fix: autocovariance routines compute all N available
 lags when more are requested

Asking for more than N values silently dropped the last available lag, and the
FFT variants compared the request with the padded length instead of N.
---
 src/stats.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stats.c b/src/stats.c
index 022e2e6..4356689 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -61,7 +61,7 @@ void autocovar(double* vec,int N, double* acov,int M) {
 	m = mean(vec,N);
 	
 	if ( M > N) {
-		M = N-1;
+		M = N;
 		printf("\n Lag is greater than the length N of the input vector. It is automatically set to length N - 1.\n");
 		printf("\n The Output Vector only contains N calculated values.");
 	} else if ( M < 0) {
@@ -86,7 +86,7 @@ void autocorr(double* vec,int N,double* acorr, int M) {
 	double var;
 	int i;
 	if (M > N) {
-		M = N - 1;
+		M = N;
 		printf("\n Lag is greater than the length N of the input vector. It is automatically set to length N - 1.\n");
 		printf("\n The Output Vector only contains N calculated values.");
 	}
@@ -114,8 +114,8 @@ void autocovar_fft(auto_fft_object obj,double* vec,double* acov, int M) {
 	N = obj->clen;
 	L = obj->ilen;
 	N2 = N * L;
-	if (M > N) {
-		M = N - 1;
+	if (M > L) {
+		M = L;
 		printf("\n Lag is greater than the length N of the input vector. It is automatically set to length N - 1.\n");
 		printf("\n The Output Vector only contains N calculated values.");
 	}
@@ -162,9 +162,9 @@ void autocovar_fft(auto_fft_object obj,double* vec,double* acov, int M) {
 void autocorr_fft(auto_fft_object obj,double* vec,double* acorr, int M) {
 	double var;
 	int i,N;
-	N = obj->clen;
+	N = obj->ilen;
 	if (M > N) {
-		M = N - 1;
+		M = N;
 		printf("\n Lag is greater than the length N of the input vector. It is automatically set to length N - 1.\n");
 		printf("\n The Output Vector only contains N calculated values.");
 	}
-- 
2.43.0


From 319029f63c194633b2e2cfda181d05bc4e3c5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 006/114] fix: FFT autocovariance scale factor overflows int
 for long series

---
 src/stats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stats.c b/src/stats.c
index 4356689..2665e0b 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -104,8 +104,8 @@ void autocorr(double* vec,int N,double* acorr, int M) {
 }
 
 void autocovar_fft(auto_fft_object obj,double* vec,double* acov, int M) {
-	int i,N,L,N2;
-	double m;
+	int i,N,L;
+	double m,N2;
 	fft_type* a;
 	fft_type* b;
 	fft_data* ao;
@@ -113,7 +113,7 @@ void autocovar_fft(auto_fft_object obj,double* vec,double* acov, int M) {
 	
 	N = obj->clen;
 	L = obj->ilen;
-	N2 = N * L;
+	N2 = (double) N * L;
 	if (M > L) {
 		M = L;
 		printf("\n Lag is greater than the length N of the input vector. It is automatically set to length N - 1.\n");
-- 
2.43.0


From efcb08380a262d4019902a6f996feeba285db736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 007/114] fix: free_auto releases its FFT plans

---
 src/stats.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 2665e0b..6455c78 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -182,5 +182,7 @@ void autocorr_fft(auto_fft_object obj,double* vec,double* acorr, int M) {
 }
 
 void free_auto(auto_fft_object object) {
+	free_real_fft(object->fobj);
+	free_real_fft(object->iobj);
 	free(object);
 }
-- 
2.43.0


From ce1544acbab3836a0bcdd089e76ea287b555ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 008/114] fix: radix 3, 5 and 7 FFT constants carry full double
 precision

---
 src/hsfft.c | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/hsfft.c b/src/hsfft.c
index a163e33..28ce327 100644
--- a/src/hsfft.c
+++ b/src/hsfft.c
@@ -99,8 +99,8 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		tau0r = op[1].re + op[2].re;
 		tau0i = op[1].im + op[2].im;
 
-		tau1r = sgn * 0.86602540378 * (op[1].re - op[2].re);
-		tau1i = sgn * 0.86602540378 * (op[1].im - op[2].im);
+		tau1r = sgn * 0.86602540378443864676 * (op[1].re - op[2].re);
+		tau1i = sgn * 0.86602540378443864676 * (op[1].im - op[2].im);
 
 		tau2r = op[0].re - tau0r * 0.5000000000;
 		tau2i = op[0].im - tau0i * 0.5000000000;
@@ -175,10 +175,10 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		op[4].re = ip[4*l].re;
 		op[4].im = ip[4*l].im;
 
-		c1 = 0.30901699437;
-		c2 = -0.80901699437;
-		s1 = 0.95105651629;
-		s2 = 0.58778525229;
+		c1 = 0.30901699437494742410;
+		c2 = -0.80901699437494742410;
+		s1 = 0.95105651629515357212;
+		s2 = 0.58778525229247312917;
 
 		tau0r = op[1].re + op[4].re;
 		tau2r = op[1].re - op[4].re;
@@ -271,12 +271,12 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		op[6].re = ip[6*l].re;
 		op[6].im = ip[6*l].im;
 
-		c1 = 0.62348980185;
-		c2 = -0.22252093395;
-		c3 = -0.9009688679;
-		s1 = 0.78183148246;
-		s2 = 0.97492791218;
-		s3 = 0.43388373911;
+		c1 = 0.62348980185873353053;
+		c2 = -0.22252093395631440429;
+		c3 = -0.90096886790241912624;
+		s1 = 0.78183148246802980871;
+		s2 = 0.97492791218182360702;
+		s3 = 0.43388373911755812048;
 
 		tau0r = op[1].re + op[6].re;
 		tau3r = op[1].re - op[6].re;
@@ -573,8 +573,8 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 			tau0r = br + cr;
 			tau0i = bi + ci;
 
-			tau1r = sgn * 0.86602540378 * (br - cr);
-			tau1i = sgn * 0.86602540378 * (bi - ci);
+			tau1r = sgn * 0.86602540378443864676 * (br - cr);
+			tau1i = sgn * 0.86602540378443864676 * (bi - ci);
 
 			tau2r = ar - tau0r * 0.5000000000;
 			tau2i = ai - tau0i * 0.5000000000;
@@ -716,10 +716,10 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		//printf("%d \n",inc);
 		//mixed_radix3_dit_rec(op,ip,obj,sgn,ll,m);
 
-		c1 = 0.30901699437;
-		c2 = -0.80901699437;
-		s1 = 0.95105651629;
-		s2 = 0.58778525229;
+		c1 = 0.30901699437494742410;
+		c2 = -0.80901699437494742410;
+		s1 = 0.95105651629515357212;
+		s2 = 0.58778525229247312917;
 
 		tkm1 = m;
 		tkm2 = tkm1 + m;
@@ -906,12 +906,12 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		//printf("%d \n",inc);
 		//mixed_radix3_dit_rec(op,ip,obj,sgn,ll,m);
 
-		c1 = 0.62348980185;
-		c2 = -0.22252093395;
-		c3 = -0.9009688679;
-		s1 = 0.78183148246;
-		s2 = 0.97492791218;
-		s3 = 0.43388373911;
+		c1 = 0.62348980185873353053;
+		c2 = -0.22252093395631440429;
+		c3 = -0.90096886790241912624;
+		s1 = 0.78183148246802980871;
+		s2 = 0.97492791218182360702;
+		s3 = 0.43388373911755812048;
 
 		tkm1 = m;
 		tkm2 = tkm1 + m;
-- 
2.43.0


From 1587a0c791f08e8a5fc63a64c1ecd1a81638d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 009/114] fix: MODWT multiresolution details are synthesised
 with the high-pass filter

---
 src/wavelib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cddc3cb..32f0b47 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2738,10 +2738,10 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 			ninp[i].im = 0.0;
 		}
 
-		getMODWTRecCoeff(fft_fd, fft_bd, sig, ninp,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
+		getMODWTRecCoeff(fft_fd, fft_bd, ninp, sig,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
 
 		for (i = 0; i < wt->siglength; ++i) {
-			mra[lmra+i] = sig[i].re;
+			mra[lmra+i] = ninp[i].re;
 		}
 
 		lenacc += N;
-- 
2.43.0


From be6ccf7b504e54dc59ffbbaf5dbf71d68b3a2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 010/114] fix: fft MODWT and its inverse release their index
 array

---
 src/wavelib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 32f0b47..8b449f7 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2541,6 +2541,7 @@ static void modwt_fft(wt_object wt, const double *inp) {
 		wt->params[i] = sig[i].re/N;
 	}
 
+	free(index);
 	free(sig);
 	free(cA);
 	free(cD);
@@ -2869,6 +2870,7 @@ void imodwt_fft(wt_object wt, double *oup) {
 		oup[i] = sig[i].re;
 	}
 
+	free(index);
 	free(sig);
 	free(cA);
 	free(cD);
-- 
2.43.0


From 6a81c9a9d2c90d7b47fac959d226f225690a2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 011/114] fix: stationary wavelet analysis wraps dilated
 filters longer than the signal

---
 src/wtmath.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/wtmath.c b/src/wtmath.c
index 6566ea8..1809e02 100644
--- a/src/wtmath.c
+++ b/src/wtmath.c
@@ -132,23 +132,21 @@ void modwt_per_stride(int M, double *inp, int N, double *filt, int lpd_len, doub
 }
 
 void swt_per_stride(int M, double *inp, int N, double *lpd, double*hpd, int lpd_len, double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg, j;
+	int l, l2, isodd, i, t, len_avg, j, k;
 	int is, os;
 	len_avg = M * lpd_len;
 	l2 = len_avg / 2;
 	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
-		t = i + l2;
+		t = (i + l2) % len_cA;
 		os = i *ostride;
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		l = -1;
-		for (j = 0; j < len_avg; j += M) {
+		for (k = 0; k < len_avg; k += M) {
 			l++;
-			while (j >= len_cA) {
-				j -= len_cA;
-			}
+			j = k % len_cA;
 			if ((t - j) >= l2 && (t - j) < N) {
 				is = (t - j)*istride;
 				cA[os] += lpd[l] * inp[is];
-- 
2.43.0


From f323b71063f29555cd0d6f7d3dc73d8b90591ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 012/114] fix: ARIMA fits report variance, log-likelihood and
 residuals at the estimates

---
 src/emle.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index cf21961..f75c8d0 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1315,6 +1315,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 
 	hessian_fd(&fcss_min, tf, pq, dx, obj->eps, hess);
+	fcss(tf, pq, obj); // leave obj at the estimates
 	//mdisplay(hess, pq, pq);
 	mtranspose(hess, pq, pq, thess);
 
@@ -1577,6 +1578,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	fas154(tf, pq, obj); // leave obj at the estimates
 	
 	mtranspose(hess, pq, pq, thess);
 
@@ -1860,6 +1862,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	fas154x_seas(tf, pq, obj); // leave obj at the estimates
 	
 	mtranspose(hess, pq, pq, thess);
 	
@@ -2135,6 +2138,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	fcss_seas(tf, pq, obj); // leave obj at the estimates
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -2520,6 +2524,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	fcssx(tf, pq, obj); // leave obj at the estimates
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -2845,6 +2850,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	//if (obj->M == 1) dx[pq - 1] = sigma;
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	fas154_seas(tf, pq, obj); // leave obj at the estimates
 
 	mtranspose(hess, pq, pq, thess);
 
-- 
2.43.0


From a3cf4ee94fb24c2e9adce2f49f679ea2e5f2f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 013/114] fix: CSS residuals and covariance use the differenced
 length once

---
 src/emle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index f75c8d0..378bb0a 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1320,7 +1320,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -1352,7 +1352,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
@@ -2143,7 +2143,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2529,7 +2529,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
-- 
2.43.0


From 615145142569bcf77ef613ef75f4250d18539d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 014/114] fix: exact likelihood of models without AR or MA
 terms

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 378bb0a..6450f61 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1419,7 +1419,7 @@ double fas154(double *b,int pq,void *params) {
 
 	iupd = 0;
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2663,7 +2663,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	iupd = 0;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From db15324f6d923c28072a0c2c804e243e25c166e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 015/114] fix: as154 and as154_seas release their buffers when
 the CSS start is not stationary

---
 src/emle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 6450f61..e6011fc 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1474,7 +1474,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		Q = 0;
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, NULL, &P, NULL, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(x);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
@@ -2715,7 +2718,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(inp2);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
-- 
2.43.0


From 51ec939af15ebb28027ac1824cee97ea53148533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 016/114] fix: cssx clears its starting coefficients instead of
 writing past them

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index e6011fc..b844bc6 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2335,13 +2335,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From ff427c0c0696fbd0a71e33ca970fbfccfbc225ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 017/114] fix: AR(1) likelihood starts from the stationary
 variance

---
 src/emle.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index b844bc6..c9c9fda 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1417,7 +1417,7 @@ double fas154(double *b,int pq,void *params) {
 		}
 	}
 
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
@@ -1425,7 +1425,6 @@ double fas154(double *b,int pq,void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 	
@@ -2663,7 +2662,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	
 	//mdisplay(phi, 1, ir);
 	//mdisplay(theta, 1, ir);
-	iupd = 0;
+	iupd = 1;
 	//mdisplay(b, 1, pq);
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
@@ -2672,7 +2671,6 @@ double fas154_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
@@ -2994,7 +2992,7 @@ double fas154x_seas(double *b, int pq, void *params) {
 		}
 	}
 	
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
@@ -3002,7 +3000,6 @@ double fas154x_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
-- 
2.43.0


From 2de05436e7caa9753ecb2c345342f86958a46719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 018/114] fix: forkal forecasts models without AR or MA terms

---
 src/emle.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index c9c9fda..082d667 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -837,9 +837,6 @@ C*/
 	if (iq < 0) {
 		ifault = ifault + 2;
 	}
-	if (ip*ip + iq*iq == 0) {
-		ifault = 4;
-	}
 	if (id < 0) {
 		ifault = 8;
 	}
-- 
2.43.0


From 9d90d6f5c2bf2143570cb882d4a2c5b41fce0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 019/114] fix: predictions read past the residuals of
 differenced models

---
 src/ctsa.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index c6dddca..645b59a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2250,7 +2250,6 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2873,7 +2872,6 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2980,7 +2978,6 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3098,7 +3095,6 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3221,7 +3217,6 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From 21d6ffb99db3a8048f17d0917ff053c477e37f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 020/114] fix: seasonal and regression fits report their
 residuals

---
 src/ctsa.c |  6 +++---
 src/emle.c | 19 ++++++++++++++-----
 src/emle.h |  6 +++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 645b59a..de1df3c 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -396,7 +396,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else if (obj->method == 2) {
 		obj->retval = cssx(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
+			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,obj->params + p + q + P + Q + M,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
@@ -542,13 +542,13 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 1) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 	}
 	else if (obj->method == 2) {
diff --git a/src/emle.c b/src/emle.c
index 082d667..59aaf05 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1642,7 +1642,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	nd = d + D;
 
 	if (cssml == 1) {
-		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, loglik, hess,start,imean);
+		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, resid, loglik, hess,start,imean);
 
 		if ( ERR != 1) return ERR;
 
@@ -2034,7 +2034,7 @@ double fcss_seas(double *b, int pq, void *params) {
 }
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess) {
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
@@ -2176,6 +2176,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
@@ -2309,7 +2312,7 @@ double fcssx(double *b, int pq, void *params) {
 }
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean) {
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean) {
 	int i, pq, retval, length, offset,ret,nd,ncxreg,N1,rnk,orig,ERR;
 	double *b, *tf, *x, *inp2,*dx,*thess,*x0,*XX,*U,*V,*SIG,*coeff,*sigma,*varcovar,*res;
 	int *ipiv;
@@ -2570,6 +2573,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
 	//*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	
 	free(b);
@@ -2691,7 +2697,7 @@ double fas154_seas(double *b, int pq, void *params) {
 }
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean,double *var,double *loglik,double *hess,int cssml) {
+	double *PHI, double *THETA, double *wmean,double *var,double *resid,double *loglik,double *hess,int cssml) {
 	int i, pq, retval, length, offset,ret,nd,rp,ERR;
 	double *b, *tf, *x,*inp2,*dx,*thess,*res,*varcovar;
 	int *ipiv;
@@ -2710,7 +2716,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	sigma = 1.0;
 
 	if (cssml == 1) {
-		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
+		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
 		if (ERR == 10 || ERR == 12) {
@@ -2888,6 +2894,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
diff --git a/src/emle.h b/src/emle.h
index 9f9d2f3..4d114a0 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -174,12 +174,12 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 double fcss_seas(double *b, int pq, void *params);
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess);
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess);
 
 double fcssx(double *b, int pq, void *params);
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean);
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean);
 
 double fas154(double *x, int N, void *params);
 
@@ -195,7 +195,7 @@ double fas154_seas(double *b, int pq, void *params);
 void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q);
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean, double *var, double *loglik, double *hess, int cssml);
+	double *PHI, double *THETA, double *wmean, double *var, double *resid, double *loglik, double *hess, int cssml);
 
 int flikam(double *P, int MP, double *Q, int MQ, double *W, double *E, int N, double *ssq, double *fact, double *VW, double *VL, int MRP1, double *VK, int MR, double TOLER);
 
-- 
2.43.0


From cb7f94cfad85df2cbd483cdd2e0633ab770d8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 021/114] fix: exact likelihood rejects non-stationary AR parts

---
 src/emle.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index 59aaf05..ba35728 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1414,6 +1414,17 @@ double fas154(double *b,int pq,void *params) {
 		}
 	}
 
+	// The likelihood is only defined for a stationary AR part
+	if (ip > 0 && !archeck(ip, b)) {
+		value = obj->loglik = 1.0e10;
+		free(phi);
+		free(theta);
+		free(A);
+		free(P);
+		free(V);
+		return value;
+	}
+
 	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
@@ -2665,6 +2676,17 @@ double fas154_seas(double *b, int pq, void *params) {
 	
 	//mdisplay(phi, 1, ir);
 	//mdisplay(theta, 1, ir);
+	// The likelihood is only defined for a stationary AR part
+	if ((p > 0 && !archeck(p, b)) || (ps > 0 && !archeck(ps, b + p + q))) {
+		value = obj->loglik = 1.0e10;
+		free(phi);
+		free(theta);
+		free(A);
+		free(P);
+		free(V);
+		return value;
+	}
+
 	iupd = 1;
 	//mdisplay(b, 1, pq);
 
@@ -2998,6 +3020,17 @@ double fas154x_seas(double *b, int pq, void *params) {
 		}
 	}
 	
+	// The likelihood is only defined for a stationary AR part
+	if ((p > 0 && !archeck(p, b)) || (ps > 0 && !archeck(ps, b + p + q))) {
+		value = obj->loglik = 1.0e10;
+		free(phi);
+		free(theta);
+		free(A);
+		free(P);
+		free(V);
+		return value;
+	}
+
 	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
-- 
2.43.0


From fab1d7dfd3571f873e1e5b288beea06fc0e90007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 022/114] fix: archeck uses the true degree when trailing AR
 coefficients are zero

---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 899c03e..5218273 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -786,9 +786,9 @@ int archeck(int p, double *ar) {
 
 	//polyroot(double *coeff, int DEGREE, double *ZEROR, double *ZEROI)
 
-	polyroot(coeff,p,zeror,zeroi);
+	polyroot(coeff,wmax,zeror,zeroi);
 
-	for(i = 0; i < p;++i) {
+	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
 		if (mod < 1.0) {
 			free(coeff);
-- 
2.43.0


From 9c4bdf4dc7ce7cac15a6b96d2be10d483c6b32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 023/114] fix: archeck rejects unit roots

---
 src/talg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/talg.c b/src/talg.c
index 5218273..e5cd7ea 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -790,7 +790,7 @@ int archeck(int p, double *ar) {
 
 	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
-		if (mod < 1.0) {
+		if (mod <= 1.0) {
 			free(coeff);
 			free(zeror);
 			free(zeroi);
-- 
2.43.0


From 76a6fdc139811f79da507c8183032e41ae3c488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 024/114] fix: model_estimate compares orders on the
 differenced series

---
 src/ctsa.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index de1df3c..66fde5b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4197,16 +4197,19 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 	if (d > 0) {
 		N = diff(x, N, d, inp); // No need to demean x
 	}
+	else {
+		memcpy(inp, x, sizeof(double)* N);
+	}
 
 	m = h;
 
 	phim = (double*)malloc(sizeof(double)* m);
 	a = (double*)malloc(sizeof(double)* N);
 
-	wmean = mean(x, N);
+	wmean = mean(inp, N);
 
 	for (i = 0; i < N; ++i) {
-		inp[i] = x[i] - wmean;
+		inp[i] -= wmean;
 	}
 
 	// Estimate AR(m) coefficients
-- 
2.43.0


From 4e8a73fdc14109a4b0228646b9f85f42d520d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 025/114] fix: cpoly sizes its buffers by the degree and finds
 the zero roots of x^n

---
 src/polyroot.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/polyroot.c b/src/polyroot.c
index ad89667..d925e99 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -481,16 +481,18 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	int NN,CNT1,CNT2,IDNN2,i;
 	double prt, pit;
 
-	PR = (double*)malloc(sizeof(double)* 100);
-	PI = (double*)malloc(sizeof(double)* 100);
-	HR = (double*)malloc(sizeof(double)* 100);
-	HI = (double*)malloc(sizeof(double)* 100);
-	QPR = (double*)malloc(sizeof(double)* 100);
-	QPI = (double*)malloc(sizeof(double)* 100);
-	QHR = (double*)malloc(sizeof(double)* 100);
-	QHI = (double*)malloc(sizeof(double)* 100);
-	SHR = (double*)malloc(sizeof(double)* 100);
-	SHI = (double*)malloc(sizeof(double)* 100);
+	NN = DEGREE + 1;
+
+	PR = (double*)malloc(sizeof(double)* NN);
+	PI = (double*)malloc(sizeof(double)* NN);
+	HR = (double*)malloc(sizeof(double)* NN);
+	HI = (double*)malloc(sizeof(double)* NN);
+	QPR = (double*)malloc(sizeof(double)* NN);
+	QPI = (double*)malloc(sizeof(double)* NN);
+	QHR = (double*)malloc(sizeof(double)* NN);
+	QHI = (double*)malloc(sizeof(double)* NN);
+	SHR = (double*)malloc(sizeof(double)* NN);
+	SHI = (double*)malloc(sizeof(double)* NN);
 
 	mcon(&ETA, &INFIN, &SMALNO, &BASE);
 
@@ -501,7 +503,6 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	COSR = -.060756474;
 	SINR = .99756405;
 	fail = 0;
-	NN = DEGREE + 1;
 
 	if (!(OPR[0] != 0.0 || OPI[0] != 0.0)) {
 		fail = 1;
@@ -541,9 +542,11 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	}
 
 	NNITER: if (NN <= 2) {
-				prt = -1.0 * PR[1];
-				pit = -1.0 * PI[1];
-				CDIVID(&prt, &pit, &PR[0], &PI[0], INFIN, &ZEROR[DEGREE - 1], &ZEROI[DEGREE - 1]);
+				if (NN == 2) {
+					prt = -1.0 * PR[1];
+					pit = -1.0 * PI[1];
+					CDIVID(&prt, &pit, &PR[0], &PI[0], INFIN, &ZEROR[DEGREE - 1], &ZEROI[DEGREE - 1]);
+				}
 				free(PR);
 				free(PI);
 				free(HR);
-- 
2.43.0


From abb5ea1bf985562545352050a8b0c6883f863650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 026/114] fix: arma_autocovar solves the right system for AR
 orders above two and stays inside its buffers

---
 src/talg.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index e5cd7ea..967c6bd 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -384,20 +384,14 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 		th[i+1] = theta[i];
 	}
 	
-	if (p >= q+1) {
-		m = p;
-	} else {
-		m = q + 1;
-	}
+	m = (p >= q) ? p1 : q + 1;
 	thph = (double*) malloc(sizeof(double) * m);
 	// set A
+	for(i = 0; i < p1 * p1;++i) {
+		A[i] = 0.;
+	}
 	for(i = 0; i < p1;++i) {
 		for(j=0; j < p1;++j) {
-			A[i*p1+j] = 0.;
-			if (i == j && i != 0) {
-				A[i*p1+j] = 1.;
-			}
-
 			t = i - j;
 			if (t < 0) {
 				t = -t;
@@ -430,7 +424,7 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 	ludecomp(A,p1,ipiv);
 	linsolve(A,p1,b,ipiv,tcov);
 	
-	for(i = 0; i < p1;++i) {
+	for(i = 0; i < p1 && i < lag;++i) {
 		acov[i] = tcov[i];
 	}
 	
-- 
2.43.0


From 523635b5c167241f76ce16c7ca203eda83c1e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 027/114] fix: gradtrans fills the identity and MA blocks of
 the Jacobian

---
 src/talg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 967c6bd..8de0419 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -669,9 +669,7 @@ void gradtrans(double *raw, int p, int q, int P, int Q,int M, double *A) {
 
 	for (i = 0; i < N; ++i) {
 		for (j = 0; j < N; ++j) {
-			if (i == j) {
-				A[i + j*N] = (double)i;
-			}
+			A[i + j*N] = (i == j) ? 1.0 : 0.0;
 		}
 	}
 
@@ -698,7 +696,7 @@ void gradtrans(double *raw, int p, int q, int P, int Q,int M, double *A) {
 			w1[i] += eps;
 			artrans(q, w1, w3);
 			for (j = 0; j < q; ++j) {
-				A[i + j*N + v] = (w3[j] - w2[j]) / eps;
+				A[i + (j + v)*N + v] = (w3[j] - w2[j]) / eps;
 			}
 			w1[i] -= eps;
 		}
-- 
2.43.0


From abe68dfb029bf18f2e60659045a5db971142973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 028/114] fix: cpoly keeps the Cauchy bound that brackets the
 zero

---
 src/polyroot.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyroot.c b/src/polyroot.c
index d925e99..8cee59c 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -141,8 +141,10 @@ static double CAUCHY(int NN, double *PT, double *Q) {
         for (i = 1; i < NN; ++i) {
             F = F*XM + PT[i];
         }
-        X = XM;
-        XM *= 0.1; // Reduce XM for the next iteration
+        if (F > 0.0) {
+            X = XM;
+            XM *= 0.1; // Reduce XM for the next iteration
+        }
         iterations++; // Increment the iteration counter
     }
 
-- 
2.43.0


From f3639ca463ae75e57150a49f6948b00c6b54c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 029/114] fix: LU pivoting compares absolute values

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..abb88e1 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -900,7 +900,7 @@ static int pludecomp(double *A,int N,int *ipiv) {
 		mind = k;
 		for (j=k+1; j < N;++j) {
 			if (mval < fabs(A[j*N + k])) {
-				mval = A[j*N + k];
+				mval = fabs(A[j*N + k]);
 				mind = j;
 			}
 		}
@@ -953,7 +953,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -991,7 +991,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
-- 
2.43.0


From 5b48232457e586c1f884b6e2c2a6e80eeca6a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 030/114] fix: house reflects a negative one-dimensional
 remainder with beta 2

---
 src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index abb88e1..9c40454 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1406,7 +1406,7 @@ static double house_1(double*x,int N,double *v) {
 	if (sigma[0] == 0. && x[0] >= 0.) {
 		beta = 0.;
 	} else if (sigma[0] == 0. && x[0] < 0.) {
-		beta = -2.;
+		beta = 2.;
 	}else {
 		mu = sqrt(sigma[0] + x[0] * x[0]);
 		
-- 
2.43.0


From 459b93c4827b706306a589001866ab6346d167b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 031/114] fix: svd scales row i by its own entries

---
 src/lls.c    | 2 +-
 src/matrix.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index debe859..f5332a8 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -552,7 +552,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
diff --git a/src/matrix.c b/src/matrix.c
index 9c40454..9a10473 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2605,7 +2605,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
-- 
2.43.0


From 500f5419a9d440e32b15d63fd18c354d8e4d81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 032/114] fix: SVD least squares drops singular values that are
 negligible relative to the largest

---
 src/lls.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index f5332a8..c1cafc0 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -1342,7 +1342,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 	int retcode,P,mnmax,np,i,j,t,t2;
 	double *AB,*q,*V,*C;
-	double eps;
+	double eps,tol;
 
 	if (M > N) {
 		mnmax = M;
@@ -1374,6 +1374,8 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 
 	minfit(AB,M,N,P,q);
 
+	tol = array_max_abs(q,N) * mnmax * eps;
+
 	for(i = 0; i < N;++i) {
 		t = i * N;
 		t2 = i * np;
@@ -1385,7 +1387,7 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 	for(i = 0; i < N;++i) {
 		t = i *N;
 		for(j = 0; j < N;++j) {
-			if (fabs(q[j]) > eps) {
+			if (fabs(q[j]) > tol) {
 				V[t+j] /= q[j];
 			} else {
 				V[t+j] = 0.0;
@@ -1409,7 +1411,7 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	int retcode,i,j,t;
 	double *U,*V,*q,*C;
-	double eps;
+	double eps,tol;
 
 	U = (double*) malloc(sizeof(double) * M*N);
 	V = (double*) malloc(sizeof(double) * N*N);
@@ -1421,15 +1423,21 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 
 	retcode = svd(Ai,M,N,U,V,q);;
 	if (retcode != 0) {
+		free(U);
+		free(V);
+		free(q);
+		free(C);
 		return retcode;
 	}
 
+	tol = array_max_abs(q,N) * M * eps;
+
 	mmult(bi,U,C,1,M,N);
 
 	for(i = 0; i < N;++i) {
 		t = i *N;
 		for(j = 0; j < N;++j) {
-			if (fabs(q[j]) > eps) {
+			if (fabs(q[j]) > tol) {
 				V[t+j] /= q[j];
 			} else {
 				V[t+j] = 0.0;
@@ -1442,6 +1450,7 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	free(U);
 	free(V);
 	free(q);
+	free(C);
 
 	return retcode;
 }
-- 
2.43.0


From d4c905bb7b671f665be9f9fcab0faa83e34aafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 033/114] fix: blocked Cholesky reports an indefinite leading
 block

---
 src/matrix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 9a10473..669882e 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2287,7 +2287,14 @@ static int rbcholu(double *A,int N, int stride, double *UB, double *UT) {
 		b = (double*) malloc(sizeof(double) * bs);
 		U12T = (double*) malloc(sizeof(double) * Nb * bs);
 		U12 = (double*) malloc(sizeof(double) * Nb * bs);
-		rcholu(A,bs,stride,UB); // U11
+		sc = rcholu(A,bs,stride,UB); // U11
+		if (sc == -1) {
+			free(U12T);
+			free(U12);
+			free(b);
+			free(x);
+			return -1;
+		}
 		
 		for (i =0; i < bs;++i) {
 			t = i *stride;
-- 
2.43.0


From 13df1727f27eba5f1da5108c1a496135bdea6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 034/114] fix: least-squares and bidiagonalisation kernels free
 their work arrays

---
 src/lls.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lls.c b/src/lls.c
index c1cafc0..b935029 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -30,6 +30,11 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 
 	sc = chol(C,N);
 	if (sc == -1) {
+		free(AT);
+		free(d);
+		free(C);
+		free(y);
+		free(CT);
 		return -1;
 	}
 
@@ -65,6 +70,7 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 	free(d);
 	free(C);
 	free(y);
+	free(CT);
 	return retcode;
 }
 
@@ -352,6 +358,7 @@ void bidiag(double *A, int M, int N) {
 	free(x);
 	free(v);
 	free(AT);
+	free(w);
 
 }
 
@@ -471,6 +478,7 @@ void bidiag_orth(double *A, int M, int N,double *U,double *V) {
 	free(x);
 	free(v);
 	free(AT);
+	free(w);
 
 }
 
-- 
2.43.0


From 72268038fde64014c4ef3ed9ac550a61a4825ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 035/114] fix: eigenvalue iteration converges with exceptional
 shifts and frees its buffers

---
 src/matrix.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 669882e..7c3b2fc 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1861,31 +1861,25 @@ void hessenberg(double *A,int N) {
 	free(w);
 }
 
-void francisQR(double *A,int N) {
+static void francis_step(double *A,int N,double s,double t2) {
 	int m,n,k,q,r,t,u,i,j;
-	double s,t2,beta;
+	double beta;
 	double *x,*v,*AT,*w;
-	int NN;
 	/*
 	 * Reference - Algorithm 7.5.1 Golub,van Loan Matrix Computations 3rd Edition
 	 */ 
+	if (N <= 2) {
+		return;
+	}
 	x = (double*) malloc(sizeof(double) * 3);
 	v = (double*) malloc(sizeof(double) * 3);
 	AT = (double*) malloc(sizeof(double) * 3 * N);
 	w = (double*) malloc(sizeof(double) * N);
 	n = N-1;
 	m = n-1;
-	NN = N*N;
-	
-	s = A[NN-1] + A[NN-N-2];
-	t2 = A[NN-1] * A[NN-N-2] - A[NN-2] * A[NN-N-1];
-	
 	x[0] = A[0]*A[0] + A[1]*A[N] - s*A[0] + t2;
 	x[1] = A[N]*(A[0] + A[N+1] - s);
 	x[2] = A[N] * A[N+N+1];
-	if (N <= 2) {
-		return;
-	}
 	
 	for (k = -1; k < N - 3;++k) {
 		
@@ -2005,6 +1999,20 @@ void francisQR(double *A,int N) {
 	
 }
 
+void francisQR(double *A,int N) {
+	int NN;
+	double s,t2;
+
+	NN = N*N;
+	if (N <= 2) {
+		return;
+	}
+	s = A[NN-1] + A[NN-N-2];
+	t2 = A[NN-1] * A[NN-N-2] - A[NN-2] * A[NN-N-1];
+
+	francis_step(A,N,s,t2);
+}
+
 void eig22(double *A, int stride,double *eigre,double *eigim) {
 	int N;
 	double a11,a12,a21,a22,c,s,c2,s2,cs,t1,t,t2,at11,at12,at21,at22;
@@ -2063,6 +2071,7 @@ void eig22(double *A, int stride,double *eigre,double *eigim) {
 int francis_iter(double *A, int N, double *H) {
 	int success,brkpoint;
 	int i,j,it,p,q,t,u;
+	double s;
 	double *temp;
 	success = 0;
 	brkpoint = 30 * N;
@@ -2085,7 +2094,7 @@ int francis_iter(double *A, int N, double *H) {
 			}
 		}
 		
-		if (p > 0) {
+		if (p > 1) {
 			q = p-1;
 			while (q > 0 && fabs(H[N*q + q-1]) != 0) {
 				q--;
@@ -2098,7 +2107,13 @@ int francis_iter(double *A, int N, double *H) {
 					temp[u+j-q] = H[t+j];
 				}
 			}
-			francisQR(temp,p-q+1);
+			if (it % 10 == 9) {
+				// exceptional shift
+				s = fabs(H[N*p + p-1]) + fabs(H[N*(p-1) + p-2]);
+				francis_step(temp,p-q+1,1.5*s,s*s);
+			} else {
+				francisQR(temp,p-q+1);
+			}
 			for (i=q; i <= p; i++) {
 				t = i * N;
 				u = (i-q) * (p-q+1);
-- 
2.43.0


From 55904869be2ca623aac2988951f67b5b46661e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 036/114] fix: house treats a negligible remainder as zero
 instead of losing orthogonality to underflow

---
 src/matrix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 7c3b2fc..35ecb33 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1403,6 +1403,14 @@ static double house_1(double*x,int N,double *v) {
 		v[i] = x[i];
 	}
 	
+	if (sigma[0] <= 1e-34 * x[0] * x[0]) {
+		// negligible remainder, v[0]*v[0] could underflow below
+		sigma[0] = 0.;
+		for (i = 1; i < N;++i) {
+			v[i] = 0.;
+		}
+	}
+	
 	if (sigma[0] == 0. && x[0] >= 0.) {
 		beta = 0.;
 	} else if (sigma[0] == 0. && x[0] < 0.) {
-- 
2.43.0


From 42e1d8a32704173df14e08b031393bae3957e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 037/114] fix: eigenvalue deflation also accepts subdiagonals
 negligible to the matrix norm

---
 src/matrix.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 35ecb33..026b9d9 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2079,7 +2079,7 @@ void eig22(double *A, int stride,double *eigre,double *eigim) {
 int francis_iter(double *A, int N, double *H) {
 	int success,brkpoint;
 	int i,j,it,p,q,t,u;
-	double s;
+	double s,norm;
 	double *temp;
 	success = 0;
 	brkpoint = 30 * N;
@@ -2091,6 +2091,7 @@ int francis_iter(double *A, int N, double *H) {
 	}
 	
 	hessenberg(H,N);
+	norm = l2norm(H,N*N);
 	
 	while (p > 1 && it < brkpoint) {
 		
@@ -2131,7 +2132,8 @@ int francis_iter(double *A, int N, double *H) {
 			}
 			//mdisplay(H,N,N);
 			for(i = q; i <= p-1;++i) {
-				if ( fabs(H[(i+1)*N+i]) <= TOL * (fabs(H[i*N+i]) + fabs(H[(i+1)*N+i+1]) ) ) {
+				s = fabs(H[i*N+i]) + fabs(H[(i+1)*N+i+1]);
+				if ( fabs(H[(i+1)*N+i]) <= TOL * s || fabs(H[(i+1)*N+i]) <= DBL_EPSILON * norm ) {
 					H[(i+1)*N+i] = 0.;
 				}
 			}
-- 
2.43.0


From ad1955c649bc05e9d23bedf6d2f3ed6589749e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 038/114] fix: regression confidence limits use the upper t
 quantile

tinv(alpha/2) is the negative lower quantile, so lower and upper were swapped.
---
 src/regression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index c27b46a..79e6331 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -157,7 +157,7 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	a2 = alpha / 2.;
 	df = N - 2; // Number of parameters = 2
 
-	ta2 = tinv(a2, df);
+	ta2 = tinv(1.0 - a2, df);
 	intrvl = ta2 * seb1;
 
 	ci_lower[0] = b[0] - intrvl;
@@ -342,7 +342,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	for (i = 0; i < p; ++i) {
 		seb[i] = sqrt(xxti[i*(p + 1)]);
 
-		ta2 = tinv(a2, df);
+		ta2 = tinv(1.0 - a2, df);
 		intrvl = ta2 * seb[i];
 
 		ci_lower[i] = b[i] - intrvl;
-- 
2.43.0


From af625e0cf6b338e837f1f62db2e2965ba211e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 039/114] fix: linreg_clrm does not print to the standard
 output

---
 src/regression.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 79e6331..ad60924 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -185,7 +185,6 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	anv[3] = 1;
 	anv[4] = (double)df;
 	anv[5] = (anv[1] / anv[3]) / (anv[2] / anv[4]);
-	printf("%lf \n", var[0]);
 	anv[6] = 1.0 - fcdf(anv[5], 1, df);
 
 	free(xi);
-- 
2.43.0


From 9113424cb30e2284e1928c7c37350653d538f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 040/114] fix: regress_poly keeps the fractional part of the
 powers

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index ad60924..0ac0991 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -636,7 +636,7 @@ void regress_poly(reg_object obj, double *x, double *y, double *res, double *var
 	sum = obj->N;
 	for (i = 1; i < polydeg; ++i) {
 		for (j = 0; j < obj->N; ++j) {
-			xx[sum + j] = (int)pow((double)x[j], (double)i + 1.);
+			xx[sum + j] = pow((double)x[j], (double)i + 1.);
 		}
 		sum += obj->N;
 	}
-- 
2.43.0


From 061b201564ae9ace941c4899fa0d91659995d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 041/114] fix: regression F test uses p degrees of freedom
 without an intercept and is NaN for the intercept alone

---
 src/regression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 0ac0991..5f1351a 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -397,6 +397,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
+			anv[5] = NAN;
+			anv[6] = NAN;
 		}
 		else if (p > 1) {
 			anv[1] = R2[0] * (*bt - N*ym2);
@@ -427,7 +429,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[6] = 1.0 - fcdf(anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
-- 
2.43.0


From 1913d53653b2d096acfd169b7f68e48d9bd49d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 042/114] fix: regression AICc counts the intercept like AIC
 and BIC

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 5f1351a..0749495 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -593,7 +593,7 @@ void regress(reg_object obj, double *x, double *y, double *res, double *varcovar
 
 	obj->aic = -2.0 * obj->loglik + 2.0 * (double)(k + dfm);
 	obj->bic = -2.0 * obj->loglik + log((double)obj->N) * (double)(k + dfm);
-	obj->aicc = obj->aic + 2.0 * dfm * ((double)obj->N / ((double)obj->N - dfm - 1.0) - 1.0);
+	obj->aicc = obj->aic + 2.0 * (k + dfm) * ((double)obj->N / ((double)obj->N - (k + dfm) - 1.0) - 1.0);
 
 	free(anv2);
 	free(b2);
-- 
2.43.0


From 5c579b3fd165e946c015bca109bced9da2080568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 043/114] fix: regression sums of squares come from the
 residuals

y'y - b'X'y cancels for close fits: the residual variance and the F
statistic became negative and fcdf ended the process.
---
 src/regression.c | 89 ++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index 0749495..2a37c83 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -206,6 +206,15 @@ void zerohyp_clrm(int N, double *b, double *val, double *tval, double *pval) {
 	pval[1] = 1.0 - tcdf(fabs(tval[1]), df);
 }
 
+static double regPVal(double F, int df1, int df2) {
+	// Upper tail of the F distribution. F is infinite for an exact fit and
+	// undefined if the dependent variable does not vary.
+	if (F != F) {
+		return NAN;
+	}
+	return isinf(F) ? 0.0 : 1.0 - fcdf(F, df1, df2);
+}
+
 void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2,
 	double *xxti, double *R2, double *res, double alpha, double *anv,
 	double* ci_lower, double* ci_upper, int *rank, char *llsmethod, int intercept) {
@@ -214,10 +223,10 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	intercept - 1 : include intercept term. 0 : No intercept term
 	*/
 	double *x, *xt, *seb, *xb;
-	double *xxt, *yxt, *temp1, *temp2, *bt, *xxt2;
+	double *xxt, *yxt, *xxt2;
 	int i, df;
 	int *ipiv;
-	double tmp1, sum, ym, ym2, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss;
+	double tmp1, sum, ym, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss, tss, ess;
 
 	/*
 	* Matrix Based Multiple Regression
@@ -234,10 +243,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	yxt = (double*)malloc(sizeof(double) * p);
 	ipiv = (int*)malloc(sizeof(int) * p);
 	//yt = (double*) malloc (sizeof(double) * N);
-	temp1 = (double*)calloc(1, sizeof(double));
-	temp2 = (double*)malloc(sizeof(double) * p);
 	seb = (double*)malloc(sizeof(double) * p);
-	bt = (double*)calloc(1, sizeof(double));
 
 	// Initalize xt matrix - Transpose Matrix is initilaized first to
 	// deal with column major nature of the X matrix
@@ -301,12 +307,22 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	//mtranspose(y,N,1,yt);
 	df = N - p;
-	mmult(y, y, bt, 1, N, 1);
-	mmult(xt, y, temp2, p, N, 1);
-	mmult(b, temp2, temp1, 1, p, 1);
 
-	*sigma2 = *bt - *temp1;
-	*sigma2 /= (double)df;
+	//Residual
+	/* u = y - Xb
+	*/
+	mmult(x, b, xb, N, p, 1);
+
+	mss = 0.0;
+	rss = 0.0;
+
+	for (i = 0; i < N; ++i) {
+		res[i] = y[i] - xb[i];
+		mss += (xb[i] * xb[i]);
+		rss += (res[i] * res[i]);
+	}
+
+	*sigma2 = rss / (double)df;
 	tmp1 = *sigma2;
 
 	// Variance-Covariance Matrix of beta parameters
@@ -324,9 +340,13 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 		sum += y[i];
 	}
 	ym = sum / N;
-	ym2 = ym * ym;
+	tss = 0.0;
+	for (i = 0; i < N; ++i) {
+		tss += (y[i] - ym) * (y[i] - ym);
+	}
+	ess = tss > rss ? tss - rss : 0.0;
 
-	R2[0] = (*temp1 - N*ym2) / (*bt - N*ym2);
+	R2[0] = ess / tss;
 
 	// Adjusted r^2
 
@@ -357,24 +377,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	ci_lower[p] = (double)df * tmp1 / chi1a2;
 	ci_upper[p] = (double)df * tmp1 / chia2;
 
-	//Residual
-	/* u = y - Xb
-	*/
-	mmult(x, b, xb, N, p, 1);
-
-	for (i = 0; i < N; ++i) {
-		res[i] = y[i] - xb[i];
-	}
-
-
-	mss = 0.0;
-	rss = 0.0;
-
-	for (i = 0; i < N; ++i) {
-		mss += (xb[i] * xb[i]);
-		rss += (res[i] * res[i]);
-	}
-
 	// ANOVA
 
 	/*
@@ -392,22 +394,22 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	if (intercept == 1) {
 		if (p == 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
-			anv[0] = anv[1] + anv[2];
+			anv[1] = ess;
+			anv[2] = rss;
+			anv[0] = tss;
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
 			anv[5] = NAN;
 			anv[6] = NAN;
 		}
 		else if (p > 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
-			anv[0] = anv[1] + anv[2];
+			anv[1] = ess;
+			anv[2] = rss;
+			anv[0] = tss;
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
-			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[5] = (anv[1] / anv[3]) / (anv[2] / anv[4]);
+			anv[6] = regPVal(anv[5], p - 1, df);
 		}
 	}
 	else {
@@ -419,8 +421,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p;
 			anv[4] = (double)df;
-			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p, df);
+			anv[5] = (anv[1] / anv[3]) / (anv[2] / anv[4]);
+			anv[6] = regPVal(anv[5], p, df);
 		}
 		else if (p > 1) {
 			anv[1] = mss;
@@ -428,8 +430,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = anv[1] + anv[2];
 			anv[3] = (double)p;
 			anv[4] = (double)df;
-			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p, df);
+			anv[5] = (anv[1] / anv[3]) / (anv[2] / anv[4]);
+			anv[6] = regPVal(anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
@@ -449,9 +451,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	free(xxt);
 	free(xxt2);
 	free(yxt);
-	free(temp1);
-	free(temp2);
-	free(bt);
 	free(seb);
 	free(xb);
 }
-- 
2.43.0


From ada1514c092bcc8aaa32360caead2f8426576d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 044/114] fix: simple regression F test stays in the domain of
 the F distribution for exact fits

---
 src/regression.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index 2a37c83..d6636e8 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -61,6 +61,15 @@ reg_object reg_init(int N, int p) {
 	return obj;
 }
 
+static double regPVal(double F, int df1, int df2) {
+	// Upper tail of the F distribution. F is infinite for an exact fit and
+	// undefined if the dependent variable does not vary.
+	if (F != F) {
+		return NAN;
+	}
+	return isinf(F) ? 0.0 : 1.0 - fcdf(F, df1, df2);
+}
+
 void linreg_clrm(double *x, double *y, int N, double* b,
 	double *var, double *res, double alpha, double *anv,
 	double* ci_lower, double* ci_upper) {
@@ -181,11 +190,11 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	df = N - 2;
 	anv[0] = den3;
 	anv[2] = var[0] * (double)df;
-	anv[1] = den3 - anv[2];
+	anv[1] = den3 > anv[2] ? den3 - anv[2] : 0.0;
 	anv[3] = 1;
 	anv[4] = (double)df;
 	anv[5] = (anv[1] / anv[3]) / (anv[2] / anv[4]);
-	anv[6] = 1.0 - fcdf(anv[5], 1, df);
+	anv[6] = regPVal(anv[5], 1, df);
 
 	free(xi);
 	free(yi);
@@ -206,15 +215,6 @@ void zerohyp_clrm(int N, double *b, double *val, double *tval, double *pval) {
 	pval[1] = 1.0 - tcdf(fabs(tval[1]), df);
 }
 
-static double regPVal(double F, int df1, int df2) {
-	// Upper tail of the F distribution. F is infinite for an exact fit and
-	// undefined if the dependent variable does not vary.
-	if (F != F) {
-		return NAN;
-	}
-	return isinf(F) ? 0.0 : 1.0 - fcdf(F, df1, df2);
-}
-
 void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2,
 	double *xxti, double *R2, double *res, double alpha, double *anv,
 	double* ci_lower, double* ci_upper, int *rank, char *llsmethod, int intercept) {
-- 
2.43.0


From e36f1eab29b10a6726ae1721abf94fdc8414b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 045/114] fix: mase does not leak an unused buffer

---
 src/errors.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/errors.c b/src/errors.c
index f3bd2e8..ea5ea9e 100644
--- a/src/errors.c
+++ b/src/errors.c
@@ -118,13 +118,10 @@ double mpe(double *predicted, double *actual, int N) {
 
 double mase(double *predicted, double *actual, int N, double *tseries, int length) {
     double err,temp,den;
-    double *dif;
     int i;
 
     // tseries : Only training values are included
 
-    dif = (double*)malloc(sizeof(double)* (N-1));
-
     temp = 0.0;
 
     for(i = 1; i < length;++i) {
-- 
2.43.0


From f3afdd71370520e7c25e1a261070ef0dbbacc4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 046/114] fix: the super-smoother window stays inside short
 samples

---
 src/talg.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/talg.c b/src/talg.c
index 8de0419..93b474c 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1249,6 +1249,10 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	ibw = 2;
     }
     it = (ibw << 1) + 1;
+    if (jper != 2 && it > *n) {
+	/* the window cannot be wider than the sample */
+	it = *n;
+    }
     i__1 = it;
     for (i__ = 1; i__ <= i__1; ++i__) {
 	j = i__;
@@ -1504,7 +1508,13 @@ static int supsmu_(int *n, double *x, double *y, double *w, int *iper, double *s
     return 0;
 L30:
     i__ = *n / 4;
+    if (i__ < 1) {
+	i__ = 1;
+    }
     j = i__ * 3;
+    if (j > *n) {
+	j = *n;
+    }
     scale = x[j] - x[i__];
 L40:
     if (scale > 0.f) {
@@ -1526,7 +1536,7 @@ L50:
     if (*iper == 2 && (x[1] < 0.0 || x[*n] > 1.0)) {
 	jper = 1;
     }
-    if (jper < 1 || jper > 2) {
+    if (jper < 1 || jper > 2 || *n < 3) {
 	jper = 1;
     }
     if (*span <= 0.0) {
-- 
2.43.0


From d4bc556c9870f807d6a9f1abefc1e878d46b9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 047/114] fix: psd does not read past the series when it is
 zero-padded

---
 src/spectrum.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectrum.c b/src/spectrum.c
index 63985f7..6c1a1c7 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -134,7 +134,7 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
 	int i,N,N2,NO;
-	double m,NP;
+	double NP;
 	fft_data *inp;
 	fft_data *oup;
 	
@@ -145,7 +145,6 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
 	for (i = 0; i < NO;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
-- 
2.43.0


From 24836c6332359a8710c5a2614286241a3bab5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 048/114] fix: spectral estimates free their buffers and plans

---
 src/spectrum.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spectrum.c b/src/spectrum.c
index 6c1a1c7..089036e 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -59,7 +59,6 @@ void spectrum_shift(double* spec,int N) {
 
 void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
 	int i,N,t,N2;
-	double m;
 	fft_data *inp;
 	fft_data *oup;
 	
@@ -68,7 +67,6 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
 	for (i = 0; i < N;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
@@ -130,6 +128,8 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
@@ -212,6 +212,8 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,int Nfft, int side) {
@@ -264,9 +266,15 @@ void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,in
 	
 	free_fft(fobj);
 	free(acov);
+	free(inp);
+	free(oup);
 }
 
 void free_spectrum(spectrum_fft_object object) {
+	if (object->fobj2 != object->fobj) {
+		free_fft(object->fobj2);
+	}
+	free_fft(object->fobj);
 	free(object);
 }
 
-- 
2.43.0


From 3b58a6187739031286e0ba259348a8911a600876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 049/114] fix: checkConstant compares the first two values as
 well

---
 src/boxcox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..75b45c8 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -8,7 +8,7 @@ int checkConstant(double *x, int N) {
 
     /// heap buffer overflow fix, since accessing x[i+1] need to 
     /// stop loop at -1 index from end of array as dictated by length defined by N
-    for(i = 1; i < N - 1;++i) {
+    for(i = 0; i < N - 1;++i) {
         diff = x[i+1] - x[i];
         if (fabs(diff) > 0) {
             return cc;
-- 
2.43.0


From ac9f4b50b913038f4f334e9b653686e9c266b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 050/114] fix: boxcox checks for negative values instead of
 reading an uninitialised flag

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index 75b45c8..dbe3c10 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From 24b71cbb4dcc60f83103b24f70f260472c8fc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 051/114] fix: inv_boxcox_eval returns a value

---
 src/boxcox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index dbe3c10..b86e958 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -65,6 +65,8 @@ double inv_boxcox_eval(double *x,int N, double lambda,double *bxcx) {
             bxcx[i] = exp(log1p(lambda * x[i])/lambda);
         }
     }
+
+    return lambda;
 }
 
 double boxcox_loglik(double lambda, void *params) {
-- 
2.43.0


From 3fea164b2811d86eb361e0a88f13dc6356efcff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 052/114] fix: beta density at the ends of the interval

---
 src/dist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dist.c b/src/dist.c
index 0dfa448..ded7d31 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -725,13 +725,13 @@ double betapdf(double x, double a , double b) {
 		exit(1);
 	} 
 	
-	if (a == 1. || x == 0.) {
+	if (a == 1.) {
 		la = 0.;
 	} else {
 		la = (a - 1.) * log(x);
 	}
 	
-	if (b == 1. || x == 1.) {
+	if (b == 1.) {
 		lb = 0.;
 	} else {
 		lb = (b - 1.) * log(1. - x);
-- 
2.43.0


From 608afb3ccf4703a035d8d86e741f1ae68692b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 053/114] fix: gamma density at zero is zero or infinite
 according to the shape instead of ending the process

---
 src/pdist.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 877eefb..08fa1f1 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -295,11 +295,12 @@ double gammapdf(double x, double k, double th) {
 		oup = exp ((k-1) *log(t) - t - gamma_log(k)) /th;
 	} else if (t < 0.) {
 		oup = 0.0;
-	} else if (t == 0.0 && k == 1) {
+	} else if (k == 1) {
 		oup = 1.0 / th;
+	} else if (k > 1) {
+		oup = 0.0;
 	} else {
-		printf("The Output is Complex and cannot be determined");
-		exit(1);
+		oup = XINFVAL;
 	}
 	
 	return oup;
-- 
2.43.0


From 1c177436ba36977a4ba12315f2bf8935c1df9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 054/114] fix: tcdf of a huge argument is the tail value, not
 one half

---
 src/pdist.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 08fa1f1..e0604b9 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -93,11 +93,6 @@ double tcdf(double t, int df) {
 		oup = 1. - oup;
 	}
 	
-	if ( x == 0.) {
-		oup = 0.5;
-	}
-	
-	
 	return oup;
 }
 
-- 
2.43.0


From dcf0ddc44a1392d2d56eabb0b2b44fea9a8baf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 055/114] fix: tinv of a lower-tail probability is negative for
 up to 1000 degrees of freedom

---
 src/pdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdist.c b/src/pdist.c
index e0604b9..126264c 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -178,7 +178,7 @@ double tinv(double p, int df) {
 		x = betainv(pmin,d2,0.5);
 		y = 1. - x;
 		
-		t = sqrt( (double) df * y / x);
+		t = sign * sqrt( (double) df * y / x);
 	}
 	
 	if ( p > 0. && p < 1. && df > 1000 ) {
-- 
2.43.0


From 0e1be262010748f1444bc4b4f7e75744055e5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 056/114] fix: start every BFGS/L-BFGS line search from the
 unit step instead of the previous step length

---
 src/secant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/secant.c b/src/secant.c
index 6a0723b..acba3fe 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -715,6 +715,7 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 		}
 
 		//retval = lnsrch(funcpt, xc, jac, step, N, dx, maxstep, stol, xf);
+		alpha = 1.0;
 		retval = lnsrchmt(funcpt,funcgrad, xc, &fxf, jac, &alpha, step, N, dx, maxstep,MAXITER,eps2,ftol, gtol, xtol, xf);
 
 		//rcode = stopcheck(fxf, N, xc, xf, jacf, dx, fsval, gtol, stol, retval);
@@ -998,6 +999,7 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 
 		//scale(jac,1,N,-1.0);
 		//retval = lnsrchmod(funcpt,xc,jac,step,N,dx,maxstep,stol,xf,jacf);
+		alpha = 1.0;
 		retval = lnsrchmt(funcpt,funcgrad, xc, &fxf, jac, &alpha, step, N, dx, maxstep,MAXITER,eps2,ftol, gtol, xtol, xf);
 		//retval = lnsrch(funcpt,xc,jac,step,N,dx,maxstep,stol,xf);
 
-- 
2.43.0


From 93a1f7966f47affc82604660ecd76c13ec3999c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 057/114] fix: skip the BFGS update when the step shows no
 positive curvature (division by zero gave NaN)

---
 src/secant.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secant.c b/src/secant.c
index acba3fe..f8be6cf 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -83,7 +83,7 @@ void bfgs_naive(double *H,int N,double eps,double *xi,double *xf,double *jac,dou
 	
 	mmult(yk,sk,temp,1,N,1);
 	
-	if (temp[0] >= fd*sn*yn) {
+	if (temp[0] > 0.0 && temp[0] >= fd*sn*yn) {
 		supd = 1;
 		for(i = 0; i < N;++i) {
 			t[i] = 0.0;
@@ -364,7 +364,7 @@ void bfgs_factored(double *H,int N,double eps,double *xi,double *xf,double *jac,
 	
 	mmult(yk,sk,temp,1,N,1);
 	
-	if (temp[0] >= fd*sn*yn) {
+	if (temp[0] > 0.0 && temp[0] >= fd*sn*yn) {
 		for(i = 0; i < N;++i) {
 			t[i] = 0.0;
 			for(j = i; j < N;++j) {
-- 
2.43.0


From 2e032a9976a59eeb902119eaf3c935e2774dba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 058/114] fix: Nelder-Mead returns the best point found and
 probes around it, not around a displaced one

---
 src/neldermead.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neldermead.c b/src/neldermead.c
index 58a1f0c..130e504 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -291,6 +291,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			} else {
 				ctl++;
 			}
+				xmin[i] = P[ct + i];
 		}
 
 		if (ctl == 0) {
@@ -303,9 +304,8 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	}
 
-	ct = N * N;
 	for (i = 0; i < N;++i) {
-		xf[i] = P[ct + i];
+		xf[i] = xmin[i];
 	}
 
 	if (rcode == 0 && *niter >= siter) {
-- 
2.43.0


From e115bb8d4b3949b3f1ae975af3cde366a9676b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 059/114] fix: Newton minimisers start at the given point
 whatever the scaling vector

---
 src/newtonmin.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/newtonmin.c b/src/newtonmin.c
index 6943d1e..2ecbc56 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -1287,7 +1287,6 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	//stol = gtol * gtol;
 	//set values
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -1408,7 +1407,6 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 
 	
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
@@ -1813,7 +1811,6 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	}
 	ioval[0] = delta;
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -1941,7 +1938,6 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	}
 	
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
-- 
2.43.0


From a1b0526a78b9c7176b029c33061dc76823b235b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 060/114] fix: Nelder-Mead shrinks towards the current best
 vertex, not a stale one

---
 src/neldermead.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neldermead.c b/src/neldermead.c
index 130e504..725c92f 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -184,6 +184,9 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 					} else {
 
 						//ctl = ilo * N;
+						for (i = 0; i < N;++i) {
+							PL[i] = P[ilo * N + i];
+						}
 						for(i = 0; i < NN;++i) {
 							ct = i * N;
 							for (j = 0;j < N;++j) {
-- 
2.43.0


From e38632d1585c415395e22c3d833a4851fbb7a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 061/114] fix: Nelder-Mead restarts from the improved point
 instead of overwriting another vertex

---
 src/neldermead.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neldermead.c b/src/neldermead.c
index 725c92f..477ece8 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -63,6 +63,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	while (ctl == 0 && *niter < siter) {
 		// Create N+1 point Simplex
+		ct = N * N;
 		for (i = 0; i < N;++i) {
 			P[ct + i] = xi[i];
 		}
-- 
2.43.0


From a562f0a1d43f21d16ac60a3c38aaedbeaebde472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:16 +0000
Subject: [PATCH 062/114] fix: nls after nls_scale uses its own scaling, not an
 uninitialised diagonal

---
 src/optimc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimc.c b/src/optimc.c
index b4b3e59..ad3a4d8 100644
--- a/src/optimc.c
+++ b/src/optimc.c
@@ -95,6 +95,7 @@ nls_object nls_init(int M,int N) {
 	obj->njev = 0;
 	obj->ldfjac = M;
 	obj->mode = 1;
+	obj->retval = 0;
 
 	if (obj->MaxIter < 1000) {
 		obj->MaxIter = 1000;
@@ -513,6 +514,7 @@ void nls(nls_object obj, custom_funcmult *funcmult, custom_jacobian *jacobian,
 
 	M = obj->M;
 	N = obj-> N;
+	obj->mode = 1; // internal scaling, also after nls_scale
 	nprint = 0;
 
 	fvec = (double*) malloc(sizeof(double) *M);
-- 
2.43.0


From 70210b46c22550129757538aaa9a2a2a1e71133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:16 +0000
Subject: [PATCH 063/114] fix: Levenberg-Marquardt input checks leaked the work
 arrays

---
 src/nls.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nls.c b/src/nls.c
index 6278e22..06e5e31 100644
--- a/src/nls.c
+++ b/src/nls.c
@@ -806,11 +806,13 @@ c         the first n elements of the vector (q transpose)*fvec.
     *njev = 0;
 
     if (N <= 0 || M < N || ldfjac < M || ftol < zero || xtol < zero || gtol < zero || maxfev <= 0 || factor <= zero) {
+    	free(wa1); free(wa2); free(wa3); free(wa4);
     	return info;
     }
     if (mode == 2) {
 		for(j = 0; j < N;++j) {
 			if (diag[j] <= 0.0) {
+				free(wa1); free(wa2); free(wa3); free(wa4);
 				return info;
 			}
 		}
@@ -1216,12 +1218,14 @@ c         the first n elements of the vector (q transpose)*fvec.
     *njev = 0;
 
     if (N <= 0 || M < N || ldfjac < M || ftol < zero || xtol < zero || gtol < zero || maxfev <= 0 || factor <= zero) {
+    	free(wa1); free(wa2); free(wa3); free(wa4);
     	return info;
     }
 
     if (mode == 2) {
 		for(j = 0; j < N;++j) {
 			if (diag[j] <= 0.0) {
+				free(wa1); free(wa2); free(wa3); free(wa4);
 				return info;
 			}
 		}
-- 
2.43.0


From a3186fab37e6ea3e8cab65f752a7924f4311d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:30 +0000
Subject: [PATCH 064/114] fix: finite-difference Jacobian steps do not vanish
 at coordinates that are zero up to rounding

---
 src/nls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nls.c b/src/nls.c
index 06e5e31..d5f78df 100644
--- a/src/nls.c
+++ b/src/nls.c
@@ -408,7 +408,7 @@ void fdjac2(custom_funcmult *funcmult, double *x, int M, int N, double *fvec, do
 	for(j = 0; j < N;++j) {
         temp = x[j];
         h = eps*fabs(temp);
-        if (h == zero) {
+        if (fabs(temp) < epsmch) { // zero up to rounding: a relative step would vanish in the function values
         	h = eps;
         }
         x[j] = temp + h;
-- 
2.43.0


From 59deb00c08ca3b82af24e21a28355c150a47dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 065/114] fix: partial sort of the STL robustness weights
 truncated residuals to integers

---
 src/stl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl.c b/src/stl.c
index af4d106..a29349d 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -712,7 +712,7 @@ int psort_(double *a, int n, int *ind, int ni)
     int i__, j, k, l, m, p;
     double t;
     int ij, il[16], jl, iu[16], ju;
-    int tt;
+    double tt;
     int indl[16], indu[16];
 
 
-- 
2.43.0


From a614279e41d1638c8f7c94e52a0f35ea86f571ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 066/114] fix: stl uses the given t_window and outer, and
 degree 0 for a periodic seasonal

---
 src/seastest.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..95014e1 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -220,9 +220,11 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     if (t_window == NULL) {
         t_window_ = nextOdd(ceil( 1.5 * f / (1.0 - 1.5 / (double) s_window_)));
+    } else {
+        t_window_ = *t_window;
     }
 
-    s_degree_ = (s_degree == NULL) ? 0 : *s_degree;
+    s_degree_ = (s_degree == NULL || periodic_) ? 0 : *s_degree;
 
     //if (t_window == NULL) *t_window = 0;
     t_degree_ = (t_degree == NULL) ? 1 : *t_degree;
@@ -234,7 +236,7 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     robust_ = (robust == NULL) ? 0 : *robust;
     inner_ = (inner == NULL) ? (robust_ ? 1 : 2) : *inner;
-    outer_ = (inner == NULL) ? (robust_ ? 15 : 0) : *outer;
+    outer_ = (outer == NULL) ? (robust_ ? 15 : 0) : *outer;
 
     
     s_degree_ = degCheck(s_degree_);
-- 
2.43.0


From ac9f0e8e99faeecc372b4b880b84fc06a9554282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 067/114] fix: seasonal means of stl allocated f times too much

---
 src/seastest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 95014e1..78283d7 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -168,8 +168,8 @@ static void applySeasonalMean(double *x,int N,int *cycle,int f) {
     double *seasonal_means;
     int *cval;
 
-    seasonal_means = (double*)calloc(f,sizeof(double)*f);
-    cval = (int*)calloc(f,sizeof(int)*f);
+    seasonal_means = (double*)calloc(f,sizeof(double));
+    cval = (int*)calloc(f,sizeof(int));
 
     for(i = 0; i < N;++i) {
         cval[cycle[i]] += 1;
-- 
2.43.0


From 62e2b4d9d0d456aa7f2cf5d7b87636a7b11a38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 068/114] fix: median of the STL robustness weights asked the
 partial sort for descending positions

---
 src/stl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index a29349d..86cd365 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -469,8 +469,8 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
 	rw[i__] = (d__1 = y[i__] - fit[i__], fabs(d__1));
 /* L7: */
     }
-    mid[0] = *n / 2 + 1;
-    mid[1] = *n - mid[0] + 1;
+    mid[1] = *n / 2 + 1;
+    mid[0] = *n - mid[1] + 1; /* psort_ needs ascending indices */
     psort_(&rw[1], *n, mid, c__2);
     cmad = (rw[mid[0]] + rw[mid[1]]) * 3.0;
 /*     = 6 * MAD */
-- 
2.43.0


From 6b8963dca8bd3736aa304ec3a624c69cf1667d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 069/114] fix: mstl applies the sort of its seasonal periods

---
 src/seastest.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index 78283d7..0a7e728 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -336,6 +336,13 @@ void mstl(double *x, int N, int *f, int *Nseas, int *s_window,double *lambda,int
 
     if (Niter > 0) {
 
+        t = (double*) malloc(sizeof(double)*Niter);
+        for(i = 0; i < Niter;++i) {
+            t[i] = msts[pos[i]];
+        }
+        memcpy(msts,t,sizeof(double)*Niter);
+        free(t);
+
         seas = (double*)calloc(Niter*N,sizeof(double));
         deseas = (double*)calloc(N,sizeof(double));
 
-- 
2.43.0


From 9d6d12927e8b20ec597c10cdb718e1bae142caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 070/114] fix: SHtest left the strength of periods too long for
 the series unset

---
 src/seastest.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index 0a7e728..fe609bd 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -745,6 +745,10 @@ void SHtest(double *x, int N, int *f, int Nseas, double *season) {
         season[j] = tmp1 > 0 ? tmp1 : 0;
 
     }
+
+    for(j = Niter; j < Nseas;++j) {
+        season[j] = 0.0; // period too long for the series
+    }
     
     for(i = 0; i < Nseas;++i) {
         free(seasonal[i]);
-- 
2.43.0


From 567b0a945dda1b994e9c63676c21ff7147d7f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 071/114] fix: decompose aligns the seasonal component with
 trend and remainder and fills all of it

---
 src/seastest.c | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index fe609bd..42e736a 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -28,7 +28,7 @@ static void findMeans(double *x, int N, int stride, double *means) {
 }
 
 void decompose(double *x,int N, int f,double *filter, const char *type, double *trend, int *ltrend, double *seas, int *lseas, double *random, int *lrandom) {
-    int isOdd,i,j,f2,clen,batches;
+    int isOdd,i,f2,clen;
     double *filt,*cout,*detrend,*seasonalmeans;
 
 
@@ -43,7 +43,7 @@ void decompose(double *x,int N, int f,double *filter, const char *type, double *
         filt = &filter[0];
     }
 
-    if (!(strcmp(type,"additive") || strcmp(type,"multiplicative"))) {
+    if (strcmp(type,"additive") && strcmp(type,"multiplicative")) {
         printf("Type takes only either additive or multiplicative values \n");
         exit(-1);
     }
@@ -78,34 +78,14 @@ void decompose(double *x,int N, int f,double *filter, const char *type, double *
 
     findMeans(detrend,clen,f,seasonalmeans);
 
-    for(i = 0; i < f-f2;++i) {
-        seas[i] = seasonalmeans[f2+i];
-    }
-
-    for(i = f-f2; i < f;++i) {
-        seas[i] = seasonalmeans[i-f+f2];
-    }
-
-    batches = ceil((double) clen / (double) f);
+    // entry i of trend, seas and random belongs to x[i+f2]
 
-    for(i = 1; i < batches-1;++i) {
-        for(j = 0; j < f;++j) {
-            seas[i*f+j] =seas[j];
-        }
-    }
-    j = 0;
-    for( i = f*(batches-1); i < clen - f*(batches-1);++i) {
-        seas[i] = seas[j];
-        j++;
+    for(i = 0; i < clen;++i) {
+        seas[i] = seasonalmeans[i%f];
     }
 
-    if (isOdd) {
-        *lseas = clen - 1;
-        *lrandom = clen - 1;
-    } else {
-        *lseas = clen;
-        *lrandom = clen;
-    }
+    *lseas = clen;
+    *lrandom = clen;
 
     memcpy(trend,cout,sizeof(double)*clen);
     *ltrend = clen;
-- 
2.43.0


From 0aaab344a972a090235b241dad71a5218dae841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 072/114] fix: ur_pp powers of the length overflowed an int
 from a few hundred observations

---
 src/unitroot.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..78c7d4c 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -588,11 +588,11 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     pval - p-value used to determine null hypothesis
 
     */
-    int i,j,N1,N2,p,l,pN,tN,iter;
+    int i,j,N1,p,l,pN,tN,iter;
     double *z,*yt,*yt1,*tt,*XX,*varcovar,*res,*table,*tablep;
     double at,nssqr_res,trm1,trm2,trm3,trm4,dx,alpha,s2,tstat;
     double sum_yt1,sum_yt12,sum_yt1n,interp;
-    long int N3;
+    double N2,N3; // powers of N1, which overflow an int
     reg_object fit;
 
     double nT[6] = {25, 50, 100, 250, 500, 100000};
@@ -606,7 +606,7 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
      -2.64, -2.65, -2.66, -1.53, -1.66, -1.73, -1.78, -1.78, -1.79, -0.43, -0.65, -0.75, -0.82, -0.84, -0.87};// 8X6
 
     N1 = N - 1;
-    N2 = N1 * N1;
+    N2 = (double) N1 * N1;
     N3 = N2 * N1;
 
     pN = 8;
@@ -681,8 +681,8 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
 
     trm1 = N2 * (N2-1) *sum_yt12 / 12.0;
     trm2 = N1 * sum_yt1n * sum_yt1n;
-    trm3 = N1 * (N1+1) * sum_yt1n * sum_yt1;
-    trm4 = (N1 * (N1+1) * (2*N1+1) * sum_yt1 * sum_yt1) / 6.0;
+    trm3 = (double) N1 * (N1+1) * sum_yt1n * sum_yt1;
+    trm4 = ((double) N1 * (N1+1) * (2.0*N1+1) * sum_yt1 * sum_yt1) / 6.0;
 
     dx = trm1-trm2+trm3-trm4;
 
@@ -691,11 +691,11 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     if (!strcmp(type,"Z(alpha)")) {
         table = &dftable[0];
         alpha = (fit->beta+2)->value;
-        *statistic = (double) N1 * (alpha - 1.0) - ((double)N3 / (24.0 * dx)) * ((double)N3 * (nssqr_res - s2));
+        *statistic = (double) N1 * (alpha - 1.0) - (N3 / (24.0 * dx)) * (N3 * (nssqr_res - s2));
     } else if (!strcmp(type,"Z(t_alpha)")) {
         table = &dftable_at[0];
         tstat = ((fit->beta+2)->value - 1.0) / (fit->beta+2)->stdErr;
-        *statistic = sqrt(s2)/sqrt(nssqr_res)*tstat - ((double) N3) / (4*sqrt(3.0)*sqrt(dx)*sqrt(nssqr_res))*(nssqr_res - s2);
+        *statistic = sqrt(s2)/sqrt(nssqr_res)*tstat - N3 / (4*sqrt(3.0)*sqrt(dx)*sqrt(nssqr_res))*(nssqr_res - s2);
     } else {
         printf(" Type only admits two values : Z(alpha) and Z(t_alpha) \n");
         exit(-1);
-- 
2.43.0


From bf16828df079d6db96944617db1405d2c0902258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 073/114] fix: ur_kpss squared length overflowed an int

---
 src/unitroot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 78c7d4c..68cf7df 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -542,7 +542,7 @@ void ur_kpss(double *y, int N,const char* type,int lshort, int *klag, double *st
         s2 += (res[i] * res[i]);
     }
 
-    eta /= (double) (N*N);
+    eta /= ((double) N * N);
     s2 /= (double) N;
 
     if (lshort == 1) {
-- 
2.43.0


From b74ac5a305379bd609cad0125e9d64e82dd418aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 074/114] fix: ur_pp2 squared length overflowed an int

---
 src/unitroot.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 68cf7df..cfc00a4 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -746,12 +746,14 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     */
     double *y,*y_li,*trend,*XX,*varcovar,*res,*tt,*coprods,*weights;
     int *idx;
-    int N1, lmax, i,p, N12,len,iter;
+    int N1, lmax, i,p,len,iter;
+    double N12; // square of N1, which overflows an int
     double N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
     double myybar,myy,mty,my,sum_y,sig,lambda,lambda_prime,M,my_stat,beta_stat;
     reg_object fit;
 
     N1 = N - 1;
+    N12 = (double) N1 * N1;
     y = &x[1];// length N1
     y_li = &x[0];// Length N1
 
@@ -766,9 +768,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     }
 
     if (!strcmp(model,"trend")) {
-        cval[0] = -3.9638-8.353/N1-47.44/(N1*N1);
-        cval[1] = -3.4126-4.039/N1-17.83/(N1*N1);
-        cval[2] = -3.1279-2.418/N1-7.58/(N1*N1);
+        cval[0] = -3.9638-8.353/N1-47.44/N12;
+        cval[1] = -3.4126-4.039/N1-17.83/N12;
+        cval[2] = -3.1279-2.418/N1-7.58/N12;
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -816,7 +818,6 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         mty = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
@@ -827,8 +828,8 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         }
 
         s = 1.0 /(double)N1 * sum_res;
-        myybar = 1.0 / (double) N12 *sum_ymy;
-        myy = 1.0 / (double) N12 *sum_y2;
+        myybar = 1.0 / N12 *sum_ymy;
+        myy = 1.0 / N12 *sum_y2;
         mty = pow((double)N1, -2.5) * mty;
         my = pow((double)N1, -1.5) * sum_y;
 
@@ -859,7 +860,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sig = s + 2.0 * sig / (double) N1;
         lambda = 0.5 * (sig - s);
         lambda_prime = lambda/sig;
-        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/(double)(N1*N1))*my*my;
+        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/N12)*my*my;
         my_stat = sqrt(s/sig)*my_tstat - lambda_prime*sqrt(sig)*my/(sqrt(M)*sqrt((M+my*my)));
         beta_stat = sqrt(s/sig)*beta_tstat - lambda_prime*sqrt(sig)*(0.5*my - mty)/(sqrt(M/12)*sqrt(myybar));
         auxstat[0] = my_stat;
@@ -888,9 +889,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         free(weights);
         free_reg(fit);
     } else if (!strcmp(model,"constant")) {
-        cval[0] = -3.4335-5.999/(double)N1-29.25/(double)(N1*N1);
-        cval[1] = -2.8621-2.738/(double)N1-8.36/(double)(N1*N1);
-        cval[2] = -2.5671-1.438/(double)N1-4.48/(double)(N1*N1);
+        cval[0] = -3.4335-5.999/(double)N1-29.25/N12;
+        cval[1] = -2.8621-2.738/(double)N1-8.36/N12;
+        cval[2] = -2.5671-1.438/(double)N1-4.48/N12;
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -924,7 +925,6 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sum_y = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
@@ -934,8 +934,8 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         }
 
         s = 1.0 /(double)N1 * sum_res;
-        myybar = 1.0 / (double) N12 *sum_ymy;
-        myy = 1.0 / (double) N12 *sum_y2;
+        myybar = 1.0 / N12 *sum_ymy;
+        myy = 1.0 / N12 *sum_y2;
         my = pow((double)N1, -1.5) * sum_y;
 
         //printf("c1 %g s %g sum_ymy %g sum_y2 %g my %g \n",my_tstat,s,myybar,myy,my);
-- 
2.43.0


From d80296bf4904aa271388fa9e3fd60526a8aea441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 075/114] fix: ur_df2 leaked a covariance matrix per candidate
 lag

---
 src/unitroot.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index cfc00a4..d72e9bf 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -232,6 +232,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
                     critRes[i] = fit->bic;
                 }
 
+                free(varcovar);
                 free_reg(fit);
             }
 
@@ -250,7 +251,6 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             free(critRes);
             free(XX);
-            free(varcovar);
         }
 
         XX = (double*)malloc(sizeof(double)*N2*(lags_+1));
@@ -297,7 +297,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
             *ltstat = 2;
 
             free(XX2);
-            free(phi1_fit);
+            free_reg(phi1_fit);
         } else if (!strcmp(type,"trend")) {
             p = 2 + lags_;
             varcovar = (double*)malloc(sizeof(double)*p*p);
@@ -324,7 +324,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
 
             free(XX2);
-            free(phi2_fit);
+            free_reg(phi2_fit);
 
             XX3 = (double*)malloc(sizeof(double)*N2*(lags_-1));
             memcpy(XX3,x+N2,sizeof(double)*N2*(lags_-1));
@@ -344,7 +344,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
             *ltstat = 3;
 
             free(XX3);
-            free(phi3_fit);
+            free_reg(phi3_fit);
         } else {
             printf("type only accepts one of three values - none, drift and trend \n");
             exit(-1);
@@ -389,7 +389,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
             teststat[1] = phi1;
             *ltstat = 2;
 
-            free(phi1_fit);
+            free_reg(phi1_fit);
 
         } else if (!strcmp(type,"trend")) {
             p = 3;
@@ -412,7 +412,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             phi2 = sos/dfs/scale;
 
-            free(phi2_fit);
+            free_reg(phi2_fit);
 
             p3 = 1;
             phi3_fit = reg_init(N2,p3);
@@ -429,7 +429,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
             teststat[2] = phi3;
             *ltstat = 3;
 
-            free(phi3_fit);
+            free_reg(phi3_fit);
         }
 
         free(XX);
@@ -478,7 +478,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
     free(z);
     free(tt);
     free(res);
-    free(fit);
+    free_reg(fit);
 }
 
 void ur_kpss(double *y, int N,const char* type,int lshort, int *klag, double *statistic,double *pval) {
-- 
2.43.0


From d6945db011392e3e194d77641b21a38b1fe008fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 076/114] fix: OCSB candidate regressions paired the
 differences with lags of the wrong periods

---
 src/seastest.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 42e736a..85d6d50 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -453,7 +453,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
     mfrows = ylrows;
 
     for(i = 0; i < ylrows;++i) {
-        memcpy(mf+Ny*i,ylag+ylcols*i,sizeof(double)*Ny);
+        memcpy(mf+Ny*i,ylag+ylcols*i+mlags-lag,sizeof(double)*Ny);
     }
 
     //mdisplay(mf,ylrows,Ny);
@@ -522,8 +522,8 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     XX = (double*) malloc(sizeof(double)*(mfrows+2) * Ny);
     memcpy(XX,mf,sizeof(double)*mfrows*Ny);
-    memcpy(XX+mfrows*Ny,z4,sizeof(double)*Ny);
-    memcpy(XX+(mfrows+1)*Ny,z5,sizeof(double)*Ny);
+    memcpy(XX+mfrows*Ny,z4+mlags-lag,sizeof(double)*Ny);
+    memcpy(XX+(mfrows+1)*Ny,z5+mlags-lag,sizeof(double)*Ny);
 
     //mdisplay(XX,mfrows+2,Ny);
     //mdisplay(y,1,Ny);
-- 
2.43.0


From 53e2908d6433bacce33d34a53299919e020657fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 077/114] fix: OCSB lag buffer was sized by observations, not
 by lags

---
 src/seastest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 85d6d50..9a285f1 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -477,7 +477,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     //mdisplay(z4_lag,ylrows,ylcols);
 
-    inp = (double*) malloc(sizeof(double)*ylcols);
+    inp = (double*) malloc(sizeof(double)*ylrows);
     z4_preds = (double*) malloc(sizeof(double)*Nz4y);
     z4 = (double*) malloc(sizeof(double)*Nz4y);
 
@@ -505,7 +505,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
     z5_y2 = &z5_y[lag];
     Nz5y -= lag;
 
-    inp = (double*) malloc(sizeof(double)*ylcols);
+    inp = (double*) malloc(sizeof(double)*ylrows);
     z5_preds = (double*) malloc(sizeof(double)*Nz5y);
     z5 = (double*) malloc(sizeof(double)*Nz5y);
 
-- 
2.43.0


From c0a92baeb4676a0070f29902dead9d33ecd4b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 078/114] fix: OCSBtest used a lag order two below the selected
 one, and crashed when lag 1 was selected

---
 src/seastest.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index 9a285f1..3da1147 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -635,7 +635,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
 
         bestindex = getBestIndex(icvals,mlags);
-        maxlag = bestindex-1;
+        maxlag = bestindex+1;
         crit_reg = list[bestindex];
 
     }
-- 
2.43.0


From 97eabd191b7ec7b32f1dbf4dbef76fb26bbe354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 079/114] fix: OCSBtest freed uninitialised pointers with a
 fixed lag order and leaked its fit

---
 src/seastest.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 3da1147..64acdc6 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -613,7 +613,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
     int i, bestindex,allnans,maxlag;
     double *tval,*icvals;
     reg_object fit;
-    reg_object *list = (reg_object*)malloc(sizeof(reg_object)*mlags);
+    reg_object *list = (reg_object*)calloc(mlags,sizeof(reg_object));
     reg_object crit_reg = NULL;
 
     icvals = (double*) malloc(sizeof(double)*mlags);
@@ -664,6 +664,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
             printf("Could not find a solution. Try a different method. \n");
             exit(-1);
         } else {
+            free_reg(fit);
             fit = crit_reg;
         }
     }
@@ -676,13 +677,17 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
+    *critical = calcOCSBCritVal(f);
+    *statistics = tval[fit->p-1];
+
+    if (fit != crit_reg) {
+        free_reg(fit);
+    }
+
     for(i = 0; i < mlags;++i) {
 		free_reg(list[i]);
     }
 
-    *critical = calcOCSBCritVal(f);
-    *statistics = tval[fit->p-1];
-
     free(list);
     free(icvals);
     free(tval);
-- 
2.43.0


From d8201584045cff485cde10fe405359c2eb764f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 080/114] fix: multiple regression lost accuracy to the units
 of the regressors

---
 src/regression.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index d6636e8..4571b4f 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -223,8 +223,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	intercept - 1 : include intercept term. 0 : No intercept term
 	*/
 	double *x, *xt, *seb, *xb;
-	double *xxt, *yxt, *xxt2;
-	int i, df;
+	double *xxt, *yxt, *xxt2, *dscale;
+	int i, j, df;
 	int *ipiv;
 	double tmp1, sum, ym, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss, tss, ess;
 
@@ -244,6 +244,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	ipiv = (int*)malloc(sizeof(int) * p);
 	//yt = (double*) malloc (sizeof(double) * N);
 	seb = (double*)malloc(sizeof(double) * p);
+	dscale = (double*)malloc(sizeof(double) * p);
 
 	// Initalize xt matrix - Transpose Matrix is initilaized first to
 	// deal with column major nature of the X matrix
@@ -264,6 +265,20 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	}
 
 
+	// Bring the columns to comparable size (by exact powers of two) so that the
+	// normal equations do not lose accuracy to the units of the variables
+
+	for (i = 0; i < p; ++i) {
+		sum = 0.0;
+		for (j = 0; j < N; ++j) {
+			sum += xt[i*N + j] * xt[i*N + j];
+		}
+		dscale[i] = (sum > 0.0 && sum <= DBL_MAX) ? ldexp(1.0, -ilogb(sqrt(sum))) : 1.0;
+		for (j = 0; j < N; ++j) {
+			xt[i*N + j] *= dscale[i];
+		}
+	}
+
 	// Calculate x * x'
 
 	mtranspose(xt, p, N, x);
@@ -329,8 +344,11 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	ludecomp(xxt2, p, ipiv);
 	minverse(xxt2, p, ipiv, xxti);
 
-	for (i = 0; i < p*p; ++i) {
-		xxti[i] *= tmp1;
+	for (i = 0; i < p; ++i) {
+		b[i] *= dscale[i];
+		for (j = 0; j < p; ++j) {
+			xxti[i*p + j] *= tmp1 * dscale[i] * dscale[j];
+		}
 	}
 
 
@@ -453,6 +471,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	free(yxt);
 	free(seb);
 	free(xb);
+	free(dscale);
 }
 
 void zerohyp_multi(int N, double *b, int p, double *varcovar, double *tval, double *pval) {
-- 
2.43.0


From bb356de1e89f5f9c4bae41c4166267dcb094cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 081/114] fix: CSS variance averaged over residuals that are
 conditioned on

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index ba35728..2f1caaf 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1348,7 +1348,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 		*wmean = 0.0;
 	}
 	*/
-	*var = (obj->ssq) / (double)N;
+	*var = (obj->ssq) / (double)(N - p); // the first p residuals are conditioned on
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
@@ -2186,7 +2186,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	wmean += (obj->x[N + i] * obj->x[N + i]);
 	}*/
 
-	*var = (obj->ssq) / (double)N;
+	*var = (obj->ssq) / (double)(N - p - s * P); // the first p + s * P residuals are conditioned on
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[offset + N + i];
 	}
-- 
2.43.0


From e12055b84fd8a9d11a0a4f4e378fa8c876b42d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 082/114] fix: AIC was left over from an earlier fit, or zero,
 after a CSS fit

---
 src/ctsa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 66fde5b..b9c052c 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -353,6 +353,7 @@ void arima_exec(arima_object obj, double *inp) {
 		obj->retval = css(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->params, obj->params + p, &obj->mean, &obj->var, obj->params + p + q, &obj->loglik,
 			obj->params + p + q + N - d);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
+		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->M) + 2.0;
 	}
 	else if (obj->method == 2) {
 		eps = macheps();
@@ -400,6 +401,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
+		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else {
 		printf("Only three methods are supported : 0 , 1 and 2 , where 0 is CSS-MLE ,1 is MLE and 2 is CSS \n");
 		exit(-1);
@@ -550,6 +552,7 @@ void sarima_exec(sarima_object obj, double *inp) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
 			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
+		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 2) {
 		eps = macheps();
-- 
2.43.0


From 37f755f9c6f6596430d8f7769b8a3957b4d81f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 083/114] fix: collinearity test of the regressors read the
 columns as rows

---
 src/ctsa.c | 2 +-
 src/emle.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index b9c052c..03bd6ab 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1190,7 +1190,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	if (xreg) {
 		// Collinearity check
 
-		rnk = rank(xreg,N,r);
+		rnk = rank(xreg,r,N);
 
 		if (rnk < r) {
 			free(xx);
diff --git a/src/emle.c b/src/emle.c
index 2f1caaf..6ee350f 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1732,7 +1732,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
@@ -2417,7 +2417,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
-- 
2.43.0


From f673e0a05b428fdce6b8ad4e18800ebd4a215c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 084/114] fix: drift flag of automatic models was never set, so
 forecasts read an indeterminate one

---
 src/ctsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 03bd6ab..95e939d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -607,6 +607,8 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 			drift = 0;
 		}
 
+		obj->idrift = drift;
+
 		//printf("drift %d \n",drift);
 
 		rr = r;
@@ -673,6 +675,8 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	fit = (myarima_object) malloc (sizeof(struct myarima_set));
 	
 	fit->ic = fit->aic = fit->bic = fit->aicc = DBL_MAX;
+	fit->idrift = 0;
+	fit->sigma2 = 0.0;
 
 	tol = 1e-08;
 
@@ -726,6 +730,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 	if (diffs == 1 && constant == 1) {
 		imean = 1;
+		fit->idrift = 1;
 		rr++;
 		xreg2 = (double*)malloc(sizeof(double)*N*rr);
 		for(i = 0; i < N;++i) {
-- 
2.43.0


From 229425dc8c70c45d3ea60c619fe8781874d196ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 085/114] fix: candidates with drift ignored the estimation
 method

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 95e939d..e2a5e95 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -738,6 +738,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		}
 		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
+		sarimax_setMethod(fit->sarimax,rmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
-- 
2.43.0


From 54a2431f2c23050e28085b66322bc78c79c1e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 086/114] fix: candidates with a single MA term escaped the
 unit-root check

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e2a5e95..b1d2ff9 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -869,7 +869,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 		//printf(" q Q %d \n", q+Q);
 
-		if (q + Q > 1 && fit->ic < DBL_MAX) {
+		if (q + Q > 0 && fit->ic < DBL_MAX) {
 			isum = 0;
 			imx = -1;
 			for(i = 0; i < iq - 1; ++i) {
-- 
2.43.0


From 2a29ca51268ae670d56b74a507f4666c78f4b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 087/114] fix: exhaustive search ignored that a mean was not
 allowed

---
 src/ctsa.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index b1d2ff9..05c6b8c 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1420,8 +1420,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		imean = 1;
-	
 		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
 		free(x);
 		free(xx);
-- 
2.43.0


From 81935d5a74c138401c65fa4e3eb96bf586928d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 088/114] fix: exhaustive search returned the approximate fit,
 and an indeterminate constant when no candidate was admissible

---
 src/ctsa.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 05c6b8c..819ed99 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -937,6 +937,12 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	imean = allowmean && (d + D == 0);
 
 	maxK = (idrift || imean);
+	bestK = 0;
+	bestorder[1] = d;
+	if (D > 0) {
+		bestseasonal[1] = D;
+		bestseasonal[3] = s;
+	}
 
 	//serial implementation
 
@@ -995,7 +1001,8 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, NULL);
+	// The winner of an approximate search is refitted in full
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, NULL);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
-- 
2.43.0


From 12e85811c1e681fef9be8854fff9b3b3e476ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 089/114] fix: stepwise search dropped its last candidate and
 overran the results table for small model limits

---
 src/ctsa.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 819ed99..765776a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1067,7 +1067,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	int seasonalorder[4] = {0,0,0,0};
 	int bestorder[3] = {0,0,0};
 	int bestseasonalorder[4] = {0,0,0,0};
-	int biasadj = 0,bestconstant,startk,ntconstant;
+	int biasadj = 0,bestconstant,startk,initk,ntconstant;
 	double offset, best_ic;
 	int *icindex;
 
@@ -1449,7 +1449,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	P = P_start = (P_start < P_max) ? P_start : P_max;
 	Q = Q_start = (Q_start < Q_max) ? Q_start : Q_max;
 
-	results = (double*)calloc(8*models,sizeof(double));
+	results = (double*)calloc(8*(models > 5 ? models : 5),sizeof(double)); // five initial candidates
 
 	bestorder[0] = p;
 	bestorder[1] = d;
@@ -1585,6 +1585,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	}
 
 	startk = 0;
+	initk = k;
 
 	while (startk < k && k < models) {
 		startk = k;
@@ -2095,8 +2096,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	k--;
-	if (k == models) {
+	if (k > models && k > initk) {
+		k--;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
-- 
2.43.0


From 71b51a32faac5660718d76c82f3c06b9e596603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 090/114] fix: stepwise search refitted the best orders with
 another candidate's constant

---
 src/ctsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 765776a..9ddc1b7 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2145,7 +2145,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				best_ic = fit->myarima->ic;
 				memcpy(bestorder,order,sizeof(int)*3);
 				memcpy(bestseasonalorder,seasonalorder,sizeof(int)*4);
-				bestconstant = constant;
+				bestconstant = (int) results[icindex[i]*8 + 6];
 				free(icvector);
 				free(icindex);
 				myarima_free(fit->myarima);
@@ -2157,13 +2157,14 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		if (iapprox != 0) {
 			free(icvector);
 			free(icindex);
+			myarima_free(fit->myarima);
 		}
 		
 	}
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
 
 	
 
-- 
2.43.0


From 2e5bad64a3d56cfa4102ad9c5071c6fdf73785d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 091/114] fix: automatic models were differenced although a
 stationary model was requested

---
 src/ctsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9ddc1b7..edf1f24 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1267,6 +1267,10 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	d = dd == NULL ? -1 : *dd;
 
+	if (istationary) {
+		d = 0;
+	}
+
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
-- 
2.43.0


From 9d9cc551be4b8e554e86aa3c09f3bfd601f9a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 092/114] fix: automatic models were seasonal although a
 non-seasonal model was requested

---
 src/ctsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index edf1f24..a836291 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1122,6 +1122,12 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
+	}
+
+	if (!iseasonal) {
+		s = 0;
 	}
 
 	if (stepwise == NULL) {
-- 
2.43.0


From 9203c17380a31d6684e7e001cb5fe707921f78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 093/114] fix: differencing orders of automatic models ignored
 the last regressor and read undifferenced or indeterminate columns

---
 src/ctsa.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a836291..773624b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1218,14 +1218,15 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			exit(-1);
 		}
 
-		varcovar = (double*)malloc(sizeof(double)*r*r);
+		varcovar = (double*)malloc(sizeof(double)*(r+1)*(r+1));
 
-		reg = reg_init(N,r);
+		reg = reg_init(N,r+1); // intercept and r regressors
 
 		//setIntercept(reg,0);
 		regress(reg,xreg,x,xx,varcovar,0.95);
 
 		free(varcovar);
+		free_reg(reg);
 	}
 
 	D = DD == NULL ? -1 : *DD;
@@ -1265,9 +1266,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From c17967c32f5206d3ae8f272200e15502dc391463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 094/114] fix: forecasts of automatic models with drift dropped
 the last regressor

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 773624b..adcad7b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3120,7 +3120,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3158,7 +3158,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (obj->idrift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
-- 
2.43.0


From 57b78b1cd71cd0f07662e22f66c3a1404a9b6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 095/114] fix: executing an automatic model overwrote its
 period and drift settings

---
 header/ctsa.h |  3 ++-
 src/ctsa.c    | 13 +++++--------
 src/ctsa.h    |  3 ++-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..dae961a 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -53,7 +53,8 @@ struct auto_arima_set{
 	int retval;
 	int start;
 	int imean;
-	int idrift;
+	int idrift;// 1 if the fitted model has a drift term
+	int allowdrift;// 1 if a drift term is allowed
 	int stationary;
 	int seasonal;
 	int Order_max;
diff --git a/src/ctsa.c b/src/ctsa.c
index adcad7b..33105a5 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -306,7 +306,8 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->alpha_test = 0.05;
 	obj->alpha_seas = 0.05;
 	obj->imean = 1;
-	obj->idrift = 1;
+	obj->idrift = 0;
+	obj->allowdrift = 1;
 
 	strcpy(obj->test,"kpss");
 	strcpy(obj->seas,"seas");
@@ -429,10 +430,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 
 	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
-	 &obj->idrift, &obj->imean,obj->verbose, NULL);
-
-	imean = obj->imean;
-	idrift = obj->idrift;
+	 &obj->allowdrift, &obj->imean,obj->verbose, NULL);
 
 	if (fit->otype == 2) {
 		p = fit->Arima->sarimax->p;
@@ -496,8 +494,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	obj->p = p;
 	obj->d = d;
 	obj->q = q;
-	obj->N = N;
-	obj->s = s;
+	// obj->s is a setting, the model found has no seasonal part if P = D = Q = 0
 	obj->P = P;
 	obj->D = D;
 	obj->Q = Q;
@@ -2828,7 +2825,7 @@ void auto_arima_allowMean(auto_arima_object obj, int allowmean) {
 
 void auto_arima_allowDrift(auto_arima_object obj, int allowdrift) {
 	if (allowdrift == 0 || allowdrift == 1) {
-		obj->idrift = allowdrift;
+		obj->allowdrift = allowdrift;
 	} else {
 		printf("Allowdrift parameter accepts only two values - 0 or 1 \n");
 	}
diff --git a/src/ctsa.h b/src/ctsa.h
index c485a9f..dab1160 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -180,7 +180,8 @@ struct auto_arima_set{
 	int retval;
 	int start;
 	int imean;
-	int idrift;
+	int idrift;// 1 if the fitted model has a drift term
+	int allowdrift;// 1 if a drift term is allowed
 	int stationary;
 	int seasonal;
 	int Order_max;
-- 
2.43.0


From a50e7a438a7af72e261013b443d945e03bf4e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 096/114] fix: automatic models crashed when no model could be
 fitted

---
 src/ctsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 33105a5..62e76fc 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -488,6 +488,11 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 		obj->bic = fit->myarima->bic;
 		obj->aicc = fit->myarima->aicc;
 		obj->sigma2 = fit->myarima->sigma2;
+	} else {
+		// No model could be fitted
+		obj->retval = 0;
+		aa_ret_free(fit);
+		return;
 	}
 
 
@@ -4407,7 +4412,7 @@ void aa_ret_free(aa_ret_object object) {
 	// use proper free wrapers for given type 
 	if (object->otype == 1) {
 		myarima_free(object->myarima);
-	} else {
+	} else if (object->otype == 2) {
 		sarimax_wrapper_free(object->Arima);
 	}
 	free(object);
-- 
2.43.0


From 4eeda132ba5a1faae4704e3d1359fd38618f4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 097/114] fix: automatic models ignored the estimation method
 and the optimiser that were set

---
 src/ctsa.c | 125 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 79 insertions(+), 46 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 62e76fc..887f77c 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -409,6 +409,10 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 	}
 }
 
+static aa_ret_object auto_arima_opt(double *y, int N, int *ordermax, int *seasonalmax,int *maxcoeff, int s,int *DD, int *dd, int *start, int *stationary, int *seasonal, 
+	const char *ic, int *stepwise, int *nmodels,int *approximation,int *method,double *xreg, int r, const char *test,const char *type, double *test_alpha, 
+	const char *seas, double *seas_alpha, int *allowdrift, int *allowmean,int verbose, double *lambda, int optmethod);
+
 void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	aa_ret_object fit;
 	int p,d,q,P,D,Q,s,r,N,M;
@@ -428,9 +432,9 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	start[2] = obj->P_start;
 	start[3] = obj->Q_start;
 
-	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
+	fit = auto_arima_opt(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
-	 &obj->allowdrift, &obj->imean,obj->verbose, NULL);
+	 &obj->allowdrift, &obj->imean,obj->verbose, NULL, obj->optmethod);
 
 	if (fit->otype == 2) {
 		p = fit->Arima->sarimax->p;
@@ -564,8 +568,8 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 }
 
-sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, int N,int *order, int *seasonal, double *xreg, int r, int idrift,int mean,
-	double *lambda, int biasadj,int method) {
+static sarimax_wrapper_object sarimax_wrapper_opt(sarimax_wrapper_object model,double *y, int N,int *order, int *seasonal, double *xreg, int r, int idrift,int mean,
+	double *lambda, int biasadj,int method, int optmethod) {
 	/*
 	Init here. { sarimax_object,drift}
 	*/
@@ -630,6 +634,8 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 		}
 		
 		obj->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,mean,N);
+		sarimax_setMethod(obj->sarimax,method);
+		sarimax_setOptMethod(obj->sarimax,optmethod);
 
 		sarimax_exec(obj->sarimax,x,xreg2);
 		obj->aic = obj->sarimax->aic;
@@ -656,6 +662,11 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 	return obj;
 }
 
+sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, int N,int *order, int *seasonal, double *xreg, int r, int idrift,int mean,
+	double *lambda, int biasadj,int method) {
+	return sarimax_wrapper_opt(model,y,N,order,seasonal,xreg,r,idrift,mean,lambda,biasadj,method,5);
+}
+
 void arima2(sarimax_wrapper_object model,double *x, int N,int drift,double *xreg, int r,int method) {
 	int i;
 	double sigma2;
@@ -664,8 +675,8 @@ void arima2(sarimax_wrapper_object model,double *x, int N,int drift,double *xreg
 
 }
 
-myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant, const char* ic, int trace, int approx,
-	double offset, double *xreg, int r, int *method) {
+static myarima_object myarima_opt(double *x, int N, int *order, int *seasonal, int constant, const char* ic, int trace, int approx,
+	double offset, double *xreg, int r, int *method, int optmethod) {
 
 	myarima_object fit = NULL;
 	int m,p,d,q,P,D,Q,s,diffs,i,j,imean,ncoeff,isum,imx,rr;
@@ -741,6 +752,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
 		sarimax_setMethod(fit->sarimax,rmethod);
+		sarimax_setOptMethod(fit->sarimax,optmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
@@ -751,12 +763,14 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 			memcpy(xreg2,xreg,sizeof(double)*N*rr);
 			fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
 			sarimax_setMethod(fit->sarimax,rmethod);
+			sarimax_setOptMethod(fit->sarimax,optmethod);
 			sarimax_exec(fit->sarimax,x,xreg2);
 			free(xreg2);
 		} else {
 			//printf("p: %d d: %d q: %d P: %d D: %d Q: %d s: %d imean %d \n",p,d,q,P,D,Q,s,imean);
 			fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,0,imean,N);
 			sarimax_setMethod(fit->sarimax,rmethod);
+			sarimax_setOptMethod(fit->sarimax,optmethod);
 			//mdisplay(x,1,N);
 			sarimax_exec(fit->sarimax,x,NULL);
 			//sarimax_summary(fit->sarimax);
@@ -767,7 +781,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	if (fit->sarimax->retval == 1) {
 		ncoeff = (fit->sarimax->p + fit->sarimax->q + fit->sarimax->P + fit->sarimax->Q + fit->sarimax->M) + 1;
 
-		if (rmethod == 2) {
+		if (rmethod == 2 && approx) {
 			fit->sarimax->aic = offset + fit->sarimax->Nused * log(fit->sarimax->var) + 2 * ncoeff;// sigma2 
 		}
 
@@ -920,8 +934,13 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	return fit;
 }
 
-myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max, int P_max, int Q_max, int Order_max, int stationary,int s, const char *ic,
-	int approximation, double *xreg, int r, double offset,int allowdrift, int allowmean,int verbose, int method) {
+myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant, const char* ic, int trace, int approx,
+	double offset, double *xreg, int r, int *method) {
+	return myarima_opt(x,N,order,seasonal,constant,ic,trace,approx,offset,xreg,r,method,5);
+}
+
+static myarima_object search_arima_opt(double *x, int N,int d, int D, int p_max, int q_max, int P_max, int Q_max, int Order_max, int stationary,int s, const char *ic,
+	int approximation, double *xreg, int r, double offset,int allowdrift, int allowmean,int verbose, int method, int optmethod) {
 
 	int idrift, imean, maxK, i, j, I, J,K;
 	double best_ic,bestK,iapprox;
@@ -932,6 +951,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	int bestorder[3] = {0,0,0};
 	int bestseasonal[4] = {0,0,0,0};
 	int trace = 0;
+	int *rmethod = (method == 0) ? NULL : &method; // the default method depends on the approximation
 
 	
 	idrift = allowdrift && (d + D == 1);
@@ -978,7 +998,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 								seasonal[3] = s;
 							}
 
-							fit = myarima(x,N,order,seasonal, K, ic, trace, approximation, offset,xreg, r, NULL);
+							fit = myarima_opt(x,N,order,seasonal, K, ic, trace, approximation, offset,xreg, r, rmethod, optmethod);
 							if (verbose == 1) {
 								printf("p: %d d: %d q: %d P: %d D: %d Q: %d Drift/Mean: %d ic: %g \n",fit->sarimax->p,d,fit->sarimax->q,fit->sarimax->P,D,fit->sarimax->Q,K,fit->ic);
 							}
@@ -1004,14 +1024,14 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("best_ic %g \n",best_ic);
 
 	// The winner of an approximate search is refitted in full
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, NULL);
+	bestfit = myarima_opt(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, rmethod, optmethod);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
 			iapprox = 0;
 			myarima_free(bestfit);
 
-			bestfit = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,stationary,s,ic,iapprox,xreg,r,offset,allowdrift,allowmean,verbose,method);
+			bestfit = search_arima_opt(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,stationary,s,ic,iapprox,xreg,r,offset,allowdrift,allowmean,verbose,method,optmethod);
 
 		}
 	}
@@ -1020,6 +1040,11 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	return bestfit;
 }
 
+myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max, int P_max, int Q_max, int Order_max, int stationary,int s, const char *ic,
+	int approximation, double *xreg, int r, double offset,int allowdrift, int allowmean,int verbose, int method) {
+	return search_arima_opt(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,stationary,s,ic,approximation,xreg,r,offset,allowdrift,allowmean,verbose,method,5);
+}
+
 static void set_results(double *results, int row, int p, int d, int q, int P, int D, int Q, int constant, double ic) {
 	int index;
 
@@ -1052,9 +1077,9 @@ static int newmodel(int p, int d, int q, int P, int D, int Q, int constant, doub
 	return 1;
 }
 
-aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int *maxcoeff, int s,int *DD, int *dd, int *start, int *stationary, int *seasonal, 
+static aa_ret_object auto_arima_opt(double *y, int N, int *ordermax, int *seasonalmax,int *maxcoeff, int s,int *DD, int *dd, int *start, int *stationary, int *seasonal, 
 	const char *ic, int *stepwise, int *nmodels,int *approximation,int *method,double *xreg, int r, const char *test,const char *type, double *test_alpha, 
-	const char *seas, double *seas_alpha, int *allowdrift, int *allowmean,int verbose, double *lambda) {
+	const char *seas, double *seas_alpha, int *allowdrift, int *allowmean,int verbose, double *lambda, int optmethod) {
 	
 	
 	aa_ret_object fit = NULL;
@@ -1071,7 +1096,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	int bestseasonalorder[4] = {0,0,0,0};
 	int biasadj = 0,bestconstant,startk,initk,ntconstant;
 	double offset, best_ic;
-	int *icindex;
+	int *icindex,*rmethod;
 
 	fit = (aa_ret_object) malloc (sizeof(struct aa_ret_set));
 
@@ -1162,6 +1187,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		amethod = *method;
 	}
 
+	rmethod = (amethod == 0) ? NULL : &amethod; // the default method depends on the approximation
+
 
 	x = (double*) malloc(sizeof(double)*N);
 
@@ -1328,7 +1355,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				order[0] = order[1] = order[2] = 0;
 				imean = 1;
 				idrift = 1;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper_opt(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod,optmethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			}
@@ -1339,7 +1366,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				order[0] = order[2] = 0;
 				order[1] = d;
 				idrift = 0;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper_opt(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod,optmethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			} else if (d == 2) {
@@ -1349,7 +1376,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				order[0] = order[2] = 0;
 				order[1] = d;
 				idrift = 0;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper_opt(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod,optmethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			} else if (d < 2) {
@@ -1359,7 +1386,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				order[0] = order[2] = 0;
 				order[1] = d;
 				idrift = 1;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper_opt(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod,optmethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			} else {
@@ -1374,7 +1401,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[3] = m;
 				order[0] = order[2] = 0;
 				order[1] = d;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,xreg,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper_opt(NULL,x,N,order,seasonalorder,xreg,r,idrift,imean,NULL,biasadj,amethod,optmethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			} else {
@@ -1383,7 +1410,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[3] = 0;
 				order[0] = order[2] = 0;
 				order[1] = d;
-				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,xreg,r,idrift,imean,NULL,biasadj,amethod);
+				fit->Arima = sarimax_wrapper_opt(NULL,x,N,order,seasonalorder,xreg,r,idrift,imean,NULL,biasadj,amethod,optmethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
 			}
@@ -1442,7 +1469,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
+		fit->myarima = search_arima_opt(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod,optmethod);
 		free(x);
 		free(xx);
 		free(dx);
@@ -1477,7 +1504,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	trace = 0; // Make it variable
 	bestconstant = constant;
 
-	bestfit = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	bestfit = myarima_opt(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 	best_ic = bestfit->ic;
 
@@ -1496,7 +1523,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	seasonalorder[2] = 0;
 	seasonalorder[3] = s;
 
-	fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 	set_results(results,2,0,d,0,0,D,0,constant,fit->myarima->ic);
 
@@ -1523,7 +1550,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = 0;
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 		set_results(results,k+1,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1553,7 +1580,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = (Q_max > 0) && (m > 1);
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 		set_results(results,k+1,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1582,7 +1609,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = 0;
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,0, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima_opt(x,N,order,seasonalorder,0, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 		set_results(results,k+1,0,d,0,0,D,0,0,fit->myarima->ic);
 
@@ -1616,7 +1643,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1645,7 +1672,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1674,7 +1701,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1703,7 +1730,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1732,7 +1759,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1762,7 +1789,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1792,7 +1819,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1822,7 +1849,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1854,7 +1881,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1883,7 +1910,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1912,7 +1939,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1941,7 +1968,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1970,7 +1997,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2000,7 +2027,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2030,7 +2057,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2060,7 +2087,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2092,7 +2119,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[2] = Q;
 				seasonalorder[3] = s;
 
-				fit->myarima = myarima(x,N,order,seasonalorder,ntconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+				fit->myarima = myarima_opt(x,N,order,seasonalorder,ntconstant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 				set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],ntconstant,fit->myarima->ic);
 
@@ -2154,7 +2181,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[1] = D;
 			seasonalorder[2] = results[icindex[i]*8 + 5];
 			seasonalorder[3] = s;
-			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, NULL);
+			fit->myarima = myarima_opt(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, rmethod, optmethod);
 
 			if (fit->myarima->ic < DBL_MAX) {
 				best_ic = fit->myarima->ic;
@@ -2179,7 +2206,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima_opt(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, rmethod, optmethod);
 
 	
 
@@ -2193,6 +2220,12 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	return fit;
 }
 
+aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int *maxcoeff, int s,int *DD, int *dd, int *start, int *stationary, int *seasonal, 
+	const char *ic, int *stepwise, int *nmodels,int *approximation,int *method,double *xreg, int r, const char *test,const char *type, double *test_alpha, 
+	const char *seas, double *seas_alpha, int *allowdrift, int *allowmean,int verbose, double *lambda) {
+	return auto_arima_opt(y,N,ordermax,seasonalmax,maxcoeff,s,DD,dd,start,stationary,seasonal,ic,stepwise,nmodels,approximation,method,xreg,r,test,type,test_alpha,seas,seas_alpha,allowdrift,allowmean,verbose,lambda,5);
+}
+
 void ar_exec(ar_object obj, double *inp) {
 	int p, N, i, t;
 	double loglik;
-- 
2.43.0


From 5605aa5c9729488f784e20a491a85c188dd2f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 098/114] fix: Box-Jenkins fits reported the equation constant
 as the mean and misordered the covariance

---
 src/boxjenkins.c | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a94e58d..b5ea56a 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -657,6 +657,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
 
 	if (M == 1) {
+		*thetac = mean(inp,N);
 		for(i = 0; i < N;++i) {
 			inp[i] -= *thetac;
 		}
@@ -943,13 +944,9 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 /(N - p - q - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		for (i = 0;i < p;++i) {
-			temp += phiinc[i];
-		}
-		*thetac = b[0] * (1.0 - temp);
+		*thetac = b[0];
 	} else {
 		*thetac = 0.0;
 	}
@@ -975,12 +972,15 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	ludecomp(A,k,ipiv);
-	minverse(A,k,ipiv,varcovar);
+	minverse(A,k,ipiv,Atemp);
 
 	//mdisplay(varcovar, 1, k*k);
 
-	for(i = 0; i < k*k;++i) {
-		varcovar[i] = varcovar[i] * (*var);
+	// Same order as the other methods : coefficients first, mean last
+	for(i = 0; i < k;++i) {
+		for(j = 0; j < k;++j) {
+			varcovar[i*k+j] = Atemp[((i + M) % k) * k + (j + M) % k] * (*var);
+		}
 	}
 
 	for(i = qd-1; i < N+qd-1;++i) {
@@ -1107,6 +1107,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	//ENDS HERE
 
 	if (M == 1) {
+		*thetac = mean(inp,N);
 		for(i = 0; i < N;++i) {
 			inp[i] -= *thetac;
 		}
@@ -1560,17 +1561,9 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		temp2 = 0.0;
-		for (i = 0; i < p; ++i) {
-			temp -= phiinc[i+1];
-		}
-		for (i = 0; i < lps; ++i) {
-			temp2 -= phisinc[i + 1];
-		}
-		*thetac = b[0] * (1.0 - temp)*(1.0 - temp2) ;
+		*thetac = b[0];
 	}
 	else {
 		*thetac = 0.0;
@@ -1612,10 +1605,13 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	ludecomp(A, k, ipiv);
-	minverse(A, k, ipiv, varcovar);
+	minverse(A, k, ipiv, Atemp);
 
-	for (i = 0; i < k*k; ++i) {
-		varcovar[i] = varcovar[i] * (*var);
+	// Same order as the other methods : coefficients first, mean last
+	for (i = 0; i < k; ++i) {
+		for (j = 0; j < k; ++j) {
+			varcovar[i*k + j] = Atemp[((i + M) % k) * k + (j + M) % k] * (*var);
+		}
 	}
 
 
-- 
2.43.0


From ea964a1f4d47e6e7af6e658f0b6c119d4a916169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 099/114] fix: Box-Jenkins fits returned the last trial point
 even when it had been rejected

---
 src/boxjenkins.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index b5ea56a..b2a3428 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -953,10 +953,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 	
 	for (i = 0; i < p;++i) {
-		phi[i] = phiinc[i];
+		phi[i] = b[M+i];
 	}
 	for (i = 0; i < q;++i) {
-		theta[i] = thetainc[i];
+		theta[i] = b[M+p+i];
 	}
 
 	for(i = 0; i < k;++i) {
@@ -984,7 +984,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	for(i = qd-1; i < N+qd-1;++i) {
-		residuals[i-qd+1] = resat[i];
+		residuals[i-qd+1] = at[i];
 	}
 
 
@@ -1571,25 +1571,18 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	// Parameters Phi and Theta
 
 	for (i = 0; i < p; ++i) {
-		phi[i] = -phiinc[i+1];
+		phi[i] = b[M + i];
 	}
 	for (i = 0; i < q; ++i) {
-		theta[i] = -thetainc[i+1];
+		theta[i] = b[M + p + i];
 	}
 
-	downsample(phisinc, s*lps + 1, s, phist1);
-	downsample(thetasinc, s*lqs + 1, s, thetast1);
-
-	//mdisplay(phist1, 1, lps + 1);
-	//mdisplay(thetast1, 1, lqs + 1);
-
-
 	for (i = 0; i < lps; ++i) {
-		phis[i] = -phist1[i + 1];
+		phis[i] = b[M + p + q + i];
 	}
 
 	for (i = 0; i < lqs; ++i) {
-		thetas[i] = -thetast1[i + 1];
+		thetas[i] = b[M + p + q + lps + i];
 	}
 
 	for (i = 0; i < k; ++i) {
@@ -1616,7 +1609,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
 
 	for (i = qd - 1; i < N + qd - 1; ++i) {
-		residuals[i - qd + 1] = resat[i];
+		residuals[i - qd + 1] = at[i];
 	}
 	
 	//mdisplay(residuals, 1, N);
-- 
2.43.0


From bfcdafce830726a6e833919734823e9899100ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 100/114] fix: Box-Jenkins fits failed when a coefficient or
 the mean was exactly zero

---
 src/boxjenkins.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index b2a3428..76179bc 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -702,7 +702,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	//mdisplay(at,1,N+qd-1);
 	for(i = 0; i < k;++i) {
-		stepsize = b[i]*di;//di;//b[i] * di;
+		stepsize = (b[i] != 0.0) ? b[i]*di : di;//di;//b[i] * di;
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -856,7 +856,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 			    }
 				
 				for(i = 0; i < k;++i) {
-					stepsize = b[i]*di;//di;//b[i] * di;
+					stepsize = (b[i] != 0.0) ? b[i]*di : di;//di;//b[i] * di;
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
@@ -1213,7 +1213,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	
 	for (i = 0; i < k; ++i) {
-		stepsize = b[i] * di;//di;//b[i] * di;
+		stepsize = (b[i] != 0.0) ? b[i] * di : di;//di;//b[i] * di;
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -1439,7 +1439,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 				}
 
 				for (i = 0; i < k; ++i) {
-					stepsize = b[i] * di;//di;//b[i] * di;
+					stepsize = (b[i] != 0.0) ? b[i] * di : di;//di;//b[i] * di;
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
-- 
2.43.0


From a48906c6dcb8cea2ca3025575fb5dacdb6b040a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 101/114] fix: starting values set with sarimax_setParams were
 lost after the first execution

---
 src/ctsa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 887f77c..5851e31 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -187,7 +187,8 @@ sarimax_object sarimax_init(int p, int d, int q,int P, int D, int Q,int s, int r
 	*/
 	
 	obj = (sarimax_object)malloc(sizeof(struct sarimax_set) +
-	 sizeof(double)* (p + q + P + Q + ncxreg + N - d - s*D) + sizeof(double)* (p + q + P + Q + ncxreg )*(p + q + P + Q + ncxreg ));
+	 sizeof(double)* (p + q + P + Q + ncxreg + N - d - s*D) + sizeof(double)* (p + q + P + Q + ncxreg )*(p + q + P + Q + ncxreg ) +
+	 sizeof(double)* (p + q + P + Q));// The last p+q+P+Q values are the starting values set by sarimax_setParams
 
 	obj->p = p;
 	obj->d = d;
@@ -380,6 +381,10 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 
 	M = obj->M;
 
+	if (obj->start == 1) {
+		memcpy(obj->params,obj->vcov + obj->lvcov,sizeof(double)*(p + q + P + Q));
+	}
+
 	if (obj->method == 0) {
 		cssml = 1;
 		obj->retval = as154x(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
@@ -2537,6 +2542,7 @@ void sarimax_setParams(sarimax_object obj, double *phi, double *theta, double *P
 		}
 	}
 
+	memcpy(obj->vcov + obj->lvcov,obj->params,sizeof(double)*(obj->p + obj->q + obj->P + obj->Q));
 	obj->start = 1;
 }
 
-- 
2.43.0


From a1a94cfe66a0afd1b1abd62d85f7531fbdd5207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 102/114] fix: Box-Jenkins fits left the likelihood and AIC of
 an earlier fit in the object

---
 src/ctsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 5851e31..3eded23 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -359,6 +359,7 @@ void arima_exec(arima_object obj, double *inp) {
 	}
 	else if (obj->method == 2) {
 		eps = macheps();
+		obj->loglik = obj->aic = 0.0; // Unavailable
 		obj->retval = nlalsm(inp, obj->N, obj->p, obj->d, obj->q, obj->params, obj->params + p, obj->M, &obj->mean, &obj->var, eps, obj->params + p + q + N - d, obj->params + p + q);
 	}
 
@@ -567,6 +568,7 @@ void sarima_exec(sarima_object obj, double *inp) {
 	}
 	else if (obj->method == 2) {
 		eps = macheps();
+		obj->loglik = obj->aic = 0.0; // Unavailable
 		obj->retval = nlalsms(inp, obj->N, obj->p, obj->d, obj->q, obj->params, obj->params + p, obj->s, obj->P, obj->D, obj->Q, obj->params + p + q, obj->params + p + q + P, obj->M, &obj->mean, &obj->var, eps,
 			obj->params + p + q + P + Q + N - d - s*D, obj->params + p + q + P + Q);
 	}
-- 
2.43.0


From ea4971d929b7d57c67f10c06000df7192dd71465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 103/114] fix: covariances of moving-average coefficients with
 the others had the wrong sign

---
 src/emle.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index 6ee350f..6744012 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1232,6 +1232,18 @@ double fcss(double *b, int pq, void *params) {
 	return value;
 }
 
+static void ma_cov_sign(double *cov, int pq, int start, int n) {
+	// The reported MA coefficients have the opposite sign of the optimised ones
+	int i, j;
+
+	for (i = start; i < start + n; ++i) {
+		for (j = 0; j < pq; ++j) {
+			cov[i*pq + j] = -cov[i*pq + j];
+			cov[j*pq + i] = -cov[j*pq + i];
+		}
+	}
+}
+
 int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, double *theta, double *wmean,double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length,M,ret;
 	double *b, *tf, *x,*dx,*thess;
@@ -1323,6 +1335,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	ma_cov_sign(hess, pq, p, q);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -1599,6 +1612,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	ma_cov_sign(hess, pq, p, q);
 
 
 	for (i = 0; i < p; ++i) {
@@ -1884,6 +1898,8 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	ma_cov_sign(hess, pq, p, q);
+	ma_cov_sign(hess, pq, p + q + P, Q);
 
 
 	for (i = 0; i < p; ++i) {
@@ -2159,6 +2175,8 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	ma_cov_sign(hess, pq, p, q);
+	ma_cov_sign(hess, pq, p + q + P, Q);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -2548,6 +2566,8 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	ma_cov_sign(hess, pq, p, q);
+	ma_cov_sign(hess, pq, p + q + P, Q);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -2891,6 +2911,8 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	ma_cov_sign(hess, pq, p, q);
+	ma_cov_sign(hess, pq, p + q + P, Q);
 
 	//mdisplay(hess,pq,pq);
 
-- 
2.43.0


From 0cb1194d0e45a7e7006fa48e25c3011c4cae08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 104/114] fix: auto_arima_summary printed the drift as the mean
 and dropped the last regressor

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 3eded23..53c5c1b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3753,7 +3753,7 @@ void sarimax_summary(sarimax_object obj) {
 void auto_arima_summary(auto_arima_object obj) {
 	int i, pq,t,ncxreg,mean,drift;
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
-	mean = obj->M - obj->r;
+	mean = obj->M - obj->r - obj->idrift;// obj->r does not count the drift term
 
 	if (obj->method == 0 || obj->method == 1) {
 		printf("\n\nExit Status \n");
@@ -3822,7 +3822,7 @@ void auto_arima_summary(auto_arima_object obj) {
 	} else {
 		printf("%-17s%-20g \n", "TREND", 0.0);
 	}
-	for(i = ncxreg; i < obj->r; ++i) {
+	for(i = ncxreg; i < obj->r + obj->idrift; ++i) {
 		printf("%-17s%-20g%-20g \n", "EXOG", obj->exog[i], sqrt(obj->vcov[t + pq * t]));
 		t++;
 	}
-- 
2.43.0


From d405a2af4da5da3cd4474fcbcd17e5ec0bdb0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 105/114] fix: summaries left negative moving-average terms out
 of the equation

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 53c5c1b..c084d08 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3467,7 +3467,7 @@ void sarima_summary(sarima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3579,7 +3579,7 @@ void arima_summary(arima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3731,7 +3731,7 @@ void sarimax_summary(sarimax_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
-- 
2.43.0


From b365f355451c2ad615f1f3d5da8058d5130b23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 106/114] fix: summaries printed the mean as the constant of
 the equation

---
 src/ctsa.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index c084d08..f92743f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3477,6 +3477,7 @@ void sarima_summary(sarima_object obj) {
 
 void arima_summary(arima_object obj) {
 	int i, pq,t;
+	double c;
 	pq = obj->p + obj->q + obj->M;
 	if (obj->method == 0 || obj->method == 1) {
 		printf("\n\nExit Status \n");
@@ -3571,8 +3572,12 @@ void arima_summary(arima_object obj) {
 	}
 
 	printf("=");
-	if (obj->mean != 0.0) {
-		printf(" %g +", obj->mean);
+	c = obj->mean;
+	for (i = 0; i < obj->p; ++i) {
+		c -= obj->mean * obj->phi[i];
+	}
+	if (c != 0.0) {
+		printf(" %g +", c);
 	}
 	printf(" a[t] ");
 	for (i = 0; i < obj->q; ++i) {
@@ -3604,6 +3609,7 @@ void arima_summary(arima_object obj) {
 
 void sarimax_summary(sarimax_object obj) {
 	int i, pq,t,nd,ncxreg,mean;
+	double c;
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
 	mean = obj->M - obj->r;
 	
@@ -3723,8 +3729,12 @@ void sarimax_summary(sarimax_object obj) {
 	}
 
 	printf("=");
-	if (obj->mean != 0.0) {
-		printf(" %g +", obj->mean);
+	c = obj->mean;
+	for (i = 0; i < obj->p; ++i) {
+		c -= obj->mean * obj->phi[i];
+	}
+	if (c != 0.0) {
+		printf(" %g +", c);
 	}
 	printf(" a[t] ");
 	for (i = 0; i < obj->q; ++i) {
-- 
2.43.0


From eba2733cea6442fa0248135b5c49fe7b0bcb0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 107/114] fix: anova_list numbered the models 0, 2, 3, ...

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 4571b4f..3021d63 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -702,7 +702,7 @@ void anova_list(reg_object *list, int N) {
 	printf("%-10d%-25d%-20lf \n", 0,
 		list[0]->df_RSS, list[0]->RSS);
 	for(i = 1; i < N;++i) {
-		printf("%-10d%-25d%-20lf%-20d%-20lf \n", i+1,
+		printf("%-10d%-25d%-20lf%-20d%-20lf \n", i,
 		list[i]->df_RSS, list[i]->RSS, list[i-1]->df_RSS-list[i]->df_RSS,list[i-1]->RSS-list[i]->RSS);
 	}
 }
-- 
2.43.0


From d0f7bcc0c207affeb5febe3fd87da25d7abccd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 108/114] fix: Box-Jenkins estimation without parameters must
 not read empty arrays

---
 src/boxjenkins.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 76179bc..0ab9f74 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -760,7 +760,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k+i]);
 	}
 
-	tau = array_max(D,k);
+	tau = (k > 0) ? array_max(D,k) : 0.0;
 	//printf("TAU %g \n",tau);
 	//mdisplay(x,k,N+qd-1);
 
@@ -828,7 +828,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	    suminc = sosqm(atinc,N+qd-1);
 	    sumb = sosqm(at,N+qd-1);
 
-	    hmax = array_max_abs(h,k);
+	    hmax = (k > 0) ? array_max_abs(h,k) : 0.0;
 	    //printf("HMAX %g %g %g \n",hmax,suminc,sumb);
 
 	    if (suminc < sumb) {
@@ -1307,7 +1307,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k + i]);
 	}
 
-	tau = array_max(D, k);
+	tau = (k > 0) ? array_max(D, k) : 0.0;
 
 	//printf("TAUMAX %g \n", tau);
 
@@ -1408,7 +1408,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		suminc = sosqm(atinc, N + qd - 1);
 		sumb = sosqm(at, N + qd - 1);
 
-		hmax = array_max_abs(h, k);
+		hmax = (k > 0) ? array_max_abs(h, k) : 0.0;
 		//printf("HMAX %g %g %g \n",hmax,suminc,sumb);
 
 		if (suminc < sumb) {
-- 
2.43.0


From 758fb00bf164cd28bc19fe2d0b08312605b1aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 109/114] fix: differenced regressors need a buffer of the
 undifferenced length

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 6744012..91a6590 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1723,7 +1723,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(x0,xreg,sizeof(double)*ncxreg*length);
 		}
 	}
-	XX = (double*) malloc(sizeof(double)*N*(r+1));
+	XX = (double*) malloc(sizeof(double)*length*(r+1));
 
 	if (ncxreg > 0) {
 		N1 = length;
@@ -2412,7 +2412,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(x0,xreg,sizeof(double)*ncxreg*length);
 		}
 	}
-	XX = (double*) malloc(sizeof(double)*N*(r+1));
+	XX = (double*) malloc(sizeof(double)*length*(r+1));
 
 	if (ncxreg > 0) {
 		N1 = length;
-- 
2.43.0


From 70dd55b90da1d502b28534fd2cb1fa747832f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 110/114] fix: iswt must free the convolution objects it
 creates

---
 src/wavelib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 8b449f7..ec9acc0 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2306,6 +2306,11 @@ void iswt(wt_object wt, double *swtop) {
 
 			circshift(oup01, 2*len0, -1);
 
+			if (wt->wave->lpr_len == wt->wave->hpr_len && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
+				free_conv(wt->cobj);
+				wt->cfftset = 0;
+			}
+
 			index2 = 0;
 
 			for (index = count; index < N; index += value) {
-- 
2.43.0


From ec2e25ef9425f24f35938fb89033ec889cbc8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 111/114] fix: Box-Jenkins estimation without parameters
 evaluates the residuals only

---
 src/boxjenkins.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 0ab9f74..f2c4296 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -761,10 +761,15 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	tau = (k > 0) ? array_max(D,k) : 0.0;
+	if (k == 0) {
+		// Nothing to estimate
+		sumb = sosqm(at,N+qd-1);
+		retval = 1;
+	}
 	//printf("TAU %g \n",tau);
 	//mdisplay(x,k,N+qd-1);
 
-	while (hmax >= e1 && it < itmax) {
+	while (k > 0 && hmax >= e1 && it < itmax) {
 		it++;
 		for(i = 0; i < k;++i) {
 			for(j = 0; j < k;++j) {
@@ -828,7 +833,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	    suminc = sosqm(atinc,N+qd-1);
 	    sumb = sosqm(at,N+qd-1);
 
-	    hmax = (k > 0) ? array_max_abs(h,k) : 0.0;
+	    hmax = array_max_abs(h,k);
 	    //printf("HMAX %g %g %g \n",hmax,suminc,sumb);
 
 	    if (suminc < sumb) {
@@ -1308,10 +1313,15 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	tau = (k > 0) ? array_max(D, k) : 0.0;
+	if (k == 0) {
+		// Nothing to estimate
+		sumb = sosqm(at, N + qd - 1);
+		retval = 1;
+	}
 
 	//printf("TAUMAX %g \n", tau);
 
-	while (hmax >= e1 && it < itmax) {
+	while (k > 0 && hmax >= e1 && it < itmax) {
 		it++;
 		for (i = 0; i < k; ++i) {
 			for (j = 0; j < k; ++j) {
@@ -1408,7 +1418,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		suminc = sosqm(atinc, N + qd - 1);
 		sumb = sosqm(at, N + qd - 1);
 
-		hmax = (k > 0) ? array_max_abs(h, k) : 0.0;
+		hmax = array_max_abs(h, k);
 		//printf("HMAX %g %g %g \n",hmax,suminc,sumb);
 
 		if (suminc < sumb) {
-- 
2.43.0


From 7b877798fc785564730cce0fcecc57c6d23df0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 112/114] fix: Box-Jenkins fits stay inside the stationary and
 invertible region

---
 src/boxjenkins.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index f2c4296..9ef7376 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -608,6 +608,32 @@ void avalues(double *w,int N,int p, int q, double *phi,double *theta,int s,int p
 
 }
 
+static int bjadmissible(int p,int q,double *phi,double *theta) {
+	// 1 if the coefficients are finite and the polynomials stationary and invertible
+	int i;
+
+	for(i = 0; i < p;++i) {
+		if (!isfinite(phi[i])) return 0;
+	}
+	for(i = 0; i < q;++i) {
+		if (!isfinite(theta[i])) return 0;
+	}
+
+	return archeck(p,phi) && archeck(q,theta);
+}
+
+static void bjstart(int p,int q,double *phi,double *theta) {
+	// Preliminary estimates outside the admissible region are no starting point
+	int i;
+
+	if (!bjadmissible(p,0,phi,theta)) {
+		for(i = 0; i < p;++i) phi[i] = 0.0;
+	}
+	if (!bjadmissible(0,q,phi,theta)) {
+		for(i = 0; i < q;++i) theta[i] = 0.0;
+	}
+}
+
 int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
@@ -655,6 +681,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	
 
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
+	bjstart(p,q,phi,theta);
 
 	if (M == 1) {
 		*thetac = mean(inp,N);
@@ -836,7 +863,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	    hmax = array_max_abs(h,k);
 	    //printf("HMAX %g %g %g \n",hmax,suminc,sumb);
 
-	    if (suminc < sumb) {
+	    if (suminc < sumb && bjadmissible(p,q,binc+M,binc+M+p)) {
 	    	if (hmax < e1) {
 	    		retval = 1;
 	    		break;
@@ -1081,7 +1108,9 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
+	bjstart(p,q,phi,theta);
 	USPE_seasonal(inp,N,s,lps,lqs,phis,thetas);
+	bjstart(lps,lqs,phis,thetas);
 	//mdisplay(phi,1,p);
 	//mdisplay(theta,1,q);
 	//mdisplay(phis,1,lps);
@@ -1421,7 +1450,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		hmax = array_max_abs(h, k);
 		//printf("HMAX %g %g %g \n",hmax,suminc,sumb);
 
-		if (suminc < sumb) {
+		if (suminc < sumb && bjadmissible(p,q,binc+M,binc+M+p) && bjadmissible(lps,lqs,binc+M+p+q,binc+M+p+q+lps)) {
 			if (hmax < e1) {
 				retval = 1;
 				break;
-- 
2.43.0


From 3c5c22af49b0cd137c4cefa6944a4d44f188f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 113/114] fix: L-BFGS used curvature pairs without positive
 curvature, went uphill and reported success

---
 src/secant.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/secant.c b/src/secant.c
index f8be6cf..07b940f 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -793,6 +793,10 @@ void bfgs_rec(double *H,int N,int iter,int m,double *jac,double *sk,double *yk,d
 			temp2[k] = sk[ptr+k];
 		}
 		mmult(temp1,temp2,temp,1,N,1);
+		if (!(temp[0] > 0.0)) {
+			rho[i] = 0.0; // No positive curvature along this step
+			continue;
+		}
 		rho[i] = 1.0/temp[0];
 		mmult(temp2,q,alpha+i,1,N,1);
 		alpha[i] *= rho[i];
@@ -803,6 +807,7 @@ void bfgs_rec(double *H,int N,int iter,int m,double *jac,double *sk,double *yk,d
 	mmult(H,q,r,N,N,1);
 	for (i = 0; i < bound;++i) {
 		ptr = i * N;
+		if (rho[i] == 0.0) continue;
 		for(k = 0; k < N;++k) {
 			temp1[k] = yk[ptr+k];
 			//temp2[k] = r[ptr+k];
@@ -837,7 +842,7 @@ void inithess_l(double *H, int N, int k, double *tsk,double *tyk, double *dx) {
 	mmult(tsk, tyk, num, 1, N, 1);
 	mmult(tyk, tyk, den, 1, N, 1);
 
-	if (k > 0) {
+	if (k > 0 && num[0] > 0.0 && den[0] > 0.0) {
 		temp = num[0] / den[0];
 	}
 	else {
-- 
2.43.0


From ed72ebdced57776edd74219801b0330581f143dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 114/114] fix: continue exact likelihood fits after MA roots
 were reflected, the reflected point need not be a maximum

---
 src/emle.c | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 91a6590..12e146c 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -35,6 +35,34 @@ void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P,
 
 }
 
+static int invert_refit(custom_function *funcpt, int pq, double *b, double *tf, double maxstep, int optmethod, int p, int q, int P, int Q, int ret) {
+	// Reflects MA roots inside the unit circle. The reflected point need not be stationary,
+	// so the optimization is continued from there.
+	int i, ch, it, retval;
+
+	for (it = 0; it < 2; ++it) {
+		ch = 0;
+		if (q > 0) {
+			ch += invertroot(q,tf+p);
+		}
+		if (Q > 0) {
+			ch += invertroot(Q,tf+p+q+P);
+		}
+		if (ch == 0 || it == 1 || ret != 1) {
+			break;
+		}
+		for (i = 0; i < pq; ++i) {
+			b[i] = tf[i];
+		}
+		retval = fminunc(funcpt, NULL, pq, b, maxstep, optmethod, tf);
+		if (retval == 0 || retval == 15 || retval == 4) {
+			ret = retval;
+		}
+	}
+
+	return ret;
+}
+
 static int checkroots_cerr(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q) {
 	int ret,out;
 
@@ -1596,9 +1624,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 
 	//Check for invertibility
 
-	if (q > 0) {
-		invertroot(q,tf+p);
-	}
+	ret = invert_refit(&as154_min, pq, b, tf, maxstep, optmethod, p, q, 0, 0, ret);
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
 	fas154(tf, pq, obj); // leave obj at the estimates
@@ -1867,13 +1893,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 		ret = 1;
 	}
 
-	if (q > 0) {
-		invertroot(q,tf+p);
-	}
-
-	if (Q > 0) {
-		invertroot(Q,tf+p+q+P);
-	}
+	ret = invert_refit(&as154_min, pq, b, tf, maxstep, optmethod, p, q, P, Q, ret);
 
 
 
@@ -2888,13 +2908,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 
 	//Check for invertibility
 
-	if (q > 0) {
-		invertroot(q,tf+p);
-	}
-
-	if (Q > 0) {
-		invertroot(Q,tf+p+q+P);
-	}
+	ret = invert_refit(&as154_min, pq, b, tf, maxstep, optmethod, p, q, P, Q, ret);
 
 	//if (obj->M == 1) dx[pq - 1] = sigma;
 
-- 
2.43.0

