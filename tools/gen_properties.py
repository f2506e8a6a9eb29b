#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

PRINT = "the test programs only print numbers and exit 0, so no wrong value is ever noticed; "

prop("C01", "Exact-ML fits report the exact Gaussian likelihood of the data",
 "After any successful exact-likelihood fit of an ARIMA, seasonal ARIMA or ARIMA-with-regressors model, the reported log-likelihood, innovation variance, AIC (with its parameter count), mean/regression coefficients and residual length describe one and the same model: evaluating the exact Gaussian likelihood of the differenced, regression-adjusted series at the reported coefficients gives the reported log-likelihood, and the reported variance is the maximiser for those coefficients. The fitted AR part is stationary, and fields for orders that are zero stay zero.",
 ["inputs", "configurations"], "every order (p,d,q)(P,D,Q)s, mean/regressor setting, estimation method and optimiser within a bound, on every series of a fixed alphabet",
 PRINT+"they fit half a dozen fixed data sets, one order each, and nothing compares the likelihood with an independent evaluation.",
 ["src/ctsa.c", "src/emle.c", "src/talg.c"],
 [("exact likelihood by Kalman filter", "src/emle.c: starma, karma, fas154, fas154_seas, fas154x_seas"), ("fit drivers", "src/emle.c: as154, as154_seas, as154x; src/ctsa.c: arima_exec, sarima_exec, sarimax_exec")],
 [("loglik/aic/var/phi/theta/PHI/THETA/mean", "the reported fit", "model objects, src/ctsa.h")], ["object fields after exec"])

prop("C02", "Fits are optimal for the objective they claim to optimise",
 "A fit that reports success returns coefficients whose objective (exact likelihood for ML methods, conditional sum of squares for CSS) cannot be noticeably improved by small changes of the coefficients, and is not noticeably worse than the best point of a coarse lattice over the admissible coefficient region. This holds for every one of the selectable optimisers, which therefore agree with each other.",
 ["inputs", "configurations"], "every low order, every optimiser choice 0..7 and estimation method, on every series of a fixed alphabet, against every lattice point and every coordinate perturbation",
 PRINT+"they use one optimiser per model and never evaluate the objective at another point.",
 ["src/emle.c", "src/optimc.c", "src/newtonmin.c", "src/secant.c", "src/lnsrchmp.c", "src/conjgrad.c", "src/neldermead.c"],
 [("optimiser dispatch", "src/optimc.c: fminunc, fminsearch"), ("objectives", "src/emle.c: fas154*, fcss*")], [], ["phi, theta, PHI, THETA, loglik, var after exec"])

prop("C03", "CSS fits report the conditional sum of squares they minimised",
 "After a fit by conditional sum of squares, the reported variance equals the mean of squared conditional residuals obtained by running the (seasonal) ARMA difference equation on the differenced, mean- or regression-adjusted series at the reported coefficients, and the reported log-likelihood and AIC follow from that variance. The result does not depend on any earlier fit done with the same object.",
 ["inputs", "configurations", "histories"], "every low order including seasonal and differenced ones, mean on/off, regressors on/off, every series of a fixed alphabet, first and repeated execution",
 PRINT+"CSS is exercised by one program, with one order.",
 ["src/emle.c", "src/ctsa.c"], [("CSS objective and residuals", "src/emle.c: fcss, fcss_seas, fcssx, css, css_seas, cssx")], [], ["var, loglik, aic, res after exec"])

prop("C04", "Forecasts are the model's conditional expectations with their true MSE",
 "For every fitted model the h-step forecasts are the conditional means of the future values of the integrated process given the whole observed series, and the reported mean-square errors are the innovation variance times the cumulative squared psi-weights of the integrated model. Forecasting L steps and then reading the first k gives the same numbers as forecasting k steps, the MSE never decreases and starts at the one-step error, and neither the input series nor the fitted coefficients are modified.",
 ["inputs", "configurations"], "every order (p,d,q)(P,D,Q)s within a bound incl. all-zero orders, every coefficient vector of a lattice inside the stationary and invertible region, every horizon up to a bound, every series of an alphabet",
 PRINT+"forecasts are printed for six fitted models at one horizon.",
 ["src/emle.c", "src/ctsa.c", "src/pred.c"], [("finite-sample prediction", "src/emle.c: forkal"), ("integration and wrappers", "src/ctsa.c: arima_predict, sarima_predict, sarimax_predict, ar_predict")],
 [], ["xpred and amse of *_predict"])

prop("C05", "Regressors and drift enter fits and forecasts linearly and consistently",
 "For models with external regressors (and drift in automatic models), forecasts equal the regression part evaluated on the new regressor rows plus the forecast of the ARIMA errors, for any number of regressor columns and any differencing. Reordering the regressor columns only reorders their coefficients, adding a known multiple of a regressor to the series shifts exactly its coefficient, and a constant or trend added to the series is absorbed by the mean or drift term.",
 ["inputs", "configurations"], "1..3 regressor columns in every order, all small (p,d,q)(P,D,Q)s, every series of an alphabet, every horizon up to a bound",
 PRINT+"three programs use the same one- or two-column regressor.",
 ["src/ctsa.c", "src/emle.c"], [("regression inside the likelihood", "src/emle.c: as154x, cssx"), ("regression part of forecasts", "src/ctsa.c: sarimax_predict, sarimax_wrapper_predict, auto_arima_predict")], [], ["exog, mean, xpred"])

prop("C06", "Model objects behave the same whatever calls preceded",
 "The result of executing, predicting with, or reading the covariance of a model object depends only on the current settings and the data passed, not on which earlier executions, predictions, setter calls or other objects came before: repeating an execution reproduces every reported field, a setter given a valid value takes effect and given an invalid value changes nothing, and calls never modify the caller's input arrays. Summaries and predictions leave the fitted model unchanged.",
 ["histories"], "every sequence of operations up to a depth over an alphabet of setters (valid and invalid), executions on two series, predictions, covariance reads and summaries, for each of the five object kinds",
 PRINT+"every program performs one init-exec-predict-free history.",
 ["src/ctsa.c", "src/emle.c"], [("object lifecycle", "src/ctsa.c: *_init, *_set*, *_exec, *_predict, *_vcov, *_free")],
 [("method, optmethod, cssml, start", "settings of the object", "src/ctsa.h"), ("params block", "fitted coefficients", "src/ctsa.h")], ["all object fields"])

prop("C07", "Memory safety and no leaks over the whole admissible parameter space",
 "For every admissible combination of orders, lengths, methods and horizons, no public operation reads or writes outside the memory it owns or was given, uses freed memory, or leaves memory allocated after the corresponding free call. Operations return instead of hanging or terminating the process.",
 ["inputs", "configurations"], "every small order and seasonal period, series lengths down to the minimum the model needs, all methods and optimisers, all horizons up to a bound, degenerate series included",
 "the suite runs uninstrumented with ample series lengths and moderate orders, so a one-element overrun or leak passes unnoticed.",
 ["src/ctsa.c", "src/emle.c", "src/initest.c", "src/boxjenkins.c", "src/talg.c", "src/stats.c"], [("buffer sizing", "src/ctsa.c: *_init; src/emle.c: alik_*_init")], [], ["address/leak sanitizer reports, exit status, time"])

prop("C08", "Automatic order search returns the best admissible model it evaluated",
 "Whatever information-criterion values the candidate fits produce, the automatic ARIMA search (stepwise or exhaustive) terminates within its model budget, fits only orders inside the configured maxima (total order included for the exhaustive search), never fits the same candidate twice in the stepwise search, and returns a model whose criterion is the minimum over all successfully evaluated candidates. The stepwise result is a local optimum: none of its neighbouring orders inside the bounds has a smaller criterion unless the budget was exhausted.",
 ["histories", "configurations", "fault_sequences"], "every ranking of candidate models a bounded adversary can choose (including failed fits), every small setting of the maxima, seasonal and non-seasonal, with and without mean/drift",
 PRINT+"three programs run the search on three data sets, so at most three rankings of candidates are ever seen.",
 ["src/ctsa.c"], [("search", "src/ctsa.c: auto_arima1, search_arima, myarima"), ("candidate evaluation", "src/ctsa.c: sarimax_wrapper")],
 [("results table", "candidates already evaluated", "auto_arima1")], ["orders and ic of the returned object; sequence of candidate fits"])

prop("C09", "Automatic models report coherent orders, criteria and settings",
 "An automatically selected model reports orders within the configured maxima, differencing orders equal to those the configured tests select (zero when stationarity is requested), and AIC, AICc and BIC that follow from its own log-likelihood, parameter count and effective length. The result equals what fitting that order directly gives, and every configuration setter changes exactly what it names.",
 ["inputs", "configurations"], "every combination of the boolean and small-integer settings on every series of an alphabet",
 PRINT+"default settings on three series only.",
 ["src/ctsa.c", "src/autoutils.c"], [("driver", "src/ctsa.c: auto_arima_exec, auto_arima1"), ("criteria", "src/ctsa.c: sarimax_wrapper, myarima")], [], ["fields of the automatic-model object"])

prop("C10", "Number of differences follows the sequential test rule",
 "The number of ordinary (or seasonal) differences recommended is the smallest d (or D) up to the configured maximum such that the d-times differenced series is constant or the configured unit-root (or seasonal-strength) test no longer asks for differencing at the configured level. A constant series needs none, and the input is not modified.",
 ["inputs", "configurations"], "every series over a small value alphabet and every member of a structured family, all three unit-root tests and types, both seasonal tests, all maxima and levels of a grid",
 PRINT+"reached only indirectly by three default runs.",
 ["src/autoutils.c"], [("sequential rule", "src/autoutils.c: ndiffs, nsdiffs, is_constant")], [], ["return value"])

prop("C11", "Unit-root and seasonality statistics match their definitions",
 "The KPSS, augmented Dickey-Fuller, Phillips-Perron and seasonal (strength and OCSB) statistics equal their textbook definitions computed from an ordinary least-squares fit of the stated regression with the stated lag and Bartlett weights, and are invariant to the shifts and scalings those definitions ignore. P-values and critical values come from the published tables by linear interpolation, clamped at the table ends, and the chosen alternative only reverses the tail.",
 ["inputs", "configurations"], "every lag up to a bound, type, alternative and lag-selection rule, for lengths crossing every table boundary, on every series of an alphabet",
 PRINT+"only default lags are reached, on three series.",
 ["src/unitroot.c", "src/seastest.c", "src/talg.c"], [("tests", "src/unitroot.c: ur_kpss, ur_df, ur_df2, ur_pp, ur_pp2; src/seastest.c: OCSBtest, SHtest"), ("helpers", "src/talg.c: ppsum, interpolate_linear")], [], ["statistic, p-value, critical values"])

prop("C12", "Differencing and polynomial utilities are exact",
 "Ordinary and seasonal differencing of any order equals repeated lag-subtraction, the differencing polynomials are the expansions of (1-B)^d and (1-B^s)^D, differencing equals filtering with those polynomials, and polynomial multiplication, up/down-sampling and cumulative sums are exact with the documented output lengths. Writes stay inside the documented output length and inputs are unchanged.",
 ["inputs"], "every length up to a bound, every order d, seasonal order D and period s that leaves at least one value, unit-impulse and integer-valued inputs (exact arithmetic, hence by linearity all inputs)",
 PRINT+"only d,D in {0,1} with two periods are exercised.",
 ["src/talg.c"], [("differencing", "src/talg.c: diff, diffs, deld, delds, poly, cumsum, upsample, downsample")], [], ["output arrays, returned length"])

prop("C13", "Autocovariance, ACF and PACF match their definitions in every mode",
 "The sample autocovariances are the biased (divide-by-N) estimates about the sample mean for every length and number of lags, the direct and FFT modes agree, normalising gives the autocorrelation with lag zero equal to one, and each partial-autocorrelation mode returns at every lag the last coefficient of the corresponding autoregression of that order. Autocovariances form a positive semi-definite sequence, partial autocorrelations of the Yule-Walker and Burg modes lie in [-1,1], and asking for more lags never changes the earlier ones.",
 ["inputs", "configurations"], "every length up to a bound, every number of lags, every mode, on every series over a small alphabet and on unit impulses",
 PRINT+"acftest and pacftest print one data set's values.",
 ["src/ctsa.c", "src/stats.c", "src/initest.c"], [("estimators", "src/stats.c: autocovar, autocovar_fft, autocorr; src/ctsa.c: acvf, acvf_opt, acvf2acf, pacf, pacf_opt; src/initest.c: pacf_yw, pacf_burg, pacf_mle")], [], ["output arrays"])

prop("C14", "AR estimators solve their defining equations",
 "Yule-Walker coefficients solve the Yule-Walker equations of the sample autocovariances and are always stationary, Burg coefficients minimise forward-plus-backward prediction error at each order, Hannan-Rissanen solves its long-autoregression least-squares problem, and each reports the matching innovation variance. Autoregressive fits with automatic order choose the order of minimum AIC up to the configured maximum and report that order's coefficients, mean, residuals and criterion consistently.",
 ["inputs", "configurations"], "every order up to a bound and every series of an alphabet, every method, scaled and shifted copies of the series included",
 PRINT+"two programs fit one order-1..15 series each.",
 ["src/initest.c", "src/ctsa.c"], [("estimators", "src/initest.c: ywalg, ywalg2, burgalg, hralg, hrstep2"), ("wrappers", "src/ctsa.c: yw, burg, hr, ar, ar_exec, ar_estimate")], [], ["phi, theta, var, order, aic"])

prop("C15", "FFT equals the discrete Fourier transform for every length",
 "For every transform length the forward transform equals the DFT, the inverse composed with the forward returns N times the input, and the real-input transforms agree with the complex one for every even length. Objects may be reused any number of times and inputs are not modified.",
 ["inputs", "configurations"], "every length up to a bound (all radix paths, generic odd-factor and chirp-z paths), every unit impulse and its imaginary multiple (hence by linearity all inputs), both directions, reuse sequences",
 "no test touches the FFT directly; two lengths are reached through the ACF and DWT programs.",
 ["src/hsfft.c", "src/real.c"], [("mixed radix and chirp-z", "src/hsfft.c: fft_init, fft_exec, mixed_radix_dit_rec, bluestein_fft"), ("real transforms", "src/real.c")], [], ["output arrays"])

prop("C16", "Convolution is exact in every mode and size",
 "Direct and FFT-based linear convolution give the same full product of two sequences for every pair of lengths in either order, with 'same' and 'valid' returning the documented centred or fully-overlapping part and its length. Convolution commutes, and convolving with a unit impulse shifts.",
 ["inputs", "configurations"], "every pair of lengths up to a bound, every method and mode, every pair of unit impulses (hence by bilinearity all inputs)",
 PRINT+"convolution is only reached through the ACF and decomposition with fixed sizes.",
 ["src/conv.c", "src/filter.c"], [("convolution", "src/conv.c: conv_direct, conv_directx, conv_fft, convolve"), ("filter helpers", "src/filter.c: conv, convx")], [], ["output arrays, returned length"])

prop("C17", "Wavelet transforms reconstruct perfectly for every wavelet and length",
 "For every supported wavelet, signal length, level, extension and convolution method, the inverse of the decimated, packet, stationary and maximal-overlap transforms returns the original signal, and multiresolution components sum to it. Coefficient vectors have the documented lengths, orthogonal-wavelet periodic and maximal-overlap transforms preserve energy, and each filter bank satisfies its (bi)orthogonality conditions.",
 ["inputs", "configurations"], "every wavelet name, every length up to a bound, every admissible level, both extensions, both convolution methods, unit impulses (hence by linearity all signals)",
 PRINT+"dwttests covers a few db/coif/bior wavelets at lengths 22..100 with random signals, periodic/symmetric DWT, SWT and MODWT.",
 ["src/wavelib.c", "src/wtmath.c", "src/wavefilt.c"], [("transforms", "src/wavelib.c: dwt, idwt, swt, iswt, modwt, imodwt, dwpt, idwpt, wtree; src/wtmath.c"), ("filters", "src/wavefilt.c: filtcoef, filtlength")], [], ["output arrays and lengths"])

prop("C18", "Linear-algebra kernels satisfy their defining identities at every size",
 "Matrix products (plain, blocked, Strassen, recursive) agree with the triple-sum definition for every shape, factorisations (LU, QR, Cholesky, SVD, Hessenberg, eigen) multiply back to the input with factors of the stated structure, and linear solves, inverses, ranks and least-squares solutions satisfy their defining equations. Singular or rank-deficient input is reported rather than silently mis-solved.",
 ["inputs"], "every shape up to a bound and every matrix over a tiny integer alphabet at small sizes, plus structured matrices at larger and block-boundary sizes",
 "no test calls these directly; they are reached with the handful of shapes the model fits use.",
 ["src/matrix.c", "src/lls.c"], [("kernels", "src/matrix.c; src/lls.c: lls_normal, lls_qr, lls_svd, lls_svd2, svd_gr, minfit")], [], ["output arrays, return codes"])

prop("C19", "Linear regression reports a consistent least-squares fit",
 "Regression, with or without intercept and by every least-squares method, returns coefficients satisfying the normal equations, residuals equal to observed minus fitted, and sums of squares, R-squared, variance, standard errors, F statistic, log-likelihood, AIC, AICc and BIC that satisfy their defining relations. Fitted values evaluated from the result equal the regression function.",
 ["inputs", "configurations"], "every regressor count and sample size up to a bound, intercept on and off, all three solvers, every design over a small integer alphabet at the smallest sizes and structured designs above",
 "no test calls regression directly; it is reached with a few designs inside the unit-root tests and seasonal search.",
 ["src/regression.c", "src/lls.c"], [("regression", "src/regression.c: regress, linreg_multi, linreg_clrm, fitted, regress_poly")], [], ["fields of the regression object, residuals, covariance"])

prop("C20", "Seasonal decomposition is exactly additive and well-formed",
 "Seasonal-trend decompositions satisfy data = seasonal + trend + remainder (or the product in multiplicative mode) at every point, all outputs are finite and fully written, periodic seasonals repeat with the stated period, and a purely periodic or purely linear series is recovered without remainder. Loess window, degree, jump and robustness settings each take effect and are independent of which other settings are given.",
 ["inputs", "configurations"], "every period and length up to a bound, every combination of optional settings given or omitted, every series of an alphabet",
 PRINT+"STL is reached only inside default seasonal searches.",
 ["src/stl.c", "src/seastest.c"], [("STL", "src/stl.c; src/seastest.c: stl, modstl, mstl, decompose")], [], ["seasonal, trend, remainder arrays"])

prop("C21", "Polynomial root finding returns all roots",
 "For every real or complex polynomial with non-zero leading coefficient the root finder returns exactly degree-many values that, multiplied back with the leading coefficient, reproduce the polynomial to the accuracy its conditioning allows; zero roots are found exactly and real polynomials give conjugate-closed roots. Failure is reported for a zero leading coefficient.",
 ["inputs"], "every polynomial with small integer coefficients up to a degree bound, and every multiset of roots from a lattice (repeated, conjugate, zero, widely scaled)",
 "root finding is only reached for two or three fitted AR/MA polynomials.",
 ["src/polyroot.c"], [("CPOLY", "src/polyroot.c: cpoly, polyroot, cpolyroot")], [], ["root arrays, return code"])

prop("C22", "Distribution and special functions are accurate and mutually inverse",
 "Error-function, gamma, incomplete gamma/beta functions and the normal, Student t, F, chi-square and gamma distributions agree with independent evaluation over their domain, densities integrate to distribution functions, distribution functions are monotone in [0,1] with correct tails and symmetries, and each inverse distribution function inverts its distribution function.",
 ["inputs", "configurations"], "every point of a grid over argument and parameters including tails, integer degrees of freedom up to a bound, and switch-over points between approximations",
 "no test checks any of these values.",
 ["src/erfunc.c", "src/pdist.c", "src/dist.c"], [("special functions", "src/erfunc.c, src/pdist.c"), ("distributions", "src/dist.c")], [], ["return values"])

prop("C23", "Optimisers reach a local minimum and honour their contract",
 "Every selectable unconstrained minimiser, run on a smooth problem with a minimum, returns success with a point of (near-)zero gradient whose value is not above the start, within its iteration budget, whether or not an analytic gradient is given; scalar minimisation and root bracketing return a point inside the interval satisfying their tolerance. A return code of success is never given for a point worse than the start, and starting points are not modified.",
 ["inputs", "configurations"], "every method, every objective of a catalogue (quadratics of all condition numbers in a grid, Rosenbrock-type, quartic), every starting point of a lattice, dimensions up to a bound, gradient given or not",
 "optimisers are only reached through a few model fits.",
 ["src/optimc.c", "src/newtonmin.c", "src/secant.c", "src/conjgrad.c", "src/neldermead.c", "src/brent.c", "src/lnsrchmp.c"], [("dispatch", "src/optimc.c: fminunc, fminsearch, optimize, fminbnd, brent_local_min"), ("kernels", "src/newtonmin.c, src/secant.c, src/conjgrad.c, src/neldermead.c, src/lnsrchmp.c")], [], ["minimiser, value, return code"])

prop("C24", "Stationarity transforms and root reflections are exact",
 "The unconstrained-to-stationary coefficient transform always yields a stationary polynomial and its inverse undoes it, the stationarity check accepts exactly the polynomials with all roots outside the unit circle, and making a moving-average polynomial invertible leaves no root inside the unit circle while preserving its autocorrelations up to scale. Seasonal and non-seasonal blocks are handled independently.",
 ["inputs"], "every coefficient vector of a lattice up to an order bound, every multiset of roots of a lattice inside and outside the circle",
 "reached with the few coefficient vectors of fitted models.",
 ["src/talg.c"], [("transforms", "src/talg.c: artrans, arinvtrans, transall, invtransall, archeck, invertroot")], [], ["output arrays, return codes"])

prop("C25", "ARMA psi/pi weights and theoretical autocovariances are exact",
 "Psi and pi weights satisfy the defining power-series identities theta(B)=phi(B)psi(B) and phi(B)=theta(B)pi(B), and theoretical ARMA autocovariances equal the variance times the psi-weight sums at every lag for every order. The autocovariance of a model is linear in the innovation variance, and requesting more lags does not change earlier ones.",
 ["inputs", "configurations"], "every order (p,q) up to a bound and every coefficient vector of a lattice in the stationary region, every number of lags",
 "psi weights are only reached through one path; theoretical autocovariances are never checked.",
 ["src/talg.c", "src/emle.c"], [("weights", "src/talg.c: psiweight, piweight, arma_autocovar, twacf")], [], ["output arrays"])

prop("C26", "Concurrent use of separate objects is race-free and deterministic",
 "Operations of different threads on different model or transform objects never interfere: every interleaving produces bit-for-bit the results each operation gives when run alone. No operation keeps hidden mutable state between calls (the random matrix generator and the randomised SVD, which draw from the C library's generator, excepted).",
 ["schedules", "histories"], "every interleaving of two threads' operations up to a preemption bound over the library's memory-access points, for every pair of operations in an alphabet covering all modules",
 "every test program is single-threaded and performs one call history.",
 ["src/ctsa.c", "src/emle.c", "src/stl.c", "src/hsfft.c", "src/conv.c", "src/optimc.c"], [("no file-scope mutable state", "all of src/*.c")], [], ["bitwise outputs of each thread; shared-memory accesses"])

prop("C27", "Box-Cox transforms invert and select lambda by likelihood",
 "The Box-Cox transform equals its definition (logarithm at zero, signed power family otherwise) and the inverse transform undoes it for every lambda and admissible series. The automatically chosen lambda lies in the search interval and maximises the Box-Cox profile likelihood, constant series are left alone and non-positive data is rejected.",
 ["inputs"], "every lambda of a grid and every positive series over a small alphabet up to a length bound",
 "no test calls the Box-Cox routines.",
 ["src/boxcox.c"], [("transform", "src/boxcox.c: boxcox_eval, inv_boxcox_eval, boxcox, boxcox_loglik, checkConstant")], [], ["output arrays, lambda"])

prop("C28", "Accuracy measures, smoothers and interpolation match definitions",
 "Forecast-accuracy measures (mean, squared, absolute, percentage and scaled errors), moving-average and exponential smoothers, moving-average detrending and deseasonalising, linear interpolation and running sums equal their definitions at every index including both boundaries. Interpolation is exact at knots, monotone between them and clamps outside the table, and the super-smoother reproduces constants and straight lines.",
 ["inputs", "configurations"], "every length and window up to a bound, every series over a small integer alphabet, every interval and both table directions",
 "none of these is called by a test.",
 ["src/errors.c", "src/filter.c", "src/talg.c"], [("measures", "src/errors.c"), ("smoothers", "src/filter.c; src/talg.c: detrend_ma, deseason_ma, supsmu, interpolate_linear, approx, linspace, arrayminmax, ppsum")], [], ["outputs"])

prop("C29", "Spectral estimates satisfy Parseval and agree with definitions",
 "The periodogram and power spectral density equal the squared modulus of the DFT of the stated input with the stated normalisation at every frequency, for even and odd lengths and one- and two-sided output, so that the two-sided periodogram sums to the signal energy. Frequency vectors and the centre shift are consistent with the spectra.",
 ["inputs", "configurations"], "every length and zero-padded length up to a bound, both sides, unit impulses, pure tones and small-alphabet series",
 "never called by a test.",
 ["src/spectrum.c"], [("spectra", "src/spectrum.c: periodogram, psd, psd_autocovar, spectrum_shift")], [], ["spec, freq arrays"])

prop("C30", "Nonlinear least squares converges to a stationary point",
 "The Levenberg-Marquardt solver, with analytic or finite-difference Jacobian and with or without scaling, returns for every consistent starting point a point where the gradient of the sum of squares vanishes to tolerance and whose residual norm does not exceed the initial one, and linear problems are solved to the exact least-squares solution. Its QR and triangular kernels satisfy their identities.",
 ["inputs", "configurations"], "every problem of a catalogue, every starting point of a lattice, all shapes m>=n up to a bound, both Jacobian modes",
 "never called by a test.",
 ["src/nls.c", "src/optimc.c"], [("LM", "src/nls.c: lmder, lmdif, lmpar, qrfac, qrsolv; src/optimc.c: levmar, nls, nls_scale")], [], ["solution, return code"])

prop("C31", "Standard errors and printed summaries describe the fitted model",
 "After a successful fit the reported covariance matrix of the coefficients is the inverse of the observed information of the objective that was maximised (exact or conditional likelihood), in the order and sign of the reported coefficients: AR, MA, seasonal AR, seasonal MA, mean, regressors. Every summary (ARIMA, seasonal, with regressors, wrapper, automatic, AR, regression, analysis of variance, confidence intervals) prints next to each label the value, standard error, order, status and statistic that the object holds for that quantity, and its equation is the fitted difference equation of the differenced series.",
 ["inputs", "configurations"], "every low order of every model class, mean and regressors on and off, every estimation method, every optimiser, on a fixed alphabet of series",
 PRINT+"standard errors are only visible in that output.",
 ["src/emle.c", "src/ctsa.c", "src/regression.c"], [("covariance", "src/emle.c: as154*, css* (Hessian, delta method)"), ("printing", "src/ctsa.c: *_summary; src/regression.c: summary, anova, anova_list, confint")], [], ["vcov; standard output of the summaries"])

prop("C32", "Box-Jenkins fits minimise the back-forecast sum of squares they report",
 "A successful Box-Jenkins (method 2) fit of an ARIMA or seasonal ARIMA model returns stationary and invertible coefficients and a mean at which the unconditional sum of squares with back-forecasting cannot be noticeably improved, a variance equal to that sum of squares divided by the degrees of freedom, residuals of that length, a covariance matrix equal to the variance times the inverse cross-product of the residual derivatives in the order of the reported coefficients, and forecasts that revert to the reported mean.",
 ["inputs", "configurations"], "every low order (p,d,q)(P,D,Q)s, every series of a fixed alphabet",
 PRINT+"one program runs the method with one order and compares nothing.",
 ["src/boxjenkins.c", "src/ctsa.c"], [("non-linear least squares with back-forecasting", "src/boxjenkins.c: nlalsm, nlalsms, USPE, USPE_seasonal, avaluem, avaluems")], [], ["phi, theta, PHI, THETA, mean, var, res, vcov after exec with method 2"])

# Clarifications found necessary while deciding the properties (see DESIGN.md): domain and convention, appended to the statement.
CLARIFY = {
"C32": "Optimality is claimed where both polynomials stay away from the unit circle (an optimum on the boundary of the admissible region is not attained).",
"C02": "The claims about the lattice and about agreement of different optimisers hold where the objective has a single local optimum, away from the edge of the admissible region; noticeable means more than about one log-likelihood unit for these and a fraction of one for small moves, except within 0.05 of the unit circle, where the objective changes by many units within any finite move.",
"C03": "The mean is over the residuals that are not conditioned on, and AIC is -2 loglik + 2(k+1).",
"C04": "For fits by exact likelihood the MSE is the exact finite-sample prediction variance, which exceeds the psi-weight formula when the past does not determine the state.",
"C05": "Equivalences between refits hold for well-posed problems, whose optimum is unique and interior.",
"C06": "Starting values given to an object are one of its settings; results are compared for successful executions.",
"C08": "The at most five fixed initial candidates of the stepwise search are exempt from the budget and from never-twice; with approximation the returned model is the first of the approximate ranking whose full fit is admissible (exhaustive: if the approximate winner's full fit fails, the full search). The local optimum is over orders with the search's constant setting, the bare null model excepted.",
"C09": "Series that are constant after differencing are outside the claim, and a regressor that is constant after differencing lowers the differencing order by one.",
"C10": "Tests run with the library's documented lag settings and p-values clamped to [0.01, 0.1]; constant means exactly equal values; the series is long enough for the test.",
"C11": "The OCSB lag order is the candidate from one to the maximum that minimises the criterion over a common sample; singular or exact regressions are outside the claim.",
"C14": "Automatic order ranges up to the default maximum.",
"C17": "Signals are at least as long as the filter and the maximal-overlap transform uses orthogonal wavelets.",
"C20": "A linear series is recovered when the loess degrees are one and there are at least three periods; the multiple-seasonal routine uses the periods below half the length in ascending order.",
"C21": "Accuracy is claimed for degrees up to about forty and for well-conditioned higher ones.",
"C22": "Inverse beta, t and F functions have the accuracy of the published algorithm (about 1e-7).",
"C23": "Overflow and iteration-limit codes are honest failures; near-stationarity for the possible-success codes is claimed up to condition number 1e4; scalar minimisation is accurate to the square root of machine precision.",
"C27": "Automatic selection rejects constant series and negative data.",
"C28": "detrend_ma returns the moving-average trend; the super-smoother claim on straight lines is for evenly spaced abscissae.",
"C29": "psd_autocovar is the one-sided modulus squared of the DFT of the autocovariances over 2 pi N.",
"C30": "Stopping by the evaluation budget is an honest failure; columns of the Jacobian that vanish at the solution are outside the claim.",
}
for p in P:
    if p["id"] in CLARIFY: c = CLARIFY[p["id"]].replace(". ", "; "); w = c.split()[0]; p["statement"] = p["statement"].rstrip(".") + "; " + (c if w.isupper() and len(w) > 1 else c[0].lower() + c[1:])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
