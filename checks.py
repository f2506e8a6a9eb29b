"""Registry of checks: harness sources, build configuration, evidence rule."""
ASAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-ffp-contract=off"]
FAST = ["-O2", "-g1", "-ffp-contract=off"]
CONFIGS = {
    "asan": ("gcc", ASAN),
    "fast": ("gcc", FAST),
    # memory accesses of the library call our own __tsan_* hooks (harness/c26.c); the ThreadSanitizer runtime is not linked
    "hook": ("gcc", ["-O1", "-g1", "-ffp-contract=off", "-fsanitize=thread"]),
}
CHECKS = {}
NOTES = ("Model checking by bounded-exhaustive enumeration of the real library code: every case of a stated finite space "
         "(inputs x configurations x operation histories x environment answers x schedules) is executed and compared with an independent reference "
         "model; linear operations are checked on a full basis, so the verdict extends to all inputs of the enumerated sizes. No hooks in /repo. "
         "known_findings.txt lists repaired (fixed:) and recorded (finding:) defects.")
NOT_APPLICABLE = {}
DEFNOTE = ("Exhaustive over the stated finite bound, executed on the real code under AddressSanitizer; trusts the reference model in the harness, the compiler and libm. "
           "Says nothing beyond the bound.")
def check(id, src, rule, **kw):
    kw.setdefault("note", DEFNOTE)
    CHECKS[id] = dict(src=src, rule=rule, **kw)

check("C12", ["c12.c"],
      "one case per (function, lengths, orders, period); every unit impulse and three dense integer-valued series are run through it and compared exactly with repeated lag subtraction / the polynomial product definition. A case is non-trivial when its output vector is distinct (fingerprint set).")

check("C13", ["c13.c"], lib=["ref.c"],
      rule="one case per (function group, length, lags or mode); within it every series over {0,1,3}^n (n<=7 quick, 9 thorough), every unit impulse, and seven structured families are compared with the definitions evaluated in long double. Non-trivial: distinct output vectors.")

check("C15", ["c15.c"],
      rule="one case per transform length (or history of objects); every unit impulse (real and imaginary part, both directions; all positions up to the stated length, seven positions above it) is a basis of the input space and is compared bin by bin with the exponential evaluated in long double; superposition, round-trip, real-vs-complex and object reuse on the same objects. Non-trivial: distinct output vectors.")
check("C16", ["c16.c"],
      rule="one case per pair of lengths; every pair of unit impulses (basis of the bilinear map) or three dense shapes, in both methods and three modes and through a reused convolution object, compared with the defining double sum in long double. Non-trivial: distinct output vectors.")

check("C17", ["c17.c"],
      rule="one case per (transform, wavelet, length, level, extension); inputs are three dense shapes and, for short lengths, every unit impulse (the transforms are linear, so these form a basis); direct and fft methods; coefficients are compared with the defining filter-and-downsample sums in long double, the inverse and the multiresolution sum with the input, packet bases with an independent best-basis search. Non-trivial: distinct coefficient vectors/bases.")

check("C01", ["c01.c"], lib=["ref.c"],
      rule="one case per (series family, model class, orders, seasonal orders, regressor count, mean flag, start method, optimiser); each is fitted by the library and the reported log-likelihood, variance, AIC, residuals, stationarity and invertibility are compared with the exact Gaussian likelihood (Durbin-Levinson on exact autocovariances, long double) at the reported coefficients. Non-trivial: a successful fit with stationary reported AR part; distinct log-likelihoods are counted.")

check("C14", ["c14.c"], lib=["ref.c"],
      rule="one case per (estimator, series family, length, order or method): every series over {0,1,3}^n for n<=6 (8 thorough) and ten structured families; Yule-Walker residuals, Burg coefficients and error (long double lattice recursion), Hannan-Rissanen least squares, AR maximum likelihood (local optimality, variance), automatic order (argmin of the criterion over every order up to the maximum), residuals, AIC, forecasts and model_estimate's printed table are compared with definitions. Non-trivial: distinct coefficient vectors.")

check("C21", ["c21.c"],
      rule="one case per block of polynomials: every integer polynomial with coefficients -2..2 to degree 5 (7 thorough), every complex one over {0,1,-1,i,1-i} to degree 4 (5), products over menus of real roots and conjugate pairs (multiplicities, zero, near-unit, 1e-3 and 50), and structured families (z^n+c, geometric, all ones, seasonal) to degree 40 and z^(n-3) times a cubic to degree 110 (130). Roots are multiplied back in long double and compared coefficientwise; zero roots exact; conjugate closure. Non-trivial: distinct root values.")
check("C24", ["c24.c"], lib=["ref.c"],
      rule="one case per block: every raw vector over {-1.5,-0.4,0,0.7,2}^p (p<=5, 6 thorough) through the transform, its inverse and its Jacobian; every split (p,q,P,Q,M); every polynomial with up to three real roots or conjugate pairs of six moduli, with 0-2 trailing zero coefficients, through the stationarity check and root reflection; oracles: Schur-Cohn step-down in long double, autocorrelations. Non-trivial: distinct results.")
check("C25", ["c25.c"], lib=["ref.c"],
      rule="one case per (p,q) block: AR parts from every partial-autocorrelation vector over five values, MA parts over five values, p,q<=3 (4 thorough) plus orders up to 7; psi/pi weights against long-double power-series division, autocovariances (two routines, six lag counts, two variances) against the solved autocovariance equations. Non-trivial: distinct autocovariance vectors.")

check("C18", ["c18.c"], lib=["ref.c"], ldflags=["-Wl,--wrap=time"],
      rule="one case per (kernel group, shape block): products on every pair of unit matrices to 4x4x4 and integer-valued dense operands over a grid of shapes on both sides of the recursion and block limits; every 2x2 matrix over five values, every 3x3 over {-1,0,1}, 4x4 over {0,1} (every third one in the quick tier), every symmetric 3x3 over five values, small rectangular ternary matrices, and thirteen structured families up to 12x12 (20x20; LU and Cholesky to 140): factors multiplied back in long double, exact rank by elimination, characteristic polynomial by Faddeev-LeVerrier, least squares by normal equations and null-space component. Non-trivial: distinct factors.")

check("C19", ["c19.c"], lib=["ref.c"],
      rule="one case per (length, response family or design): every response over {0,1,3}^N (N<=6, 7 thorough) against six designs and eight response families x eight design families up to N=120, with and without intercept, 0-5 (7) regressors, three least-squares methods, three confidence levels; coefficients, residuals, ANOVA, R2, covariance, t/chi-square/F based figures (closed-form distribution functions in long double), likelihood and criteria, prediction, polynomial regression and rank report. Non-trivial: distinct log-likelihoods.")

check("C28", ["c28.c"], lib=["ref.c"],
      rule="one case per (function group, length, window): every pair of short vectors over four values for the accuracy measures; every unit impulse and six dense shapes through every window length up to N for the (linear) moving averages, detrending, weighted and exponential smoothers; every cycle count and offset of 2..24 seasons for deseasonalising; every permutation of up to 6 (7) knots probed at, between, beside and beyond the knots; the super-smoother over thirteen lengths x four abscissa patterns x eight shapes x spans x penalties x weights against independently recomputed local lines. Non-trivial: distinct output vectors.")
check("C29", ["c29.c"], lib=["ref.c"],
      rule="one case per (series length, padded length); every unit impulse of short lengths, every short series over four values and seven dense shapes through the periodogram, psd (one- and two-sided), psd of the autocovariances and the centre shift, on reused plans, against the DFT evaluated in long double. Non-trivial: distinct spectra.")
check("C27", ["c27.c"], lib=["ref.c"],
      rule="one case per lambda (22 values through zero, from 1e-300 to 5) with thirteen abscissae in all pairs and eight families; automatic lambda on every series over four positive values to length 6 (7) and 8 families x 4 scalings against a 321-point grid of the profile likelihood in long double and both neighbours; every {1,1+1e-9} pattern to length 12 for the constancy test; every position of an offending value for rejection (run in a child process). Non-trivial: distinct transforms or lambdas.")
check("C22", ["c22.c"], lib=["ref.c"],
      rule="one case per (function, parameter set): every point of a fixed argument grid (ends, tails, breakpoints of the approximations) is evaluated and compared with an independent long-double evaluation (incomplete gamma and beta by their own series and continued fractions); monotonicity along the grid, range, symmetry, densities incl. both ends, forty-one probabilities through every inverse. Non-trivial: distinct values.")
check("C23", ["c23.c"], lib=["ref.c"],
      rule="one case per (problem, conditioning, dimension, method, gradient given or not); every start of a 4- or 5-valued lattice is minimised and judged: value not above the start, scaled gradient within the method's own tolerance at success, start untouched, reported value, iteration budget, all entry points equal; every iteration budget 1..25 (60) with monotone values; every pair of methods on one object; scaling, trust radius and step-limit menus; scalar minimisation and root bracketing on every position of the optimum in 25 intervals. Non-trivial: distinct minimisers.")
check("C30", ["c30.c"], lib=["ref.c"],
      rule="one case per (problem, shape) or kernel family: seventeen least-squares problems, every start of a 3^N (5^N thorough) lattice of multiples of the standard start, with the analytic Jacobian and by differences, through levmar, nls, nls_scale with three scalings and again nls on the same object, tolerances and evaluation budgets 1..6: residual norm against the start, cosine of the residual with every Jacobian column in long double, exact solution of linear problems; the QR kernel on every matrix over 2-5 values for nine shapes and five structured families, qrsolv and lmpar on every upper triangular matrix over 3-4 values to 3x3 with every permutation, five scalings, four right-hand sides and six radii against the normal equations. Non-trivial: distinct solutions and factors.")
check("C20", ["c20.c"], lib=["ref.c"],
      rule="one case per (routine, period, length, series family): ten series families; stl with every optional argument in turn at 2-8 values for eight seasonal windows and for the periodic mode, and every one of the 2048 subsets of optional arguments given at once; modstl with lambdas and windows, mstl with twelve period lists (every order of two and three periods, periods too long), iterations and lambdas; classical decomposition, both modes, default and asymmetric filter, all lengths 2f..4f+2; the robustness-weight kernel on every vector over 4-6 values to length 7 and 40 shapes for every length 9..100; every seasonal, trend and remainder value is compared with an STL written independently in long double from the published definition. Non-trivial: distinct component vectors.")
check("C11", ["c11.c"], lib=["ref.c"],
      rule="one case per (series family, length) or block of short series: every series over {0,1,3}^7 starting at 0 (all, to length 9, thorough) and ten families at 29 lengths on both sides of every table boundary, and up to N=1300 (47000), through both Dickey-Fuller forms (every type, lag 0..6, fixed/AIC/BIC selection), KPSS (both types, every lag rule), both Phillips-Perron forms (every type, model, alternative, lag rule), OCSB (seven periods, maximum lag 1-4, six selection rules) and seasonal strength (ten period lists); statistics, critical values and p-values are compared with long-double least squares, Bartlett sums and separately entered tables; shift and scale invariance. Series whose regression is singular or exact are counted and skipped. Non-trivial: distinct statistics.")
check("C10", ["c10.c"], lib=["ref.c"],
      rule="one case per (series family, length) or block of short series: every ternary series to length 6 starting at 0 (all, to length 8, thorough), every tenth (every) binary series of length 10 and 12, fourteen families at 15 (19) lengths, and constant series, through ndiffs with four test names, both types, two to eight levels, default and 0..4 maxima; fourteen families x 12 periods through nsdiffs with both tests, four levels and default and 0..3 maxima. Expected: the sequential rule, run step by step with the library's unit-root and seasonality statistics (decided by C11), own differencing, own constancy and p-value decision. Non-trivial: distinct (test, level, maximum, answer) combinations.")
check("C03", ["c03.c"], lib=["ref.c"],
      rule="one case per (series family, model class, orders, seasonal orders, regressor count, mean flag, optimiser): the CSS fit is run on a fresh object and after five histories of other fits (CSS, CSS-ML, ML of another series, another optimiser) with the same object; variance, log-likelihood, AIC and every residual are compared with the difference equation run in long double on the differenced, mean- and regression-adjusted series at the reported coefficients, and every reported field after a history bitwise with the fresh fit. Non-trivial: distinct log-likelihoods of successful fits.")
check("C04", ["c04.c"], lib=["ref.c"],
      rule="one case per (model class, orders, seasonal orders, period, regressors, mean, length); within it every coefficient vector of a lattice (5 partial-autocorrelation values per AR and MA parameter, near-unit and non-invertible included, 2 per seasonal one) is put in the model object and forecast to 9..29 steps; plus fitted models of every class and method and AR objects. Forecasts and MSEs are compared with the conditional mean and covariance from the long-double Cholesky factor of the exact covariance matrix of past and future, integrated by the differencing recursion; every shorter horizon bitwise; inputs and coefficients unchanged; guard zones around the outputs. Non-trivial: distinct forecasts.")
check("C08", ["c08.c"], config="fast", ldflags=["-Wl,--wrap=as154x,--wrap=cssx,--wrap=ndiffs,--wrap=nsdiffs"],
      rule="one case per search configuration (maxima, differencing, constants, start orders, model budget, criterion, method, approximation, stepwise or exhaustive, series length, regressors); within it the real search of ctsa.c runs against an adversary that answers every candidate fit (worse, better, in between, tie, failed fit, AR/MA/seasonal root inside the limit): every answer sequence with at most K deviations from the default (stateless depth-first exploration), and every complete ranking of candidate sets of 3..9. Each run is judged on the sequence of fits and on the returned orders. Non-trivial: distinct (fit sequence, answer) pairs.")
check("C09", ["c09.c"], lib=["ref.c"],
      rule="one case per setting combination x series family: all 64 combinations of the boolean settings, every method and optimiser, every test, type, level and maximum of differencing, every maxima menu and criterion, one to three regressors (also ones constant after differencing), lengths and periods; orders against the configured maxima and the differencing tests run separately on the regression residuals, AIC/AICc/BIC/variance from the reported likelihood, every field and the forecasts against a direct fit of the reported order (bitwise), and, for searches without approximation, the criterion against direct fits of the whole box (exhaustive) or of every neighbour (stepwise); every setter with valid and invalid values against a byte image of the object. Non-trivial: distinct log-likelihoods.")
check("C05", ["c05.c"], lib=["ref.c"],
      rule="one case per (series family, model class and orders, regressor count, mean flag, estimation method), per order lattice, per rank pattern and per automatic-model configuration: forecasts are linear in every single row and column of the new regressors with the reported coefficient, equal the regression part plus the forecast of the ARIMA errors by a regressor-free model, and are unchanged under every permutation of the columns (3^k coefficient lattice and fitted models); refits after every permutation, adding multiples of a regressor or a constant, and a change of units are mapped to one problem and compared by the exact objective in long double; regression coefficients against generalised least squares given the ARMA part; ten patterns of collinear and independent regressors; drift and mean of automatic models under added level and trend. Refit comparisons use well-posed families (unique interior optimum). Non-trivial: distinct forecasts and likelihoods.")
check("C06", ["c06.c"], config="fast", lib=["ref.c"],
      rule="one case per (class, orders, alphabet): explicit-state reachability of the real object. A state is the byte image of the object (restored in place) together with the settings of the specification; every operation (valid and invalid setters of every kind, starting values, execution on two or three series incl. one that fails, forecasts on two series, covariance, summary, use of other objects) is applied to every reachable state until no new state appears, so histories of every length are covered; results are compared bit for bit with a fresh object of the same settings (built twice over differently filled memory), images with the expected single-field change, inputs with copies. Automatic models: closure for every pair of settings. Regression and wavelet objects: every history to the stated depth. Non-trivial: distinct states.")
check("C02", ["c02.c"], lib=["ref.c"], config="fast",
      rule="one case per (series family, seed, length, orders, differencing, model class, estimation method); within it all eight optimisers. For every fit that reports success the objective is recomputed in extended precision (innovations algorithm for the exact likelihood, difference equation for the conditional sum of squares) at the reported coefficients and at every one- and two-coordinate move of two sizes: where both polynomials keep a margin of 0.05 from the unit circle no move may gain more than 0.3 (1 for conjugate gradient, L-BFGS and the More-Thuente BFGS) log-likelihood units, elsewhere 10. For up to two ARMA coefficients the objective is tabulated on the whole lattice of step 0.1; where that table has exactly one local maximum, away from the edge, every fit must reach the best lattice value (within 1) and the best optimiser (within 1.5). Non-trivial: distinct objective values.")
check("C32", ["c32.c"], lib=["ref.c"], config="fast",
      rule="one case per (order, length, series kind), every seed of the alphabet: the model is fitted by method 2 and, for every fit that reports success, the back-forecast residuals are recomputed in extended precision from the definition at the reported coefficients (backward shocks, back-forecasts, forward shocks) and compared with the residuals and variance; the exact unconditional sum of squares (innovations algorithm) bounds it where the polynomials are away from the unit circle; stationarity and invertibility by step-down; where both polynomials keep a margin of 0.15 from the unit circle, every one- and two-coordinate move of three sizes must not lower the sum of squares by more than 0.05 variances; the covariance matrix against the inverse cross-product of numerically differentiated residuals; forecasts against the difference equation and the mean. Non-trivial: distinct coefficient vectors.")
check("C31", ["c31.c"], lib=["ref.c"], config="fast",
      rule="one case per (model class, orders, regressors, mean flag, method): fits on seven series families; the reported covariance matrix against the inverse of the second differences of the exact (ML) or conditional (CSS) log-likelihood in long double at the reported coefficients, entry by entry in the reported order and sign; and every printing routine (arima, sarima, sarimax, wrapper, myarima, automatic, ar, regression summary, anova, confidence intervals, list of models) with its text parsed back and every row, standard error, order, status, statistic and equation term compared with what the object holds. Non-trivial: distinct covariance matrices and texts.")

check("C07", ["c07.c"], lib=["ref.c"], ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"],
      rule="one case per (routine family, orders, method); within it lengths from the minimum the model needs upward, horizons, eight series families (constant, zero, linear, alternating, spike, huge included), optimisers, iteration limits and objective functions that turn NaN at a chosen evaluation; every input and output is a heap array of exactly the documented size under AddressSanitizer, every allocation is accounted for until the object is freed, and every case has a time limit. Non-trivial: distinct outcomes.")

check("C26", ["c26.c"], config="hook", drop_harness_flags=["-fsanitize=thread"],
      ldflags=["-rdynamic", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=rand,--wrap=srand"],
      rule="one case per operation and per ordered pair of operations: two operations with separate objects and data run as coroutines under a controlled scheduler. (a) Every memory access of the library (compiler-inserted hook on each load, store, memcpy) is classified: own stack, own heap, constants, or shared storage; operations whose accesses never meet in writable shared storage commute, so one execution represents every interleaving (partial-order reduction); a store to shared storage, a load from the other operation's memory and any use of the C library's hidden generator is a violation. (b) Independently, schedules with one preemption of the first operation at its allocation events (quick: each of the first 40 and an even stride beyond; thorough: every one) and with two preemptions (first 4x4, thorough 40x40 event pairs) are run for every ordered pair and each operation's result compared bit for bit with its result alone. Non-trivial: distinct (operation, result) fingerprints and library functions entered.")
