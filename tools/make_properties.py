"""Writes /verif/properties.jsonl (the list is kept here so that it stays well formed)."""
import json, os
B="src/smolgp/"
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a=dict(files=[B+f for f in files],mechanism=[dict(name=n,where=B+w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a["state"]=[dict(name=n,meaning=m,where=B+w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
T="The existing tests run a handful of fixed kernels with fixed hyperparameters on one or two fixed data sets, and mostly compare with a loose tolerance or only print. "
add("C01","Marginal likelihood equals the dense Gaussian-process likelihood",
"For every kernel built from the provided instantaneous kernels by addition, multiplication and scaling, and any sorted data times (including repeated ones) and any positive noise variances (scalar, per point, or the default jitter), the reported log probability equals the log density of the zero-mean multivariate normal whose covariance is the kernel's documented covariance function plus the noise diagonal. Conditioning reports the same value as evaluating the log probability directly.",
["inputs","programs"],"every kernel expression, hyperparameter set (under-, over- and critically damped), data-set size from one point up, gap pattern, noise and data vector",
T+"They cannot reach the combinations of kernel structure, gap pattern and damping regime in which one branch of one matrix is wrong.",
["gp.py","kernels/base.py","solvers/solver.py","solvers/kalman.py"],
[("Kalman recursion with innovations",'solvers/kalman.py'),("innovation likelihood","gp.py"),("discretised kernels","kernels/base.py")],
["GaussianProcess(...).log_probability(y)","GaussianProcess(...).condition(y).log_probability"])
add("C02","Conditioned mean and variance at the data are the exact posterior",
"After conditioning on data, the mean and variance reported at the data coordinates are those of the exact Gaussian posterior of the noise-free process given all observations, in the order of the data. Both have one entry per data point for any number of points, including one and including repeated times.",
["inputs","programs"],"every instantaneous kernel expression, hyperparameters, data times, noise and observations, from one data point up",
T+"Only one or two kernels are smoothed, never with one point, repeated times or sharply different noise levels.",
["gp.py","solvers/solver.py","solvers/kalman.py","solvers/rts.py"],
[("backward smoother","solvers/rts.py"),("projection of smoothed states","gp.py")],
["condition(y).gp.loc","condition(y).gp.variance","predict() with no test points"])
add("C03","Predictions at arbitrary test times are the exact posterior",
"Predicting at any set of test times (before, between, on and after the data, in any order, repeated, or a single one) returns the mean and variance of the exact Gaussian posterior of the process at those times, in the order and number the test times were given.",
["inputs","programs"],"every instantaneous kernel expression and every position of test points relative to the data, with any order and multiplicity",
T+"Test points are always a dense sorted grid, so coincident, unsorted, single and far-away points are not reached.",
["gp.py","solvers/solver.py"],
[("retrodict / interpolate / extrapolate switch","solvers/solver.py"),("projection to observation space","gp.py")],
["predict(X_test, y, return_var=True)","condition(y).gp.predict(X_test)"])
add("C04","Integrated-exposure likelihood equals the exactly averaged dense likelihood",
"For an integrated kernel (or a sum of them) and observations that each average the process over their own exposure window, the log probability equals the multivariate normal log density whose covariance is the underlying covariance averaged over both exposure windows, plus the noise diagonal. This holds for any mix of exposure lengths including zero, exposures that overlap, nest, abut or coincide across instruments, several instruments, and data given in any order.",
["inputs","configurations"],"every integrated kernel, instrument assignment, exposure layout (overlapping only across instruments), permutation, noise and observations",
T+"Only one non-overlapping and one two-instrument layout of one kernel are used; abutting, nested, coincident, zero-length or permuted exposures are not.",
["gp.py","kernels/integrated.py","solvers/integrated/solver.py","solvers/integrated/kalman.py"],
[("start/end state bookkeeping","solvers/integrated/solver.py"),("reset and update steps","solvers/integrated/kalman.py"),("augmented discretisation","kernels/integrated.py")],
["GaussianProcess(IntegratedKernel, (t, texp, instid)).log_probability(y)"],
[("state coordinates","chronological exposure starts and ends","solvers/integrated/solver.py")])
add("C05","Integrated posterior at the data is exact and in data order",
"After conditioning an integrated model, the mean and variance reported at the data are the exact posterior of each exposure-averaged process value given all observations, listed in the order in which the data were supplied.",
["inputs","configurations"],"every integrated kernel, instrument assignment, exposure layout, permutation of the data, noise and observations",
T+"The conditioned values are compared for one layout given in time order, so a mistake in bookkeeping that only permuted or overlapping data expose is invisible.",
["gp.py","solvers/integrated/solver.py","solvers/integrated/rts.py","solvers/integrated/kalman.py"],
[("backward smoother through resets","solvers/integrated/rts.py"),("selection of exposure-end states","gp.py")],
["condition(y).gp.loc","condition(y).gp.variance"])
add("C06","Latent predictions from integrated models are exact everywhere",
"Predicting the latent (instantaneous) process from exposure-averaged data at any times, whether outside, between, inside or on the edges of exposures, returns the exact posterior mean and variance of the underlying process there.",
["inputs","configurations"],"every integrated kernel and exposure layout, and every position of test times relative to exposure starts and ends",
T+"The latent curve is only compared for one kernel and one layout, on a grid that never hits an exposure edge.",
["gp.py","solvers/integrated/solver.py"],
[("prediction from start/end states","solvers/integrated/solver.py")],
["predict(t_test, y, return_var=True) on an integrated model"])
add("C07","Parallel and sequential instantaneous solvers agree",
"For every instantaneous model and data set, choosing the parallel solver instead of the sequential one changes none of the results: log probability, predicted, filtered and smoothed states, values at the data, predictions and components.",
["inputs","programs","configurations"],"every kernel expression, data set from one point up and test points, with the solver as the only difference",
T+"The two solvers are compared for a few kernels of dimension two or more on regular data.",
["solvers/parallel/solver.py","solvers/parallel/kalman.py","solvers/parallel/rts.py"],
[("associative filtering elements","solvers/parallel/kalman.py"),("associative smoothing elements","solvers/parallel/rts.py")],
["GaussianProcess(..., solver=ParallelStateSpaceSolver)"])
add("C08","Parallel and sequential integrated solvers agree",
"For every integrated model and data set, choosing the parallel integrated solver instead of the sequential one changes none of the results: log probability, values at the data and latent predictions, for any exposure layout, any number of instruments and any order of the data.",
["inputs","configurations"],"every integrated kernel, exposure layout (including zero-length first exposures), instrument assignment and permutation, with the solver as the only difference",
T+"The two solvers are compared for one kernel on one or two layouts in time order.",
["solvers/integrated/parallel/solver.py","solvers/integrated/parallel/kalman.py","solvers/integrated/parallel/rts.py"],
[("start/end associative elements","solvers/integrated/parallel/kalman.py"),("smoothing through resets","solvers/integrated/parallel/rts.py")],
["GaussianProcess(..., solver=ParallelIntegratedStateSpaceSolver)"])
add("C09","Component means and variances are exact and complete",
"For a sum of kernels, the mean and variance reported for each named component (a product or scaled kernel counting as one component), or for any group of them together, are the exact posterior of that part of the sum, at the data and at test points. Component means add up to the full mean, every component is listed exactly once under its own name even when kernels were created with equal names, and names never change the likelihood.",
["inputs","programs"],"every sum of one or more components with any naming (distinct, repeated, clashing with generated suffixes), every subset of components, data and test points",
T+"Two fixed sums are decomposed; products as components, repeated names of products, and joint groups are not.",
["gp.py","kernels/base.py"],
[("unique component names","gp.py"),("component observation model","kernels/base.py"),("component projection","gp.py")],
["get_component_mean","get_all_component_means","predict(..., kernel=)","predict(..., return_full_state=True).get_component / get_all_components","condition(y, kernel=)"])
add("C10","Kernel functions equal their documented closed forms",
"Every instantaneous kernel evaluates to its documented covariance function for any hyperparameters and any two coordinates: it is symmetric, depends only on the lag, is bounded by its value at zero lag, gives a positive semi-definite matrix, and stays finite for arbitrarily large lags. Evaluated on one set of coordinates it returns the variances.",
["inputs"],"all kernels, hyperparameters in every damping regime and near its boundaries, and all lags from zero to many correlation times",
T+"Kernel values are compared for one hyperparameter set on a moderate range of lags.",
["kernels/base.py"],
[("evaluation through the state-space form","kernels/base.py")],
["kernel(X1, X2)","kernel(X)"])
add("C11","Kernel algebra: sums add, products multiply, scaling scales, in any nesting",
"Adding, multiplying and scaling kernels by a positive number, in any nesting and operand order (including the built-in sum of a list), gives a kernel whose covariance function is the sum, product and multiple of the operands' ones, and a Gaussian process using it behaves exactly as that covariance prescribes, for integrated kernels too where sums and scalings are concerned. Algebraically equal expressions give equal likelihoods, and combining with something that is neither a state-space kernel nor a scalar is refused.",
["programs","inputs"],"all expression trees over the provided kernels with +, *, scalar factors on either side and sum(), and all invalid operands",
T+"Only two-term sums and products are exercised, and scaling is not exercised at all.",
["kernels/base.py","gp.py"],
[("Sum / Product / Scale","kernels/base.py"),("solver selection for composite kernels","gp.py")],
["k1+k2","k1*k2","c*k","k*c","sum([...])","log_probability of the composite"])
add("C12","Discretised dynamics agree with the stochastic differential equation",
"For every instantaneous kernel and composite, the transition over a lag is the exponential of the drift matrix times the lag, composes over consecutive lags and is the identity at zero lag; the process noise over a lag is the matching integral of the driving noise, symmetric, positive semi-definite, zero at zero lag, and composes consistently; and the stationary covariance is the stationary solution. All stay finite and tend to their limits for arbitrarily long lags.",
["inputs","programs"],"all kernels and composites, all damping regimes, lags from zero to many correlation times",
T+"Matrices are compared for one hyperparameter set per kernel and a short range of lags.",
["kernels/base.py","helpers.py"],
[("analytic transition and process noise","kernels/base.py"),("default matrix-exponential forms","kernels/base.py"),("Van Loan integrals","helpers.py")],
["transition_matrix","process_noise (default and Van Loan)","stationary_covariance","design_matrix / noise / noise_effect_matrix"])
add("C13","Integrated augmentation matches the exact integrals of the base process",
"For every integrated kernel and lag, the augmented transition integrates the base process exactly, and the augmented process noise equals the exact joint covariance of the driving-noise contributions to the base state and to its running integral, identically for every instrument's integral. An observation of positive exposure reads the running integral of its own instrument divided by its exposure, one of zero exposure reads the process itself, and a reset clears exactly one instrument's integral.",
["inputs","configurations"],"all integrated kernels, hyperparameters in every damping regime, lags, exposures, numbers of instruments and instrument indices",
T+"The analytic and numerical forms are compared with each other for one hyperparameter set and never against the defining integral.",
["kernels/integrated.py","helpers.py"],
[("augmented matrices","kernels/integrated.py"),("closed-form integrals","kernels/integrated.py"),("Van Loan integrals","helpers.py")],
["transition_matrix","process_noise","observation_matrix","reset_matrix of integrated kernels"])
add("C14","Power spectral density is the Fourier transform of the kernel",
"For every kernel driven by white noise, and for sums, products and scalings of such kernels, the reported power spectral density at any angular frequency equals the Fourier transform of its covariance function divided by two pi. It is therefore non-negative, even in frequency, and integrates to the variance.",
["inputs","programs"],"all noise-driven kernels and composites of them, hyperparameters and frequencies",
"The power spectral density has no test at all beyond visual documentation examples.",
["kernels/base.py"],[("spectral density from F, L, Qc, H","kernels/base.py")],["kernel.psd(omega)"])
add("C15","The periodic kernel is its stated approximation, within its error bound",
"The exponential-sine-squared kernel with a given number of terms equals the truncated harmonic expansion of the exact periodic covariance, is exactly periodic, and differs from the exact covariance at every lag by no more than the error bound it reports. More terms never increase the error, and the automatically chosen number of terms keeps the error below seven percent of the variance at every length scale for which no warning is given.",
["inputs","configurations"],"all periods, gammas, amplitudes, lags and numbers of terms, given or automatic",
T+"One gamma and one period are evaluated; the error bound is never compared with an error.",
["kernels/base.py"],[("harmonic terms and Bessel coefficients","kernels/base.py"),("automatic order and error bound","kernels/base.py")],
["ExpSineSquared(X1, X2)","ExpSineSquared.error_bound()"])
add("C16","Compilation, batching and differentiation do not change results",
"Likelihoods, conditioned values and predictions are the same whether computed eagerly, inside compiled code, or batched over hyperparameters or data, and also when hyperparameters are traced. The gradient of the log probability with respect to hyperparameters, data and noise is finite and equals the gradient of the exact dense log density.",
["programs","inputs"],"every kernel and solver, every transformation (compile, batch, differentiate) and every hyperparameter set away from the damping boundary",
T+"No test differentiates, batches or compiles a whole model.",
["gp.py","kernels/base.py","kernels/integrated.py","solvers/kalman.py","solvers/integrated/kalman.py","solvers/parallel/kalman.py"],
[("pytree kernels and processes","gp.py"),("scan-based recursions","solvers/kalman.py")],
["jax.jit / jax.vmap / jax.grad of log_probability, condition and predict"])
add("C17","Work and memory grow linearly with the data, and parallel depth logarithmically",
"The arithmetic work and the memory needed to compute a likelihood, condition, or predict grow at most in proportion to the number of data points plus the number of test points (up to a logarithmic factor), for every model and solver. With the parallel solvers, the length of the longest chain of dependent steps grows only logarithmically with the number of data points.",
["inputs","configurations"],"all kernels and all four solvers, over data-set and test-set sizes",
"Benchmarks are informal timings on particular machines; no test looks at how cost scales.",
["solvers/kalman.py","solvers/rts.py","solvers/solver.py","solvers/parallel/kalman.py","solvers/integrated/solver.py","solvers/integrated/parallel/kalman.py"],
[("scan over data","solvers/kalman.py"),("associative scan","solvers/parallel/kalman.py")],
["the traced program of log_probability, condition and predict"])
add("C18","Results do not depend on the choice of units or on the time origin",
"Shifting all times by a constant changes nothing; rescaling time (with the kernel's time scales) changes the log probability, means and variances not at all; rescaling the observed quantity (with amplitudes and noise) by c multiplies means by c and variances by c squared and shifts the log probability by minus N log c. Negating the data negates means and leaves variances and log probability unchanged, and posterior means are linear in the data.",
["inputs","programs"],"every kernel (integrated ones too), data set, and any shift, time factor and amplitude factor over many orders of magnitude",
T+"All tests use one unit system with values of order one, where absolute thresholds cannot be seen.",
["kernels/base.py","kernels/integrated.py","solvers/kalman.py","solvers/integrated/kalman.py"],
[("dimensionally consistent matrices","kernels/base.py"),("underflow thresholds","kernels/integrated.py")],
["log_probability","condition","predict"])
add("C19","Every route to the same answer gives the same answer",
"Any sequence of likelihood evaluations, conditionings, predictions and component extractions on a process and its conditioned results returns, for each question, the same values as asking that question alone: predicting with data at once or after conditioning, conditioning directly at test points, projecting the full predicted state, and repeating calls in any order. No call changes the process, its kernel or the caller's data.",
["histories","configurations"],"all call sequences over one model with changing data, test points and components, for instantaneous and integrated models",
T+"Each test makes one conditioning and one prediction in a fixed order.",
["gp.py"],[("conditioned states carried by the result","gp.py"),("direct and deferred prediction","gp.py")],
["GaussianProcess.log_probability / condition / predict / get_*"],
[("conditioned states","predicted, filtered and smoothed states","gp.py")])
add("C20","Predicted, filtered and smoothed states mean what they say",
"At each data point the predicted, filtered and smoothed state estimates are exactly the posteriors given only earlier data, data up to and including that point, and all data; they therefore do not depend on later data. The log probability is the sum of the one-step-ahead predictive log densities, and uncertainty never grows when data are added.",
["inputs","histories"],"every kernel, data set and prefix of it, for instantaneous and integrated models",
T+"Filtered and predicted states are only compared between solvers, never against what they should mean.",
["gp.py","solvers/kalman.py","solvers/rts.py","solvers/integrated/kalman.py","solvers/integrated/rts.py"],
[("filter recursion","solvers/kalman.py"),("smoother recursion","solvers/rts.py")],
["condition(y).gp.states predicted_/filtered_/smoothed_ mean and cov"])
add("C21","Accepted input gives a finite or -inf likelihood; bad input is refused",
"For finite inputs in the supported domain the log probability, means and variances are finite and variances are not negative beyond rounding; when the likelihood cannot be computed the log probability is minus infinity and never not-a-number. Integer-valued and floating-point inputs of equal value give equal results, and inputs the interface declares invalid are refused with an error rather than answered.",
["inputs"],"extreme but valid hyperparameters, gaps and noise; non-finite values; integer and floating inputs; malformed coordinates and arguments",
T+"Only well-scaled floating-point inputs are used and no invalid input is tried.",
["gp.py","kernels/base.py","solvers/kalman.py","solvers/integrated/solver.py"],
[("non-finite guard","gp.py"),("argument checks","gp.py"),("state-coordinate arrays","solvers/integrated/solver.py")],
["GaussianProcess constructor, log_probability, condition, predict"])
add("C22","User-defined kernels and observation models are handled exactly",
"A kernel defined by the user through its model matrices alone (with the default transition and process noise), a wrapper that changes the observation (such as a derivative or a coordinate-dependent gain), and an observation model given at prediction time all yield the exact likelihood and posterior of the linear Gaussian model they describe, alone or combined with other kernels, and likewise for an integrated model built on a user-defined base.",
["programs","inputs"],"user-defined stable models of several dimensions, wrappers, observation models, coordinates and data",
"User-defined kernels appear only in the documentation; no test defines one.",
["kernels/base.py","kernels/integrated.py","gp.py","solvers/kalman.py"],
[("default matrix forms","kernels/base.py"),("generic integrated augmentation","kernels/integrated.py"),("observation model override","gp.py")],
["GaussianProcess with a StateSpaceModel / Wrapper / IntegratedStateSpaceModel subclass","predict(..., observation_model=)"])
add("C23","Dense reference kernels equal the exact exposure averages",
"The dense reference oscillator kernels evaluate, for any pair of observations (separated, abutting, partly overlapping, nested, coincident or of zero exposure), to the underlying covariance averaged over both exposure windows; they are symmetric, give positive semi-definite matrices, and their two parameterisations are equivalent.",
["inputs"],"all underdamped oscillator parameters and all relative positions and lengths of two exposure windows",
T+"The dense kernels are used as the reference in the tests and are themselves never checked.",
["kernels/dense.py"],[("case analysis over window positions","kernels/dense.py"),("closed-form double integrals","kernels/dense.py")],
["SHOKernel","IntegratedSHOKernel"])
add("C24","Matrix-exponential helpers return the integrals they define",
"The Van Loan helpers return, for any drift matrix, noise-effect matrix, positive semi-definite spectral density and lag, exactly the process-noise integral, the integral of the matrix exponential, and the block matrices of the defining matrix exponential.",
["inputs"],"all square drift matrices (stable, unstable, singular), noise matrices and lags",
"They are compared only with the closed form of one kernel at one hyperparameter set.",
["helpers.py"],[("block matrix exponentials","helpers.py")],["Q_from_VanLoan","Phibar_from_VanLoan","VanLoan"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
