"""Source of properties.jsonl (run: python3 tools/mk_properties.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mechanism],
         "observe_at": [observe], "hook_needed": hook}
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "GPCM and CGPCM covariances equal their defining integrals",
  "For every GPCM and CGPCM, the covariance matrices of the filter and excitation inducing variables, and the four cross-covariance integrals the model exposes, equal the integrals of the model's filter prior against the inter-domain transform of white noise: over the whole line for the acausal model, and only over excitation up to the present for the causal one. "
  "This holds at any times (negative, repeated, unsorted, before or after all inducing points), any hyperparameters and any inducing point placement; omitted time arguments mean time zero, and array shapes follow the times, then the inducing points.",
  ["inputs", "configurations"],
  "all window/scale/noise/decay settings, causal or not, all t_u and t_z placements and sizes, all time vectors and combinations of given and omitted time arguments",
  "The tests never evaluate these integrals: test_gpcm only checks the prior power and an extension option, so a wrong limit, sign, factor or axis passes.",
  ["gpcm/gpcm.py", "gpcm/exppoly.py"],
  [("filter and excitation kernels", "gpcm/gpcm.py GPCM.k_h, GPCM.k_xs"),
   ("covariances", "gpcm/gpcm.py compute_K_u, compute_K_z, compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz")],
  "return values of the compute_* methods of constructed and of instantiated models")

p("C02", "RGPCM covariances equal their defining integrals",
  "For every RGPCM, the covariance matrices of the filter and Fourier inducing variables, and the four cross-covariance integrals the model exposes, equal the integrals of an exponentially windowed white-noise filter, its exponentially smoothed inducing variables, Ornstein-Uhlenbeck excitation, and the variational Fourier features of that process. "
  "This holds for every time t inside the documented range (t minus the largest filter inducing location at or after the start of the basis, t at or before its end), any hyperparameters with the transform decay below the window decay, any support [a, b], and any selection and ordering of basis frequencies that contains the constant one.",
  ["inputs", "configurations"],
  "all decays, supports, frequency selections and orders, inducing locations, and admissible times",
  "test_rgpcm checks two integral helpers at one hand-picked parameter setting with the default ordering; it does not cover subsets or permutations of frequencies, other supports, the assembled blocks, or the two-time forms.",
  ["gpcm/rgpcm.py", "gpcm/util.py"],
  [("Fourier-feature covariance", "gpcm/rgpcm.py compute_K_z, psd_matern_12"),
   ("cross-covariances", "gpcm/rgpcm.py compute_i_hx, compute_I_ux, compute_I_hz, compute_I_uz, integral_abcd*, _I_hx_0_*, _integral_lu*")],
  "return values of the compute_* methods of constructed and of instantiated models")

p("C03", "Symbolic polynomial algebra commutes with evaluation",
  "Building exponentiated polynomials by adding, subtracting, negating, multiplying, raising to powers, substituting and translating, in any order, and then evaluating gives the value obtained by evaluating the parts and combining the numbers. "
  "Splitting an expression into the terms that contain a factor and those that do not loses and duplicates nothing; degree and dependence queries agree with the expression; equality does not depend on construction order, and equal objects hash equally.",
  ["inputs", "programs"],
  "all expression programs over named variables and scalar or array constants, all variable assignments",
  "The tests check a handful of fixed identities; merging of equal terms and factors is a property of every expression and every construction order.",
  ["gpcm/exppoly.py"],
  [("factor/term/polynomial merging", "gpcm/exppoly.py Factor, Term, Poly"),
   ("substitution", "gpcm/exppoly.py substitute, translate_var")],
  "eval results of randomly generated expression programs")

p("C04", "Symbolic Gaussian integrals equal numerical integration",
  "Integrating an exponentiated quadratic over one or two variables over the whole line, the negative half line, or a box gives the value of the corresponding definite integral of the evaluated integrand. "
  "The limits of a box may be numbers, arrays or polynomials in other variables, finite on one side, on both sides or on neither, independently per variable; results broadcast over the variable assignments; an expression that is not quadratic in an integration variable is refused.",
  ["inputs", "configurations"],
  "all concave quadratic exponents including cross terms and free variables, all mixes of finite and infinite limits, all broadcasts",
  "The tests use a few fixed coefficients and limits; e.g. a box bounded below only is never integrated, and neither are strongly correlated two-dimensional cases.",
  ["gpcm/exppoly.py"],
  [("full, half and box integration", "gpcm/exppoly.py ExpPoly.integrate, integrate_half, integrate_box")],
  "return values of the three integration methods")

p("C05", "Kernels built from the filter are valid stationary covariances",
  "For every model and every value of the filter's inducing variables, the approximate kernel is symmetric in its two time arguments, depends only on their difference, has positive semi-definite matrices on every time grid, and equals the kernel of the inducing-point-conditional filter; its average under the prior of the inducing variables is exactly the prior covariance. "
  "With default scales, the prior covariance at lag zero, the prior variance of the excitation transform of the GPCM and CGPCM at every location, and the prior variance of the RGPCM's filter transform are all one.",
  ["inputs", "configurations"],
  "all models, hyperparameters, inducing values and time grids",
  "The tests check prior power for one configuration per model only and never evaluate the kernel approximation.",
  ["gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
  [("kernel approximation", "gpcm/model.py AbstractGPCM.kernel_approx"),
   ("unit-power defaults", "gpcm/gpcm.py, gpcm/rgpcm.py constructors")],
  "kernel_approx on random, sigma-point and adversarial inducing values")

p("C06", "Prior samples follow the generative model",
  "Sampling a model at given times returns a kernel matrix and noisy outputs such that the matrix is the model's approximate kernel for inducing values drawn from their prior, divided by its value at the first time when normalisation is asked for, and the outputs given the matrix are zero-mean Gaussian with that covariance plus independent observation noise. "
  "Successive samples are independent draws, sampling does not change the model, and a conditioned model refuses to produce prior samples.",
  ["inputs", "configurations", "histories"],
  "all models, times (also unsorted and repeated), noise levels and numbers of draws",
  "No test calls sample; its correctness is distributional, so no single draw can settle it.",
  ["gpcm/model.py", "gpcm/util.py"],
  [("prior sampling", "gpcm/model.py AbstractGPCM.sample")],
  "recorded (K, y) draws, whitened residuals and second moments over many draws")

p("C07", "The reported ELBO is the evidence lower bound it claims to be",
  "For every model, data set and current variational posterior, the mean-field ELBO equals the expected Gaussian log-likelihood minus the two KL divergences, and the structured ELBO equals, up to Monte Carlo error, the same bound with the excitation integrated out; neither exceeds the log marginal likelihood. "
  "Collapsing over either variable never lowers the bound, equals the bound at that variable's optimum, and computing an ELBO does not depend on the order of the observations or on the joint sign of the data and one variational mean.",
  ["inputs", "configurations"],
  "all models, schemes, data sets, variational parameters, hyperparameters, collapsed options and sample counts",
  "No test evaluates an ELBO.",
  ["gpcm/approx.py", "gpcm/normal.py"],
  [("mean-field ELBO", "gpcm/approx.py MeanField.elbo"), ("structured ELBO", "gpcm/approx.py Structured.elbo, log_Z_u, elbo_collapsed_z, elbo_gibbs"),
   ("term assembly", "gpcm/approx.py Approximation.construct_terms")],
  "model.elbo return values after setting the variational posterior through the public setters")

p("C08", "Mean-field coordinate ascent climbs to a stationary point",
  "Every coordinate-ascent update of a mean-field posterior is the exact maximiser of the ELBO over that factor with the other held fixed, so the ELBO never decreases along the updates, also when the model was already conditioned on earlier data. "
  "When fitting finishes by convergence the stored factors are mutually optimal, and fitting by coordinate ascent leaves hyperparameters untouched.",
  ["inputs", "histories"],
  "all models, data sets, starting points and iteration counts, including fits of already conditioned models",
  "No test runs inference; monotonicity is a property of every step of every run.",
  ["gpcm/approx.py"],
  [("fixed-point iteration", "gpcm/approx.py q_u_optimal_mean_field, q_z_optimal_mean_field, mean-field fit")],
  "the trace of (q_u, q_z, ELBO) over the updates and the state stored by fit")

p("C09", "Structured inference samples the exact Gibbs conditionals",
  "Under the structured scheme the conditional of the excitation given the filter, and of the filter given the excitation, are the two full conditionals of one joint density: prior times Gaussian likelihood with the residual inducing-point variance. "
  "Fitting stores exactly one thousand joint samples, each stored excitation being a fresh draw from its conditional given the filter stored with it, and hyperparameters change only if they are to be optimised.",
  ["inputs", "histories", "configurations"],
  "all models, data sets, observation noises, iteration counts below and above the storage threshold",
  "No test runs structured inference; correctness is a statement about the distribution of the whole chain.",
  ["gpcm/approx.py"],
  [("Gibbs conditionals", "gpcm/approx.py q_u_optimal, q_z_optimal"), ("sample storage", "gpcm/approx.py fit(Structured), q_u_samples, q_z_samples")],
  "conditionals returned for given samples, and the stored chain after fit")

p("C10", "Predictions are the moments of the posterior predictive",
  "For every conditioned model, the predicted mean and variance at each input are the first two moments of filter convolved with excitation under the (approximate) posterior plus the observation noise, so the variance is at least the noise. "
  "The prediction at an input does not depend on which other inputs are predicted with it or on their order, and far from all inducing points, or without informative data, the mean is zero; without informative data the variance is the prior variance plus noise.",
  ["inputs", "configurations", "histories"],
  "all models, schemes, posteriors, prediction inputs (single, repeated, unsorted, on or off the data) and sample counts",
  "No test calls predict.",
  ["gpcm/approx.py", "gpcm/model.py"],
  [("predictive moments", "gpcm/approx.py Structured.predict, MeanField.predict, _predict_moments")],
  "posterior.predict return values against an independent quadrature of the moments")

p("C11", "Natural-parameter normals agree with their moments",
  "A normal given by natural parameters reports mean, variance and second moment that solve its defining equations, converts to and from the moment parametrisation without change, gives the log-density and KL divergence of that distribution (non-negative, zero only for equal distributions), and draws samples with exactly that mean and covariance. "
  "This holds for every dimension, matrix structure and conditioning the library produces, and sampling with an explicit random state is a pure function of that state.",
  ["inputs"],
  "all dimensions, means, precisions (dense, diagonal, low-rank-plus-diagonal), ill-conditioned ones within floating point, sample counts",
  "The tests check one two-dimensional dense example and only sample moments of it.",
  ["gpcm/normal.py"],
  [("natural normal", "gpcm/normal.py NaturalNormal")],
  "all public properties and methods against moment-form formulas")

p("C12", "Elliptical slice sampling leaves its target invariant",
  "Every state the sampler returns lies on the ellipse through the previous state and a fresh prior draw, has a log-likelihood above the slice height drawn for that transition, and is stored with its own log-likelihood; each transition uses a new prior draw and the bracket always contains the current state. "
  "The chain leaves prior times likelihood invariant, keeps its position across calls, restarts from where it was moved to, and continues from the last valid state when a transition exhausts its attempts.",
  ["inputs", "histories", "schedules"],
  "all log-likelihoods (flat, peaked, truncated to minus infinity, multimodal), dimensions, call patterns and interleaved moves",
  "The test checks one posterior's sample moments; per-transition invariants and recovery after failed transitions are never observed.",
  ["gpcm/sample.py"],
  [("ESS transition", "gpcm/sample.py ESS")],
  "recorded calls of the likelihood and prior callbacks and returned states")

p("C13", "Saving and loading a model preserves every result",
  "Saving a model after any sequence of construction, fitting and conditioning, and loading the file into the same model, a re-parametrised model or a freshly constructed one with the same settings, restores every parameter and stored posterior sample, so ELBO and predictions are reproduced. "
  "Loading overwrites rather than adds to what the model knew, saving changes nothing, and values survive at full precision.",
  ["histories", "configurations"],
  "all models and schemes, all orders of instantiate, fit, save, perturb, load and condition",
  "No test saves or loads a model.",
  ["gpcm/model.py"],
  [("persistence", "gpcm/model.py AbstractGPCM.save, load")],
  "the parameter container, ELBO and predictions before saving and after loading")

p("C14", "Fitting works for every scheme and changes only what it may",
  "Fitting runs to completion for every documented approximation scheme of every model, and improves the ELBO over its starting point when it optimises it by gradients. "
  "Parameters fixed by the user keep their values, learnable ones stay inside their constraints (positive decays and noise, bounded inducing locations, transform decay below window decay) and finite, posteriors of earlier conditioning steps are left untouched, and an unknown scheme is rejected.",
  ["configurations", "inputs", "histories"],
  "all schemes, models, combinations of fixed parameters, learning options, data sets",
  "No test calls fit, so half of the documented schemes could be (and were) broken.",
  ["gpcm/approx.py", "gpcm/model.py", "gpcm/gpcm.py", "gpcm/rgpcm.py"],
  [("fitting", "gpcm/approx.py fit, ignore_qs"), ("parameter declarations", "gpcm/gpcm.py, gpcm/rgpcm.py __prior__")],
  "parameter container before and after fit; ELBO before and after")

p("C15", "Spectra estimated from kernels are correctly scaled",
  "The power spectral density estimated from a sampled kernel is non-negative, is proportional to the magnitude of the Fourier transform of the zero-padded symmetric extension of the kernel, integrates over positive and negative frequencies to the kernel at lag zero, and is reported at the corresponding non-negative frequencies in increasing order, in decibels on request. "
  "Scaling the kernel scales the spectrum and rescaling time rescales frequencies; kernels that do not start at lag zero are rejected; the inputs are not modified.",
  ["inputs", "configurations"],
  "all kernels (smooth, rough, oscillating, not positive definite), grid sizes, spacings, paddings",
  "No test calls estimate_psd.",
  ["gpcm/util.py"],
  [("spectrum estimate", "gpcm/util.py estimate_psd")],
  "return values against a direct cosine-transform evaluation")

p("C16", "Projection onto PSD matrices is the nearest one",
  "The closest positive semi-definite matrix returned for a matrix is symmetric, has no negative eigenvalues, and is the Frobenius-nearest such matrix to the symmetric part of the input, so matrices that are already positive semi-definite are unchanged. "
  "The optional inverse is the pseudo-inverse of that projection.",
  ["inputs"],
  "all real square matrices: symmetric or not, degenerate, repeated or opposite eigenvalues, zero, any size",
  "No test calls closest_psd.",
  ["gpcm/util.py"],
  [("projection", "gpcm/util.py closest_psd")],
  "return values against an eigendecomposition")

p("C17", "Predicted filters are posterior filters, minimum phase if asked",
  "The minimum-phase transform keeps the magnitude spectrum of a filter, is unaffected by delaying or negating its input, is idempotent, and concentrates energy as early as possible. "
  "For GPCM and CGPCM, predicted filters are samples of the model's filter given posterior samples of its inducing variables, with the filter prior's residual variance and causality; with minimum phase requested each sample is so transformed and inputs start at zero.",
  ["inputs", "configurations"],
  "all filters with non-vanishing spectrum; all GPCM/CGPCM posteriors and time grids",
  "No test calls min_phase or predict_filter.",
  ["gpcm/util.py", "gpcm/model.py", "gpcm/gpcm.py"],
  [("minimum phase", "gpcm/util.py min_phase"), ("filter prediction", "gpcm/model.py predict_filter")],
  "transform outputs; moments of predicted filter samples")

p("C18", "Kernel, spectrum and feature predictions summarise the posterior",
  "Sample summaries report, per input, the mean, variance and central 68%, 95% and 99.7% intervals of exactly the samples given, nested around the median, together with all samples and three distinct ones, and in decibels the transformed statistics. "
  "Predicted kernels are the approximate kernels of posterior samples of the filter, one per requested sample, on the given lags or by default from zero over the filter extent; predicted spectra summarise the spectra of such samples; and predicted Fourier features are the posterior mean and variance of the excitation's inducing variables.",
  ["inputs", "configurations"],
  "all sample arrays, posteriors, schemes, sample counts and lags",
  "No test calls summarise_samples or any predict_* method.",
  ["gpcm/util.py", "gpcm/model.py", "gpcm/approx.py"],
  [("summaries", "gpcm/util.py summarise_samples"), ("posterior kernels", "gpcm/model.py sample_kernel, predict_kernel, predict_psd, predict_fourier; gpcm/approx.py sample_kernel, predict_z")],
  "returned named tuples against recomputation from the posterior")

p("C19", "Autocorrelation and permutation helpers are exact",
  "The autocorrelation estimate equals the lagged products of the centred series divided by the number of pairs, or by the series length when windowed, divided by the lag-zero value unless covariances are asked for, truncated to the requested number of lags, and is invariant to shifts of the series (and to scale for correlations). "
  "Inverting a permutation gives the permutation that undoes it.",
  ["inputs"],
  "all series (any length, rank or dtype), all option combinations, all permutations",
  "No test calls these helpers.",
  ["gpcm/util.py"],
  [("helpers", "gpcm/util.py autocorr, invert_perm")],
  "return values against direct sums")

p("C20", "Laplace approximations match the mode and curvature",
  "The Hessian of a function at a column vector is its symmetric matrix of second derivatives, other inputs are rejected, the maximum a posteriori estimate is a stationary point no worse than its start, and the Laplace approximation is the normal centred there whose covariance is the inverse of the negative curvature, exact for Gaussian targets. "
  "A separate evaluation density, if given, supplies the curvature but not the mode.",
  ["inputs"],
  "all smooth log-concave densities, dimensions and starting points",
  "No test calls these functions.",
  ["gpcm/util.py"],
  [("Laplace approximation", "gpcm/util.py hessian, maximum_a_posteriori, laplace_approximation")],
  "return values on densities with known derivatives")

p("C21", "Constructors place and size the approximation as documented",
  "Window and scale translate to decays so that the prior has those length scales; inducing points for the filter cover its documented extent (both sides for GPCM, slightly before the origin for CGPCM, from the origin for RGPCM) and those for the excitation cover the data, extended by the filter length on the sides a causal or acausal filter needs when asked, while keeping the spacing. "
  "Requested numbers of points are honoured up to documented rounding, automatically chosen numbers resolve the scale and are capped with a warning, explicit settings are used as given, and shifting or rescaling time shifts or rescales the construction.",
  ["configurations", "inputs"],
  "all keyword combinations of the three constructors, data given as list, tuple or array in any order",
  "The tests cover one extension case with fixed numbers.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py"],
  [("constructors", "gpcm/gpcm.py GPCM.__init__, CGPCM.__init__; gpcm/rgpcm.py RGPCM.__init__"), ("scale conversion", "gpcm/gpcm.py scale_to_factor, factor_to_scale")],
  "attributes of constructed and instantiated models")

p("C22", "Conditioning is pure and results do not depend on call style",
  "Conditioning a model returns a posterior and leaves the original a prior with unchanged parameters, ELBO and behaviour; posteriors on different data do not interfere, and an instantiated model gives the same answers as the lazily instantiated one. "
  "ELBO, prediction, kernel and sampling accept NumPy or JAX arrays with the same values, return the kind they were given, and do not modify their arguments; refitting the same model in the same way reproduces the same result.",
  ["histories", "configurations"],
  "all interleavings of instantiate, condition, elbo, predict, fit and sample on one model and its posteriors",
  "No test conditions a model.",
  ["gpcm/model.py", "gpcm/approx.py"],
  [("conditioning", "gpcm/model.py __prior__, __condition__, elbo, predict; gpcm/approx.py condition")],
  "recorded call histories on a model and several posteriors", None,
  [("current posterior index", "how often the model has been conditioned")])

p("C23", "Results are invariant under changes of units and representation",
  "Shifting all times of an acausal or causal model with its inducing points, or rescaling time together with all length scales, leaves ELBO, predictive means and variances and kernels unchanged; flipping the sign of all observations flips predictive means only; permuting observations, inducing points or basis frequencies changes nothing but the corresponding order. "
  "Results do not depend on the process's hash seed beyond rounding.",
  ["inputs", "configurations", "schedules"],
  "all models and data, all shifts, scales, permutations, sign flips and hash seeds",
  "Each is a relation between two whole runs over all inputs; no test runs either.",
  ["gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/exppoly.py", "gpcm/approx.py"],
  [("all model equations", "gpcm/*.py"), ("set iteration", "gpcm/exppoly.py merging")],
  "pairs of runs in one process, and the same run in processes with different hash seeds")

p("C24", "The experiment runner builds, trains and reloads what was asked",
  "Building models by name gives exactly the named models, in a fixed order, with the given scheme, noise, window, scale, inducing point numbers and fixed parameters, and refuses unknown names. "
  "Training fits each model with the given options and saves it under its name; loading instead of training restores those fits exactly and runs no fitting.",
  ["configurations", "histories"],
  "all subsets and orders of names, schemes, options, and train/load sequences",
  "The experiments are not tested.",
  ["experiments/experiment.py"],
  [("runner", "experiments/experiment.py build_models, train_models, setup")],
  "constructed models, saved files and parameters")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
