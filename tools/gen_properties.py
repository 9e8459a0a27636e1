"""Writes /verif/properties.jsonl (kept as a script only to make the text easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))


I, CFG, H = "inputs", "configurations", "histories"
ITP = "gwinferno/interpolation.py"
DST = "gwinferno/distributions.py"
ND = "gwinferno/numpyro_distributions.py"
PAR = "gwinferno/models/parametric/parametric.py"
SGL = "gwinferno/models/bsplines/single.py"
SEP = "gwinferno/models/bsplines/separable.py"
PERT = "gwinferno/models/spline_perturbation.py"
ANA = "gwinferno/pipeline/analysis.py"
UTL = "gwinferno/pipeline/utils.py"
PRS = "gwinferno/pipeline/parser.py"
SEL = "gwinferno/preprocess/selection.py"
DC = "gwinferno/preprocess/data_collection.py"
PRI = "gwinferno/preprocess/priors.py"
CNV = "gwinferno/preprocess/conversions.py"
CAL = "gwinferno/postprocess/calculations.py"
COS = "gwinferno/cosmology.py"
SMO = "gwinferno/models/bsplines/smoothing.py"

prop("C01", "Spline basis functions are a non-negative partition of unity with local support",
     "For every spline order, number of basis functions, domain and evaluation point, each basis function is non-negative, vanishes outside its own knot span and outside the declared domain, and the B-spline basis functions sum to one at every point of the domain, including its end points. This holds for equally spaced knots, for user-supplied interior knots and for splines in log-abscissa, and the M-spline basis differs from the B-spline basis only by the factor order/(knot span), so each of its members integrates to one over its span.",
     [I, CFG], "every point x (inside, on and outside the domain), every domain, every order/number of basis functions/knot placement within the bounds",
     "Tests evaluate a handful of grid points on (0,1)-like domains with defaults; end points, knots, points outside and non-uniform knots need all x.",
     [ITP], [("Cox-de Boor recursion", "BasisSpline._basis"), ("domain cut", "BasisSpline.bases, LogXBSpline.bases"), ("B-spline scaling", "BSpline._bases"), ("knot construction", "BasisSpline.__init__")],
     ["BasisSpline.bases", "BSpline.bases", "LogXBSpline.bases"])
prop("C02", "Spline densities are normalised, supported on their domain, and pure",
     "A normalised spline density is non-negative, is exactly zero outside its domain (when the spline is in log-density) and integrates to one on its own normalisation grid for every coefficient vector it accepts; evaluating the density never changes the caller's coefficient or sample arrays, so repeated evaluation gives the same result. Adding a constant to log-density coefficients, or rescaling linear-density coefficients by a positive constant, does not change the density.",
     [I, CFG, H], "every coefficient vector, evaluation point, domain and spline flavour (linear, log-x, log-y, log-x log-y, M-spline) within the bounds",
     "Tests check normalisation for a few random coefficient draws; purity and invariances must hold for every vector and repeated call.",
     [ITP], [("normalisation", "BasisSpline.norm, BSpline.norm, project"), ("log-density cut", "LogYBSpline._project/bases, LogXLogYBSpline.bases")],
     ["project", "eval", "__call__"])
prop("C03", "Natural cubic spline interpolates, is C2, natural at both ends, linear-exact",
     "The natural cubic spline through any data with strictly increasing abscissae passes through every data point, has continuous first and second derivatives across knots, and has zero second derivative at both end knots. It therefore reproduces straight lines exactly and depends linearly on the data, and rebuilding it from its stored coefficients gives the same function.",
     [I], "every strictly increasing abscissa vector and ordinate vector (up to the bounded length), every evaluation point",
     "Tests compare one data set with scipy in the interior; boundary conditions and smoothness are statements about all data and all points.",
     [ITP], [("tridiagonal system and boundary rows", "NaturalCubicUnivariateSpline.__init__"), ("piecewise evaluation", "NaturalCubicUnivariateSpline._compute_coeffs/__call__")], ["NaturalCubicUnivariateSpline.__call__"])
prop("C04", "Two-dimensional spline is the tensor product of its one-dimensional bases",
     "For every point, every pair of basis counts (equal or not) and every coefficient matrix, the design-matrix entry (i, j) of the two-dimensional spline is the i-th x basis function times the j-th y basis function. When normalisation is on, the density integrates to one over its own grid with x and y each integrated along its own axis.",
     [I, CFG], "every (x, y), every coefficient matrix, x/y ranges and basis counts within the bounds",
     "No stable test constructs the bivariate spline at all.",
     [ITP], [("outer product and reshape", "RectBivariateBasisSpline.bases"), ("2-D normalisation", "RectBivariateBasisSpline.norm_2d")], ["bases", "project"])
prop("C05", "Closed-form densities integrate to one, vanish outside bounds, never give NaN",
     "For every admissible parameter value the truncated power law (including index -1), truncated normal, truncated log-normal and scaled beta densities equal the derivative of a distribution function running from 0 to 1 across the stated bounds. They are non-negative, equal zero (or the requested floor) strictly outside the bounds, include both end points of the bounds, and are never NaN for an in-domain or out-of-domain argument with valid parameters.",
     [I], "every argument and every valid parameter vector",
     "Tests integrate numerically for a few parameter values; the special index, end points and out-of-range arguments are measure-zero for sampling.",
     [DST], [("power law and its -1 branch", "powerlaw_pdf"), ("truncated (log-)normal", "truncnorm_pdf"), ("beta", "betadist")])
prop("C06", "Smoothing and truncation windows rise monotonically from 0 to 1",
     "Every turn-on window is exactly 0 below its minimum, exactly 1 at or above minimum plus width, strictly between 0 and 1 and non-decreasing in between, and never NaN, wherever it is evaluated. The logistic truncations lie in (0, 1), are one half at the cut, are monotone in the documented direction for each sign, and their log version equals the logarithm of the linear version and stays finite far from the cut.",
     [I], "every argument, minimum, width, sign and sharpness",
     "No stable test covers the windows; the failing regions lie at and beyond the edges.",
     [DST, PERT], [("turn-on window", "distributions.smooth"), ("turn-on window", "PowerlawBasisSplinePrimaryPowerlawRatio.smoothing"), ("logistic", "logistic_function, logistic_unit, log_logistic_unit, powerlaw_logit_pdf")])
prop("C07", "Analytic sampling distributions: density, CDF and inverse CDF agree",
     "For the sine, cosine and power-law distributions, with any bounds (not only the defaults) and any index including -1, the CDF is 0 at the minimum, 1 at the maximum and clamped outside, exp(log density) is the derivative of the CDF inside the bounds, and the inverse CDF is a two-sided inverse of the CDF mapping the unit interval into the bounds. Sampling is the inverse CDF applied to a uniform variate of the requested shape.",
     [I, CFG], "every bounds pair, index, argument and quantile",
     "Tests use default bounds or a KS test on a few draws; normalisation for other bounds is invisible to them.",
     [ND], [("Sine/Cosine/Powerlaw", "log_prob, cdf, icdf, sample")])
prop("C08", "Grid-tabulated distributions have consistent density, CDF and inverse CDF",
     "For the tabulated redshift and spline distributions the stored density integrates to one by the trapezoid rule on the given grid, and the CDF at every grid node is the trapezoid integral of that density from the first node up to that node: 0 at the first node, 1 at the last, non-decreasing. Between nodes CDF and inverse CDF interpolate linearly and invert each other, and the log density at a node is the log of the stored density there.",
     [I], "every increasing grid, every positive tabulated density, index/coefficients, argument and quantile, within the bounded grid length",
     "Tests run one grid and tolerate a shifted CDF because they compare truncated sequences.",
     [ND], [("cumulative trapezoid", "cumtrapz"), ("tables", "PowerlawRedshift.__init__, BSplineDistribution.__init__"), ("lookup", "cdf, icdf, log_prob")])
prop("C09", "Three-piece power-law distribution is continuous, positive and normalised",
     "For every choice of indices, break points and outer bounds (low < minimum < maximum < high) the three-piece power-law density is positive on its support, continuous at both breaks, follows the requested index on each piece, and integrates to one over the support.",
     [I], "every index/break/bound combination (integration uses the exact antiderivatives) and every argument",
     "Tests only check that log densities are finite for one setting.",
     [ND], [("piece amplitudes", "PowerlawSmoothedPowerlaw.__init__"), ("piece selection", "PowerlawSmoothedPowerlaw.log_prob")])
prop("C10", "Parametric mass and spin models are the stated products and mixtures",
     "Each parametric population density equals the documented composition for all inputs: primary mass times mass ratio conditioned on m_min/m1 <= q <= 1, power law plus peak mixed with weights (1-f, f), spin magnitudes as a product of beta densities of their own component, tilts as (1-f) isotropic plus f aligned, per component or jointly. Identically distributed models are symmetric under exchange of the components, mixtures stay linear in the fraction, and every density is zero (never NaN) outside the physical range of any argument.",
     [I], "all source parameters and hyperparameters",
     "The parametric tests need a data file that is absent and otherwise only assert that outputs are not NaN.",
     [PAR], [("mass models", "powerlaw_primary_ratio_pdf, plpeak_primary_ratio_pdf, plpeak_primary_pdf"), ("spin models", "iid_spin_magnitude, independent_spin_magnitude_beta_dist, mixture_isoalign_spin_tilt, iid_spin_tilt, independent_spin_tilt, default_spin_tilt")])
prop("C11", "Redshift models are normalised over their range with the comoving-volume factor",
     "Every redshift population density is proportional to (dVc/dz)/(1+z) times the modelled rate evolution, its trapezoid integral over the model's own redshift range is one for every hyperparameter value, the power-law-based models vanish above the maximum redshift, the redshift range is the overlap of the two sample sets, and the log density is the logarithm of the density. The reported normalisation is the same integral that divides the density.",
     [I], "all sample sets (bounded length), all hyperparameters and coefficient vectors, any positive volume element",
     "No stable test evaluates these models; normalisation must hold for every hyperparameter.",
     [PAR, PERT, SGL], [("power law", "PowerlawRedshiftModel"), ("power law times spline", "PowerlawSplineRedshiftModel"), ("spline", "BSplineRedshift")])
prop("C12", "Separable spline models pair each density with its own samples and coefficients",
     "Each two-dimensional separable spline model returns, for the requested sample set (posterior or injection), exactly the product of its two one-dimensional factors, the first evaluated on the first parameter's samples with the first coefficients and the second on the second's, times the documented mass-ratio pairing term. Identically distributed models use one coefficient vector for both components, and options given for one component never leak to the other.",
     [I, CFG], "all samples, coefficient vectors, pairing slopes and sample-set selections",
     "The separable tests cannot run here (missing file) and check only non-NaN outputs.",
     [SEP], [("composition", "every class __init__/__call__ in separable.py")])
prop("C13", "A spline population density depends only on the parameter value",
     "For every one-dimensional spline population model, a posterior sample and an injection with the same parameter value receive the same density under the same coefficients, the density equals the underlying spline evaluated at that value inside the model's domain, and values outside the domain get density exactly zero without disturbing any other sample. The symmetric effective-spin model is even and integrates to one over both signs.",
     [I], "all sample values, arrangements and shapes within the bounded counts, all coefficients",
     "Needs arbitrary placements of in-range and out-of-range samples in both arrays.",
     [SGL], [("masking and scatter", "Base1DBSplineModel.__init__, pe_pdf, inj_pdf, __call__"), ("domains", "subclass constructors"), ("folding", "BSplineSymmetricChiEffective")])
prop("C14", "Importance-sampling estimators: linear and log modes agree, bounds hold",
     "For every non-negative weight array with a positive entry, the per-event log evidence is the log of the mean weight, the effective sample size lies between 1 and the number of samples, and the reported variance is the reciprocal effective sample size minus the reciprocal sample count and is non-negative. The detection efficiency is the weight sum over the total injection count with the matching Monte-Carlo variance in its effective sample size; passing log weights gives the same results as passing weights, results do not depend on sample order, and scaling all weights shifts only the log estimate.",
     [I], "all weight arrays of bounded size, including zeros, any injection count",
     "Tests use one random draw; the bounds and equivalences are for all weights.",
     [ANA], [("estimators", "per_event_log_bayes_factors, detection_efficiency")])
prop("C15", "Likelihood is summed event evidence minus N log efficiency, with exact cuts",
     "For every weight set the contributed log likelihood equals the sum of per-event log evidences minus the number of events times the log detection efficiency (with the documented selection-uncertainty correction when requested), is never NaN or infinite, and is replaced by the rejection value exactly when a requested effective-sample or variance cut is not met. The merger rate equals the unscaled rate divided by detection efficiency and surveyed hypervolume-time in Gpc^3 yr, the declared variance of the log likelihood is N^2 times the selection variance plus the event variances, contradictory cut options are refused, and with categorical assignment each event uses the weights of its own assigned subpopulation.",
     [I, CFG], "all weights, observation counts, times, hypervolumes and option combinations within the bounds",
     "The likelihood tests need a missing data file; cut boundaries and rejections require specific weights.",
     [ANA], [("likelihood assembly", "hierarchical_likelihood")], ["numpyro factor and deterministic sites"])
prop("C16", "Predictive draws respect the mass cuts and keep parameters of one draw together",
     "In a posterior predictive check every drawn event or injection has non-zero population weight and satisfies the requested primary-mass, maximum-mass and secondary-mass limits, all parameters reported for one draw come from the same sample index of the right event or injection set, and per-subpopulation membership fractions are the subpopulation weight over the total weight of that same sample. The draws never alter the likelihood value.",
     [I, "schedules"], "all weights, masses, limits and every possible random draw",
     "Random keys are fixed in the code, so tests see one draw per event; the guarantee is over every draw.",
     [ANA], [("cuts and index draw", "hierarchical_likelihood, posterior predictive block")])
prop("C17", "Spline-perturbed power-law mass models are normalised and sample-set independent",
     "The spline-perturbed mass models equal power law times exponentiated spline in log mass (and mass ratio where modelled), divided by the integral of the same product over the model's own grid, for every hyperparameter and coefficient vector. Posterior and injection samples with equal parameters receive equal density, and densities vanish outside the mass and mass-ratio limits.",
     [I], "all samples, hyperparameters and coefficients within the bounds",
     "No test constructs these models.",
     [PERT], [("normalisation and perturbation", "PowerlawBasisSplinePrimaryPowerlawRatio, PowerlawBasisSplinePrimaryRatio")])
prop("C18", "Configuration files map every parameter to the model and priors they name",
     "A model built from a configuration evaluates, for every source parameter, the density named in the configuration with exactly the hyperparameters and priors (or fixed values) declared for it; a shared-distribution entry makes both parameters use the same model, mixtures use each component's own hyperparameters, and the total weight is the sum of all log densities minus the log sampling prior for posterior samples and injections alike. Fixed values are never sampled and every declared prior is sampled exactly once.",
     [CFG, I], "all configurations built from the documented keys up to the bounded size, all hyperparameter values and samples",
     "There is no stable test of the parser; wiring errors show only for particular configurations.",
     [PRS, ANA], [("parsing", "ConfigReader"), ("assembly", "construct_hierarchical_model")])
prop("C19", "Difference prior is the exact quadratic roughness penalty",
     "The smoothing prior equals minus half the inverse variance times the squared norm of the order-d differences for every coefficient vector: it is never positive, is zero exactly for coefficient sequences that are polynomials of degree below d, is unchanged by adding such a polynomial or by reversing the coefficients, scales quadratically, and the spline-coefficient prior distribution and the pipeline prior helpers apply this same penalty, with their own order and strength, to the coefficients they return.",
     [I, CFG], "all coefficient vectors up to the bounded length, orders and strengths",
     "Tests check one vector per order.",
     [SMO, ND, UTL], [("penalty", "apply_difference_prior"), ("distribution", "PSplineCoeficientPrior"), ("helpers", "bspline_mass_prior, bspline_spin_prior, bspline_redshift_prior")])
prop("C20", "Effective spin conversions obey their defining formulae and physical bounds",
     "For every mass ratio in (0,1], spin magnitude in [0,1] and tilt cosine in [-1,1], effective spin is the mass-weighted aligned spin and lies in [-1,1] (between the two aligned spins), and effective precession is the larger of the primary in-plane spin and the weighted secondary in-plane spin, lying in [0,1]. Effective spin is odd under flipping both tilts, precession is even, and neither call modifies its inputs.",
     [I], "all mass ratios, magnitudes and tilts, scalar or array",
     "Tests check a few hand-picked points.",
     [CNV], [("formulae", "chieff_from_q_component_spins, chip_from_q_component_spins")])
prop("C21", "Beta shape parameters and mean/variance convert back and forth without loss",
     "For every scale, converting positive shape parameters to mean and variance and back returns the original shape parameters, and converting a valid mean and variance to shape parameters and back returns the original mean and variance; the mean lies between 0 and the scale. Neither conversion modifies arrays passed by the caller.",
     [I, H], "all positive shapes, valid mean/variance pairs and scales; repeated calls on the same arrays",
     "Tests use fixed numbers and scale; mutation shows only on a second use of the same array.",
     [CNV], [("conversion", "mu_var_from_alpha_beta, alpha_beta_from_mu_var")])
prop("C22", "Aligned-spin effective-spin prior is the exact trapezoidal density",
     "For every mass ratio and maximum spin the aligned-spin prior on effective spin is non-negative, even, zero beyond the maximum spin, continuous everywhere including the break points, and integrates to one, for array inputs of any shape element by element.",
     [I], "all effective spins, mass ratios in (0,1] and positive maximum spins",
     "Tests check normalisation at a few mass ratios.",
     [PRI], [("piecewise density", "chi_effective_prior_from_aligned_spins")])
prop("C23", "Isotropic-spin effective-spin prior is an even, consistent, proper density",
     "The isotropic-spin prior on effective spin is even, zero at and beyond the maximum spin, and scales with the maximum spin as p(x; a) = p(x/a; 1)/a for every input; its analytic pieces satisfy one and the same second-order differential identity inherited from the convolution of two isotropic spins, are continuous across piece boundaries, and every in-range input falls in exactly one piece or in the boundary average.",
     [I], "all effective spins, mass ratios and maximum spins",
     "Tests integrate numerically at a few mass ratios, which cannot localise an error confined to one piece or boundary.",
     [PRI], [("piecewise density", "chi_effective_prior_from_isotropic_spins")])
prop("C24", "Isotropic-spin precession prior is the derivative of its distribution function",
     "For every mass ratio and maximum spin the isotropic-spin prior on effective precession is the derivative of the product of the two scaled in-plane-spin distribution functions, hence non-negative, zero at and above the maximum, and integrating to one.",
     [I], "all precession values, mass ratios and maximum spins",
     "Tests integrate numerically at a few mass ratios.",
     [PRI], [("piecewise density", "chi_p_prior_from_isotropic_spins")])
prop("C25", "Injection sets keep exactly the found signals with the right sampling density",
     "Loading an injection file keeps exactly the injections passing the detection thresholds (O4 files: false-alarm rate at most the reciprocal threshold in any pipeline, or semi-analytic signal-to-noise ratio at least its threshold; O3 files: inverse false-alarm rate above the threshold in any pipeline, or optimal signal-to-noise ratio above its threshold for O1/O2 injections), in order and with all parameters of one injection kept together, and reports the total generated count and analysis time in years. The sampling density is expressed in the requested parameters: multiplied by the primary mass when the mass ratio is used and by the spherical Jacobian of each spin when spin magnitudes and tilts are used, whichever spin components the file provides.",
     [I, CFG], "all injection records (bounded count), thresholds, requested parameter lists and optional file fields",
     "Tests have no injection files; boundary thresholds and optional fields are specific inputs.",
     [SEL, DC], [("selection and Jacobians", "get_o3_cumulative_injection_dict, get_o4a_cumulative_injection_dict"), ("column selection", "load_injection_dataset")])
prop("C26", "Posterior catalogues keep samples intact and carry the right sampling prior",
     "Processing a catalogue removes exactly the over-mass samples, keeps every remaining sample's parameters together in source-frame units, brings all events to a common sample count by drawing without replacement, and attaches the sampling prior: redshift prior of the event's own declared type normalised over redshift, times (1+z)^2 for component masses, times primary mass for mass ratio, times the spin-magnitude/tilt constant. Events are never mixed, and an unknown redshift prior is refused.",
     [I, CFG, "schedules"], "all sample values, event lists and parameter lists within bounds and every random down-sampling",
     "The only stable test checks a constant of the cosmology.",
     [DC], [("processing", "processed_catalog_dataset_from_dict"), ("prior", "append_prior_to_processed_catalog, dl_2_prior_on_z"), ("column selection", "load_posterior_dataset")])
prop("C27", "Cosmology tables integrate E(z), increase with redshift and invert",
     "Comoving distance at table nodes is the cumulative trapezoid integral of c/(H0 E(z)), comoving volume that of 4 pi Dc^2 dDc/dz, luminosity distance (1+z) Dc; all are zero at z=0 and strictly increasing, lookups interpolate between nodes, redshift-from-distance inverts distance-from-redshift, and requests beyond the table extend it by the same rule so that the answer does not depend on earlier requests. The volume element is 4 pi Dc^2 dDc/dz, its log version is its logarithm, and non-flat cosmologies are refused.",
     [I, H], "all Hubble constants and flat density splits, query points inside and beyond the table, any query order, bounded table length",
     "Tests compare with reference values at default resolution; extension and inversion beyond the table are not exercised.",
     [COS], [("integration", "Cosmology.update, extend"), ("lookup and extension", "z2Dc, z2DL, DL2z"), ("elements", "z2E, dDcdz, dVcdz, logdVcdz")])
prop("C28", "Predictive population curves integrate to rate times fraction, draw by draw",
     "Every posterior-predictive curve for mass, mass ratio, spin magnitude or tilt integrates over its own grid to that draw's rate times its subpopulation fraction (one when not given), is non-negative, and depends only on that draw's hyperparameters, never on another draw or its position. Mass curves are the two marginals of one joint density restricted to secondary masses above the minimum, and redshift rate curves are rate times fraction times the modelled evolution.",
     [I], "all hyperparameter draws, rates and fractions within the bounded number of draws and grid size",
     "No stable test covers post-processing.",
     [CAL], [("marginalisation and rescaling", "calculate_*_ppds, calculate_beta_spin_mag, calculate_mixture_iso_aligned_spin_tilt")])
prop("C29", "Dataset helpers lose nothing and pass every array to the model it belongs to",
     "Loading prepared data returns, for every parameter, exactly the posterior samples of the events not excluded, with an event count equal to the number of events returned, together with all injections and constants. Set-up helpers hand each model its own parameter's posterior and injection samples, sizes and limits, and converting posteriors or density curves to datasets keeps every variable under its own name and coordinates without altering the caller's dictionaries.",
     [I, CFG, H], "all sample values, event names, exclusion lists, basis counts, subpopulation lists within bounds",
     "No stable test covers these helpers; exclusion lists and subpopulations are specific configurations.",
     [UTL], [("loading", "load_pe_and_injections_as_dict"), ("setup", "setup_bspline_mass_models, setup_bspline_spin_models, setup_powerlaw_spline_redshift_model"), ("export", "posterior_dict_to_xarray, pdf_dict_to_xarray")])
prop("C30", "Effective-spin reweighting replaces spin columns and prior consistently",
     "Converting component spins to effective spins adds, sample by sample, the effective spin (and precession if requested) computed from that sample's own mass ratio, magnitudes and tilts, and replaces the sampling prior by the old prior divided by the component-spin density the prior contains (1/4 for uniform magnitudes and isotropic tilts) and multiplied by the effective-spin density of the same sample. All other columns and their order of samples are unchanged, for events-by-samples and for injection layouts.",
     [I, CFG], "all sample values and layouts within the bounded counts",
     "No test covers the conversion.",
     [DC], [("conversion", "convert_component_spins_to_chieff")])
prop("C31", "Conditional precession prior is a proper density for every outcome of its draws",
     "Whatever the random draws, the prior on effective precession conditioned on effective spin and mass ratio is positive inside and zero outside the range from zero to the largest precession that spins up to the maximum magnitude can have at that effective spin, and integrates to one on its own nodes. Every draw it is estimated from (redrawn ones included) has magnitudes up to the maximum, tilt cosines in [-1, 1] and exactly the conditioned effective spin, and is weighted inversely to the primary spin magnitude. The joint prior of effective spin and precession is the effective-spin prior times this conditional density, value by value, with all options passed on.",
     [I, "schedules"], "all conditioning values, maximum magnitudes and outcomes of the random draws within the bounded number",
     "The draws are random, and the tests use unit maximum spin or check only the total.",
     [PRI], [("Monte-Carlo and kernel density estimate", "chi_p_prior_given_chi_eff_q"), ("factorisation", "joint_prior_from_isotropic_spins")])
prop("C32", "Point-estimate optimisation returns a stationary point of the model density",
     "The maximum a-posteriori helper returns parameter values at which the model's log density is no smaller than at its starting point.",
     [I, "schedules"], "all models, seeds and iteration counts",
     "Optimisation is iterative and stochastic.",
     [ANA], [("stochastic variational optimisation", "find_map")])

prop("C33", "Spline fit solves the least-squares problem",
     "Fitting a basis spline to data (BasisSpline.get_coefficients and its subclasses) returns the least-squares coefficients: the residuals are orthogonal to every basis function, data that lie on a spline return that spline's own coefficients and are reproduced, the returned fitted values are the spline with the returned coefficients at the given abscissae, and the returned design matrix has one row per data point and one column per basis function. The result does not depend on the order of the data, on the normalisation flag or on earlier fits, and the data are left unchanged.",
     [I, CFG], "all ordinates, all coefficient vectors, orders and numbers of basis functions within the bounds",
     "No test calls the fit.",
     [ITP], [("normal equations", "BasisSpline.get_coefficients")])
prop("C34", "Plots show each population curve's median and 90% band over draws",
     "Every plotted population curve is the pointwise median over posterior draws with a band from the 5th to the 95th percentile, against its own grid, under its own name and in its own colour, for every number of subpopulations; mass, mass ratio, spin magnitude and tilt curves go to separate figures. Figures are saved exactly when asked, in the given directory, under names that distinguish quantity, component and label.",
     [I, CFG], "all curve values within the bounded numbers of draws, grid points and subpopulations",
     "No test covers the plots.",
     ["gwinferno/postprocess/plot.py"], [("median and percentile bands", "plot_pdf"), ("figures per quantity", "plot_mass_pdfs, plot_spin_pdfs, plot_rate_of_z_pdfs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
