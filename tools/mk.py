#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs", "configurations"), na=None, note=""):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], na=na, note=note))


HP = "gwpopulation/hyperpe.py"
VT = "gwpopulation/vt.py"
UT = "gwpopulation/utils.py"
CV = "gwpopulation/conversions.py"
MA = "gwpopulation/models/mass.py"
SP = "gwpopulation/models/spin.py"
RS = "gwpopulation/models/redshift.py"
IN = "gwpopulation/models/interped.py"
BK = "gwpopulation/backend.py"
CO = "gwpopulation/experimental/cosmo_models.py"
JX = "gwpopulation/experimental/jax.py"
NP = "gwpopulation/experimental/numpyro.py"

prop("C01", "The hierarchical likelihood is the documented Monte Carlo estimate",
     "For every set of event posterior samples, prior weights and hyperparameters, the log likelihood ratio equals the sum over events of the log of the posterior-sample average of population density over sampling prior, minus the number of events times the log of the detection efficiency when a selection function is given. A conversion function, if given, is applied to the hyperparameters before densities and selection are evaluated, several model components multiply, and the full log likelihood adds the summed log evidences. An event without any supported sample gives an effectively minus-infinite but finite value.",
     "all posterior samples, prior weights, model densities and detection efficiencies; events x samples up to the stated sizes; with/without selection, conversion, evidences",
     "the tests evaluate a few random data sets and compare loosely; an error in a rarely used option or in unequal sample counts passes",
     [HP], [("likelihood ratio", "hyperpe.HyperparameterLikelihood"), ("conversion, selection", "hyperpe.HyperparameterLikelihood.ln_likelihood_and_variance")])
prop("C02", "The reported variance is the variance of the Monte Carlo estimate",
     "The variance returned with the log likelihood ratio equals the sum of the per-event relative variances of the sample averages, (mean of squared weights minus squared mean) / (n mean squared), plus the squared number of events times the relative variance of the detection efficiency when the selection function reports one. It is never negative for supported data.",
     "all weights and efficiencies; up to the stated sizes", "tests do not recompute the variance from the weights",
     [HP], [("variance", "hyperpe.HyperparameterLikelihood._compute_per_event_ln_bayes_factors / _get_selection_factor")])
prop("C03", "Unreliable or invalid likelihoods are rejected, never passed through",
     "Whenever the standard deviation of the log likelihood estimate exceeds the configured maximum uncertainty, the returned log likelihood is the most negative finite float; otherwise it is the unmodified estimate. Undefined (NaN) or minus-infinite estimates also come out as that finite value, without a limit nothing is rejected for its variance, and changing the limit on an existing likelihood takes effect.",
     "all estimates, variances and limits", "the tests use one limit far from the threshold",
     [HP], [("cut", "hyperpe.HyperparameterLikelihood.log_likelihood_ratio")])
prop("C04", "The rate likelihood is the Poisson likelihood with the rate as parameter",
     "With the merger rate as a hyperparameter the log likelihood ratio equals the sum of the per-event log averages plus the number of events times the log of the rate, minus the expected number of detections (rate times selection value). The reported variance is the per-event variance plus the expected number times the relative variance of the selection value, and the uncertainty limit applies to it.",
     "all rates, weights, efficiencies", "tests only check the likelihood runs and returns a float",
     [HP], [("rate selection factor", "hyperpe.RateLikelihood")])
prop("C05", "Per-event and selection statistics agree with the likelihood",
     "The additional statistics reported for a posterior sample (per-event log Bayes factors and variances, selection value and variance, total variance) are exactly the quantities that enter the likelihood of that sample, and their combination reproduces the log likelihood. The prior-only (null) likelihood is zero exactly where the real likelihood's variance is within the limit and rejected elsewhere. A vanishing selection value yields reported statistics rather than an exception.",
     "all weights and efficiencies", "the tests only look at the names of the reported statistics",
     [HP], [("extra statistics", "hyperpe.HyperparameterLikelihood.generate_extra_statistics")])
prop("C06", "Down-sampling keeps distinct samples of each event with their columns aligned",
     "Restricting the number of posterior samples per event never exceeds the limit or the shortest event, keeps for every event only samples drawn from that event without repetition, and keeps all parameters and the prior of one retained sample together. Every sample of an event can be retained.",
     "all posterior values and all random selections", "random selections are not enumerated by tests",
     [HP], [("down-sampling", "hyperpe.HyperparameterLikelihood.resample_posteriors")])
prop("C07", "Posterior-predictive resampling draws in proportion to the population weights",
     "Reweighted event samples are rows of that event's own posterior with all parameters kept together, drawn with replacement with probability equal to the average over hyperparameter draws of the normalised ratio of (converted-parameter) population density to sampling prior. The returned weights are those probabilities, and the stored data are unchanged.",
     "all weights, samples, hyperparameter draws and random choices", "tests check shapes of a random draw",
     [HP], [("resampling", "hyperpe.HyperparameterLikelihood.posterior_predictive_resample")])
prop("C08", "Detection efficiency is the importance-weighted average over injections",
     "The detection efficiency equals the sum over found injections of population density over injection density divided by the total number of injections performed, and its variance is (sum of squared weights / total squared) minus (efficiency squared / total). Any way of specifying the model (list, model object, function) gives the same result.",
     "all injection densities, totals and model densities", "tests use one synthetic injection set",
     [VT], [("efficiency", "vt.ResamplingVT.detection_efficiency")])
prop("C09", "Unconverged selection estimates are never used silently",
     "When the effective number of independent injections (efficiency squared over variance) does not exceed four times the number of events and convergence is enforced, the selection factor is infinite, so that the likelihood is rejected. Otherwise it equals the efficiency, or, when uncertainty is marginalised, efficiency times exp(-(3+N)/(2 n_eff)).",
     "all weights, totals, event numbers", "threshold behaviour sampled by few tests",
     [VT, HP], [("convergence", "vt.ResamplingVT.check_convergence / vt_factor")])
prop("C10", "Gridded sensitive volume is the multi-dimensional integral over the grid",
     "A selection function built from a sensitivity on a regular grid returns the trapezoidal integral over every axis of population density times sensitivity, whatever the number, order, length or names of the axes. The caller's data are left unchanged.",
     "all grids, sensitivities and densities", "tests use a single two-axis grid",
     [VT], [("grid", "vt.GridVT")])
prop("C11", "Surveyed hypervolume and rates follow from efficiency, volume and time",
     "The surveyed hypervolume is the analysis time times the comoving volume integral of the model's rate evolution over (1+z) up to its maximum redshift, in Gpc^3 yr (constant rate to redshift 2.3 without a redshift model). A rate posterior sample is a Gamma-distributed count with the number of events as shape, divided by hypervolume times detection efficiency, and an explicitly sampled rate is returned as given.",
     "all efficiencies, times, redshift models, gamma draws", "tests do not compare to the definition",
     [VT, HP, UT, RS], [("hypervolume", "vt.ResamplingVT.surveyed_hypervolume / models.redshift.total_spacetime_volume"), ("rate", "hyperpe.HyperparameterLikelihood.generate_rate_posterior_sample")])
prop("C12", "Truncated power law is a normalised density with the right index",
     "For every index, limits and sample, the power-law density is proportional to x to the index inside the closed interval, integrates to one and is exactly zero outside; index -1 is its continuous limit. Scalar, array and per-sample parameters agree.",
     "all indices, limits, samples x>0", "tests check normalisation for random draws only",
     [UT], [("power law", "utils.powerlaw")])
prop("C13", "Truncated normal is a normalised density on its interval",
     "For every mean, width and limits the truncated normal equals the Gaussian divided by its probability in the interval inside the closed interval and is exactly zero outside.",
     "all means, widths, limits, samples", "tests check normalisation for random draws only",
     [UT], [("truncated normal", "utils.truncnorm")])
prop("C14", "Beta spin-magnitude densities are normalised and correctly composed",
     "The beta density with any scale is the standard beta density of x/scale divided by scale inside the support and zero outside, and the independent and identical spin-magnitude models are the product of the two components' densities with each component's own (or shared) parameters.",
     "all shapes, scales, samples strictly inside or outside the support", "tests check normalisation for random draws only",
     [UT, SP], [("beta", "utils.beta_dist"), ("spin magnitudes", "models.spin.independent_spin_magnitude_beta / iid_spin_magnitude_beta")])
prop("C15", "Beta parameter conversions are mutually inverse and side-effect free",
     "Converting maximum, mean and variance to shape parameters and back returns the original values for every scale, the converted shapes reproduce the mean and variance of the scaled beta distribution, and converting hyperparameter dictionaries adds the same values for single and per-component names without changing the input.",
     "all valid means, variances, maxima", "tests use a handful of values",
     [CV], [("conversion", "conversions.alpha_beta_max_to_mu_var_max / mu_var_max_to_alpha_beta_max / convert_to_beta_parameters")])
prop("C16", "Parametric mass models are the documented mixtures with conditional q",
     "Each unsmoothed mass model equals the documented normalised mixture of a truncated power law and truncated Gaussian peaks in primary mass, times the documented normalised mass-ratio or secondary-mass density conditional on the primary. The density is zero outside the mass limits and for secondary masses above the primary.",
     "all hyperparameters and samples in stated ranges", "tests check normalisation on one grid",
     [MA], [("mass mixtures", "models.mass.two_component_single / three_component_single / two_component_primary_mass_ratio / two_component_primary_secondary_*")])
prop("C17", "The broken power law is continuous and normalised",
     "The double power law is continuous at the break, has the two documented slopes, integrates to one on the mass interval and vanishes outside; its peak and mass-ratio variants are the documented mixtures.",
     "all slopes, breaks, limits, samples", "tests check normalisation for random draws only",
     [MA], [("broken power law", "models.mass.double_power_law_primary_mass")])
prop("C18", "Smoothed mass models are normalised products with the documented taper",
     "The low-mass window is zero below the minimum, one above the turn-on, and the documented Planck taper between; smoothed primary-mass densities are the unsmoothed density times the window divided by its integral over the model's mass grid. The mass-ratio density is normalised for each primary mass by interpolating the grid of integrals, and the joint density is their product.",
     "all hyperparameters and samples; grids of stated sizes", "tests check normalisation on default grids only",
     [MA], [("window", "models.mass.BaseSmoothedMassDistribution.smoothing"), ("primary", "BaseSmoothedMassDistribution.p_m1 / norm_p_m1"), ("mass ratio", "BaseSmoothedMassDistribution.p_q / norm_p_q")])
prop("C19", "Model evaluations do not depend on previous evaluations",
     "Evaluating a population model, a selection function or the likelihood gives the same result whatever hyperparameters were evaluated before on the same data, and the same as a freshly built object would give. With the mass models' caching disabled this also holds across different data sets. Spline models are covered for fixed node positions.",
     "all histories of evaluations up to stated length, all hyperparameters", "tests evaluate models once",
     [MA, RS, IN, HP, VT], [("caches", "models.mass.BaseSmoothedMassDistribution / models.redshift._Redshift / hyperpe")], over=("histories", "inputs"))
prop("C20", "Interpolated models are normalised exponentials of the spline through the nodes",
     "An interpolated density equals the exponential of the spline (cubic or linear, in the parameter or its logarithm) through the node values at the node positions, is zero outside the node range, and is divided by its integral over the model's range; the optional regularisation rescales the node values to the requested root mean square. Extra nodes given by the hyperparameters are used, with the configuration of the model kept. The interpolated power law is the smoothed power law times that spline factor, normalised together.",
     "all node values and positions; samples; stated node numbers", "tests use one configuration",
     [IN], [("splines", "models.interped")])
prop("C21", "Spin orientation and effective-spin models are documented normalised densities",
     "The orientation models are the documented mixture of an isotropic and a truncated-Gaussian aligned component per binary component; the effective-spin models are truncated Gaussians on [-1,1] and [0,1]. Joint magnitude and orientation models are products of the parts.",
     "all hyperparameters and samples", "tests check normalisation for random draws only",
     [SP], [("orientation", "models.spin.iid_spin_orientation_gaussian_isotropic ..."), ("effective spins", "models.spin.gaussian_chi_eff / gaussian_chi_p / GaussianChiEffChiP")])
prop("C22", "Correlated effective-spin Gaussian and von Mises are normalised densities",
     "The two-dimensional Gaussian is the bivariate normal density with the given correlation, its chi_eff-chi_p model is that density divided by its integral over the physical rectangle and zero outside it, and the von Mises density equals the normalised exponential of kappa cos(x - mu).",
     "all hyperparameters and samples", "tests do not vary the correlation",
     [SP, UT], [("2d Gaussian", "models.spin.GaussianChiEffChiP"), ("von Mises", "utils.von_mises")])
prop("C23", "Redshift densities follow the comoving volume and the rate evolution",
     "The redshift density is the documented rate evolution times differential comoving volume over (1+z), divided by its integral over the model's redshift range, zero beyond the maximum redshift, and the rate evolution is one at redshift zero. This holds for fixed and free cosmology and every evolution model.",
     "all hyperparameters, redshifts, cosmologies (uninterpreted distance functions)", "tests check normalisation for random draws only",
     [RS], [("redshift", "models.redshift.*")])
prop("C24", "Detector- to source-frame conversion is exact with the right Jacobian",
     "Converting detector-frame samples to the source frame divides each detector-frame mass by one plus the redshift, keeps every other parameter, uses the given redshift or, for samples that give a luminosity distance instead, the redshift matching it in the given cosmology, and returns the product of all the corresponding derivatives as Jacobian, independent of the order of the entries.",
     "all samples, cosmologies (uninterpreted distances)", "tests use one data set and key order",
     [CO], [("conversion", "experimental.cosmo_models.CosmoMixin.detector_frame_to_source_frame")])
prop("C25", "Detector-frame populations are source-frame densities over the Jacobian",
     "A cosmological population model's density of detector-frame samples equals the product of its factors evaluated at the converted source-frame samples divided by the Jacobian of that conversion, for any number of factors and any sequence of evaluations, also inside the hierarchical likelihood.",
     "all samples, parameters, factors, cosmologies", "tests use one data set",
     [CO, HP], [("model", "experimental.cosmo_models.CosmoModel")], over=("inputs", "histories"))
prop("C26", "Switching the numerical backend is atomic and reaches every module",
     "After any sequence of backend switches, every part of the library uses the array library, special functions and array type of the last successfully selected backend. An unknown or unavailable backend name raises an error and leaves the previously active backend fully in place.",
     "all sequences of backend names up to the stated length, availability of each library", "tests switch in a fixed order",
     [BK, UT], [("switch", "backend.set_backend"), ("dispatch", "backend._load_numpy_and_scipy")], over=("histories", "configurations"))
prop("C27", "Results do not depend on the numerical backend",
     "The same model, likelihood or selection evaluated on the same data gives the same values with each supported array library.",
     "all inputs of stated sizes", "tests compare few values",
     [HP, VT, UT, MA, SP, RS], [("dispatch", "backend.set_backend")])
prop("C28", "Invalid hyperparameters are rejected instead of giving wrong densities",
     "A non-positive beta shape or scale or Gaussian width gives an error or exactly zero density, and power laws and truncated normals with the lower limit above the upper one are exactly zero. With numpy and cupy, such a value given by keyword, in a scalar or any element of an array, and a negative lower power-law limit raise an error, also through the mass and effective-spin models. Smoothed mass models raise an error for mass limits outside the range they were built for. Every valid value, including that range's ends, is accepted.",
     "all invalid values", "tests probe single invalid values",
     [UT, MA, SP], [("guards", "utils.*; models.mass.BaseSmoothedMassDistribution.__call__")])
prop("C29", "The NumPyro likelihood and sampling agree with the standard likelihood",
     "The NumPyro model returns exactly the log likelihood ratio of the standard likelihood for the same data and (converted) parameters, records the same per-event, selection and total values and variances, and rejects estimates whose variance exceeds the limit. The rate is drawn from a Gamma distribution with the number of events as shape and hypervolume times efficiency as rate, and predictive draws pick, in proportion to the population weights, rows of the event's own samples or of the injections, with all requested parameters kept together.",
     "all weights, efficiencies, parameters and random draws", "the test compares one random point without selection options, limits or draws",
     [NP], [("numpyro", "experimental.numpyro")])
prop("C30", "Evaluations never modify the caller's data or hyperparameters",
     "No likelihood, selection function, population model or conversion changes the values or keys of the dictionaries, arrays or lists handed to it by the caller, also after repeated evaluations. (The extra statistics are documented to be added to the sample they are computed for; its existing entries stay as they are.)",
     "all inputs of the stated shapes", "tests do not compare inputs before and after",
     [HP, VT, CV, CO, MA, SP, RS, IN], [("in-place updates", "all modules")])
prop("C31", "Each sample's density depends on that sample alone, in arrays of any shape",
     "A population model evaluated on arrays of samples of any shape returns an array of the same shape in which every entry is the density of the sample at that position, the same as if the sample were given alone, whatever the other samples are and wherever they lie relative to the model's support.",
     "all samples, positions and array shapes up to the stated sizes", "tests evaluate flat arrays of samples and look at integrals",
     [MA, SP, RS, IN], [("broadcasting, masks", "models.*; utils.*")])
prop("C32", "The compiled likelihood returns what the wrapped likelihood returns",
     "The just-in-time compiled likelihood returns the log likelihood ratio of the wrapped likelihood (or what the given likelihood function and options define) for the parameters of each call, in any call order and order of the parameters, with non-finite values made finite. It reports the noise evidence and other attributes of the wrapped likelihood.",
     "all parameters and call sequences of stated length", "tests call the wrapper once",
     [JX], [("jit", "experimental.jax.JittedLikelihood")])
prop("C35", "Models combined in a population receive exactly their own hyperparameters",
     "Every model combined with others in one population model (with or without caching, or with a cosmology) receives exactly the hyperparameters it declares from a dictionary that holds the hyperparameters of all of them and unrelated entries, so that the combined density is the product of the individual densities.",
     "all hyperparameter values; every model; pairs of models", "tests evaluate models one at a time",
     [MA, SP, RS, IN, CO], [("declared names", "models.mass.BaseSmoothedMassDistribution.variable_names; models.redshift._BaseRedshift.variable_names; models.interped.InterpolatedNoBaseModelIdentical.variable_names; experimental.cosmo_models.CosmoModel")])
prop("C33", "Default-resolution integrals are accurate to the sampling noise",
     "With the default grid resolution, the normalisation integrals of the smoothed and redshift models differ from the exact integrals by less than the statistical error of typical analyses.",
     "all hyperparameters in prior range", "tests use a loose tolerance at random points",
     [MA, RS], [("grids", "models.mass.BaseSmoothedMassDistribution.__init__; models.redshift._Redshift")],
     na="Numerical quadrature error of thousand-node grids of transcendental functions over real parameters: beyond what a solver can decide; the exact discretised definition is decided by C18 and C23 instead.")
prop("C34", "Evaluation on a GPU gives the same results",
     "Models evaluated on a graphics processor through the GPU array library give the results of the CPU evaluation up to rounding.",
     "all inputs", "no GPU in the tests", [BK], [("cupy", "backend.set_backend")],
     na="No GPU or cupy here and no source of its kernels to encode; the cupy code path of the repository is executed symbolically against a stand-in with numpy's semantics in C01-C30.")

LEVEL_NOTE = ("The repository's own functions are executed symbolically (from /repo's current source, on every run) on symbolic reals; every branch is forked with "
              "z3 deciding feasibility, and each claim is discharged by z3 (or reduced to zero by exact algebra) for all values within the bounds listed in the evidence. "
              "Counterexamples are replayed on the unmodified code in floating point before being reported. Trusted: exact real arithmetic stands for floating point; "
              "numpy/scipy/jax/wcosmo primitives follow their documented semantics (spot-checked by replays of solver-chosen witnesses).")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "props")) if f.startswith("c") and f[1:3].isdigit()}
    ready = [l.strip() for l in open(os.path.join(ROOT, "tools", "ready.txt")) if l.strip()]
    checks, nas = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
            if p["id"] in ready:
                assert p["id"] in have
                checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                                   technique="symbolic execution of the real Python code with SMT (z3), counterexamples replayed",
                                   level="model_checking", level_note=LEVEL_NOTE + (" " + p["note"] if p["note"] else "")))
            else:
                nas.append(dict(property=p["id"], reason=p["na"] or "Check under construction."))
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=nas), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
