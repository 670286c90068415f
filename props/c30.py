"""Evaluations leave the caller's data alone."""
import numpy as np
import pandas as pd

from .common import harness
from .lik import Rand, Selection, affine, conv, frame, same, seeded
from . import zoo


def snap(x):
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.columns), list(x.index), [list(x[c]) for c in x.columns])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v) for v in x]
    if hasattr(x, "shape") and np.ndim(x):
        return ("array", tuple(np.shape(x)), [v for v in np.ravel(np.asarray(x, dtype=object))])
    return x


def unchanged(h, label, before, x):
    after = snap(x)
    h.nclaims += 1
    h.reached.add(label)

    def cmp(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and list(a) == list(b) and all(cmp(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and all(cmp(p, q) for p, q in zip(a, b))
        if a is b:
            return True
        if isinstance(a, (str, type(None))) or callable(a):
            return a == b
        return same(h, a, b)
    if not cmp(before, after):
        h.fail(label, "changed from %.300r to %.300r" % (before, after), [])


@harness("C30", modes=("numpy", "jax"), configs=[dict(name=n) for n in zoo.NAMES + zoo.CLASSES], grid_cap=3, witnesses=2, paths=3000,
         bounds="every model: 1 sample, evaluated twice; data and hyperparameters with symbolic values")
def models(h, cfg):
    build, d, par = zoo.case(h, cfg["name"])
    f = build()
    data = {k: h.arr(v) for k, v in d.items()}
    data["unrelated"] = h.arr([1.5])
    b, p = snap(data), snap(par)
    for _ in range(2):
        f(data, **par)
        unchanged(h, "data", b, data)
        unchanged(h, "hyperparameters", p, par)
    if hasattr(f, "normalisation"):
        f.normalisation(par)
        unchanged(h, "hyperparameters of the normalisation", p, par)


@harness("C30", modes=("numpy", "jax"), witnesses=2, bounds="array-valued arguments of the densities and conversions")
def functions(h, cfg):
    from gwpopulation import conversions as C, utils as U
    x = h.arr(h.reals("x", 2, 0.1, 0.9))
    a, b = h.arr(h.reals("a", 2, 0.5, 3)), h.arr(h.reals("b", 2, 0.5, 3))
    lo, hi = h.arr([0.05, 0.125]), h.arr([1.5, 2.0])
    one = h.arr([1.0, 1.0])
    args = [x, a, b, lo, hi, one]
    s = snap(args)
    for name, f in (("beta", lambda: U.beta_dist(x, a, b, scale=hi)), ("power law", lambda: U.powerlaw(x, a, hi, lo)), ("truncated normal", lambda: U.truncnorm(x, a, b, hi, lo)),
                    ("2d Gaussian", lambda: U.unnormalized_2d_gaussian(x, a, lo, hi, a, b, h.arr([0.25, 0.5]))), ("von Mises", lambda: U.von_mises(x, a, b)), ("integral", lambda: U.trapezoid(x, h.arr([1.0, 2.0]))),
                    ("moments", lambda: C.alpha_beta_max_to_mu_var_max(a, b, one)), ("shapes", lambda: C.mu_var_max_to_alpha_beta_max(x, h.arr([0.01, 0.02]), hi))):
        f()
        unchanged(h, name, s, args)
    m, v = h.real("mu", 0.3, 0.6), h.real("var", 0.01, 0.05)
    for par in (dict(mu_chi=m, sigma_chi=v, amax=1.0, other=2.0), dict(mu_chi_1=m, mu_chi_2=0.5, sigma_chi_1=v, sigma_chi_2=0.02, amax_1=1.0, amax_2=0.75)):
        for rm in (True, False):
            p = snap(par)
            C.convert_to_beta_parameters(par, remove=rm)
            unchanged(h, "hyperparameters of the conversion", p, par)


def inplace(parameters):
    """a conversion that changes the dictionary it is given"""
    parameters["mu"] = parameters["lam"] * parameters["kap"]
    parameters["lam"] = parameters["lam"] + parameters["kap"]
    return parameters, ["mu"]


CF = [dict(cls=c, sel=s, conv=k, prior=p) for c, s, k, p in (("hyper", "pair", True, True), ("hyper", "one", False, False), ("rate", "pair", True, True), ("null", "none", False, True), ("hyper", "vt", True, True), ("hyper", "vt", "inplace", True), ("rate", "pair", "inplace", True), ("null", "pair", "inplace", False))]


@harness("C30", modes=("numpy", "jax"), configs=CF, witnesses=2, paths=3000, grid_cap=3,
         bounds="likelihoods of 2 events (1-2 samples): construction, evaluations, statistics, rate and resampled draws")
def likelihood(h, cfg):
    from gwpopulation import hyperpe
    from gwpopulation.vt import ResamplingVT
    cls = dict(hyper=hyperpe.HyperparameterLikelihood, rate=hyperpe.RateLikelihood, null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
    fr = []
    for i, k in enumerate((2, 1)):
        cols = {"w": h.reals("e%d_" % i, k, 0.25, 4)}
        if cfg["prior"]:
            cols["prior"] = h.reals("p%d_" % i, k, 0.25, 4)
        fr.append(frame(h, cols))
    ev = [h.real("z0", -5, 5), 1.5]
    inj = {"w": h.arr([1.0, 2.0]), "prior": h.arr([0.5, 0.75]), "total_generated": 5, "analysis_time": 2.0}
    sel = ResamplingVT(affine, inj, n_events=0.01) if cfg["sel"] == "vt" else Selection(h, cfg["sel"]) if cfg["sel"] != "none" else (lambda p: 1)
    kw = dict(conversion_function=inplace if cfg["conv"] == "inplace" else conv) if cfg["conv"] else {}
    model = affine
    par = dict(lam=h.real("lam", 0.5, 2), kap=h.real("kap", 0.25, 2), rate=1.5)
    if not cfg["conv"]:
        par["mu"] = h.real("mu", 0.25, 2)
    s = snap(fr), snap(ev), snap(par), snap(inj)

    def ok(label):
        for k, (a, b) in dict(posteriors=(s[0], fr), evidences=(s[1], ev), hyperparameters=(s[2], par), injections=(s[3], inj)).items():
            unchanged(h, "%s after %s" % (k, label), a, b)
    with seeded(h):
        L = cls(fr, model, ln_evidences=ev, selection_function=sel, **kw)
    ok("construction")
    L.log_likelihood_ratio(par)
    ok("log_likelihood_ratio")
    L.log_likelihood(par)
    L.ln_likelihood_and_variance(par)
    ok("log_likelihood")
    if cfg["conv"] == "inplace" or not cfg["conv"]:
        given = dict(par, mu=0.5)
        L.generate_rate_posterior_sample(given)
        unchanged(h, "hyperparameters after drawing a rate", dict(s[2], mu=0.5), given)
    if h.choose("which", 2) == 0:
        # documented to add entries to the sample it is given; nothing else may change
        given = dict(par)
        L.generate_extra_statistics(given)
        unchanged(h, "entries of the sample after generate_extra_statistics", s[2], {k: given.get(k) for k in par})
        ok("generate_extra_statistics")
    else:
        more = [dict(par), dict(par)]
        t = snap(more)
        with h.stub(*Rand(h).stubs()):
            L.posterior_predictive_resample(more)
        unchanged(h, "hyperparameter samples after resampling", t, more)
        ok("resampling")


@harness("C30", modes=("numpy", "jax"), witnesses=2, grid_cap=3, bounds="selection functions: injections and gridded sensitivity")
def selection(h, cfg):
    from gwpopulation.vt import GridVT, ResamplingVT
    lin = lambda dataset, lam: lam * dataset["w"]
    inj = {"w": h.arr(h.reals("w", 2, 0.25, 4)), "prior": h.arr(h.reals("p", 2, 0.25, 4)), "total_generated": h.real("t", 2, 40), "analysis_time": 2.0}
    models = [lin]
    par = dict(lam=h.real("lam", 0.5, 2), other=1.0)
    s = snap(inj), snap(par), list(models)
    for kw in (dict(), dict(marginalize_uncertainty=True), dict(enforce_convergence=False)):
        V = ResamplingVT(models, inj, n_events=0.25, **kw)
        V(par)
        V.surveyed_hypervolume(par)
        V.detection_efficiency(par)
        unchanged(h, "injections", s[0], inj)
        unchanged(h, "hyperparameters", s[1], par)
        h.true("list of models", models == s[2])
    gx, gy = np.array([1.0, 2.0, 4.0]), np.array([0.5, 1.5])
    X, Y = np.meshgrid(gx, gy)
    vt = h.reals("v", 6, 0, 2)
    grid = {"w": h.arr(X), "y": h.arr(Y), "vt": h.arr(np.array(vt, dtype=object if h.sym else float).reshape(2, 3))}
    t = snap(grid)
    G = GridVT([lambda dataset, lam: lam * dataset["w"] * dataset["y"]], grid)
    G(dict(lam=par["lam"]))
    G(dict(lam=1.0))
    unchanged(h, "gridded sensitivity", t, grid)


@harness("C30", modes=("numpy", "jax"), witnesses=2, bounds="detector-frame conversion and cosmological models: 2 samples, evaluated twice")
def cosmological(h, cfg):
    from gwpopulation.experimental.cosmo_models import CosmoModel
    zs = h.reals("dl", 2, 0.1, 5)
    data = {"mass_1_detector": h.arr(h.reals("m", 2, 5, 80)), "mass_ratio": h.arr([0.5, 0.75]), "mass_2_detector": h.arr([4.0, 6.0]), "luminosity_distance": h.arr(zs)}
    f = lambda dataset, c: c + dataset["mass_1"] + dataset["redshift"]
    par = dict(c=h.real("c", 0.5, 2), H0=70.0, Om0=0.3)
    s, p = snap(data), snap(par)
    M = CosmoModel(model_functions=[f], cosmo_model="FlatLambdaCDM")
    for _ in range(2):
        M.prob(data, **par)
        unchanged(h, "detector-frame samples", s, data)
        unchanged(h, "hyperparameters", p, par)
    M.detector_frame_to_source_frame(data, **{k: v for k, v in par.items() if k != "c"})
    unchanged(h, "samples after conversion", s, data)
