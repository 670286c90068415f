"""Population density of detector-frame samples."""
from .common import harness
from .c24 import DET, distance, source_z
from .cosmo import MODELS, cosmology


def mass(dataset, lam):
    return lam * dataset["mass_1"] + dataset["redshift"]


def pair(dataset, mu):
    return mu + dataset["mass_1"] * dataset["mass_2"]


def spin(dataset, nu):
    return nu * dataset["a_1"]


def rows(h, cols):
    return {k: h.arr(v) for k, v in cols.items()}


def case(h, cfg, tag=""):
    which = cfg["which"]
    vals = distance(h, 2, which)
    cols = {("luminosity_distance" if which == "dl" else "redshift"): vals}
    for i in range(2):
        cols[DET[i]] = h.reals("m%d_" % i, 2, 0.1, 5000, log=True)
    cols["a_1"] = h.reals("a", 2, 0, 1)
    return cols, vals


def expected(h, cols, vals, which, c, par, models):
    o = h.ops
    zs, js = source_z(h, vals, which, c)
    out = []
    for i in range(2):
        m1, m2 = (o.of(cols[DET[k]][i]) / (1 + zs[i]) for k in range(2))
        p = o.of(1)
        if "mass" in models:
            p = p * (o.of(par["lam"]) * m1 + zs[i])
        if "pair" in models:
            p = p * (o.of(par["mu"]) + m1 * m2)
        if "spin" in models:
            p = p * o.of(par["nu"]) * o.of(cols["a_1"][i])
        out.append(p / (js[i] * (1 + zs[i]) ** 2))
    return out


MOD = {"mass": mass, "pair": pair, "spin": spin}
CFG = [dict(which="dl", cosmo=c, models=m) for c, m in zip(MODELS, (("mass",), ("mass", "pair"), ("spin", "mass", "pair")))]
CFG += [dict(which="z", cosmo="Planck15", models=("mass", "spin")), dict(which="z", cosmo="FlatwCDM", models=("pair",))]


def params(h):
    return dict(lam=h.real("lam", 0.5, 2), mu=h.real("mu", 0.5, 2), nu=h.real("nu", 0.5, 2))


@harness("C25", modes=("numpy", "jax"), configs=CFG, witnesses=4, bounds="2 samples with two detector-frame masses, 1-3 population factors, three cosmologies; distance or redshift given")
def density(h, cfg):
    from gwpopulation.experimental.cosmo_models import CosmoModel
    cos, c = cosmology(h, cfg["cosmo"])
    par = dict(params(h), **cos)
    cols, vals = case(h, cfg)
    model = CosmoModel([MOD[m] for m in cfg["models"]], cosmo_model=cfg["cosmo"])
    data = rows(h, cols)
    got = model.prob(data, **par)
    h.shape("one value per sample", got, (2,))
    h.eq("source-frame density over the jacobian", got, expected(h, cols, vals, cfg["which"], c, par, cfg["models"]))
    for k in cols:
        h.eq("the samples are unchanged", data[k], cols[k])


@harness("C25", modes=("numpy", "jax"), configs=CFG, witnesses=3, bounds="three evaluations of one model with different parameters, samples and cosmologies")
def history(h, cfg):
    from gwpopulation.experimental.cosmo_models import CosmoModel
    cos, c = cosmology(h, cfg["cosmo"])
    par = dict(params(h), **cos)
    cols, vals = case(h, cfg)
    model = CosmoModel([MOD[m] for m in cfg["models"]], cosmo_model=cfg["cosmo"])
    data = rows(h, cols)
    model.prob(data, **par)
    # new cosmology, same population parameters and samples
    par2 = dict(par)
    for k in cos:
        par2[k] = par[k] * (0.9 if k != "w0" else 1.1)
    c2 = tuple(par2.get(k, x) for k, x in zip(("H0", "Om0", "w0"), c))
    h.eq("after a change of the cosmology", model.prob(data, **par2), expected(h, cols, vals, cfg["which"], c2, par2, cfg["models"]))
    # same dictionary, other samples in it
    swap = {k: list(v)[::-1] for k, v in cols.items()}
    for k in swap:
        data[k] = h.arr(swap[k])
    h.eq("after the samples were replaced", model.prob(data, **par2), expected(h, swap, list(vals)[::-1], cfg["which"], c2, par2, cfg["models"]))
    data = rows(h, cols)
    # same parameters, other samples
    flip = {k: list(v)[::-1] for k, v in cols.items()}
    h.eq("after a change of the samples", model.prob(rows(h, flip), **par2),
         expected(h, flip, list(vals)[::-1], cfg["which"], c2, par2, cfg["models"]))


@harness("C25", modes=("numpy",), configs=CFG[:3], witnesses=2, bounds="likelihood of 2 events of 1 sample with detector-frame masses")
def likelihood(h, cfg):
    from gwpopulation.experimental.cosmo_models import CosmoModel
    from gwpopulation.hyperpe import HyperparameterLikelihood
    from .lik import frame, seeded
    cos, c = cosmology(h, cfg["cosmo"])
    par = dict(params(h), **cos)
    cols, vals = case(h, cfg)
    model = CosmoModel([MOD[m] for m in cfg["models"]], cosmo_model=cfg["cosmo"])
    with seeded(h):
        like = HyperparameterLikelihood([frame(h, {k: [v[i]] for k, v in cols.items()}) for i in range(2)], model, maximum_uncertainty=10.0)
    o = h.ops
    e = expected(h, cols, vals, cfg["which"], c, par, cfg["models"])
    h.assume(e[0] > 0)
    h.assume(e[1] > 0)
    h.eq("log likelihood", like.log_likelihood_ratio(dict(par)), o.log(e[0]) + o.log(e[1]))
    h.eq("log likelihood again", like.log_likelihood_ratio(dict(par)), o.log(e[0]) + o.log(e[1]))
