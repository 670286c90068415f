"""Results do not depend on what was evaluated before."""
from .common import harness
from .cosmo import MODELS, cosmology
from .lik import Rand, Selection, affine, conv, frame, seeded
from .smooth import Values, hyper
from . import zoo
from .vts import injections, linear

TOP = (2, 50)


def smoothed(h, cls, cache):
    return cls(mmin=TOP[0], mmax=TOP[1], normalization_shape=(4, 3), cache=cache)


def data(h, tag, m, q):
    return {"mass_1": h.arr(m), "mass_ratio": h.arr(q)}


SM = [dict(kind=k, cache=c, free=f) for k, f, c in (("user", "delta_m", True), ("user", "c", False), ("single", "lam", False), ("single", "delta_m", True), ("broken", "alpha_1", False), ("broken", "delta_m", True), ("multi", "lam_1", False), ("multi", "lam", True),
                                                    ("brokenpeak", "lam", True))]
OTHER = dict(single=dict(alpha=2.0, lam=0.5, mpp=20.0, sigpp=7.0, mmax=45.0), multi=dict(alpha=2.0, lam=0.5, lam_1=0.25, mpp_1=15.0, sigpp_1=2.0, mpp_2=28.0, sigpp_2=8.0, mmax=45.0),
             broken=dict(alpha_1=3.0, alpha_2=2.0, break_fraction=0.25, mmax=45.0), brokenpeak=dict(alpha_1=3.0, alpha_2=2.0, break_fraction=0.25, lam=0.5, mpp=20.0, sigpp=7.0, mmax=45.0),
             user=dict(c=2.0))


@harness("C19", modes=("numpy", "jax"), configs=SM, witnesses=2, paths=3000, rtol=1e-9,
         bounds="smoothed mass models: histories of up to 4 evaluations at two parameter points (one hyperparameter symbolic), 2 samples, with caching on the same data; without caching also other data of equal and different size in between")
def smoothed_mass(h, cfg):
    v = Values(h, cfg["free"])
    cls, p, _ = hyper(h, cfg["kind"], TOP[1], v)
    a = dict(p, beta=v("beta", 1, -0.5, 8), delta_m=v("delta_m", 20, 0.1, 30))
    b = dict(OTHER[cfg["kind"]], mmin=4.0, beta=3.0, delta_m=16.0)
    z = dict(b, delta_m=0.0)
    m = h.reals("m", 2, 10, 60) if cfg["free"] == "beta" else [18.0, 30.0]
    d1 = data(h, "1", m, [0.75, 0.875])
    fresh = smoothed(h, cls, cfg["cache"])(d1, **a)
    M = smoothed(h, cls, cfg["cache"])
    first = [x for x in M(d1, **b)]
    h.eq("first evaluation at the other point", first, [x for x in smoothed(h, cls, cfg["cache"])(d1, **b)])
    if not cfg["cache"]:
        k = h.choose("between", 3)
        d2 = data(h, "2", [40.0, 14.0], [0.5, 0.625]) if k == 0 else data(h, "3", [12.0], [0.5]) if k == 1 else data(h, "4", [12.0, 13.0, 14.0], [0.5, 0.625, 0.75])
        M(d2, **b)
        M(d2, **a)
    else:
        k = h.choose("between", 2)
        if k == 1:
            M(d1, **z)
    h.eq("same as a fresh model", M(d1, **a), fresh)
    h.eq("the other point again", M(d1, **b), first)


@harness("C19", modes=("numpy", "jax"), configs=[dict(kind=k, cosmo=c) for k in ("powerlaw", "madau") for c in MODELS], grid_cap=3, witnesses=2, rtol=1e-9,
         bounds="redshift models: other parameters, cosmologies and data of another size evaluated in between; 3 grid nodes")
def redshift(h, cfg):
    from gwpopulation.models import redshift as R
    cls = R.PowerLawRedshift if cfg["kind"] == "powerlaw" else R.MadauDickinsonRedshift
    names = ["lamb"] if cfg["kind"] == "powerlaw" else ["gamma", "kappa", "z_peak"]
    pa, _ = cosmology(h, cfg["cosmo"])
    pb = {k: x * 1.25 for k, x in pa.items()}
    if "w0" in pb:
        pb["w0"] = -1.0
    for i, k in enumerate(names):
        pa[k] = h.real(k, 0.25, 4)
        pb[k] = 1.5 + i
    d1, d2 = {"redshift": h.arr(h.reals("z", 2, 0.1, 3))}, {"redshift": h.arr([0.5])}
    fresh = cls(z_max=2.5, cosmo_model=cfg["cosmo"])(d1, **pa)
    M = cls(z_max=2.5, cosmo_model=cfg["cosmo"])
    first = [x for x in M(d1, **pb)]
    M(d2, **pa)
    live = dict(pb)
    n1 = M.normalisation(live)
    live.update(pa)
    h.eq("the same dictionary with other values", M.normalisation(live), cls(z_max=2.5, cosmo_model=cfg["cosmo"]).normalisation(dict(pa)))
    M.normalisation(dict(pa))
    other = cls(z_max=1.0, cosmo_model=cfg["cosmo"])
    other(d2, **pb)
    h.eq("same as a fresh model", M(d1, **pa), fresh)
    h.eq("the other point again", M(d1, **pb), first)
    h.eq("the normalisation again", M.normalisation(dict(pb)), n1)


LK = [dict(sel="pair", conv=True, lim=False, cls=c) for c in ("hyper", "rate", "null")] + [dict(sel="one", conv=False, lim=True, cls="hyper")]


@harness("C19", modes=("numpy", "jax"), configs=LK, witnesses=2, paths=3000, rtol=1e-9,
         bounds="likelihood of 2 events of 1 sample: another point, statistics, rate sample, resampling or a rejected point in between, in any single order")
def likelihood(h, cfg):
    from gwpopulation import hyperpe
    cls = dict(hyper=hyperpe.HyperparameterLikelihood, rate=hyperpe.RateLikelihood, null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
    ws, ps = [h.reals("w%d_" % i, 1, 0.25, 4) for i in range(2)], [h.reals("p%d_" % i, 1, 0.25, 4) for i in range(2)]
    a = dict(lam=h.real("lam", 0.5, 2), rate=h.real("rate", 0.5, 2), mu=h.real("mu", 0.25, 2), kap=h.real("kap", 0.25, 2))
    b = dict(lam=h.real("lam2", 0.5, 2), rate=1.5, mu=0.5, kap=h.real("kap2", 0.25, 2))
    sel = Selection(h, cfg["sel"])

    def build():
        with seeded(h):
            kw = dict(conversion_function=conv) if cfg["conv"] else {}
            if cfg["lim"]:
                kw["maximum_uncertainty"] = 1.25
            return cls([frame(h, {"w": w, "prior": p}) for w, p in zip(ws, ps)], affine, selection_function=sel, **kw)

    fresh = build()
    want, wv = fresh.ln_likelihood_and_variance(dict(a))
    wr = fresh.log_likelihood_ratio(dict(a))
    L = build()
    k = h.choose("between", 5)
    live = dict(b)
    L.log_likelihood_ratio(live)
    L.generate_extra_statistics(live)
    with h.stub(*Rand(h).stubs()):
        if k == 0:
            L.generate_extra_statistics(dict(a))
        elif k == 1:
            L.posterior_predictive_resample([dict(a), dict(b)])
        elif k == 2:
            L.generate_rate_posterior_sample(dict(b, lam=1.0))
        elif k == 3:
            L.meta_data, L.noise_log_likelihood(), L.log_likelihood(dict(b))
        elif k == 4:
            L.maximum_uncertainty = 0.5
            L.log_likelihood_ratio(dict(a))
            L.maximum_uncertainty = fresh.maximum_uncertainty
    live.update(a)          # the same dictionary or another one
    p = live if k == 3 else dict(a)
    got, gv = L.ln_likelihood_and_variance(p)
    h.eq("log likelihood", got, want)
    h.eq("variance", gv, wv, atol=1e-12)
    h.eq("log likelihood ratio", L.log_likelihood_ratio(p), wr)
    h.eq("log likelihood ratio again", L.log_likelihood_ratio(dict(a)), wr)
    for c in ("w",):
        h.eq("the data are unchanged", [L.data[c][i, 0] for i in range(2)], [w[0] for w in ws])


@harness("C19", modes=("numpy", "jax"), configs=[dict(marg=False), dict(marg=True)], witnesses=2, rtol=1e-9, bounds="selection function with 2 injections: other points, convergence checks and hypervolumes in between", grid_cap=3)
def selection(h, cfg):
    from gwpopulation.vt import ResamplingVT
    d, raw, tot = injections(h, 2, "sym")
    a, b = dict(lam=h.real("lam", 0.5, 2)), dict(lam=h.real("lam2", 0.5, 2))
    mk = lambda: ResamplingVT(linear, {k: x for k, x in d.items()}, n_events=0.25, marginalize_uncertainty=cfg["marg"])
    one = lambda x: list(x) if isinstance(x, tuple) else [x]
    fresh = one(mk()(a))
    fe = mk().detection_efficiency(a)
    V = mk()
    live = dict(b)
    first = one(V(live))
    V.detection_efficiency(b)
    live.update(a)
    h.eq("the same dictionary with other values", one(V(live)), fresh, atol=1e-12)
    V(b)
    V.surveyed_hypervolume(b)
    h.eq("efficiency", V.detection_efficiency(a), list(fe), atol=1e-12)
    h.eq("same as a fresh selection function", one(V(a)), fresh, atol=1e-12)
    h.eq("the other point again", one(V(b)), first, atol=1e-12)


@harness("C19", modes=("numpy", "jax"), configs=[dict(cosmo="FlatLambdaCDM")], witnesses=2, rtol=1e-6, grid_cap=3,
         bounds="selection function of a redshift model with a sampled cosmology: after a point that differs in one parameter or all")
def cosmological_selection(h, cfg):
    from gwpopulation.models.redshift import PowerLawRedshift
    from gwpopulation.vt import ResamplingVT
    d, _, _ = injections(h, 1, "sym")
    d["redshift"] = h.arr([1.5])
    mk = lambda: ResamplingVT(PowerLawRedshift(z_max=2.5, cosmo_model=cfg["cosmo"]), {k: x for k, x in d.items()}, n_events=0.0)
    a, _ = cosmology(h, cfg["cosmo"])
    a["lamb"] = h.real("lamb", 0.25, 4)
    other = dict(a)
    k = h.choose("differs", len(a) + 1)
    for i, key in enumerate(sorted(a)):
        if k in (i, len(a)):
            other[key] = 1.25 * a[key]
    V = mk()
    live = dict(other)
    V(live)
    V.surveyed_hypervolume(live)
    live.update(a)          # the same dictionary or another one
    f = mk()
    p = live if h.choose("in place", 2) else dict(a)
    h.eq("efficiency", V(p), f(dict(a)), atol=1e-12)
    h.eq("hypervolume", V.surveyed_hypervolume(p), f.surveyed_hypervolume(dict(a)))


SP = [dict(params=("a_1", "a_2"), reg=False, log=False), dict(params=("mass_1",), reg=True, log=True), dict(params=("chi_eff",), reg=True, log=False)]


@harness("C19", modes=("numpy", "jax"), configs=SP, witnesses=2, rtol=1e-9, grid_cap=3, bounds="interpolated models with fixed node positions: other node values in between; 4 nodes, 2 samples")
def splines(h, cfg):
    from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical as I
    mk = lambda: I(list(cfg["params"]), 1.0, 4.0, nodes=4, log_nodes=cfg["log"], regularize=cfg["reg"])
    base = mk().base
    xs = {"%s%d" % (base, i): 1.0 + i if not cfg["log"] else 2.0 ** i / 2 + 0.5 for i in range(4)}
    if cfg["log"]:
        xs = {"%s%d" % (base, i): [1.0, 2.0, 4.0, 8.0][i] for i in range(4)}
    fs, gs = h.reals("f", 4, 0.25, 2), h.reals("g", 4, 0.25, 2)
    a = dict(xs, **{"f%s%d" % (base, i): fs[i] for i in range(4)})
    b = dict(xs, **{"f%s%d" % (base, i): gs[i] for i in range(4)})
    if cfg["reg"]:
        a["rms" + base], b["rms" + base] = h.real("rms", 0.5, 2), 1.25
    d = {k: h.arr([1.5 + j, 2.25 + j]) for j, k in enumerate(cfg["params"])}
    fresh = mk()(d, **a)
    M = mk()
    first = M(d, **b)
    first = [x for x in first]
    h.eq("same as a fresh model", M(d, **a), fresh)
    h.eq("the other point again", M(d, **b), first)


@harness("C19", modes=("numpy", "jax"), witnesses=2, rtol=1e-9, bounds="interpolated power law with smoothing: other node values and hyperparameters in between; 4 nodes, 1 sample, 4x3 grid")
def interpolated_power_law(h, cfg):
    from gwpopulation.models.mass import InterpolatedPowerlaw
    mk = lambda: InterpolatedPowerlaw(nodes=4, mmin=2, mmax=50, normalization_shape=(4, 3), kind="linear")
    xs = {"mass%d" % i: [2.5, 7.5, 22.5, 67.5][i] for i in range(4)}
    fs, gs = h.reals("f", 4, 0.25, 2), h.reals("g", 4, 0.25, 2)
    p = dict(alpha=2.0, mmin=3.0, mmax=45.0, beta=1.0, delta_m=5.0)
    a = dict(xs, **p, **{"fmass%d" % i: fs[i] for i in range(4)})
    b = dict(xs, **dict(p, alpha=3.0, mmin=4.0, delta_m=20.0, beta=2.0), **{"fmass%d" % i: gs[i] for i in range(4)})
    d = {"mass_1": h.arr([12.0, 20.0]), "mass_ratio": h.arr([0.75, 0.875])}
    fresh = mk()(d, **a)
    M = mk()
    first = [x for x in M(d, **b)]
    h.eq("same as a fresh model", M(d, **a), fresh)
    h.eq("the other point again", M(d, **b), first)


GRID = ["single", "multi", "broken", "brokenpeak", "user", "interpolated"]
# smoothed models: symbolic where the hyperparameter enters simply, else two values
SIMPLE = {"lam", "lam_1", "c"}
SECOND = dict(alpha=4, alpha_1=3, alpha_2=2, beta=2, mmin=4, mmax=45, delta_m=15, break_fraction=0.625)


@harness("C19", modes=("numpy", "jax"), configs=[dict(name=n) for n in zoo.NAMES + zoo.CLASSES if n not in GRID] + [dict(name=n, _modes=["numpy"]) for n in GRID],
         thorough=[dict(name=n, free=True) for n in GRID], witnesses=1, paths=4000, rtol=1e-9, grid_cap=3,
         bounds="every model, 2 fixed samples: two points that differ in a single hyperparameter, whichever it is (both values symbolic; for the smoothed mass models only mixing fractions are, the other hyperparameters take two fixed values), in the histories b a b and, where nothing is cached for the data, other data in between")
def one_parameter(h, cfg):
    name = cfg["name"]
    build, d, p = zoo.constant(h, name)
    ks = [k for k in p if zoo.span(k)]
    k = ks[h.choose("parameter", len(ks))]
    lo, hi = zoo.span(k)
    a, b = dict(p), dict(p)
    if name in GRID and k not in SIMPLE and not cfg.get("free"):
        a[k] = SECOND.get(k, lo + (hi - lo) / 4)
    else:
        a[k], b[k] = h.real("x_" + k, lo, hi), h.real("y_" + k, lo, hi)
        if h.sym:
            for v in (a[k], b[k]):
                v > 1, v == 1
    data = {c: h.arr(v) for c, v in d.items()}
    other = {c: h.arr(v[::-1]) for c, v in d.items()}
    fa = [x for x in build()(data, **a)]
    h.forget()
    fb = [x for x in build()(data, **b)]
    h.forget()
    M = build()
    h.eq("first evaluation", M(data, **b), fb)
    if name in zoo.NAMES or name.endswith("redshift") or name == "chi_eff_chi_p":
        M(other, **a)
    h.eq("after another value of " + k, M(data, **a), fa)
    h.eq("the first point again", M(data, **b), fb)


@harness("C19", modes=("numpy",), configs=[dict(name=n) for n in zoo.NAMES + zoo.CLASSES], witnesses=3, paths=1500, rtol=1e-10, grid_cap=3,
         bounds="every model, 2 fixed samples: two points closer than 1/64 in one hyperparameter, whichever it is (distance symbolic, down to 1e-7; for the smoothed mass models fixed distances except for mixing fractions)")
def nearby(h, cfg):
    name = cfg["name"]
    build, d, p = zoo.constant(h, name)
    ks = [k for k in p if zoo.span(k)]
    k = ks[h.choose("parameter", len(ks))]
    a, b = dict(p), dict(p)
    if name in GRID and k not in SIMPLE:
        e = 2.0 ** -(8 + 7 * h.choose("distance", 3))
        if h.sym and k in ("beta", "alpha", "alpha_1", "alpha_2"):
            e = round(1 / e)            # irrational powers are slow: a far point instead, the near one only in replays
    else:
        e = h.real("e", 1e-7, 2 ** -6, log=True)
    a[k] = p[k] + e if not (h.sym and isinstance(e, int)) else SECOND[k]
    data = {c: h.arr(v) for c, v in d.items()}
    fa = [x for x in build()(data, **a)]
    h.forget()
    fb = [x for x in build()(data, **b)]
    h.forget()
    M = build()
    h.eq("first evaluation", M(data, **b), fb)
    h.eq("after a nearby value of " + k, M(data, **a), fa)
    h.eq("the first point again", M(data, **b), fb)


@harness("C19", modes=("numpy",), configs=[dict(what=w) for w in ("hyper", "rate", "selection", "marginalised")], witnesses=3, rtol=1e-10, grid_cap=3,
         bounds="likelihood of 2 events and selection function with 3 injections and a redshift model: two points closer than 1/64 in one hyperparameter, whichever")
def nearby_likelihood(h, cfg):
    from gwpopulation import hyperpe
    from gwpopulation.models.redshift import PowerLawRedshift
    from gwpopulation.vt import ResamplingVT

    from bilby.hyper.model import Model

    def pop(dataset, lam, mu):
        return dataset["w"] ** 2 * lam + mu
    a = dict(lam=1.25, mu=0.5, lamb=2.0, rate=1.5)
    k = list(a)[h.choose("parameter", 4)]
    b = dict(a)
    a[k] = a[k] + h.real("e", 1e-7, 2 ** -6, log=True)
    inj = dict(w=h.arr([0.75, 1.0, 1.5]), redshift=h.arr([0.25, 0.5, 1.0]), prior=h.arr([0.5, 1.0, 0.75]), total_generated=10)
    frames = lambda: [frame(h, dict(w=[0.5 + i, 1.5, 0.875], redshift=[0.25, 0.5, 0.75], prior=[1.0, 0.5, 2.0])) for i in range(2)]

    def build():
        vt = ResamplingVT([pop, PowerLawRedshift(z_max=2.0)], dict(inj), n_events=0.125, marginalize_uncertainty=cfg["what"] == "marginalised")
        if cfg["what"] in ("selection", "marginalised"):
            return lambda p: [*(vt(p) if cfg["what"] == "selection" else [vt(p)]), *vt.detection_efficiency(p), vt.surveyed_hypervolume(p)]
        with seeded(h):
            like = (hyperpe.RateLikelihood if cfg["what"] == "rate" else hyperpe.HyperparameterLikelihood)(frames(), Model([pop, PowerLawRedshift(z_max=2.0)]), selection_function=vt)
        return lambda p: [like.log_likelihood_ratio(dict(p)), *like.ln_likelihood_and_variance(dict(p))]
    fa = build()(a)
    h.forget()
    fb = build()(b)
    h.forget()
    L = build()
    h.eq("first evaluation", L(b), fb, atol=1e-13)
    h.eq("after a nearby value of " + k, L(a), fa, atol=1e-13)
    h.eq("the first point again", L(b), fb, atol=1e-13)


@harness("C19", modes=("numpy", "jax"), configs=[dict(name=n) for n in zoo.NAMES + ["chi_eff_chi_p", "powerlaw_redshift", "madau_redshift", "single", "user"]], witnesses=1, paths=2000, rtol=1e-9, grid_cap=3,
         bounds="every model that keeps nothing for its data (mass models with caching off): the arrays in one and the same dictionary of samples are replaced between evaluations, by arrays of the same or another length; the replaced sample symbolic (fixed for the smoothed models, with one hyperparameter symbolic)")
def replaced(h, cfg):
    name = cfg["name"]
    build, d, p = zoo.constant(h, name)
    if name in GRID:
        cls = type(build())
        build = lambda: cls(mmin=2, mmax=50, normalization_shape=(4, 3), cache=False)
        p["lam" if name == "single" else "c"] = h.real("x", 0.25, 0.75)
        new = {c: [v[1] * 1.25] for c, v in d.items()}
    else:
        new = zoo.samples(h, d)
        zoo.regular(h, new, p)
    n = 1 + h.choose("length", 2)
    fresh = [x for x in build()({c: h.arr(v) for c, v in new.items()}, **p)]
    h.forget()
    data = {c: h.arr(v[:n]) for c, v in d.items()}
    M = build()
    first = [x for x in M(data, **p)]
    for c in data:
        data[c] = h.arr(new[c])
    h.eq("the new samples", M(data, **p), fresh)
    for c in data:
        data[c] = h.arr(d[c][:n])
    h.eq("the first samples again", M(data, **p), first)
