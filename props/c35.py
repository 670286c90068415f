"""Models combined in a population receive exactly the hyperparameters they declare."""
from .common import harness
from . import zoo

JUNK = dict(lam_99=3.0, other=7.0, fnothing0=2.0, H0x=1.0)
PAIRS = [("two_component_primary_mass_ratio", "iid_spin"), ("double_power_law_primary_power_law_mass_ratio", "gaussian_chi_eff"), ("power_law_primary_secondary_identical", "independent_spin_orientation"), ("power_law_primary_secondary_independent", "powerlaw_redshift"),
         ("two_component_primary_secondary_independent", "gaussian_chi_p"), ("two_component_primary_secondary_identical", "chi_eff_chi_p"), ("power_law_primary_mass_ratio", "independent_spin_magnitude_beta"), ("iid_spin_magnitude_beta", "iid_spin_orientation"),
         ("spline_magnitude", "spline_tilt"), ("user", "iid_spin"), ("single", "powerlaw_redshift"), ("multi", "madau_redshift"), ("broken", "spline_tilt"), ("brokenpeak", "chi_eff_chi_p"), ("interpolated", "madau_redshift")]
SLOW = {"single", "multi", "broken", "brokenpeak", "user", "interpolated"}


def needed(h, name):
    build, d, p = zoo.constant(h, name)
    if name in ("single", "multi", "brokenpeak"):
        p.pop("gaussian_mass_maximum", None)
    return build, d, p


@harness("C35", modes=("numpy", "jax"), configs=[dict(pair=p) for p in PAIRS[:4]] + [dict(pair=p, _modes=["numpy"]) for p in PAIRS[4:]], witnesses=1, rtol=1e-9, grid_cap=3, paths=2000,
         bounds="pairs of models that together contain every model, in a bilby Model with and without caching, with all their hyperparameters and unrelated ones given in one dictionary; 2 fixed samples, one hyperparameter, whichever, symbolic")
def composed(h, cfg):
    from bilby.hyper.model import Model
    from gwpopulation.experimental.cosmo_models import CosmoModel
    from gwpopulation.models import mass, spin
    fs, data, own = [], {}, []
    for i, name in enumerate(cfg["pair"]):
        build, d, p = needed(h, name)
        data.update(d)
        own.append((name, p))
    both = {}
    for _, p in own:
        both.update(p)
    ks = [k for name, p in own for k in p if zoo.span(k) and (name not in SLOW or k in ("lam", "lam_1", "c", "fmass1"))]
    k = ks[h.choose("free", len(ks))]
    both[k] = h.real("x_" + k, *zoo.span(k))
    if h.sym:
        both[k] > 1, both[k] == 1
    dd = {k: h.arr(v) for k, v in data.items()}
    want = None
    for name, p in own:
        v = zoo.constant(h, name)[0]()(dd, **{k: both[k] for k in p})
        want = v if want is None else want * v
    h.forget()
    alias = dict(iid_spin_orientation=spin.iid_spin_orientation_gaussian_isotropic, independent_spin_orientation=spin.independent_spin_orientation_gaussian_isotropic)
    for name, p in own:
        fs.append(alias.get(name) or getattr(mass, name, None) or getattr(spin, name, None) or zoo.constant(h, name)[0]())
    kind = h.choose("kind", 3)
    if kind == 2:
        m = CosmoModel(list(fs))
        dd["redshift"] = dd["redshift"] if "redshift" in dd else h.arr([0.5, 1.25])
    else:
        m = Model(list(fs), cache=bool(kind))
    h.eq("product of the components", m.prob(dd, **both, **JUNK), want)
    h.eq("again", m.prob(dd, **both, **JUNK), want)


@harness("C35", modes=("numpy", "jax"), witnesses=1, rtol=1e-9, paths=2000,
         bounds="one callable primary-mass model that declares its parameters, used in a smoothed model and on its own in the same population; the declared names read any number of times; 1 sample, shape parameter symbolic")
def shared_component(h, cfg):
    from bilby.hyper.model import Model
    from gwpopulation.models.mass import BaseSmoothedMassDistribution

    class Line:
        variable_names = ["c", "mmin"]

        def __call__(self, mass, c, mmin):
            return c + mass / mmin

    class Single:
        def __init__(self, names):
            self.variable_names = names

        def __call__(self, dataset, **kwargs):
            return Line()(dataset["mass_2"], **kwargs)

    class Smooth(BaseSmoothedMassDistribution):
        primary_model = Line()
    par = dict(c=h.real("c", 0.5, 2), mmin=5.0, beta=1.0, delta_m=4.0)
    data = {"mass_1": h.arr([20.0]), "mass_ratio": h.arr([0.75]), "mass_2": h.arr([15.0])}
    kw = dict(mmin=2, mmax=50, normalization_shape=(4, 3))
    smooth = Smooth(**kw)
    for _ in range(h.choose("reads", 3)):
        h.true("parameters of the smoothed model", set(smooth.variable_names) == {"c", "mmin", "beta", "delta_m"}, str(smooth.variable_names))
    want = [h.O(v) * (h.O(par["c"]) + 3) for v in Smooth(**kw)(data, **par)]
    m = Model([smooth, Single(Line.variable_names)], cache=False)
    h.eq("product of the components", m.prob(data, **par, **JUNK), want)
    h.true("the declared names are unchanged", Line.variable_names == ["c", "mmin"], str(Line.variable_names))


def variants():
    """(builder, declared hyperparameters) of models that share a class or a base class"""
    from gwpopulation.models import mass as M, redshift as R, spin as S
    from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical as I
    cos = dict(Planck15=[], FlatLambdaCDM=["H0", "Om0"], FlatwCDM=["H0", "Om0", "w0"])
    out = []
    for cls, own in ((R.PowerLawRedshift, ["lamb"]), (R.MadauDickinsonRedshift, ["gamma", "kappa", "z_peak"])):
        for c, n in cos.items():
            out.append((lambda cls=cls, c=c: cls(cosmo_model=c), own + n))
    nodes = lambda b, n, r: [k + b + str(i) for k in ("", "f") for i in range(n)] + (["rms" + b] if r else [])
    for n, r in ((4, False), (4, True), (5, False)):
        out.append((lambda n=n, r=r: S.SplineSpinMagnitudeIdentical(nodes=n, regularize=r), nodes("a", n, r)))
        out.append((lambda n=n, r=r: S.SplineSpinTiltIdentical(nodes=n, regularize=r), nodes("cos_tilt", n, r)))
        out.append((lambda n=n, r=r: I(["mass_1"], 1, 4, nodes=n, regularize=r), nodes("mass", n, r)))
        out.append((lambda n=n, r=r: M.InterpolatedPowerlaw(nodes=n, regularize=r, normalization_shape=(4, 3)), nodes("mass", n, r) + ["alpha", "beta", "mmin", "mmax", "delta_m"]))
    pl = ["beta", "delta_m", "mmin", "mmax"]
    out.append((lambda: M.SinglePeakSmoothedMassDistribution(normalization_shape=(4, 3)), pl + ["alpha", "lam", "mpp", "sigpp"]))
    out.append((lambda: M.MultiPeakSmoothedMassDistribution(normalization_shape=(4, 3)), pl + ["alpha", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2"]))
    out.append((lambda: M.BrokenPowerLawSmoothedMassDistribution(normalization_shape=(4, 3)), pl + ["alpha_1", "alpha_2", "break_fraction"]))
    out.append((lambda: M.BrokenPowerLawPeakSmoothedMassDistribution(normalization_shape=(4, 3)), pl + ["alpha_1", "alpha_2", "break_fraction", "lam", "mpp", "sigpp"]))
    return out


@harness("C35", modes=("numpy",), witnesses=1, paths=2000, grid_cap=3, configs=[dict(first=i) for i in range(22)],
         bounds="declared hyperparameters of 22 variants (cosmology, number of nodes, regularisation) after any other one was built and asked, and again afterwards")
def declared(h, cfg):
    v = variants()
    a, na = v[cfg["first"]]
    b, nb = v[h.choose("second", len(v))]
    A = a()
    h.true("names", sorted(A.variable_names) == sorted(na), str(A.variable_names))
    B = b()
    h.true("names after another model", sorted(B.variable_names) == sorted(nb), "%s after %s" % (sorted(B.variable_names), type(A).__name__))
    h.true("names again", sorted(A.variable_names) == sorted(na) and sorted(B.variable_names) == sorted(nb), str(A.variable_names))
    h.true("names of a new model", sorted(a().variable_names) == sorted(na), str(A.variable_names))
