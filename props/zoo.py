"""One evaluation of every public model: (name, builder of the callable, data, hyperparameters)."""
from .smooth import Values, hyper
from .lik import Rand, affine, conv, frame, seeded  # noqa: F401

TWO = dict(mass_1=(3, 70), mass_2=(3, 70), mass_ratio=(0.05, 1.2), a_1=(0.01, 0.99), a_2=(0.01, 0.99), cos_tilt_1=(-0.99, 0.99), cos_tilt_2=(-0.99, 0.99),
           chi_eff=(-0.99, 0.99), chi_p=(0.01, 0.99), redshift=(0.05, 3))


def samples(h, names, n=1):
    return {k: h.reals(k + "_", n, *TWO[k]) for k in names}


def regular(h, d, par):
    """keep away from the excluded points (see DESIGN.md)"""
    if "mmin" in par:
        for k in ("mass_1", "mass_2"):
            for v in d.get(k, []):
                h.assume(v != par["mmin"])
        for j, v in enumerate(d.get("mass_ratio", [])):
            h.assume(v * d["mass_1"][j] != par["mmin"])
    for k in ("a_1", "a_2"):
        for v in d.get(k, []):
            h.assume(v != 0.75)


def models():
    from gwpopulation.models import mass as M, spin as S
    bpl = dict(alpha_1=2.5, alpha_2=4.0, mmin=5.0, mmax=40.0, break_fraction=0.25)
    pl = dict(alpha=2.5, mmin=5.0, mmax=40.0)
    pk = dict(lam=0.25, mpp=30.0, sigpp=4.0)
    m = lambda f: (lambda d, **k: f(d["mass_1"], **k))
    out = {}

    def add(name, f, data, par, free):
        out[name] = (f, data, par, free)
    add("power_law_mass", m(M.power_law_mass), ["mass_1"], pl, ["alpha", "mmin"])
    add("double_power_law_primary_mass", m(M.double_power_law_primary_mass), ["mass_1"], bpl, ["break_fraction"])
    add("double_power_law_peak_primary_mass", m(M.double_power_law_peak_primary_mass), ["mass_1"], dict(bpl, **pk), ["lam"])
    add("double_power_law_primary_power_law_mass_ratio", M.double_power_law_primary_power_law_mass_ratio, ["mass_1", "mass_ratio"], dict(bpl, beta=1.0), [])
    add("power_law_primary_mass_ratio", M.power_law_primary_mass_ratio, ["mass_1", "mass_ratio"], dict(pl, beta=1.0), ["mmax"])
    add("power_law_primary_secondary_independent", M.power_law_primary_secondary_independent, ["mass_1", "mass_2"], dict(pl, beta=1.0), ["alpha"])
    add("power_law_primary_secondary_identical", M.power_law_primary_secondary_identical, ["mass_1", "mass_2"], pl, ["alpha"])
    add("two_component_single", m(M.two_component_single), ["mass_1"], dict(pl, **pk), ["lam", "mpp"])
    add("three_component_single", m(M.three_component_single), ["mass_1"], dict(pl, lam=0.25, lam_1=0.75, mpp_1=10.0, sigpp_1=3.0, mpp_2=30.0, sigpp_2=4.0), ["lam_1"])
    add("two_component_primary_mass_ratio", M.two_component_primary_mass_ratio, ["mass_1", "mass_ratio"], dict(pl, beta=1.0, **pk), ["lam"])
    add("two_component_primary_secondary_independent", M.two_component_primary_secondary_independent, ["mass_1", "mass_2"], dict(pl, beta=1.0, **pk), ["lam"])
    add("two_component_primary_secondary_identical", M.two_component_primary_secondary_identical, ["mass_1", "mass_2"], dict(pl, **pk), ["lam"])
    sp = ["a_1", "a_2"]
    ct = ["cos_tilt_1", "cos_tilt_2"]
    add("iid_spin", S.iid_spin, sp + ct, dict(xi_spin=0.5, sigma_spin=0.75, amax=1, alpha_chi=2.0, beta_chi=3.0), ["xi_spin"])
    add("iid_spin_magnitude_beta", S.iid_spin_magnitude_beta, sp, dict(amax=1, alpha_chi=2.0, beta_chi=3.0), [])
    add("independent_spin_magnitude_beta", S.independent_spin_magnitude_beta, sp, dict(alpha_chi_1=2.0, alpha_chi_2=1.5, beta_chi_1=3.0, beta_chi_2=2.0, amax_1=1, amax_2=0.75), [])
    add("iid_spin_orientation", S.iid_spin_orientation_gaussian_isotropic, ct, dict(xi_spin=0.5, sigma_spin=0.75), ["xi_spin", "mu_spin"])
    add("independent_spin_orientation", S.independent_spin_orientation_gaussian_isotropic, ct, dict(xi_spin=0.5, sigma_1=0.75, sigma_2=1.5), ["xi_spin"])
    add("gaussian_chi_eff", S.gaussian_chi_eff, ["chi_eff"], dict(mu_chi_eff=0.25, sigma_chi_eff=0.5), ["mu_chi_eff"])
    add("gaussian_chi_p", S.gaussian_chi_p, ["chi_p"], dict(mu_chi_p=0.25, sigma_chi_p=0.5), ["mu_chi_p"])
    return out


# every hyperparameter of every model, for histories in which one of them changes
ALL = dict(alpha=(1.5, 4), alpha_1=(1.5, 4), alpha_2=(1.5, 4), beta=(0.5, 3), mmin=(4.25, 6), mmax=(35, 45), break_fraction=(0.4, 0.6), lam=(0.1, 0.9), lam_1=(0.1, 0.9), mpp=(25, 35), mpp_1=(8, 12), mpp_2=(25, 35),
           sigpp=(2, 6), sigpp_1=(2, 6), sigpp_2=(2, 6), delta_m=(14, 19), c=(0.5, 2), xi_spin=(0.1, 0.9), sigma_spin=(0.5, 2), mu_spin=(-0.5, 0.9), sigma_1=(0.5, 2), sigma_2=(0.5, 2), mu_1=(-0.5, 0.9), mu_2=(-0.5, 0.9),
           amax=(0.995, 1.25), amax_1=(0.995, 1.25), amax_2=(0.995, 1.25), alpha_chi=(1, 4), beta_chi=(1, 4), alpha_chi_1=(1, 4), alpha_chi_2=(1, 4), beta_chi_1=(1, 4), beta_chi_2=(1, 4),
           mu_chi_eff=(-0.5, 0.5), sigma_chi_eff=(0.2, 1), mu_chi_p=(0.1, 0.6), sigma_chi_p=(0.2, 1), spin_covariance=(-0.8, 0.8), lamb=(-2, 4), gamma=(1, 4), kappa=(4, 8), z_peak=(1, 3), H0=(50, 90), Om0=(0.1, 0.5), w0=(-1.5, -0.6))
OPTIONAL = dict(gaussian_mass_maximum=(60, 90))
RANGES = dict(alpha=(1.5, 4), mmin=(3, 8), mmax=(30, 50), break_fraction=(0.1, 0.9), lam=(0, 1), lam_1=(0, 1), mpp=(10, 40), xi_spin=(0, 1), mu_spin=(-1, 1), mu_chi_eff=(-1, 1), mu_chi_p=(0, 1))
CLASSES = ["single", "multi", "broken", "brokenpeak", "user", "interpolated", "spline_magnitude", "spline_tilt", "chi_eff_chi_p", "powerlaw_redshift", "madau_redshift"]
NAMES = ["power_law_mass", "double_power_law_primary_mass", "double_power_law_peak_primary_mass", "double_power_law_primary_power_law_mass_ratio", "power_law_primary_mass_ratio",
         "power_law_primary_secondary_independent", "power_law_primary_secondary_identical", "two_component_single", "three_component_single", "two_component_primary_mass_ratio",
         "two_component_primary_secondary_independent", "two_component_primary_secondary_identical", "iid_spin", "iid_spin_magnitude_beta", "independent_spin_magnitude_beta",
         "iid_spin_orientation", "independent_spin_orientation", "gaussian_chi_eff", "gaussian_chi_p"]


def case(h, name, n=1):
    """-> (builder, data as lists, parameters); the builder is called under the backend to be used"""
    if name in NAMES:
        f, data, par, free = models()[name]
        par = dict(par)
        for k in free:
            par[k] = h.real(k, *RANGES[k])
            if k == "alpha" and h.sym:
                par[k] > 1, par[k] == 1
        d = samples(h, data, n)
        regular(h, d, par)
        return (lambda: models()[name][0]), d, par
    from gwpopulation.models import mass as M, redshift as R, spin as S
    if name in ("single", "multi", "broken", "brokenpeak", "user"):
        v = Values(h, {"single": "lam", "multi": "lam_1", "broken": "", "brokenpeak": "lam", "user": "c"}[name])
        cls, p, _ = hyper(h, name, 50, v)
        p = {k: (x if h.sym else float(x)) for k, x in p.items()}
        return (lambda: cls(mmin=2, mmax=50, normalization_shape=(4, 3))), {"mass_1": [18.0, 30.0][:n], "mass_ratio": [0.75, 0.875][:n]}, dict(p, beta=1.5, delta_m=h.real("delta_m", 0.1, 30))
    if name == "interpolated":
        fs = h.reals("f", 4, -2, 2)
        p = dict(alpha=2.0, mmin=3.0, mmax=45.0, beta=1.0, delta_m=5.0, **{"mass%d" % i: 2.5 * 3 ** i for i in range(4)}, **{"fmass%d" % i: fs[i] for i in range(4)})
        return (lambda: M.InterpolatedPowerlaw(nodes=4, mmin=2, mmax=50, normalization_shape=(4, 3))), {"mass_1": [12.0, 20.0][:n], "mass_ratio": [0.75, 0.875][:n]}, p
    if name.startswith("spline"):
        base = "a" if name.endswith("magnitude") else "cos_tilt"
        fs = h.reals("f", 4, -2, 2)
        p = dict({"%s%d" % (base, i): 0.25 * i for i in range(4)}, **{"f%s%d" % (base, i): fs[i] for i in range(4)})
        p["rms" + base] = 1.5
        h.assume(sum(f * f for f in fs) > 0)
        cls = S.SplineSpinMagnitudeIdentical if base == "a" else S.SplineSpinTiltIdentical
        return (lambda: cls(nodes=4, regularize=True)), samples(h, [base + "_1", base + "_2"], n), p
    if name == "chi_eff_chi_p":
        p = dict(mu_chi_eff=0.25, sigma_chi_eff=0.5, mu_chi_p=0.25, sigma_chi_p=0.5, spin_covariance=h.real("rho", -0.9, 0.9))
        return (lambda: S.GaussianChiEffChiP()), samples(h, ["chi_eff", "chi_p"], n), p
    if name == "powerlaw_redshift":
        return (lambda: R.PowerLawRedshift(z_max=2.3, cosmo_model="FlatwCDM")), samples(h, ["redshift"], n), dict(lamb=h.real("lamb", -2, 4), H0=70.0, Om0=0.3, w0=-1.0)
    if name == "madau_redshift":
        return (lambda: R.MadauDickinsonRedshift(z_max=2.3)), samples(h, ["redshift"], n), dict(gamma=2.5, kappa=5.5, z_peak=1.75)
    raise KeyError(name)


FIXED = dict(mass_1=[18.0, 30.0], mass_2=[10.0, 20.0], mass_ratio=[0.75, 0.875], a_1=[0.25, 0.625], a_2=[0.5, 0.125], cos_tilt_1=[0.25, -0.5], cos_tilt_2=[0.75, -0.125],
             chi_eff=[0.125, -0.25], chi_p=[0.25, 0.5], redshift=[0.5, 1.25])


def constant(h, name):
    """-> (builder, data, constant parameters) with every optional parameter given"""
    from gwpopulation.models import mass as M, redshift as R, spin as S
    if name in NAMES:
        f, data, par, _ = models()[name]
        par = dict(par)
        if name == "iid_spin_orientation":
            par["mu_spin"] = 0.5
        if name == "independent_spin_orientation":
            par.update(mu_1=0.5, mu_2=0.25)
        if "sigpp" in par or "sigpp_1" in par:
            par["gaussian_mass_maximum"] = 80.0
        return (lambda: models()[name][0]), {k: FIXED[k] for k in data}, par
    if name in ("single", "multi", "broken", "brokenpeak", "user"):
        cls, p, _ = hyper(h, name, 50, Values(h, ""))
        p = {k: (x if h.sym else float(x)) for k, x in p.items()}
        return (lambda: cls(mmin=2, mmax=50, normalization_shape=(4, 3))), {k: FIXED[k] for k in ("mass_1", "mass_ratio")}, dict(p, beta=1.0, delta_m=5.0)
    if name == "interpolated":
        p = dict(alpha=2.0, mmin=5.0, mmax=40.0, beta=1.0, delta_m=5.0, **{"mass%d" % i: 2.5 * 3 ** i for i in range(4)}, **{"fmass%d" % i: 0.25 * i for i in range(4)})
        return (lambda: M.InterpolatedPowerlaw(nodes=4, mmin=2, mmax=50, normalization_shape=(4, 3))), {k: FIXED[k] for k in ("mass_1", "mass_ratio")}, p
    if name.startswith("spline"):
        base = "a" if name.endswith("magnitude") else "cos_tilt"
        p = dict({"%s%d" % (base, i): 0.25 * i for i in range(4)}, **{"f%s%d" % (base, i): 0.5 + 0.25 * i for i in range(4)})
        p["rms" + base] = 1.5
        cls = S.SplineSpinMagnitudeIdentical if base == "a" else S.SplineSpinTiltIdentical
        return (lambda: cls(nodes=4, regularize=True)), {k: FIXED[k] for k in (base + "_1", base + "_2")}, p
    if name == "chi_eff_chi_p":
        return (lambda: S.GaussianChiEffChiP()), {k: FIXED[k] for k in ("chi_eff", "chi_p")}, dict(mu_chi_eff=0.25, sigma_chi_eff=0.5, mu_chi_p=0.25, sigma_chi_p=0.5, spin_covariance=0.25)
    if name == "powerlaw_redshift":
        return (lambda: R.PowerLawRedshift(z_max=2.3, cosmo_model="FlatwCDM")), {"redshift": FIXED["redshift"]}, dict(lamb=2.0, H0=70.0, Om0=0.3, w0=-1.0)
    return (lambda: R.MadauDickinsonRedshift(z_max=2.3, cosmo_model="FlatLambdaCDM")), {"redshift": FIXED["redshift"]}, dict(gamma=2.0, kappa=4.0, z_peak=1.75, H0=70.0, Om0=0.3)


def span(key):
    if key in ALL:
        return ALL[key]
    if key in OPTIONAL:
        return OPTIONAL[key]
    if key.startswith("rms"):
        return (0.5, 2)
    if key.startswith("f"):
        return (-2, 2)
    return None          # node positions stay fixed
