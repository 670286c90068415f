"""Hyperparameters outside their domain."""
from .common import harness, o_beta, o_powerlaw, o_truncnorm
from .smooth import Values, hyper
from . import zoo

GUARDS = ["alpha", "beta", "scale", "sigma", "low"]


def call(U, x, p, which, v):
    """density with parameter `which` set to v, everything by keyword"""
    if which in ("alpha", "beta", "scale"):
        kw = dict(alpha=2.0, beta=1.5, scale=1.0)
        kw[which] = v
        return U.beta_dist(x, **kw), lambda h, y, w: o_beta(h, y, *[w if k == which else kw[k] for k in ("alpha", "beta", "scale")])
    if which == "sigma":
        return U.truncnorm(x, mu=0.25, sigma=v, high=1.0, low=-0.5), lambda h, y, w: o_truncnorm(h, y, 0.25, w, 1.0, -0.5)
    return U.powerlaw(x, alpha=p, high=3.0, low=v), lambda h, y, w: o_powerlaw(h, y, p, 3.0, w)


@harness("C28", modes=("numpy", "cupy"), configs=[dict(which=w, array=a) for w in GUARDS for a in (False, True)], witnesses=4, paths=1500,
         bounds="density functions with one keyword (scalar or 2 elements) in -5..5, everything else fixed; 1 or 2 samples")
def guards(h, cfg):
    from gwpopulation import utils as U
    w, n = cfg["which"], 2 if cfg["array"] else 1
    v = h.reals("v", n, -5, 5, pts=(0,))
    xs = h.reals("x", n, 0.05, 0.9)
    given = h.arr(v) if cfg["array"] else h.npf(v[0])
    bad = False
    for t in v:
        if h.O(t) < 0 or (w != "low" and h.O(t) == 0):
            bad = True
    if bad:
        h.raises("%s outside its domain" % w, ValueError, lambda: call(U, h.arr(xs), 2.0, w, given))
        return
    for t, x in zip(v, xs):
        if w == "scale":
            h.assume(t != x)
        if w == "low":
            h.assume(t != 3)
    got, want = call(U, h.arr(xs), 2.0, w, given)
    h.eq("%s inside its domain" % w, got, [want(h, x, t) for x, t in zip(xs, v)])


@harness("C28", modes=("numpy", "jax", "cupy"), configs=[dict(which=w) for w in ("alpha", "beta", "scale", "sigma")], witnesses=4, paths=1500,
         bounds="positional (or unguarded) non-positive beta shapes and scales and Gaussian widths in -5..0: exactly zero")
def zero(h, cfg):
    from gwpopulation import utils as U
    w = cfg["which"]
    v = h.real("v", -5, 0, pts=(0,))
    xs = h.reals("x", 2, -1, 2)
    for x in xs:
        h.assume(x != 0)
        h.assume(x != 1)
    if w == "sigma":
        got = U.truncnorm(h.arr(xs), 0.25, h.npf(v), 1.0, -0.5)
    else:
        kw = dict(alpha=2.0, beta=1.5, scale=1.0)
        kw[w] = h.npf(v)
        got = U.beta_dist(h.arr(xs), kw["alpha"], kw["beta"], kw["scale"])
    h.eq("zero density", got, [0, 0])


@harness("C28", modes=("numpy", "jax"), witnesses=4, paths=1500, bounds="lower limit above the upper limit, 2 samples, |index|<=5")
def order(h, cfg):
    from gwpopulation import utils as U
    hi = h.real("high", 0.5, 5)
    lo = hi + h.real("gap", 0.01, 5)
    xs = h.reals("x", 2, 0.1, 12)
    a = h.real("alpha", -5, 5, pts=(-1,))
    h.eq("power law", U.powerlaw(h.arr(xs), a, hi, lo), [0, 0])
    h.eq("truncated normal", U.truncnorm(h.arr(xs), a, h.real("sigma", 0.1, 5), hi, lo), [0, 0])


MODELS = [("two_component_single", "sigpp"), ("two_component_single", "mmin"), ("three_component_single", "sigpp_1"), ("three_component_single", "sigpp_2"), ("three_component_single", "mmin"),
          ("double_power_law_peak_primary_mass", "sigpp"), ("double_power_law_peak_primary_mass", "mmin"), ("double_power_law_primary_mass", "mmin"), ("power_law_mass", "mmin"),
          ("power_law_primary_mass_ratio", "mmin"), ("power_law_primary_secondary_independent", "mmin"), ("power_law_primary_secondary_identical", "mmin"),
          ("two_component_primary_mass_ratio", "sigpp"), ("two_component_primary_secondary_independent", "sigpp"), ("two_component_primary_secondary_identical", "sigpp"),
          ("gaussian_chi_eff", "sigma_chi_eff"), ("gaussian_chi_p", "sigma_chi_p"), ("independent_spin_magnitude_beta", "amax_1"), ("independent_spin_magnitude_beta", "amax_2"),
          ("iid_spin_magnitude_beta", "amax"), ("iid_spin", "amax")]


@harness("C28", modes=("numpy", "cupy"), configs=[dict(model=m, key=k) for m, k in MODELS], witnesses=3, paths=1500, grid_cap=3,
         bounds="mass, effective-spin and spin-magnitude models with one hyperparameter in -5..5: an error outside its domain and none inside")
def models(h, cfg):
    build, d, par = zoo.case(h, cfg["model"])
    k = cfg["key"]
    v = h.real("value", -5, 5, pts=(0,))
    if k == "mmin":
        h.assume(v != 0)
    par = dict(par)
    par[k] = h.npf(v)
    f = build()
    data = {a: h.arr(b) for a, b in d.items()}
    if h.O(v) < 0 or (k != "mmin" and h.O(v) == 0):
        h.raises("%s outside its domain" % k, ValueError, f, data, **par)
    else:
        f(data, **par)
        h.true("%s inside its domain" % k, True)


SPIN = ["alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2"]


@harness("C28", modes=("numpy", "jax"), configs=[dict(key=k) for k in SPIN + ["alpha_chi", "beta_chi"]], witnesses=3, paths=1500,
         bounds="spin-magnitude models with one shape parameter in -5..0: exactly zero")
def spins(h, cfg):
    from gwpopulation.models import spin as S
    k = cfg["key"]
    data = {a: h.arr(b) for a, b in zoo.samples(h, ["a_1", "a_2"]).items()}
    v = h.npf(h.real("value", -5, 0, pts=(0,)))
    if k in SPIN:
        par = dict(alpha_chi_1=2.0, alpha_chi_2=1.5, beta_chi_1=3.0, beta_chi_2=2.0, amax_1=1, amax_2=1)
        par[k] = v
        got = S.independent_spin_magnitude_beta(data, **par)
    else:
        par = dict(amax=1, alpha_chi=2.0, beta_chi=3.0)
        par[k] = v
        got = S.iid_spin_magnitude_beta(data, **par)
    h.eq("zero density", got, [0])


@harness("C28", modes=("numpy", "cupy"), configs=[dict(name=n, key=k, cache=c) for n in ("single", "multi", "broken", "brokenpeak", "interpolated") for k in ("mmin", "mmax") for c in (True, False) if c or n == "single"],
         witnesses=3, paths=3000, grid_cap=3, bounds="smoothed models built for 2..50 with one mass limit symbolic (1..10 or 40..60); 4x3 grids, fixed sample")
def smoothed(h, cfg):
    from gwpopulation.models import mass as M
    if cfg["name"] == "interpolated":
        p = dict(alpha=2.0, mmin=3.0, mmax=45.0, **{"mass%d" % i: 2.5 * 3 ** i for i in range(4)}, **{"fmass%d" % i: 0.25 * i for i in range(4)})
        build = lambda: M.InterpolatedPowerlaw(nodes=4, mmin=2, mmax=50, normalization_shape=(4, 3))
    else:
        cls, p, _ = hyper(h, cfg["name"], 50, Values(h, ""))
        build = lambda: cls(mmin=2, mmax=50, normalization_shape=(4, 3), cache=cfg["cache"])
    p = {k: (x if h.sym else float(x)) for k, x in p.items()}
    v = h.real("value", *((1, 10) if cfg["key"] == "mmin" else (40, 60)), pts=(2, 50))
    p[cfg["key"]] = v
    for m in (2, 18):
        h.assume(v != m)
    f = build()
    data = {"mass_1": h.arr([18.0]), "mass_ratio": h.arr([0.75])}
    inside = h.O(v) >= 2 if cfg["key"] == "mmin" else h.O(v) <= 50
    for par in (dict(p, beta=1.5, delta_m=5.0), dict(p, beta=1.5, delta_m=0)):
        if inside:
            f(data, **par)
            h.true("limits within the range", True)
        else:
            h.raises("limits outside the range", ValueError, f, data, **par)


@harness("C28", modes=("numpy", "jax", "cupy"), configs=[dict(kind=k) for k in ("operator", "callable", "both")], witnesses=3,
         bounds="a user's function with conditions on two arguments (a comparison, a callable or one of each) in -5..5")
def declared(h, cfg):
    import operator
    from gwpopulation.utils import apply_conditions
    first = (operator.ge, 1) if cfg["kind"] != "callable" else (lambda v: v >= 1)
    second = (operator.lt, 2) if cfg["kind"] == "operator" else (lambda v: v < 2)

    @apply_conditions(dict(a=first, b=second))
    def f(x, a=3, b=1):
        """the documentation"""
        return x * a + b
    x, a, b = h.real("x", -5, 5), h.real("a", -5, 5), h.real("b", -5, 5)
    h.true("name kept", f.__name__ == "f")
    h.eq("defaults", f(x), h.O(x) * 3 + 1)
    bad = h.O(a) < 1 or not h.O(b) < 2
    if bad and h.mode != "jax":
        h.raises("outside the conditions", ValueError, lambda: f(x, a=a, b=b))
    else:
        h.eq("inside the conditions", f(x, a=a, b=b), h.O(x) * h.O(a) + h.O(b))
    h.eq("positional arguments are not tested", f(x, a, b), h.O(x) * h.O(a) + h.O(b))
