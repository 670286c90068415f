"""Parametric (unsmoothed) mass models."""
from .common import NUM, harness, o_powerlaw, o_truncnorm


def lims(h):
    mmin = h.real("mmin", 0.1, 50, log=True)
    mmax = mmin + h.real("dm", 2, 500, log=True)
    return mmin, mmax


def peak(h, s=""):
    return dict([("mpp" + s, h.real("mpp" + s, -50, 200)), ("sigpp" + s, h.real("sigpp" + s, 0.25, 100, log=True))])


def o_two(h, m, alpha, mmin, mmax, lam, mpp, sigpp, gaussian_mass_maximum=100):
    o = h.ops
    lam = o.of(lam)
    return (1 - lam) * o_powerlaw(h, m, -alpha, mmax, mmin) + lam * o_truncnorm(h, m, mpp, sigpp, gaussian_mass_maximum, mmin)


def alpha_(h, name="alpha"):
    return h.real(name, -10, 12, pts=[1, 0, -1, 2])


@harness("C16", modes=("numpy", "jax"), rtol=NUM, configs=[{"n": 1}, {"n": 2}], witnesses=3, bounds="power-law mass: alpha in [-10,12], 0.1<=mmin<=50, width 2..500, masses 0.05..800; peaks at -50..200 of width 0.25..100")
def single_power_law(h, cfg):
    from gwpopulation.models.mass import power_law_mass
    mmin, mmax = lims(h)
    al = alpha_(h)
    ms = h.reals("m", cfg["n"], 0.05, 800, log=True)
    h.eq("power law", power_law_mass(h.arr(ms), al, mmin, mmax), [o_powerlaw(h, m, -al, mmax, mmin) for m in ms])


@harness("C16", modes=("numpy", "jax"), rtol=NUM, configs=[{"gmax": False}, {"gmax": True}], witnesses=2, paths=1500, bounds="power law plus peak, 1 sample, lam in [0,1]")
def two_component(h, cfg):
    from gwpopulation.models.mass import two_component_single
    mmin, mmax = lims(h)
    p = dict(alpha=alpha_(h), mmin=mmin, mmax=mmax, lam=h.real("lam", 0, 1, pts=[0, 1]), **peak(h))
    if cfg["gmax"]:
        p["gaussian_mass_maximum"] = mmin + h.real("dg", 5, 300, log=True)
    ms = h.reals("m", 1, 0.05, 800, log=True)
    h.eq("power law plus Gaussian mixture", two_component_single(h.arr(ms), **p), [o_two(h, m, **p) for m in ms])


@harness("C16", modes=("numpy", "jax"), rtol=NUM, configs=[{"gmax": False}, {"gmax": True}], witnesses=1, paths=2500, bounds="power law plus two peaks, 1 sample, mixture fractions in [0,1]")
def three_component(h, cfg):
    from gwpopulation.models.mass import three_component_single
    o = h.ops
    mmin, mmax = lims(h)
    p = dict(alpha=alpha_(h), mmin=mmin, mmax=mmax, lam=h.real("lam", 0, 1, pts=[0, 1]), lam_1=h.real("lam_1", 0, 1, pts=[0, 1]),
             **peak(h, "_1"), **peak(h, "_2"))
    g = 100
    if cfg["gmax"]:
        g = p["gaussian_mass_maximum"] = mmin + h.real("dg", 5, 300, log=True)
    m = h.real("m", 0.05, 800, log=True)
    l, l1 = o.of(p["lam"]), o.of(p["lam_1"])
    want = (1 - l) * o_powerlaw(h, m, -p["alpha"], mmax, mmin) + l * (
        l1 * o_truncnorm(h, m, p["mpp_1"], p["sigpp_1"], g, mmin) + (1 - l1) * o_truncnorm(h, m, p["mpp_2"], p["sigpp_2"], g, mmin))
    h.eq("power law plus two Gaussians", three_component_single(h.arr([m]), **p), [want])


def ratio_data(h, n=1):
    m1, q = h.reals("m1_", n, 0.1, 800, log=True), h.reals("q", n, 0.001, 1.5)
    return m1, q, {"mass_1": h.arr(m1), "mass_ratio": h.arr(q)}


def pair_data(h, n=1):
    m1, m2 = h.reals("m1_", n, 0.1, 800, log=True), h.reals("m2_", n, 0.1, 800, log=True)
    return m1, m2, {"mass_1": h.arr(m1), "mass_2": h.arr(m2)}


def o_pq(h, q, beta, mmin, m1):
    return o_powerlaw(h, q, beta, 1, h.ops.of(mmin) / h.ops.of(m1))


@harness("C16", modes=("numpy", "jax"), rtol=NUM, configs=[{"peak": False}, {"peak": True}], witnesses=2, paths=2500,
         bounds="primary mass and conditional mass ratio, 1 sample, beta in [-10,12]; m1 above the minimum mass for the conditional density")
def primary_mass_ratio(h, cfg):
    from gwpopulation.models import mass as M
    mmin, mmax = lims(h)
    m1, q, data = ratio_data(h)
    h.assume(m1[0] != mmin)
    beta = h.real("beta", -10, 12, pts=[-1, 0, 1, 2])
    p = dict(alpha=alpha_(h), mmin=mmin, mmax=mmax)
    if cfg["peak"]:
        p.update(lam=h.real("lam", 0, 1), **peak(h))
        p["gaussian_mass_maximum"] = mmin + h.real("dg", 5, 300, log=True)
        got = M.two_component_primary_mass_ratio(data, beta=beta, **p)
        f = lambda m: o_two(h, m, **p)
    else:
        got = M.power_law_primary_mass_ratio(data, beta=beta, **p)
        f = lambda m: o_powerlaw(h, m, -p["alpha"], mmax, mmin)
    want = []
    for m, x in zip(m1, q):
        if m < mmin:
            want.append(h.ops.of(0))
        else:
            want.append(f(m) * o_pq(h, x, beta, mmin, m))
    h.eq("p(m1) p(q|m1)", got, want)


@harness("C16", modes=("numpy", "jax"), rtol=NUM, configs=[{"same": False, "peak": False}, {"same": True, "peak": False},
                                                  {"same": False, "peak": True}, {"same": True, "peak": True}], witnesses=1, paths=3000,
         bounds="component masses: both orderings of m1, m2, 1 sample")
def primary_secondary(h, cfg):
    from gwpopulation.models import mass as M
    mmin, mmax = lims(h)
    m1, m2, data = pair_data(h)
    al = alpha_(h)
    p = dict(mmin=mmin, mmax=mmax)
    be = al
    args = dict(alpha=al)
    if not cfg["same"]:
        be = args["beta"] = h.real("beta", -10, 12, pts=[1, 0])
    if cfg["peak"]:
        p.update(lam=h.real("lam", 0, 1), **peak(h))
        p["gaussian_mass_maximum"] = mmin + h.real("dg", 5, 300, log=True)
        fn = M.two_component_primary_secondary_identical if cfg["same"] else M.two_component_primary_secondary_independent
        f = lambda m, a: o_two(h, m, a, **p)
    else:
        fn = M.power_law_primary_secondary_identical if cfg["same"] else M.power_law_primary_secondary_independent
        f = lambda m, a: o_powerlaw(h, m, -a, mmax, mmin)
    got = fn(data, **args, **p)
    want = [(2 * f(a, al) * f(b, be)) if a >= b else h.ops.of(0) for a, b in zip(m1, m2)]
    h.eq("ordered pair of component masses", got, want)
