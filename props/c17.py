"""Broken power law."""
from .common import NUM, harness, o_powerlaw, o_truncnorm


def o_broken(h, m, a1, a2, mmin, mmax, frac):
    o = h.ops
    m, a1, a2, mmin, mmax, frac = (o.of(v) for v in (m, a1, a2, mmin, mmax, frac))
    mb = mmin + frac * (mmax - mmin)

    def area(a, lo, hi):   # integral of (m/mb)^-a
        if a == 1:
            return mb * (o.log(hi) - o.log(lo))
        return mb ** a * (hi ** (1 - a) - lo ** (1 - a)) / (1 - a)

    norm = area(a1, mmin, mb) + area(a2, mb, mmax)
    if m < mmin or m > mmax:
        return o.of(0)
    return (m / mb) ** (-(a1 if m < mb else a2)) / norm


def pars(h):
    mmin = h.real("mmin", 0.1, 50, log=True)
    mmax = mmin + h.real("dm", 2, 500, log=True)
    p = dict(alpha_1=h.real("alpha_1", -10, 12, pts=[1, 0, -1]), alpha_2=h.real("alpha_2", -10, 12, pts=[1, 0, -1]), mmin=mmin, mmax=mmax,
             break_fraction=h.real("b", 0.01, 0.99))
    for a in ("alpha_1", "alpha_2"):     # case split: the sign of 1 - alpha
        if h.sym and p[a] != 1:
            p[a] > 1
    return p


def oargs(p):
    return p["alpha_1"], p["alpha_2"], p["mmin"], p["mmax"], p["break_fraction"]


@harness("C17", modes=("numpy", "jax", "cupy"), rtol=NUM, configs=[{"n": 1}, {"n": 2}], witnesses=3, paths=2500,
         bounds="broken power law: 1-2 samples, indices in [-10,12] including exactly 1, break fraction in [0.01,0.99], 0.1<=mmin<=50, width 2..500")
def density(h, cfg):
    from gwpopulation.models.mass import double_power_law_primary_mass as f
    p = pars(h)
    ms = h.reals("m", cfg["n"], 0.05, 800, log=True)
    got = f(h.arr(ms), **p)
    h.shape("one density per sample", got, (cfg["n"],))
    h.eq("continuous normalised broken power law", got, [o_broken(h, m, *oargs(p)) for m in ms])


@harness("C17", modes=("numpy", "jax"), rtol=NUM, witnesses=3, bounds="sample exactly at the break: the value approached from both sides")
def at_break(h, cfg):
    from gwpopulation.models.mass import double_power_law_primary_mass as f
    p = pars(h)
    o = h.ops
    mb = p["mmin"] + p["break_fraction"] * (p["mmax"] - p["mmin"])
    a1, a2, mmin, mmax, b = (o.of(v) for v in oargs(p))
    mbo = mmin + b * (mmax - mmin)

    def area(a, lo, hi):
        if a == 1:
            return mbo * (o.log(hi) - o.log(lo))
        return mbo ** a * (hi ** (1 - a) - lo ** (1 - a)) / (1 - a)

    h.eq("density at the break", f(h.arr([mb]), **p), [1 / (area(a1, mmin, mbo) + area(a2, mbo, mmax))])


@harness("C17", modes=("numpy", "jax"), rtol=NUM, configs=[{"gmax": False}, {"gmax": True}], witnesses=1, paths=2500,
         bounds="broken power law plus Gaussian peak, 1 sample, lam in [0,1]")
def peak(h, cfg):
    from gwpopulation.models.mass import double_power_law_peak_primary_mass as f
    p = pars(h)
    q = dict(lam=h.real("lam", 0, 1, pts=[0, 1]), mpp=h.real("mpp", -50, 200), sigpp=h.real("sigpp", 0.25, 100, log=True))
    if cfg["gmax"]:
        q["gaussian_mass_maximum"] = p["mmin"] + h.real("dg", 5, 300, log=True)
    m = h.real("m", 0.05, 800, log=True)
    l = h.ops.of(q["lam"])
    want = (1 - l) * o_broken(h, m, *oargs(p)) + l * o_truncnorm(h, m, q["mpp"], q["sigpp"], q.get("gaussian_mass_maximum", 100), p["mmin"])
    h.eq("broken power law plus Gaussian mixture", f(h.arr([m]), **p, **q), [want])


@harness("C17", modes=("numpy", "jax"), rtol=NUM, witnesses=2, paths=2500, bounds="broken power law with conditional power-law mass ratio, 1 sample")
def mass_ratio(h, cfg):
    from gwpopulation.models.mass import double_power_law_primary_power_law_mass_ratio as f
    p = pars(h)
    beta = h.real("beta", -10, 12, pts=[-1, 0, 1])
    m1, q = h.real("m1", 0.1, 800, log=True), h.real("q", 0.001, 1.5)
    h.assume(m1 != p["mmin"])
    got = f({"mass_1": h.arr([m1]), "mass_ratio": h.arr([q])}, beta=beta, **p)
    if m1 < p["mmin"]:
        want = h.ops.of(0)
    else:
        want = o_broken(h, m1, *oargs(p)) * o_powerlaw(h, q, beta, 1, h.ops.of(p["mmin"]) / h.ops.of(m1))
    h.eq("p(m1) p(q|m1)", got, [want])
