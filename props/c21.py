"""Spin orientation mixture and effective-spin Gaussians."""
from .common import NUM, harness, o_beta, o_truncnorm


def tilts(h, n):
    z1, z2 = h.reals("z1_", n, -1, 1), h.reals("z2_", n, -1, 1)
    return z1, z2, {"cos_tilt_1": h.arr(z1), "cos_tilt_2": h.arr(z2)}


def o_mix(h, a, b, xi, s1, s2, m1, m2):
    xi = h.ops.of(xi)
    return (1 - xi) / 4 + xi * o_truncnorm(h, a, m1, s1, 1, -1) * o_truncnorm(h, b, m2, s2, 1, -1)


@harness("C21", modes=("numpy", "jax"), rtol=NUM, configs=[{"n": 1, "mu": True}, {"n": 1, "mu": "first"}, {"n": 1, "mu": "second"}, {"n": 2, "mu": False}], thorough=[{"n": 2, "mu": True}], witnesses=2, paths=2000,
         bounds="independent orientations: 1-2 samples in [-1,1], own width and mean per component; default means of 1, separately")
def independent(h, cfg):
    from gwpopulation.models.spin import independent_spin_orientation_gaussian_isotropic as f
    z1, z2, data = tilts(h, cfg["n"])
    p = dict(xi_spin=h.real("xi", 0, 1, pts=[0, 1]), sigma_1=h.real("s1", 0.05, 100, log=True), sigma_2=h.real("s2", 0.05, 100, log=True))
    m1 = m2 = 1
    if cfg["mu"] == "first":
        m1 = p["mu_1"] = h.real("mu1", -4, 4)
    elif cfg["mu"] == "second":
        m2 = p["mu_2"] = h.real("mu2", -4, 4)
    elif cfg["mu"]:
        m1, m2 = p["mu_1"], p["mu_2"] = h.real("mu1", -4, 4), h.real("mu2", -4, 4)
    got = f(data, **p)
    h.eq("isotropic plus aligned mixture", got, [o_mix(h, a, b, p["xi_spin"], p["sigma_1"], p["sigma_2"], m1, m2) for a, b in zip(z1, z2)])


@harness("C21", modes=("numpy", "jax"), rtol=NUM, configs=[{"mu": True}, {"mu": False}], witnesses=2, paths=2000, bounds="identical orientations, 1 sample")
def identical(h, cfg):
    from gwpopulation.models.spin import iid_spin_orientation_gaussian_isotropic as f
    z1, z2, data = tilts(h, 1)
    p = dict(xi_spin=h.real("xi", 0, 1, pts=[0, 1]), sigma_spin=h.real("s", 0.05, 100, log=True))
    mu = 1
    if cfg["mu"]:
        mu = p["mu_spin"] = h.real("mu", -4, 4)
    h.eq("isotropic plus aligned mixture", f(data, **p), [o_mix(h, a, b, p["xi_spin"], p["sigma_spin"], p["sigma_spin"], mu, mu) for a, b in zip(z1, z2)])


@harness("C21", modes=("numpy", "jax"), rtol=NUM, witnesses=1, paths=2000, bounds="joint magnitude and orientation model, 1 sample")
def joint(h, cfg):
    from gwpopulation.models.spin import iid_spin as f
    z1, z2, data = tilts(h, 1)
    a1, a2 = h.real("a1", -0.2, 1.2), h.real("a2", -0.2, 1.2)
    p = dict(xi_spin=h.real("xi", 0, 1), sigma_spin=h.real("s", 0.05, 100, log=True), amax=h.real("amax", 0.25, 1), alpha_chi=h.real("alpha", 0.2, 10), beta_chi=h.real("beta", 0.2, 10))
    for x in (a1, a2):
        h.assume(x != 0)
        h.assume(x != p["amax"])
    got = f(dict(data, a_1=h.arr([a1]), a_2=h.arr([a2])), **p)
    b = lambda x: o_beta(h, x, p["alpha_chi"], p["beta_chi"], p["amax"])
    h.eq("magnitude density times orientation density", got, [o_mix(h, z1[0], z2[0], p["xi_spin"], p["sigma_spin"], p["sigma_spin"], 1, 1) * b(a1) * b(a2)])


@harness("C21", modes=("numpy", "jax"), rtol=NUM, configs=[{"n": 1}, {"n": 2}], witnesses=3, bounds="effective inspiral spin on [-1,1]")
def chi_eff(h, cfg):
    from gwpopulation.models.spin import gaussian_chi_eff as f
    xs = h.reals("x", cfg["n"], -1.5, 1.5)
    mu, s = h.real("mu", -4, 4), h.real("sigma", 0.05, 100, log=True)
    h.eq("truncated normal on [-1,1]", f({"chi_eff": h.arr(xs)}, mu_chi_eff=mu, sigma_chi_eff=s), [o_truncnorm(h, x, mu, s, 1, -1) for x in xs])


@harness("C21", modes=("numpy", "jax"), rtol=NUM, configs=[{"n": 1}, {"n": 2}], witnesses=3, bounds="effective precession spin on [0,1]")
def chi_p(h, cfg):
    from gwpopulation.models.spin import gaussian_chi_p as f
    xs = h.reals("x", cfg["n"], -0.5, 1.5)
    mu, s = h.real("mu", -4, 4), h.real("sigma", 0.05, 100, log=True)
    h.eq("truncated normal on [0,1]", f({"chi_p": h.arr(xs)}, mu_chi_p=mu, sigma_chi_p=s), [o_truncnorm(h, x, mu, s, 1, 0) for x in xs])
