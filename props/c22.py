"""Correlated chi_eff - chi_p Gaussian, 2d Gaussian helper, von Mises."""
from .common import harness


def o_gauss2(m, x, y, mx, my, sx, sy, r):
    x, y, mx, my, sx, sy, r = (m.of(v) for v in (x, y, mx, my, sx, sy, r))
    u, v = (x - mx) / sx, (y - my) / sy
    return m.exp(-(u * u + v * v - 2 * r * u * v) / (2 * (1 - r * r)))


def par(h):
    return h.real("mux", -2, 2), h.real("sx", 0.05, 20, log=True), h.real("muy", -1, 2), h.real("sy", 0.05, 20, log=True), h.real("rho", -0.99, 0.99, pts=[0])


@harness("C22", modes=("numpy", "jax"), configs=[{"n": 1}, {"n": 2}], witnesses=4, bounds="2d Gaussian helper: |rho|<=0.99, widths 0.05..20, means up to 2")
def helper(h, cfg):
    from gwpopulation.utils import unnormalized_2d_gaussian as f
    mx, sx, my, sy, r = par(h)
    xs, ys = h.reals("x", cfg["n"], -1.5, 1.5), h.reals("y", cfg["n"], -0.5, 1.5)
    h.eq("exp(-chi^2/2) with the inverse covariance", f(h.arr(xs), h.arr(ys), mx, my, sx, sy, r), [o_gauss2(h.ops, x, y, mx, my, sx, sy, r) for x, y in zip(xs, ys)])


@harness("C22", modes=("numpy", "jax"), configs=[{"n": 1}], thorough=[{"n": 2}, {"n": 1, "_cap": 4}, {"n": 1, "_cap": 5}], grid_cap=3, witnesses=2, paths=1500,
         bounds="correlated model: 1 sample (thorough 2), normalisation grid reduced to 3x3 (thorough up to 5x5) in the symbolic runs and full in the replays")
def model(h, cfg):
    from gwpopulation.models.spin import GaussianChiEffChiP
    mx, sx, my, sy, r = par(h)
    xs, ys = h.reals("x", cfg["n"], -1.5, 1.5), h.reals("y", cfg["n"], -0.5, 1.5)
    xs, ys = xs + [1.25, 0.25, -0.5], ys + [0.5, 1.5, 0.75]
    got = GaussianChiEffChiP()({"chi_eff": h.arr(xs), "chi_p": h.arr(ys)}, mu_chi_eff=mx, sigma_chi_eff=sx, mu_chi_p=my, sigma_chi_p=sy, spin_covariance=r)
    gx, gy = h.linspace(-1, 1, 500), h.linspace(0, 1, 250)
    rows = [h.trapz(h.map(lambda m, t: o_gauss2(m, t, b, mx, my, sx, sy, r), gx), gx) for b in gy]
    norm = h.trapz(rows, gy)
    m = h.ops
    if not h.sym:
        h.assume(norm > 1e-290)     # the exponential underflows
    kw = {} if h.sym else dict(scale=float(1e-309 / norm))
    want = []
    for x, y in zip(xs, ys):
        if x < -1 or x > 1 or y < 0 or y > 1:
            want.append(m.of(0))
        else:
            want.append(o_gauss2(m, x, y, mx, my, sx, sy, r) / norm)
    h.eq("normalised correlated Gaussian on its domain", got, want, **kw)


@harness("C22", modes=("numpy", "jax"), configs=[{"n": 1}, {"n": 2}], witnesses=4, bounds="von Mises: kappa in [0.001,5000], angles in [-10,10]")
def von_mises(h, cfg):
    from gwpopulation.utils import von_mises as f
    m = h.ops
    mu, k = h.real("mu", -10, 10), h.real("kappa", 0.001, 5000, log=True)
    xs = h.reals("x", cfg["n"], -10, 10)
    h.eq("von Mises density", f(h.arr(xs), mu, k), [m.exp(m.of(k) * m.cos(m.of(x) - m.of(mu))) / (2 * m.pi * m.i0(m.of(k))) for x in xs])
