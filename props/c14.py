"""Beta distribution and the spin-magnitude models built on it."""
from .common import JAX, harness, o_beta


def ends(h, x, a, b, scale):
    """the density diverges at an end of its support when the exponent there is negative"""
    if x == 0:
        h.assume(a >= 1)
    elif x == scale:
        h.assume(b >= 1)


@harness("C14", modes=("numpy", "jax", "cupy"), configs=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}], witnesses=4, rtol=JAX,
         bounds="beta density: 1-2 (thorough 3) samples, 0.1<=alpha,beta<=20, 0.1<=scale<=5; the ends of the support where the density is finite")
def density(h, cfg):
    from gwpopulation.utils import beta_dist
    a = h.real("alpha", 0.1, 20, pts=[1, 2])
    b = h.real("beta", 0.1, 20, pts=[1, 2])
    s = h.real("scale", 0.1, 5, pts=[1])
    xs = h.reals("x", cfg["n"], -1, 6)
    for x in xs:
        ends(h, x, a, b, s)
    got = beta_dist(h.arr(xs), a, b, scale=s)
    h.shape("one density per sample", got, (cfg["n"],))
    h.eq("beta density", got, [o_beta(h, x, a, b, s) for x in xs])


@harness("C14", modes=("numpy", "jax"), witnesses=3, rtol=JAX, bounds="default scale, positional arguments")
def default_scale(h, cfg):
    from gwpopulation.utils import beta_dist
    a = h.real("alpha", 0.1, 20, pts=[1])
    b = h.real("beta", 0.1, 20, pts=[1])
    x = h.real("x", -1, 2)
    ends(h, x, a, b, 1)
    h.eq("beta density on the unit interval", beta_dist(h.arr([x]), a, b), [o_beta(h, x, a, b, 1)])


@harness("C14", modes=("numpy", "jax"), witnesses=4, rtol=JAX, bounds="array-valued scale, alone and with array-valued shape parameters; 2 samples")
def arrays(h, cfg):
    from gwpopulation.utils import beta_dist
    s = h.reals("scale", 2, 0.1, 5)
    full = h.choose("shape arrays", 2)
    a, b = (h.reals(k, 2 if full else 1, 0.1, 20) for k in ("alpha", "beta"))
    xs = h.reals("x", 2, -1, 6)
    A, B = (a, b) if full else (2 * a, 2 * b)
    for x, al, be, sc in zip(xs, A, B, s):
        ends(h, x, al, be, sc)
    got = beta_dist(h.arr(xs), h.arr(a) if full else a[0], h.arr(b) if full else b[0], scale=h.arr(s))
    h.eq("beta density", got, [o_beta(h, *v) for v in zip(xs, A, B, s)])


def _data(h, n, top=1.25):
    a1, a2 = h.reals("a1_", n, -0.25, top), h.reals("a2_", n, -0.25, top)
    return a1, a2, {"a_1": h.arr(a1), "a_2": h.arr(a2)}


@harness("C14", modes=("numpy", "jax"), configs=[{"n": 1}], thorough=[{"n": 2}], paths=1500, witnesses=2, rtol=JAX,
         bounds="independent spin magnitudes: product of the two beta densities with their own parameters")
def independent(h, cfg):
    from gwpopulation.models.spin import independent_spin_magnitude_beta
    n = cfg["n"]
    a1, a2, data = _data(h, n)
    p = {k: h.real(k, 0.1, 10) for k in ("alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2")}
    p.update({k: h.real(k, 0.25, 1) for k in ("amax_1", "amax_2")})
    for x, y in zip(a1, a2):
        ends(h, x, p["alpha_chi_1"], p["beta_chi_1"], p["amax_1"])
        ends(h, y, p["alpha_chi_2"], p["beta_chi_2"], p["amax_2"])
    got = independent_spin_magnitude_beta(data, **p)
    h.eq("product of the two beta densities", got, [
        o_beta(h, x, p["alpha_chi_1"], p["beta_chi_1"], p["amax_1"]) * o_beta(h, y, p["alpha_chi_2"], p["beta_chi_2"], p["amax_2"])
        for x, y in zip(a1, a2)])


@harness("C14", modes=("numpy", "jax"), configs=[{"full": True}, {"full": False}], paths=1500, witnesses=2, rtol=JAX,
         bounds="identical spin magnitudes: both components share the parameters; defaults are a uniform density on [0,1]")
def identical(h, cfg):
    from gwpopulation.models.spin import iid_spin_magnitude_beta
    a1, a2, data = _data(h, 1)
    if cfg["full"]:
        p = dict(alpha_chi=h.real("alpha_chi", 0.1, 10), beta_chi=h.real("beta_chi", 0.1, 10), amax=h.real("amax", 0.25, 1))
    else:
        p = {}
    q = dict(alpha_chi=1, beta_chi=1, amax=1)
    q.update(p)
    for x in a1 + a2:
        ends(h, x, q["alpha_chi"], q["beta_chi"], q["amax"])
    got = iid_spin_magnitude_beta(data, **p)
    f = lambda x: o_beta(h, x, q["alpha_chi"], q["beta_chi"], q["amax"])
    h.eq("product of identical beta densities", got, [f(x) * f(y) for x, y in zip(a1, a2)])
