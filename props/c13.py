"""Truncated normal density."""
from .common import NUM, harness, o_truncnorm


def _in(h, lo=-5, hi=5):
    mu = h.real("mu", -100, 100)
    sigma = h.real("sigma", 0.125, 1000, log=True)
    low = h.real("low", lo, hi)
    high = low + h.real("width", 0.125, 200, log=True)
    return mu, sigma, high, low


@harness("C13", modes=("numpy", "jax", "cupy"), configs=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}], witnesses=4, rtol=NUM,
         bounds="truncated normal: 1-2 (thorough 3) sample points, |mu|<=100, 0.125<=sigma<=1000, |low|<=5, width 0.125..200")
def density(h, cfg):
    from gwpopulation.utils import truncnorm
    mu, sigma, high, low = _in(h)
    xs = h.reals("x", cfg["n"], -12, 220)
    got = truncnorm(h.arr(xs), mu, sigma, high, low)
    h.shape("one density per sample", got, (cfg["n"],))
    h.eq("normalised truncated normal density", got, [o_truncnorm(h, x, mu, sigma, high, low) for x in xs])


@harness("C13", modes=("numpy", "jax"), witnesses=4, rtol=NUM, bounds="scalar sample and keyword arguments; samples exactly on the limits")
def scalar(h, cfg):
    from gwpopulation.utils import truncnorm
    mu, sigma, high, low = _in(h)
    x = [h.real("x", -12, 220), low, high][h.choose("where", 3)]
    got = truncnorm(h.npf(x), mu=h.npf(mu), sigma=h.npf(sigma), high=h.npf(high), low=h.npf(low))
    h.eq("normalised truncated normal density", got, o_truncnorm(h, x, mu, sigma, high, low))


@harness("C13", modes=("numpy", "jax"), witnesses=3, rtol=NUM, bounds="array-valued mean, width and limits, 2 samples")
def arrays(h, cfg):
    from gwpopulation.utils import truncnorm
    mu = h.reals("mu", 2, -100, 100)
    sigma = h.reals("sigma", 2, 0.125, 1000, log=True)
    low = h.reals("low", 2, -5, 5)
    high = [l + w for l, w in zip(low, h.reals("width", 2, 0.125, 200, log=True))]
    xs = h.reals("x", 2, -12, 220)
    got = truncnorm(h.arr(xs), h.arr(mu), h.arr(sigma), h.arr(high), h.arr(low))
    h.eq("normalised truncated normal density", got, [o_truncnorm(h, *a) for a in zip(xs, mu, sigma, high, low)])
