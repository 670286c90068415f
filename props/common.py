"""Oracles written from the documentation, independent of the implementation.
They run on symbolic values and, in replays, on 40-digit mpmath values."""
from symx.harness import harness  # noqa: F401

JAX = dict(jax=1e-5)      # log-beta and friends are less accurate there
NUM = dict(numpy=1e-8, cupy=1e-8, jax=1e-5)


def o_powerlaw(h, x, alpha, high, low):
    m = h.ops
    x, alpha, high, low = m.of(x), m.of(alpha), m.of(high), m.of(low)
    if x < low or x > high:
        return m.of(0)
    if alpha == -1:
        return 1 / (x * (m.log(high) - m.log(low)))
    return (1 + alpha) * x ** alpha / (high ** (1 + alpha) - low ** (1 + alpha))


def o_truncnorm(h, x, mu, sigma, high, low):
    m = h.ops
    x, mu, sigma, high, low = m.of(x), m.of(mu), m.of(sigma), m.of(high), m.of(low)
    if x < low or x > high:
        return m.of(0)
    z = (x - mu) / sigma
    if not m.sym:
        # survival form where it is the accurate one
        a, b = (low - mu) / sigma, (high - mu) / sigma
        mass = m.ndtr(b) - m.ndtr(a) if float(a) < 0 else m.ndtr(-a) - m.ndtr(-b)
    else:
        mass = m.ndtr((high - mu) / sigma) - m.ndtr((low - mu) / sigma)
    return m.exp(-(z * z) / 2) / (m.sqrt(2 * m.pi) * sigma * mass)


def o_beta(h, x, a, b, scale):
    m = h.ops
    x, a, b, scale = m.of(x), m.of(a), m.of(b), m.of(scale)
    if x < 0 or x > scale:
        return m.of(0)
    ln = m.lgamma(a + b) - m.lgamma(a) - m.lgamma(b)
    y = x / scale
    return m.exp(ln) * y ** (a - 1) * (1 - y) ** (b - 1) / scale


def o_trapz(h, ys, xs):
    m = h.ops
    s = m.of(0)
    for i in range(len(xs) - 1):
        s = s + (m.of(xs[i + 1]) - m.of(xs[i])) * (m.of(ys[i]) + m.of(ys[i + 1])) / 2
    return s
