"""Oracles of the smoothed mass models, from the documentation."""
from fractions import Fraction

from symx.engine import S
from .common import o_powerlaw, o_trapz
from .c16 import o_two, peak
from .c17 import o_broken
from .common import o_truncnorm

EPS = (1, 10 ** 6)     # the window saturates this close to its ends (below double precision)


def o_window(h, m, mmin, mmax, delta):
    """0 below mmin and above mmax, one above mmin + delta, Planck taper between"""
    o = h.ops
    m, mmin, mmax, delta = o.of(m), o.of(mmin), o.of(mmax), o.of(delta)
    if delta == 0:
        return o.of(1)
    x = (m - mmin) / delta
    e = o.q(*EPS)
    if x < e:
        return o.of(0)
    if m > mmax:
        return o.of(0)
    if x > 1 - e:
        return o.of(1)
    return 1 / (1 + o.exp(1 / x - 1 / (1 - x)))


def o_interp(h, x, xs, ys):
    """linear, extrapolated"""
    o = h.ops
    x = o.of(x)
    k = 0
    while k < len(xs) - 2 and not (x < o.of(xs[k + 1])):
        k += 1
    a, b = o.of(xs[k]), o.of(xs[k + 1])
    return ys[k] + (ys[k + 1] - ys[k]) * (x - a) / (b - a)


def o_pm1(h, m, prim, mmin, top, delta, grid):
    """prim: unsmoothed density"""
    o = h.ops
    if o.of(delta) == 0:
        return prim(m)
    n = o_trapz(h, [prim(x) * o_window(h, x, mmin, top, delta) for x in grid], grid)
    return prim(m) * o_window(h, m, mmin, top, delta) / n


def o_pqnum(h, q, m1, beta, mmin, delta):
    o = h.ops
    lo = o.of(mmin) / o.of(m1)
    if lo >= 1:
        return o.of(0)
    return o_powerlaw(h, q, beta, 1, lo) * o_window(h, o.of(m1) * o.of(q), mmin, m1, delta)


def o_pq(h, q, m1, beta, mmin, delta, grid, qs):
    o = h.ops
    num = o_pqnum(h, q, m1, beta, mmin, delta)
    if o.of(delta) == 0:
        return num
    norms = [o_trapz(h, [o_pqnum(h, y, x, beta, mmin, delta) for y in qs], qs) for x in grid]
    n = o_interp(h, m1, grid, norms)
    if n == 0:
        h.assume(num == 0)
        return o.of(0)
    return num / n


# ------------------------------------------------------------------ models
class Values:
    """parameters: the named ones symbolic, the others at a fixed value"""

    def __init__(self, h, free):
        self.h, self.free = h, set(free.split("+"))

    def __call__(self, name, const, lo, hi, **k):
        if name in self.free:
            return self.h.real(name, lo, hi, **k)
        # exact also where floating point is not
        return S.of(Fraction(const)) if self.h.sym else float(const)


def hyper(h, kind, top, v):
    """-> (class, parameters, unsmoothed primary density)"""
    from gwpopulation.models import mass as M
    o = h.ops
    mmin = v("mmin", 5, 2, 17)
    p = dict(mmin=mmin, mmax=v("mmax", 40, 30, 50))
    if kind in ("single", "multi"):
        p["alpha"] = v("alpha", 3, -4, 8)
        if "alpha" in v.free:
            h.assume(p["alpha"] != 1)
            if h.sym:
                p["alpha"] > 1
    if kind == "single":
        p.update(lam=v("lam", Fraction(1, 4), 0, 1), mpp=v("mpp", 30, 10, 40), sigpp=v("sigpp", 4, 1, 10))
        return M.SinglePeakSmoothedMassDistribution, p, lambda m: o_two(h, m, gaussian_mass_maximum=top, **p)
    if kind == "multi":
        p.update(lam=v("lam", Fraction(1, 4), 0, 1), lam_1=v("lam_1", Fraction(3, 4), 0, 1), mpp_1=v("mpp_1", 10, 5, 20), sigpp_1=v("sigpp_1", 3, 1, 10),
                 mpp_2=v("mpp_2", 30, 20, 40), sigpp_2=v("sigpp_2", 4, 1, 10))

        def f(m):
            l, l1 = o.of(p["lam"]), o.of(p["lam_1"])
            return (1 - l) * o_powerlaw(h, m, -p["alpha"], p["mmax"], mmin) + l * (
                l1 * o_truncnorm(h, m, p["mpp_1"], p["sigpp_1"], top, mmin) + (1 - l1) * o_truncnorm(h, m, p["mpp_2"], p["sigpp_2"], top, mmin))
        return M.MultiPeakSmoothedMassDistribution, p, f
    if kind in ("broken", "brokenpeak"):
        p.update(alpha_1=v("alpha_1", 2, -4, 8), alpha_2=v("alpha_2", 4, -4, 8), break_fraction=v("b", Fraction(1, 2), 0.05, 0.95))
        for a in ("alpha_1", "alpha_2"):
            if a in v.free:
                h.assume(p[a] != 1)
                if h.sym:
                    p[a] > 1
        g = lambda m: o_broken(h, m, p["alpha_1"], p["alpha_2"], mmin, p["mmax"], p["break_fraction"])
        if kind == "broken":
            return M.BrokenPowerLawSmoothedMassDistribution, p, g
        p.update(lam=v("lam", Fraction(1, 4), 0, 1), mpp=v("mpp", 30, 10, 40), sigpp=v("sigpp", 4, 1, 10))

        def f2(m):
            l = o.of(p["lam"])
            return (1 - l) * g(m) + l * o_truncnorm(h, m, p["mpp"], p["sigpp"], top, mmin)
        return M.BrokenPowerLawPeakSmoothedMassDistribution, p, f2
    # a user-defined model
    del p["mmax"]
    p["c"] = v("c", 1, 0.5, 2)

    def prim(mass, c, mmin):
        return c + mass / mmin

    class User(M.BaseSmoothedMassDistribution):
        primary_model = prim
    return User, p, lambda m: o.of(p["c"]) + o.of(m) / o.of(mmin)
