"""Likelihood with the merger rate as a parameter."""
from .common import harness
from .lik import Case

CFGS = [dict(sizes=(2,), sel="one"), dict(sizes=(2, 2), sel="pair", conv=True), dict(sizes=(1, 1, 1), sel="pair"), dict(sizes=(1,) * 6, sel="pair", lo=1e-4, hi=1e4), dict(sizes=(5,), sel="one"), dict(sizes=(1100, 1100), sel="pair", sparse=True), dict(sizes=(2,) * 120, sel="pair", sparse=True)]


def case(h, cfg, **kw):
    from gwpopulation.hyperpe import RateLikelihood
    c = Case(h, cfg, cls=RateLikelihood, **kw)
    c.rate = c.par["rate"] = h.real("rate", 1e-9, 1e7, log=True)
    o = h.ops
    ln = o.of(0)
    for m, _, _ in c.ev:
        ln = ln + o.log(m)
    c.lnl = ln + c.n * o.log(o.of(c.rate)) - o.of(c.rate) * c.S
    v = o.of(0)
    for m, x, k in c.ev:
        v = v + x / (k * m * m)
    c.var = v + o.of(c.rate) * c.S * c.V / (c.S * c.S)
    return c


@harness("C04", modes=("numpy", "jax", "cupy"), configs=CFGS, thorough=[dict(sizes=(2,) * 4, sel="pair", conv=True)], witnesses=4,
         bounds="1-6 events of 1-5 samples, all free, and up to 120 events or 1100 samples with 4 free values; rate in [0.001, 5000], selection with and without variance")
def poisson(h, cfg):
    c = case(h, cfg)
    got = c.like.log_likelihood_ratio(dict(c.par))
    h.eq("N log R - R V plus the event terms", got, c.lnl)
    ln, var = c.like.ln_likelihood_and_variance(dict(c.par))
    h.eq("same value with the variance", ln, c.lnl)
    h.eq("documented variance", var, c.var, atol=1e-12)


@harness("C04", modes=("numpy", "jax"), configs=[dict(sizes=(2, 2), sel="pair", conv=True), dict(sizes=(2,), sel="one"), dict(sizes=(1,), sel="none")], witnesses=4,
         bounds="statistics added to a sample: events, selection and the variance of this likelihood")
def statistics(h, cfg):
    c = case(h, cfg)
    ex = c.like.generate_extra_statistics(dict(c.par))
    o = h.ops
    for i, (m, v, k) in enumerate(c.ev):
        h.eq("event log Bayes factor", ex["ln_bf_%d" % i], o.log(m))
        h.eq("event variance", ex["var_%d" % i], v / (k * m * m), atol=1e-12)
    h.eq("selection", ex["selection"], c.S)
    h.eq("relative selection variance", ex["selection_variance"], c.V / (c.S * c.S))
    h.eq("variance", ex["variance"], c.var, atol=1e-12)
    h.eq("rate", ex["rate"], c.rate)


@harness("C04", modes=("numpy", "jax"), configs=[dict(sizes=(2,), sel="pair")], witnesses=4, bounds="with an uncertainty limit in [0.01, 3]")
def cut(h, cfg):
    lim = h.real("maxunc", 0.01, 3, log=True)
    c = case(h, cfg, maximum_uncertainty=lim)
    got = c.like.log_likelihood_ratio(dict(c.par))
    o = h.ops
    if c.var > o.of(lim) * o.of(lim):
        h.ge("rejected", -o.of(got), 10 ** 300)
    else:
        h.eq("accepted", got, c.lnl)


@harness("C04", modes=("numpy", "jax"), configs=[dict(sizes=(1, 1), sel="pair")], witnesses=4,
         bounds="consistency with the rate-marginalised likelihood: maximising over R and the returned rate sample")
def relation(h, cfg):
    c = case(h, cfg)
    h.eq("the rate sample is the sampled rate", c.like.generate_rate_posterior_sample(dict(c.par)), c.rate)
    ex = c.like.generate_extra_statistics(dict(c.par))
    o = h.ops
    tot = o.of(0)
    for i in range(c.n):
        tot = tot + o.of(ex["ln_bf_%d" % i])
    h.eq("selection is reported", ex["selection"], c.S)
    h.eq("event factors plus rate terms", c.like.log_likelihood_ratio(dict(c.par)), tot + c.n * o.log(o.of(c.rate)) - o.of(c.rate) * c.S)
