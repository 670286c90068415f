"""Extra statistics and the null likelihood."""
from .common import harness
from .lik import Case

CFGS = [dict(sizes=(2,), sel="none", prior=False), dict(sizes=(2, 2), sel="one"), dict(sizes=(1, 1, 1), sel="pair", conv=True), dict(sizes=(2, 2), sel="pair"), dict(sizes=(1,) * 12, sel="pair"), dict(sizes=(4, 4), sel="one"), dict(sizes=(1100, 1100), sel="pair", sparse=True), dict(sizes=(2,) * 120, sel="pair", sparse=True)]


@harness("C05", modes=("numpy", "jax", "cupy"), configs=CFGS, thorough=[dict(sizes=(2,) * 4, sel="pair", conv=True)], witnesses=4,
         bounds="1-12 events of 1-4 samples, all free, and up to 120 events or 1100 samples with 4 free values; selection without and with variance, conversion")
def statistics(h, cfg):
    c = Case(h, cfg)
    sample = dict(c.par)
    ex = c.like.generate_extra_statistics(sample)
    o = h.ops
    want = {"selection", "selection_variance", "variance"} | {"%s_%d" % (k, i) for k in ("ln_bf", "var") for i in range(c.n)}
    h.true("keys", set(ex) == want | set(c.par), "keys %s" % sorted(ex))
    h.true("the input dictionary is returned", ex is sample)
    for k in c.par:
        h.eq("the parameters are kept", ex[k], c.par[k])
    tot = o.of(0)
    for i, (m, v, k) in enumerate(c.ev):
        h.eq("event log Bayes factor", ex["ln_bf_%d" % i], o.log(m))
        h.eq("event variance", ex["var_%d" % i], v / (k * m * m), atol=1e-12)
        tot = tot + o.of(ex["ln_bf_%d" % i])
    h.eq("selection", ex["selection"], c.S)
    h.eq("relative selection variance", ex["selection_variance"], c.V / (c.S * c.S))
    h.eq("variance", ex["variance"], c.var, atol=1e-12)
    ln, var = c.like.ln_likelihood_and_variance(dict(c.par))
    h.eq("the pieces add up to the log likelihood", ln, tot - c.n * o.log(o.of(ex["selection"])))
    h.eq("the variances agree", var, o.of(ex["variance"]), atol=1e-12)


@harness("C05", modes=("numpy", "jax"), configs=[dict(sizes=(2,), sel="pair", lim=True), dict(sizes=(1, 1), sel="pair", lim=True), dict(sizes=(2,), sel="one", lim=False)], witnesses=4,
         bounds="null likelihood with a limit in [0.01, 3] or none: zero where accepted, effectively minus infinity where rejected")
def null(h, cfg):
    from gwpopulation.hyperpe import NullHyperparameterLikelihood
    lim = h.real("maxunc", 0.01, 3, log=True)
    c = Case(h, cfg, cls=NullHyperparameterLikelihood, **(dict(maximum_uncertainty=lim) if cfg["lim"] else {}))
    got = c.like.log_likelihood_ratio(dict(c.par))
    o = h.ops
    if cfg["lim"] and c.var > o.of(lim) * o.of(lim):
        h.ge("rejected", -o.of(got), 10 ** 300)
    else:
        h.eq("flat", got, 0)
    ex = c.like.generate_extra_statistics(dict(c.par))
    h.eq("selection", ex["selection"], c.S)
    h.eq("variance in the statistics", ex["variance"], c.var, atol=1e-12)
    h.eq("variance of the real likelihood", c.like.ln_likelihood_and_variance(dict(c.par))[1], c.var, atol=1e-12)


@harness("C05", modes=("numpy", "jax"), witnesses=3, bounds="vanishing selection: no exception, statistics reported")
def no_selection(h, cfg):
    c = Case(h, dict(sizes=(1, 1), sel="pair"))
    c.like.selection_function = lambda parameters: (0.0, 0.0)
    ex = c.like.generate_extra_statistics(dict(c.par))
    h.eq("selection", ex["selection"], 0)
    for i, (m, v, k) in enumerate(c.ev):
        h.eq("event log Bayes factor", ex["ln_bf_%d" % i], h.ops.log(m))


@harness("C05", modes=("numpy", "jax"), configs=[dict(sizes=(2, 2), sel="pair"), dict(sizes=(2,), sel="one", conv=True)], witnesses=3,
         bounds="a sample that already carries statistics, of other parameter values or of a likelihood with more events")
def again(h, cfg):
    c = Case(h, cfg)
    old = dict(c.par, lam=h.real("lam_old", 0.5, 2))
    if h.choose("before", 2):
        old.update({"%s_%d" % (k, i): 7.5 for k in ("ln_bf", "var") for i in range(3)}, selection=1.5, selection_variance=0.5, variance=2.5)
    else:
        old = c.like.generate_extra_statistics(old)
    ex = c.like.generate_extra_statistics(dict(old, **c.par))
    for i, (m, v, k) in enumerate(c.ev):
        h.eq("event log Bayes factor", ex["ln_bf_%d" % i], h.ops.log(m))
        h.eq("event variance", ex["var_%d" % i], v / (k * m * m), atol=1e-12)
    h.eq("selection", ex["selection"], c.S)
    h.eq("relative selection variance", ex["selection_variance"], c.V / (c.S * c.S))
    h.eq("variance", ex["variance"], c.var, atol=1e-12)
