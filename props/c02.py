"""Variance of the log likelihood estimate."""
from .common import harness
from .lik import Case

CFGS = [dict(sizes=(2,), sel="none", prior=False), dict(sizes=(2, 2), sel="one"), dict(sizes=(2, 2), sel="pair", conv=True), dict(sizes=(3,), sel="pair"), dict(sizes=(1, 1, 1), sel="pair"), dict(sizes=(3,), sel="one", zeros=1), dict(sizes=(4, 4), sel="pair", zeros=2), dict(sizes=(2, 2), sel="pair", null=True), dict(sizes=(2,), sel="pair", conv=True, null=True),
        dict(sizes=(2,) * 5, sel="pair", big=True, lo=1e-30, hi=1e30), dict(sizes=(5, 5), sel="one", big=True, lo=1e-30, hi=1e30),
        dict(sizes=(1100, 1100), sel="pair", sparse=True, big=True), dict(sizes=(2,) * 1100, sel="pair", sparse=True, big=True), dict(sizes=(10007,), sel="one", sparse=True, prior=False, big=True)]


@harness("C02", modes=("numpy", "jax", "cupy"), configs=CFGS, thorough=[dict(sizes=(4, 4), sel="pair", conv=True), dict(sizes=(2,) * 4, sel="pair")], witnesses=4,
         bounds="1-5 events of 1-5 samples, all free, and up to 1100 events or 10007 samples with 4 free values; weights up to 1e-30..1e30, selection without and with variance, with conversion; with samples of zero weight; the null likelihood")
def variance(h, cfg):
    from gwpopulation.hyperpe import NullHyperparameterLikelihood
    c = Case(h, cfg, cls=NullHyperparameterLikelihood if cfg.get("null") else None)
    ln_l, var = c.like.ln_likelihood_and_variance(dict(c.par))
    h.eq("variance of the log likelihood", var, c.var, atol=1e-12)
    h.eq("log likelihood", ln_l, 0 if cfg.get("null") else c.lnl)
    if not cfg.get("conv") and not cfg.get("big"):
        h.ge("variance is not negative", var, 0)


@harness("C02", modes=("numpy", "jax"), configs=[dict(sizes=(2, 2), sel="pair")], witnesses=3, bounds="per-event terms, 2 events of 2 samples")
def per_event(h, cfg):
    c = Case(h, cfg)
    ex = c.like.generate_extra_statistics(dict(c.par))
    for i, (m, v, k) in enumerate(c.ev):
        h.eq("per-event variance", ex["var_%d" % i], v / (k * m * m), atol=1e-12)
        h.ge("per-event variance is not negative", ex["var_%d" % i], 0)
    h.eq("total variance", ex["variance"], c.var, atol=1e-12)
