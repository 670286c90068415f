"""Population log likelihood."""
from .common import harness
from .lik import Case, affine, frame, o_events, o_lnl, seeded

CFGS = [
    dict(sizes=(2,), sel="none", prior=False), dict(sizes=(2, 3), sel="one", prior=True),
    dict(sizes=(1, 2, 1), sel="pair", prior=True, conv=True), dict(sizes=(3, 3), sel="pair", conv=True),
    dict(sizes=(1,) * 8, sel="pair", lo=1e-60, hi=1e60), dict(sizes=(6, 6), sel="one", lo=1e-60, hi=1e60),
    dict(sizes=(1100, 1100), sel="pair", sparse=True), dict(sizes=(2,) * 120, sel="one", sparse=True), dict(sizes=(1,) * 1100, sel="pair", sparse=True), dict(sizes=(40,) * 30, sel="pair", sparse=True), dict(sizes=(10007,), sel="one", sparse=True, prior=False),
]


@harness("C01", modes=("numpy", "jax", "cupy"), configs=CFGS, thorough=[dict(sizes=(3, 4, 3, 4), sel="pair", conv=True), dict(sizes=(1,) * 6, sel="one")],
         witnesses=4, bounds="likelihood ratio: 1-8 events of 1-6 samples, all free, and up to 1100 events or 10007 samples with 4 free values; weights up to 1e-60..1e60, with and without prior column, conversion, selection (none, value, value and variance)")
def log_likelihood_ratio(h, cfg):
    c = Case(h, dict(cfg, sizes=[min(cfg["sizes"])] * len(cfg["sizes"])))
    got = c.like.log_likelihood_ratio(dict(c.par))
    h.eq("sum of log Monte Carlo means minus N log selection", got, c.lnl)
    if not h.sym and h.mode != "jax":
        h.true("a Python number", isinstance(got, float), type(got).__name__)
    got2 = c.like.ln_likelihood_and_variance(dict(c.par))[0]
    h.eq("same value with the variance", got2, c.lnl)


@harness("C01", modes=("numpy", "jax"), witnesses=3, bounds="two model components and two parameters: the density is their product")
def product_model(h, cfg):
    from bilby.hyper.model import Model
    from gwpopulation.hyperpe import HyperparameterLikelihood
    a = h.reals("a", 2, 0.5, 2)
    b = h.reals("b", 2, 0.5, 2)
    p = h.reals("p", 2, 0.5, 2)
    x, y = h.real("x", 0.5, 2), h.real("y", 0.5, 2)
    o = h.ops

    def m1(dataset, x):
        return x * dataset["a"]

    def m2(dataset, y):
        return dataset["b"] + y

    with seeded(h):
        like = HyperparameterLikelihood([frame(h, {"a": a, "b": b, "prior": p})], Model([m1, m2]))
    got = like.log_likelihood_ratio(dict(x=x, y=y))
    ws = [o.of(x) * o.of(u) * (o.of(v) + o.of(y)) / o.of(q) for u, v, q in zip(a, b, p)]
    h.eq("product of the components", got, o.log((ws[0] + ws[1]) / 2))
    # a second point, and back again
    x2 = h.real("x2", 0.5, 2)
    got2 = like.log_likelihood_ratio(dict(x=x2, y=y))
    ws2 = [o.of(x2) * o.of(u) * (o.of(v) + o.of(y)) / o.of(q) for u, v, q in zip(a, b, p)]
    h.eq("second point", got2, o.log((ws2[0] + ws2[1]) / 2))
    h.eq("first point again", like.log_likelihood_ratio(dict(x=x, y=y)), o.log((ws[0] + ws[1]) / 2))


@harness("C01", modes=("numpy", "jax"), configs=[dict(ev=True), dict(ev=False)], witnesses=3, bounds="full likelihood: ratio plus the summed log evidences, 2 events")
def evidences(h, cfg):
    kw = {}
    es = h.reals("e", 2, -10, 10)
    if cfg["ev"]:
        kw["ln_evidences"] = list(es)
    c = Case(h, dict(sizes=(1, 1), sel="one"), **kw)
    o = h.ops
    if cfg["ev"]:
        h.eq("noise evidence", c.like.noise_log_likelihood(), o.of(es[0]) + o.of(es[1]))
        h.eq("full log likelihood", c.like.log_likelihood(dict(c.par)), o.of(es[0]) + o.of(es[1]) + c.lnl)
    else:
        h.eq("no evidences: the evidence is not a number", c.like.noise_log_likelihood(), o.nan)
        h.eq("the ratio does not need them", c.like.log_likelihood_ratio(dict(c.par)), c.lnl)


@harness("C01", modes=("numpy", "jax"), configs=[dict(sizes=(2, 2))], witnesses=4, bounds="an event none of whose samples is supported: 2 events of 2 samples, weights >= 0")
def no_support(h, cfg):
    c = Case(h, dict(sizes=cfg["sizes"], sel="one", lo=0, wpts=[0, 0, 0]))
    got = c.like.log_likelihood_ratio(dict(c.par))
    if any([m == 0 for m, _, _ in c.ev]):
        h.ge("effectively minus infinity", -h.ops.of(got), 10 ** 300)
        h.finite("but a finite number", got)
    else:
        h.eq("sum of log means", got, c.lnl)
