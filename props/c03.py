"""Uncertainty cut and finiteness of the returned likelihood."""
from .common import harness
from .lik import Case

MODES = ("numpy", "jax")


def judge(h, c, limit):
    got = c.like.log_likelihood_ratio(dict(c.par))
    o = h.ops
    h.finite("a finite number", got)
    lim = o.of(limit)
    if c.var > lim * lim:
        h.ge("rejected: effectively minus infinity", -o.of(got), 10 ** 300)
    else:
        h.eq("accepted: the log likelihood", got, c.lnl)


@harness("C03", modes=MODES + ("cupy",), configs=[dict(sizes=(2,), sel="none"), dict(sizes=(1, 1), sel="pair"), dict(sizes=(2,), sel="pair", conv=True)], witnesses=4,
         bounds="maximum uncertainty in [0.01, 3]; 1-2 events, 1-2 samples, selection with and without variance")
def cut(h, cfg):
    lim = h.real("maxunc", 0.01, 3, log=True, pts=[1])
    judge(h, Case(h, cfg, maximum_uncertainty=lim), lim)


@harness("C03", modes=MODES, configs=[dict(sizes=(1,), sel="pair")], witnesses=4, bounds="limit changed on an existing likelihood")
def changed(h, cfg):
    a, b = h.real("first", 0.01, 3), h.real("maxunc", 0.01, 3)
    c = Case(h, cfg, maximum_uncertainty=a)
    c.like.maximum_uncertainty = b
    h.eq("the limit reads back", c.like.maximum_uncertainty, b)
    judge(h, c, b)


@harness("C03", modes=MODES + ("cupy",), configs=[dict(sizes=(2,), sel="pair", _late=False), dict(sizes=(1,), sel="pair", _late=True)], witnesses=4,
         bounds="a limit of zero: every estimate with a variance above 1e-6 is rejected")
def zero(h, cfg):
    c = Case(h, cfg, maximum_uncertainty=h.real("first", 0.01, 3) if cfg["_late"] else (0, 0.0)[h.choose("zero", 2)])
    if cfg["_late"]:
        c.like.maximum_uncertainty = 0
    h.eq("the limit reads back", c.like.maximum_uncertainty, 0)
    h.assume(c.var > 1e-6)
    h.ge("rejected: effectively minus infinity", -h.ops.of(c.like.log_likelihood_ratio(dict(c.par))), 10 ** 300)


@harness("C03", modes=MODES, configs=[dict(sizes=(2, 2), sel="pair", _late=False), dict(sizes=(1,), sel="pair", _late=True)], witnesses=4,
         bounds="no limit (infinity, the default or set later): never rejected for its variance")
def unlimited(h, cfg):
    import numpy as np
    if cfg["_late"]:
        c = Case(h, cfg, maximum_uncertainty=h.real("first", 0.01, 3))
        c.like.maximum_uncertainty = np.inf
    else:
        c = Case(h, cfg)
    got = c.like.log_likelihood_ratio(dict(c.par))
    h.eq("accepted", got, c.lnl)


@harness("C03", modes=MODES, configs=[dict(limit=False), dict(limit=True)], witnesses=4,
         bounds="an event without support and/or an unbounded or vanishing selection: the result is a finite number, effectively minus infinity")
def degenerate(h, cfg):
    kw = dict(maximum_uncertainty=h.real("maxunc", 0.01, 3)) if cfg["limit"] else {}
    from gwpopulation import hyperpe
    c = Case(h, dict(sizes=(1, 1), sel="pair", lo=0, wpts=[0, 0, 0, 0]), **kw)
    k = h.choose("selection", 3)
    sel = c.sel
    if k == 1:
        import math
        c.like.selection_function = lambda parameters: (math.inf, sel(parameters)[1])
    elif k == 2:
        c.like.selection_function = lambda parameters: (0.0, 0.0)
    got = c.like.log_likelihood_ratio(dict(c.par))
    h.finite("a finite number", got)
    if k == 1 or any([m == 0 for m, _, _ in c.ev]):
        h.ge("effectively minus infinity", -h.ops.of(got), 10 ** 300)
