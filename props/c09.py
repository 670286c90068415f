"""Convergence of the selection estimate."""
from .common import harness
from .vts import injections, linear, o_eff


def setup(h, n=2, lo=0.25, sparse=False, wide=False, **kw):
    from gwpopulation.vt import ResamplingVT
    data, raw, tot = injections(h, n, "sym", lo=lo, pts=[0] if lo == 0 else (), sparse=sparse, wide=wide)
    lam, nev = h.real("lam", 0.5, 2), h.real("nev", 0.01 if not sparse else 1, 300, log=True)
    vt = ResamplingVT(linear, data, n_events=nev, **kw)
    mu, var = o_eff(h, raw, tot, lambda w: h.ops.of(lam) * w)
    return vt, dict(lam=lam), mu, var, h.ops.of(nev)


MODES = ("numpy", "jax")


@harness("C09", modes=MODES + ("cupy",), configs=[dict(n=1), dict(n=2), dict(n=2, wide=True), dict(n=600, sparse=True)], thorough=[dict(n=3)], witnesses=5, bounds="1-2 (thorough 3) found injections, all free, and 600 with 4 free values; 0.01 <= number of events <= 300; total up to 20 times the found")
def enforced(h, cfg):
    vt, par, mu, var, nev = setup(h, cfg["n"], sparse=cfg.get("sparse"), wide=cfg.get("wide"))
    m, v = vt(par)
    h.eq("variance", v, var, scale=mu * mu + var)
    if mu * mu > 4 * nev * var:
        h.eq("converged: the efficiency", m, mu)
    else:
        h.eq("not converged: infinite, so that the likelihood vanishes", m, h.ops.inf)


@harness("C09", modes=MODES, configs=[dict(n=1), dict(n=2), dict(n=2, wide=True), dict(n=600, sparse=True)], witnesses=5, bounds="uncertainty-marginalised factor, 1-2 found injections and 600 with 4 free values (a vanishing variance is covered with one injection)")
def marginalized(h, cfg):
    vt, par, mu, var, nev = setup(h, cfg["n"], sparse=cfg.get("sparse"), wide=cfg.get("wide"), marginalize_uncertainty=True)
    if cfg["n"] > 1:
        h.assume(var > 0)
    got = vt(par)
    o = h.ops
    if mu * mu > 4 * nev * var:
        neff_inv = var / (mu * mu)
        h.eq("converged: mu exp(-(3+N)/(2 neff))", got, mu * o.exp(-(3 + nev) / 2 * neff_inv))
    else:
        h.eq("not converged: infinite", got, o.inf)


@harness("C09", modes=MODES, configs=[dict(marg=False), dict(marg=True)], witnesses=5, bounds="default number of events (infinite), or no supported injection: nothing is converged")
def never(h, cfg):
    from gwpopulation.vt import ResamplingVT
    data, raw, tot = injections(h, 2, "sym", lo=0, pts=[0, 0, 0])
    lam = h.real("lam", 0.5, 2)
    k = h.choose("case", 2)
    if k == 0:
        h.assume(raw[0][0] == 0)
        h.assume(raw[1][0] == 0)
    else:
        h.assume(raw[0][0] > 0)
    kw = dict(n_events=3) if k == 0 else {}
    vt = ResamplingVT(linear, data, marginalize_uncertainty=cfg["marg"], **kw)
    got = vt(dict(lam=lam))
    h.eq("infinite", got if cfg["marg"] else got[0], h.ops.inf)


@harness("C09", modes=MODES, configs=[dict(marg=False), dict(marg=True)], witnesses=4, bounds="likelihood with a selection that has not converged: 2 events of 1 sample, 2 injections")
def rejected(h, cfg):
    from gwpopulation.hyperpe import HyperparameterLikelihood
    from .lik import frame, seeded
    vt, par, mu, var, nev = setup(h, 2, marginalize_uncertainty=cfg["marg"])
    ws = h.reals("e", 2, 0.25, 4)
    with seeded(h):
        like = HyperparameterLikelihood([frame(h, {"w": [x]}) for x in ws], linear, selection_function=vt)
    got = like.log_likelihood_ratio(dict(par))
    o = h.ops
    h.finite("a finite number", got)
    if mu * mu > 4 * nev * var:
        lam = o.of(par["lam"])
        f = mu if not cfg["marg"] else mu * o.exp(-(3 + nev) / 2 * var / (mu * mu))
        h.eq("the log likelihood", got, o.log(lam * o.of(ws[0])) + o.log(lam * o.of(ws[1])) - 2 * o.log(f))
    else:
        h.ge("rejected: effectively minus infinity", -o.of(got), 10 ** 300)
