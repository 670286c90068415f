"""Detection efficiency from found injections."""
from .common import harness
from .vts import injections, linear, o_eff, shift


@harness("C08", modes=("numpy", "jax", "cupy"), witnesses=4,
         configs=[dict(n=1, total=None), dict(n=2, total="sym"), dict(n=3, total="sym"), dict(n=3, total=None), dict(n=2, total="sym", wide=True), dict(n=4, total="sym", wide=True), dict(n=1100, total="sym", sparse=True), dict(n=1100, total=None, sparse=True), dict(n=10007, total="sym", sparse=True)], thorough=[dict(n=5, total="sym")],
         bounds="1-3 (thorough 5) found injections, all free, and 1100 or 10007 with 4 free values; weights between 0.25 and 4, and 2 or 4 injections with weights and densities over 60 and 40 orders of magnitude and up to 1e10 draws; total number drawn given (any real value >= found) or defaulting to the number found")
def efficiency(h, cfg):
    from gwpopulation.vt import ResamplingVT
    data, raw, tot = injections(h, cfg["n"], cfg["total"], sparse=cfg.get("sparse"), wide=cfg.get("wide"))
    lam = h.real("lam", 0.5, 2)
    vt = ResamplingVT(linear, data, n_events=1)
    mu, var = vt.detection_efficiency(dict(lam=lam))
    wm, wv = o_eff(h, raw, tot, lambda w: h.ops.of(lam) * w)
    h.eq("efficiency: importance-weighted fraction of the injections drawn", mu, wm)
    h.eq("variance of the efficiency", var, wv, scale=wm * wm + wv)
    h.ge("variance is not negative", var, 0) if h.sym and not cfg.get("sparse") and not cfg.get("wide") else None


@harness("C08", modes=("numpy", "jax"), configs=[dict(kind="list"), dict(kind="model"), dict(kind="function")], witnesses=3,
         bounds="population model given as a function, a list of functions or a Model; other parameters in the dictionary are ignored")
def models(h, cfg):
    from bilby.hyper.model import Model
    from gwpopulation.vt import ResamplingVT
    data, raw, tot = injections(h, 2, "sym")
    lam, mu = h.real("lam", 0.5, 2), h.real("mu", 0.5, 2)
    o = h.ops
    m = {"list": [linear, shift], "model": Model([linear, shift]), "function": linear}[cfg["kind"]]
    two = cfg["kind"] != "function"
    vt = ResamplingVT(m, data)
    got = vt.detection_efficiency(dict(lam=lam, mu=mu, unused=3.0))
    want = o_eff(h, raw, tot, (lambda w: o.of(lam) * w * o.of(mu)) if two else (lambda w: o.of(lam) * w))
    h.eq("efficiency", got[0], want[0])
    h.eq("variance", got[1], want[1], scale=want[0] * want[0] + want[1])
    # a different point, then the first again
    lam2 = h.real("lam2", 0.5, 2)
    w2 = o_eff(h, raw, tot, (lambda w: o.of(lam2) * w * o.of(mu)) if two else (lambda w: o.of(lam2) * w))
    h.eq("second point", vt.detection_efficiency(dict(lam=lam2, mu=mu))[0], w2[0])
    h.eq("first point again", vt.detection_efficiency(dict(lam=lam, mu=mu))[0], want[0])


@harness("C08", modes=("numpy", "jax"), witnesses=3, bounds="2 found injections, convergence not enforced: the call returns the efficiency and its variance")
def call(h, cfg):
    from gwpopulation.vt import ResamplingVT
    data, raw, tot = injections(h, 2, "sym", lo=0)
    lam = h.real("lam", 0.5, 2)
    vt = ResamplingVT(linear, data, n_events=h.real("nev", 1, 100), enforce_convergence=False)
    got = vt(dict(lam=lam))
    h.true("a pair", isinstance(got, tuple) and len(got) == 2, str(type(got)))
    want = o_eff(h, raw, tot, lambda w: h.ops.of(lam) * w)
    h.eq("efficiency", got[0], want[0])
    h.eq("variance", got[1], want[1], scale=want[0] * want[0] + want[1])
