"""Posterior-predictive resampling."""
from .c06 import constants
from .common import harness
from .lik import Pattern, Rand, affine, conv, frame, linear, seeded


def build(h, n, k, cf=False, large=False):
    from gwpopulation.hyperpe import HyperparameterLikelihood
    if large:
        w, x, p = zip(*[constants(h, i, k) for i in range(n)])
    else:
        w = [h.reals("w%d_" % i, k, 0.25, 4) for i in range(n)]
        x = [h.reals("x%d_" % i, k, -4, 4) for i in range(n)]
        p = [h.reals("p%d_" % i, k, 0.25, 4) for i in range(n)]
    with seeded(h):
        like = HyperparameterLikelihood([frame(h, {"w": w[i], "x": x[i], "prior": p[i]}) for i in range(n)], affine,
                                        **(dict(conversion_function=conv) if cf else {}))
    return like


@harness("C07", modes=("numpy", "jax"), witnesses=1, paths=4000,
         configs=[dict(n=1, k=2, s=1, how="dict"), dict(n=1, k=2, s=2, how="frame"), dict(n=2, k=2, s=1, how="list"), dict(n=1, k=2, s=2, how="list", conv=True), dict(n=1, k=2, s=2, how="frame", index="repeated"), dict(n=1, k=2, s=2, how="frame", index="text")],
         thorough=[dict(n=2, k=3, s=2, how="list", _modes=("numpy",)), dict(n=1, k=3, s=3, how="frame", _modes=("numpy",))],
         bounds="1-2 events of 2 samples (thorough 3), 1-2 hyperposterior samples (thorough 3) given as dict, list or frame (with any row labels); every outcome of the draw")
def resample(h, cfg):
    check(h, cfg)


@harness("C07", modes=("numpy", "jax"), witnesses=1, configs=[dict(n=2, k=60, s=1, how="list"), dict(n=1, k=40, s=2, how="frame", conv=True, fixed=True), dict(n=3, k=12, s=1, how="dict"), dict(n=1, k=3, s=130, how="frame", fixed=True, _modes=["numpy"])],
         bounds="up to 3 events of up to 60 samples, 4 free values each, up to 130 hyperposterior samples (fixed then); the first, last or a middle sample drawn each time")
def large(h, cfg):
    check(h, cfg, True)


def check(h, cfg, large=False):
    n, k, s = cfg["n"], cfg["k"], cfg["s"]
    cf = cfg.get("conv", False)
    like = build(h, n, k, cf, large)
    o = h.ops
    a, b = h.reals("lam", s, 0.5, 2), h.reals("mu", s, 0.25, 2)
    if cfg.get("fixed"):
        a, b = [0.5 + i % 2 for i in range(s)], [0.25 + i % 2 for i in range(s)]
    pts = [{"lam": u, ("kap" if cf else "mu"): v} for u, v in zip(a, b)]
    if cfg["how"] == "dict":
        arg = dict(pts[0])
    elif cfg["how"] == "frame":
        arg = frame(h, {c: [q[c] for q in pts] for c in pts[0]}, index=cfg.get("index"))
    else:
        arg = [dict(q) for q in pts]
    r = Pattern(h) if large else Rand(h)
    with h.stub(*r.stubs()):
        out, weights = like.posterior_predictive_resample(arg, return_weights=True)
    if len(r.calls) != n:
        h.unsupported("resampling not through one modelled draw per event")
    h.true("columns", set(out) == set(like.data), str(sorted(out)))
    pos = 0
    for i in range(n):
        tot = [o.of(0)] * k
        for q in pts:
            l = o.of(q["lam"])
            m = l * o.of(q["kap"]) if cf else o.of(q["mu"])
            l = l + o.of(q["kap"]) if cf else l
            ws = [(l * o.of(like.data["w"][i, j]) + m) / o.of(like.sampling_prior[i, j]) for j in range(k)]
            z = sum(ws[1:], ws[0])
            tot = [t + u / z for t, u in zip(tot, ws)]
        want = [t / len(pts) for t in tot]
        h.eq("returned weights: mean normalised importance weight", [weights[i, j] for j in range(k)], want)
        c = r.calls[i]
        h.true("one draw per sample, with replacement", c["n"] == k and c["size"] == k and c["replace"], str({x: c[x] for x in ("n", "size", "replace")}))
        if c["p"] is None:
            h.fail("drawn with these weights", "uniform draw")
        else:
            h.eq("drawn with these weights", list(c["p"]), want)
    # which outcome this path is
    seq = 0
    for i in range(n):
        for j in range(k):
            seq += 1
            d = r.calls[i]["out"][j]
            for col in like.data:
                h.eq("the drawn sample, all columns together", out[col][i, j], like.data[col][i, d])
    for col in like.data:
        h.shape("shape", out[col], (n, k))


@harness("C07", modes=("numpy", "jax"), configs=[dict(n=2, k=1)], witnesses=2, bounds="without return_weights: only the samples are returned")
def plain(h, cfg):
    like = build(h, 2, 1)
    par = dict(lam=h.real("lam", 0.5, 2), mu=h.real("mu", 0.25, 2))
    r = Rand(h)
    before = {c: [like.data[c][i, 0] for i in range(2)] for c in like.data}
    with h.stub(*r.stubs()):
        out = like.posterior_predictive_resample(dict(par))
    h.true("a dictionary of columns", isinstance(out, dict) and set(out) == {"w", "x"}, type(out).__name__)
    for c in out:
        h.eq("single samples are kept", [out[c][i, 0] for i in range(2)], before[c])
        h.eq("the data are unchanged", [like.data[c][i, 0] for i in range(2)], before[c])
