"""Down-sampling of the event posteriors."""
from .common import harness
from .lik import Pattern, Rand, frame, linear, o_events, o_lnl, same

CFGS = [dict(sizes=(2, 3), max=None), dict(sizes=(3, 3), max=2), dict(sizes=(2,), max=5), dict(sizes=(3, 1), max=2), dict(sizes=(5, 2), max=None)]
CFGS += [dict(sizes=(4,), max=3, index="repeated"), dict(sizes=(4, 2), max=None, index="reverse"), dict(sizes=(3, 2), max=None, index="text")]


LARGE = [dict(sizes=(40, 25, 33), max=None), dict(sizes=(300, 260), max=120), dict(sizes=(150, 500), max=1000), dict(sizes=(60, 80), max=50, index="repeated")]


def constants(h, i, n):
    """distinct values, the first and last ones free"""
    w, x, p = [5 + j / 64 for j in range(n)], [-4 + j / 128 - i for j in range(n)], [0.5 * 2 ** (j % 3) for j in range(n)]
    w[0], w[-1] = h.real("w%da" % i, 0.25, 2), h.real("w%db" % i, 2.5, 4)
    x[0], x[-1] = h.real("x%da" % i, -4, 4), h.real("x%db" % i, -4, 4)
    p[0], p[-1] = h.real("p%da" % i, 0.25, 4), h.real("p%db" % i, 0.25, 4)
    return w, x, p


def build(h, cfg, prior=True, large=False, **kw):
    from gwpopulation.hyperpe import HyperparameterLikelihood
    rows, frames = [], []
    for i, n in enumerate(cfg["sizes"]):
        if large:
            w, x, p = constants(h, i, n)
        else:
            w, x = h.reals("w%d_" % i, n, 0.25, 4), h.reals("x%d_" % i, n, -4, 4)
            p = h.reals("p%d_" % i, n, 0.25, 4)
            for u in range(n):
                for v in range(u):
                    h.assume(w[u] != w[v])
        cols = {"w": w, "x": x}
        if prior:
            cols = {"prior": p, "w": w, "x": x}
        frames.append(frame(h, cols, cfg.get("index")))
        rows.append(list(zip(w, x, p)))
    if cfg["max"] is not None:
        kw["max_samples"] = cfg["max"]
    r = Pattern(h) if large else Rand(h)
    with h.stub(*r.stubs()):
        like = HyperparameterLikelihood(frames, linear, **kw)
    return like, rows, r


def listed(a):
    import numpy as np
    return a.tolist() if isinstance(a, np.ndarray) or a.dtype != object else [[x for x in r] for r in a]


def chosen(h, like, rows, k):
    """which row of the posterior each retained sample is"""
    out = []
    data = listed(like.data["w"])
    for i, rs in enumerate(rows):
        ev = []
        for j in range(k):
            hit = [n for n, r in enumerate(rs) if same(h, data[i][j], r[0])]
            h.true("a retained sample is a posterior sample of the same event", len(hit) == 1, "event %d sample %d" % (i, j))
            if not hit:
                return None
            ev.append(hit[0])
        out.append(ev)
    return out


@harness("C06", modes=("numpy", "jax"), configs=CFGS, thorough=[dict(sizes=(4, 3), max=3), dict(sizes=(7, 2, 2), max=None), dict(sizes=(5, 5), max=2)], witnesses=1, paths=2000,
         bounds="every outcome of the random draw: 1-2 events of 1-5 samples (thorough 3 events, 7 samples), max_samples none, below and above the sizes")
def joint(h, cfg):
    check(h, cfg)


@harness("C06", modes=("numpy", "jax"), configs=LARGE, witnesses=1, bounds="2-3 events of 25 to 500 samples, 4 free values each; the first, the last or a middle remaining sample is drawn each time")
def large(h, cfg):
    r = check(h, cfg, True)
    for c in r.calls:
        h.true("uniform draw over all samples of the event", c["p"] is None and c["n"] in cfg["sizes"] and not c["replace"], str({k: c[k] for k in ("n", "size", "replace")}))


def check(h, cfg, large=False):
    like, rows, r = build(h, cfg, large=large)
    k = min(list(cfg["sizes"]) + ([cfg["max"]] if cfg["max"] else []))
    h.true("samples per posterior", int(like.samples_per_posterior) == k, str(like.samples_per_posterior))
    h.true("columns", set(like.data) == {"w", "x"}, str(sorted(like.data)))
    for c in ("w", "x"):
        h.shape("shape of a column", like.data[c], (len(rows), k))
    h.shape("shape of the prior", like.sampling_prior, (len(rows), k))
    idx = chosen(h, like, rows, k)
    if idx is None:
        return r
    xs, ps = listed(like.data["x"]), listed(like.sampling_prior)
    for i, ev in enumerate(idx):
        h.true("drawn without replacement", len(set(ev)) == k, str(ev))
        for j, n in enumerate(ev):
            h.eq("the columns stay together", xs[i][j], rows[i][n][1])
            h.eq("the prior stays with its sample", ps[i][j], rows[i][n][2])
    lam = h.real("lam", 0.5, 2)
    ev = o_events(h, [[(rows[i][n][0], rows[i][n][2]) for n in e] for i, e in enumerate(idx)], lambda w: h.ops.of(lam) * w)
    h.eq("the likelihood uses the retained samples", like.log_likelihood_ratio(dict(lam=lam)), o_lnl(h, ev, 1))
    return r


@harness("C06", modes=("numpy",), configs=[dict(sizes=(2, 2), max=1)], witnesses=1, paths=500, bounds="every posterior sample can be retained (2 samples, one kept)")
def reachable(h, cfg):
    like, rows, r = build(h, cfg, prior=False)
    h.eq("missing prior column counts as one", like.sampling_prior, 1)
    if not r.calls:
        h.unsupported("sampling not through a modelled generator")
    for c in r.calls:
        h.true("uniform draw over all samples", c["p"] is None and c["n"] == 2 and not c["replace"], str(c))
