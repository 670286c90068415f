"""Surveyed hypervolume and rate samples."""
from .common import harness
from .cosmo import cosmology, dvc, p15
from .lik import frame, linear, seeded
from .vts import injections

NODES = 2500


def o_four(h, lamb, T, zmax, c=None):
    c = c or p15()
    zs = h.linspace(0, zmax, NODES)
    f = lambda m, z: dvc(m, z, c) * (1 + z) ** m.of(lamb) / (1 + z)
    return h.trapz(h.map(f, zs), zs) * h.ops.of(T) / 10 ** 9


@harness("C11", modes=("numpy", "jax", "cupy"), configs=[dict(zmax="default"), dict(zmax="free")], grid_cap=4, witnesses=4, rtol=1e-6,
         bounds="index in [-5,8], analysis time 1e-6..1e4, maximum redshift 0.002..20 or the default 2.3; 2500-point grid reduced to 4 nodes symbolically, full in replays")
def four_volume(h, cfg):
    from gwpopulation.models.redshift import total_four_volume
    lamb, T = h.real("lamb", -5, 8, pts=[0, 1]), h.real("T", 1e-6, 1e4, log=True)
    kw = {}
    zmax = 2.3
    if cfg["zmax"] == "free":
        kw["max_redshift"] = zmax = h.real("zmax", 0.002, 20, log=True)
    got = total_four_volume(lamb, T, **kw)
    h.eq("T/10^9 times the volume integral", got, o_four(h, lamb, T, zmax))
    h.gt("positive", got, 0)


def vtcase(h, cfg):
    from gwpopulation.models import redshift as R
    from gwpopulation.vt import ResamplingVT
    data, raw, tot = injections(h, 2, "sym")
    T = 1
    if cfg.get("time", True):
        data["analysis_time"] = T = h.real("T", 1e-6, 1e4, log=True)
    par, models = {"lam": h.real("lam", 0.5, 2)}, [linear]
    o = h.ops
    if cfg["model"] == "none":
        vol = o_four(h, 0, T, 2.3)
        rz = lambda z: o.of(1)
    else:
        cos, c = cosmology(h, cfg["cosmo"])
        par.update(cos)
        zmax = h.real("zmax", 2, 10)
        zs = h.reals("z", 2, 0, 2, open=True)
        data["redshift"] = h.arr(zs)
        par["lamb"] = h.real("lamb", -5, 8, pts=[0, 1])
        grid = h.linspace(1e-6, zmax, NODES)
        f = lambda m, z: dvc(m, z, c) * (1 + z) ** m.of(par["lamb"]) / (1 + z)
        norm = h.trapz(h.map(f, grid), grid)
        vol = norm * o.of(T) / 10 ** 9
        rz = lambda z: dvc(o, o.of(z), [o.of(v) for v in c]) * (1 + o.of(z)) ** (o.of(par["lamb"]) - 1) / norm
        rm = R.PowerLawRedshift(z_max=zmax, cosmo_model=cfg["cosmo"])
        models = [linear, rm] if cfg.get("last", True) else [rm, linear]
    vt = ResamplingVT(models, data, n_events=0.01, **cfg.get("kw", {}))
    s = o.of(0)
    for i, (w, p) in enumerate(raw):
        s = s + o.of(par["lam"]) * o.of(w) * (rz(zs[i]) if cfg["model"] != "none" else 1) / o.of(p)
    return vt, par, vol, s / tot


def before(h, par, single=True):
    """another point: all parameters differ, or a single one, whichever"""
    keys = sorted(par)
    k = h.choose("differs", len(keys) + 1) if single else len(keys)
    new = dict(lam=1.25, lamb=1.0, H0=60.0, Om0=0.25, w0=-1.5)
    return dict(par, **{x: new[x] for x in (keys if k == len(keys) else keys[k:k + 1])})


VT = [dict(model="none"), dict(model="none", time=False), dict(model="z", cosmo="Planck15"), dict(model="z", cosmo="FlatwCDM", last=False)]


@harness("C11", modes=("numpy", "jax"), configs=VT, grid_cap=3, witnesses=4, rtol=1e-6, bounds="2 injections, with and without a redshift model; maximum redshift 2..10; asked first, or after a point that differs in all or in any single parameter, with the same dictionary")
def hypervolume(h, cfg):
    vt, par, vol, mu = vtcase(h, cfg)
    if h.choose("history", 2):
        # another point first, on the same object
        live = before(h, par)
        vt.surveyed_hypervolume(live)
        vt.detection_efficiency(live)
        live.update(par)        # the same dictionary with other values
    else:
        live = dict(par)
    h.eq("surveyed hypervolume", vt.surveyed_hypervolume(live), vol)
    m, v = vt.detection_efficiency(live)
    h.eq("efficiency", m, mu)
    h.eq("asked again", vt.surveyed_hypervolume(dict(par)), vol)


class Gamma:
    """gamma variates: scale times a free positive number; the shape is recorded"""

    def __init__(self, h, name="g"):
        self.h, self.shapes = h, []
        self.g = h.real(name, 1e-6, 1e3, log=True)

    def draw(self, a, scale=1.0, loc=0.0, size=None):
        self.shapes.append(a)
        r = self.h.npf(self.g) * scale + loc
        return r if size in (None, 1, ()) else self.h.arr([r])

    def stubs(self):
        import numpy as np
        from scipy import stats
        G, me = type(stats.gamma), self

        class Frozen:
            def __init__(self, a, loc=0, scale=1):
                self.p = a, scale, loc

            def rvs(self, size=None, random_state=None):
                return me.draw(*self.p, size=size)

        def rvs(slf, a, loc=0, scale=1, size=None, random_state=None):
            return me.draw(a, scale, loc, size)

        def freeze(slf, a, loc=0, scale=1):
            return Frozen(a, loc, scale)
        return [(G, "rvs", rvs), (G, "__call__", freeze), (G, "freeze", freeze),
                (np.random, "gamma", lambda shape, scale=1.0, size=None: me.draw(shape, scale, 0, size)),
                (np.random, "standard_gamma", lambda shape, size=None: me.draw(shape, 1.0, 0, size))]


RATE = VT + [dict(model="f", kind="scalar"), dict(model="f", kind="pair"), dict(model="f", kind="none"), dict(model="none", kw=dict(marginalize_uncertainty=True))]


@harness("C11", modes=("numpy", "jax"), configs=RATE, grid_cap=3, witnesses=4, rtol=1e-6,
         bounds="2 events; selection from injections (with or without a redshift model), from a plain function returning a number or a pair, or absent; the gamma variate is a free positive number")
def rate(h, cfg):
    from gwpopulation.hyperpe import HyperparameterLikelihood
    o = h.ops
    kw = {}
    if cfg["model"] == "f":
        par = {"lam": h.real("lam", 0.5, 2)}
        a = h.real("sel", 0.1, 2)
        v = h.real("var", 0, 1)
        vt = o.of(1)
        if cfg["kind"] != "none":
            vt = o.of(a) * o.of(par["lam"])
            kw["selection_function"] = (lambda p: a * p["lam"]) if cfg["kind"] == "scalar" else (lambda p: (a * p["lam"], v))
    else:
        sel, par, vol, mu = vtcase(h, cfg)
        kw["selection_function"] = sel
        vt = vol * mu
    ws = h.reals("e", 2, 0.25, 4)
    with seeded(h):
        like = HyperparameterLikelihood([frame(h, {"w": [x]}) for x in ws], linear, **kw)
    g = Gamma(h)
    if cfg["model"] != "z" and h.choose("history", 2):      # slow there
        live = before(h, par)
        with h.stub(*Gamma(h, "g0").stubs()):
            like.generate_rate_posterior_sample(live)
        live.update(par)        # the same dictionary with other values
    else:
        live = dict(par)
    with h.stub(*g.stubs()):
        got = like.generate_rate_posterior_sample(live)
    if len(g.shapes) != 1:
        h.unsupported("not drawn through one modelled gamma variate")
    h.eq("shape: the number of events", g.shapes[0], 2)
    h.eq("gamma variate over the observed hypervolume", got, o.of(g.g) / vt)


@harness("C11", modes=("numpy",), witnesses=3, bounds="rate sampled explicitly: returned as given")
def explicit(h, cfg):
    from gwpopulation.hyperpe import RateLikelihood
    lam, r = h.real("lam", 0.5, 2), h.real("rate", 0.1, 100)
    ws = h.reals("e", 2, 0.25, 4)
    with seeded(h):
        like = RateLikelihood([frame(h, {"w": [x]}) for x in ws], linear, selection_function=lambda p: (p["lam"], 0.0))
    h.eq("the sampled rate", like.generate_rate_posterior_sample(dict(lam=lam, rate=r)), r)
