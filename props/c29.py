"""The likelihood as a NumPyro model."""
import numpy as np

from gwpopulation.experimental import numpyro as _warm  # noqa: F401  (loaded before the modules are switched to symbolic arrays)
from .common import harness
from .cosmo import cosmology, dvc, p15
from .lik import Rand, affine, conv, frame, linear, o_events, seeded

NODES = 2500
BIG = float(np.finfo(np.float64).max)


class Recorder:
    def __init__(self, h):
        self.h, self.det, self.smp, self.gam = h, {}, {}, []

    def deterministic(self, name, value):
        if name in self.det:
            self.h.true("one value per name", False, "%s recorded twice" % name)
        self.det[name] = value
        return value

    def gamma(self, concentration, rate=1.0, **k):
        if k:
            self.h.unsupported("gamma arguments")
        return ("gamma", concentration, rate)

    def sample(self, name, fn, *a, **k):
        self.smp[name] = fn
        return self.h.real("draw_" + name, 0.1, 3)

    def stubs(self):
        import numpyro
        import numpyro.distributions as D
        from gwpopulation.experimental import numpyro as N
        out = [(numpyro, "deterministic", self.deterministic), (numpyro, "sample", self.sample), (D, "Gamma", self.gamma)]
        for k, v in (("deterministic", self.deterministic), ("sample", self.sample), ("Gamma", self.gamma)):
            if k in N.__dict__:
                out.append((N, k, v))
        return out


def at(x, i):
    return x[i]


LK = [dict(sizes=(2, 2), n=2, sel=True, conv=True, limit=False), dict(sizes=(3, 2), n=2, sel=True, conv=False, limit=True), dict(sizes=(1, 1, 1), n=2, sel=True, conv=True, limit=True),
      dict(sizes=(2, 2), n=0, sel=False, conv=True, limit=True), dict(sizes=(2,), n=3, sel=True, conv=False, limit=False, redshift=True), dict(sizes=(1, 2), n=0, sel=False, conv=False, limit=False)]


def case(h, cfg):
    from gwpopulation import hyperpe
    from gwpopulation.models.redshift import PowerLawRedshift
    from gwpopulation.vt import ResamplingVT
    o = h.ops
    nk = min(cfg["sizes"])
    lo = cfg.get("lo", 0.25)
    ws = [h.reals("e%d_" % i, k, lo, 4) for i, k in enumerate(cfg["sizes"])]
    ps = [h.reals("p%d_" % i, k, 0.25, 4) for i, k in enumerate(cfg["sizes"])]
    fr = [frame(h, {"w": w, "prior": p}) for w, p in zip(ws, ps)]
    par = {"lam": h.real("lam", 0.5, 2)}
    lam, mu = o.of(par["lam"]), o.of(0)
    kw, model = {}, linear
    if cfg["conv"]:
        par["kap"] = h.real("kap", 0.25, 2)
        kw["conversion_function"] = conv
        lam, mu = o.of(par["lam"]) + o.of(par["kap"]), o.of(par["lam"]) * o.of(par["kap"])
        model = affine
    f = lambda w: lam * o.of(w) + mu
    out = dict(par=par, f=f)
    if cfg["sel"]:
        iw, ip = h.reals("w", cfg["n"], lo, 4), h.reals("ip", cfg["n"], 0.25, 4)
        tot, T = h.real("total", cfg["n"], 40), h.real("T", 0.5, 4)
        data = {"w": h.arr(iw), "prior": h.arr(ip), "total_generated": tot, "analysis_time": T}
        models = [model]
        g = f
        if cfg.get("redshift"):
            data["redshift"] = h.arr([0.5] * cfg["n"])
            rm = PowerLawRedshift(z_max=1.5)
            models = [model, rm]
            par["lamb"] = h.real("lamb", -2, 4)
            zs = h.linspace(1e-6, 1.5, NODES)
            c = p15()
            F = lambda m, z: dvc(m, z, c) * (1 + z) ** m.of(par["lamb"]) / (1 + z)
            norm = h.trapz(h.map(F, zs), zs)
            vol = norm * o.of(T) / 10 ** 9
            half = o.of(0.5) if not h.sym else o.q(1, 2)
            rz = dvc(o, half, [o.of(v) for v in c]) * (1 + half) ** (o.of(par["lamb"]) - 1) / norm
            g = lambda w: f(w) * rz
        else:
            zs = h.linspace(0, 2.3, NODES)
            c = p15()
            vol = h.trapz(h.map(lambda m, z: dvc(m, z, c) / (1 + z), zs), zs) * o.of(T) / 10 ** 9
        iwt = [g(w) / o.of(p) for w, p in zip(iw, ip)]
        t = o.of(tot)
        eff = sum(iwt[1:], iwt[0]) / t
        evar = sum([x * x for x in iwt[1:]], iwt[0] * iwt[0]) / (t * t) - eff * eff / t
        sel = ResamplingVT(models, data, n_events=len(ws))
        kw["selection_function"] = sel
        out.update(iwt=iwt, eff=eff, evar=evar, vol=vol, inj=dict(w=iw, prior=ip))
    # equal numbers of samples keep their order
    with seeded(h):
        like = hyperpe.HyperparameterLikelihood(fr, model if not cfg.get("redshift") else model, **kw)
    # which samples were kept is decided by C06; read them off the data
    kept = []
    for i, w in enumerate(ws):
        row = []
        for j in range(nk):
            v = like.data["w"][i, j]
            from .lik import same
            idx = [k for k in range(len(w)) if same(h, v, w[k])]
            if len(idx) != 1:
                h.assume(False)
            row.append((w[idx[0]], ps[i][idx[0]]))
        kept.append(row)
    out.update(like=like, kept=kept, nk=nk, n=len(ws))
    return out


def o_all(h, c):
    o = h.ops
    ev = o_events(h, c["kept"], c["f"])
    lnb = [o.log(m) for m, _, _ in ev]
    var = [v / (k * m * m) for m, v, k in ev]
    lnl, tv = sum(lnb[1:], lnb[0]), sum(var[1:], var[0])
    s = sv = None
    if "eff" in c:
        s, sv = -o.log(c["eff"]) * c["n"], c["evar"] / (c["eff"] * c["eff"]) * c["n"] * c["n"]
        lnl, tv = lnl + s, tv + sv
    return lnb, var, s, sv, lnl, tv


@harness("C29", modes=("jax",), configs=LK, grid_cap=3, witnesses=3, rtol=1e-8, paths=2000,
         bounds="up to 3 events of up to 2 retained samples, 2-3 injections; with/without selection, conversion, redshift model, variance limit; volume grid reduced to 3 nodes symbolically")
def likelihood(h, cfg):
    from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
    o = h.ops
    c = case(h, cfg)
    lnb, var, s, sv, lnl, tv = o_all(h, c)
    r = Recorder(h)
    kw = {}
    if cfg["limit"]:
        kw["varmax"] = h.real("varmax", 0.01, 3)
    par = dict(c["par"])
    with h.stub(*r.stubs()):
        got = gwpopulation_likelihood_model(c["like"], par, apply_selection=cfg["sel"], predictive_resample=False, **kw)
    h.true("hyperparameters unchanged", set(par) == set(c["par"]))
    for i in range(c["n"]):
        h.eq("per-event log Bayes factor", at(r.det["ln_bayes_factors"], i), lnb[i], atol=1e-9)
        h.eq("per-event variance", at(r.det["variances"], i), var[i], atol=1e-9)
    h.eq("total", r.det["ln_l"], lnl, atol=1e-9)
    h.eq("total variance", r.det["variance"], tv, atol=1e-9)
    if cfg["sel"]:
        h.eq("selection term", r.det["selection"], s, atol=1e-9)
        h.eq("variance of the selection term", r.det["selection_variance"], sv, atol=1e-9)
        h.true("the rate is drawn from a gamma distribution", "rate" in r.smp and r.smp["rate"][0] == "gamma")
        h.eq("shape: the number of events", r.smp["rate"][1], c["n"])
        h.eq("rate: the sensitive four-volume", r.smp["rate"][2], c["vol"] * c["eff"])
    else:
        h.true("no rate without selection effects", not r.smp)
    if cfg["limit"] and tv > o.of(kw["varmax"]):
        h.true("rejected with the most negative finite number", bool(got < -1e300) and bool(o.isfinite(got) if h.sym else np.isfinite(float(got))), repr(got))
    else:
        h.eq("returned value", got, lnl, atol=1e-9)


@harness("C29", modes=("jax",), configs=[dict(sizes=(1, 1), n=2, sel=True, conv=True, limit=False, lo=0), dict(sizes=(1,), n=2, sel=False, conv=False, limit=False, lo=0)], grid_cap=3, witnesses=3, rtol=1e-8,
         bounds="an event without any supported sample, with a variance limit; also without any supported injection (an undefined estimate)")
def unsupported_event(h, cfg):
    from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
    c = case(h, dict(cfg, conv=False))
    o = h.ops
    r = Recorder(h)
    dead = [all(o.of(w) == 0 for w, _ in ev) for ev in c["kept"]]
    h.assume(any(dead))
    with h.stub(*r.stubs()):
        got = gwpopulation_likelihood_model(c["like"], dict(c["par"]), varmax=1.5, apply_selection=cfg["sel"], predictive_resample=False)
    h.true("effectively minus infinite", bool(got < -1e300), repr(got))


RS = [dict(sizes=(2, 2), n=2, sel=True, conv=True, limit=False, keys=None), dict(sizes=(3,), n=2, sel=True, conv=False, limit=False, keys=["w"]), dict(sizes=(2,), n=2, sel=True, conv=False, limit=False, keys=[]), dict(sizes=(2, 2), n=0, sel=False, conv=True, limit=False, keys=None)]


@harness("C29", modes=("jax",), configs=RS, grid_cap=3, witnesses=2, rtol=1e-8, paths=2000,
         bounds="predictive draws from 1-2 events of 2-3 samples and from 2 injections, all outcomes of the draws")
def resampling(h, cfg):
    from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
    o = h.ops
    c = case(h, cfg)
    r, rnd = Recorder(h), Rand(h)
    kw = {} if cfg["keys"] is None else dict(fit_keys=list(cfg["keys"]))
    with h.stub(*(r.stubs() + rnd.stubs())):
        got = gwpopulation_likelihood_model(c["like"], dict(c["par"]), apply_selection=cfg["sel"], **kw)
    h.eq("the returned value is not affected", got, o_all(h, c)[4], atol=1e-9)
    calls = list(rnd.calls)
    h.true("one draw per event and per injection set", len(calls) == c["n"] + (1 if cfg["sel"] else 0), str(len(calls)))
    if len(calls) != c["n"] + (1 if cfg["sel"] else 0):
        return
    if cfg["sel"]:
        d = calls.pop(0)
        h.true("as many injections as events", d["size"] == c["n"] and d["n"] == cfg["n"])
        tot = sum(c["iwt"][1:], c["iwt"][0])
        h.eq("injections drawn by their weights", [d["p"][i] for i in range(cfg["n"])], [x / tot for x in c["iwt"]])
        idx = d["out"]
        for key in ["w", "prior"] if cfg["keys"] is None else cfg["keys"]:
            if key in c["inj"]:
                h.eq("the injections drawn", r.det["%s_injections" % key], [c["inj"][key][i] for i in idx])
    for e, d in enumerate(calls):
        w = [c["f"](x) / o.of(p) for x, p in c["kept"][e]]
        tot = sum(w[1:], w[0])
        h.eq("event samples drawn by their weights", [d["p"][i] for i in range(c["nk"])], [x / tot for x in w])
        h.true("one sample per event", d["size"] == 1 and d["n"] == c["nk"])
        j = d["out"][0]
        if cfg["keys"] != []:
            h.eq("the event's own sample", r.det["w_%d" % e], c["kept"][e][j][0])
        if cfg["keys"] is None:
            for k in r.det:
                if k == "prior_%d" % e:
                    h.eq("with its prior", r.det[k], c["kept"][e][j][1])
    h.true("requested parameters only", {k for k in r.det if k.startswith("w_")} == (set() if cfg["keys"] == [] else {"w_%d" % e for e in range(c["n"])} | ({"w_injections"} if cfg["sel"] else set())))
