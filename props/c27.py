"""The same numbers whatever array library is active."""
from .common import harness
from .lik import Rand, affine, conv, frame, seeded
from . import zoo


def flat(x):
    return [v for v in x] if getattr(x, "ndim", 0) else [x]


def compare(h, f, label, atol=None):
    """f() under every backend; the later ones against the first"""
    with h.under("numpy"):
        ref = f()
    for mode in ("jax", "cupy"):
        with h.under(mode):
            got = f()
        for k in ref:
            h.shape("%s: shape of %s with %s" % (label, k, mode), got[k], getattr(ref[k], "shape", ()))
            h.eq("%s: %s with %s" % (label, k, mode), flat(got[k]), flat(ref[k]), atol=atol)


@harness("C27", modes=("numpy",), configs=[dict(name=n) for n in zoo.NAMES + zoo.CLASSES], grid_cap=3, witnesses=2, paths=3000, rtol=1e-8,
         bounds="every model, 1 sample with symbolic values, numpy against jax and cupy (a stand-in with numpy's semantics)")
def models(h, cfg):
    build, d, par = zoo.case(h, cfg["name"])

    def f():
        return dict(density=build()({k: h.arr(v) for k, v in d.items()}, **par))
    compare(h, f, cfg["name"])


@harness("C27", modes=("numpy",), witnesses=2, rtol=1e-8, bounds="densities of array arguments, 2 samples")
def functions(h, cfg):
    from gwpopulation import conversions as C, utils as U
    x, a, b = h.reals("x", 2, 0.1, 0.9), h.reals("a", 2, 0.5, 3), h.reals("b", 2, 0.5, 3)
    m = h.real("mu", 0.2, 0.8)

    def f():
        X, A, B = h.arr(x), h.arr(a), h.arr(b)
        one, two, lo = h.arr([1.0, 1.0]), h.arr([1.5, 2.0]), h.arr([0.05, 0.125])
        out = dict(beta=U.beta_dist(X, alpha=a[0], beta=b[0], scale=1), power=U.powerlaw(X, A, two, lo), norm=U.truncnorm(X, mu=m, sigma=b[0], high=1, low=0.0), gauss=U.unnormalized_2d_gaussian(X, A, 0.25, 0.5, 0.75, 1.25, 0.5),
                   mises=U.von_mises(X, m, 1.5), integral=U.trapezoid(X, A), step=U.trapezoid(X, dx=0.5))
        out["mean"], out["variance"], _ = C.alpha_beta_max_to_mu_var_max(A, B, one)
        return out
    compare(h, f, "functions")


LK = [dict(cls=c, sel=s, conv=k, lim=l) for c, s, k, l in (("hyper", "vt", True, True), ("rate", "one", False, False), ("null", "vt", False, True), ("hyper", "marg", False, False))]


@harness("C27", modes=("numpy",), configs=LK, witnesses=2, paths=3000, grid_cap=3, rtol=1e-8,
         bounds="likelihoods of 2 events of 2 samples with 2 injections; value, variance, statistics, efficiency, hypervolume")
def likelihood(h, cfg):
    from gwpopulation import hyperpe
    from gwpopulation.vt import ResamplingVT
    cls = dict(hyper=hyperpe.HyperparameterLikelihood, rate=hyperpe.RateLikelihood, null=hyperpe.NullHyperparameterLikelihood)[cfg["cls"]]
    cols = [{"w": h.reals("e%d_" % i, 2, 0.25, 4), "prior": h.reals("p%d_" % i, 2, 0.25, 4)} for i in range(2)]
    par = dict(lam=h.real("lam", 0.5, 2), rate=h.real("rate", 0.5, 2))
    par["kap" if cfg["conv"] else "mu"] = h.real("kap", 0.25, 2)
    iw, tot = h.reals("w", 2, 0.25, 4), h.real("total", 2, 40)
    lim = h.real("umax", 0.1, 3) if cfg["lim"] else None

    def f():
        kw = dict(conversion_function=conv) if cfg["conv"] else {}
        if lim is not None:
            kw["maximum_uncertainty"] = lim
        if cfg["sel"] == "one":
            sel = lambda p: p["lam"] * 0.5
        else:
            inj = {"w": h.arr(iw), "prior": h.arr([0.5, 0.75]), "total_generated": tot, "analysis_time": 2.0}
            sel = ResamplingVT(affine, inj, n_events=0.01, marginalize_uncertainty=cfg["sel"] == "marg")
        with seeded(h):
            L = cls([frame(h, c) for c in cols], affine, ln_evidences=[1.5, -0.5], selection_function=sel, **kw)
        out = {}
        out["log likelihood"], out["variance"] = L.ln_likelihood_and_variance(dict(par))
        out["ratio"] = L.log_likelihood_ratio(dict(par))
        out["total"] = L.log_likelihood(dict(par))
        st = L.generate_extra_statistics(dict(par))
        out.update({k: v for k, v in st.items() if k not in par})
        if cfg["sel"] != "one":
            p = conv(par)[0] if cfg["conv"] else par
            out["efficiency"], out["efficiency variance"] = sel.detection_efficiency(dict(p))
            out["hypervolume"] = sel.surveyed_hypervolume(dict(p))
        return out
    compare(h, f, cfg["cls"], atol=1e-12)


@harness("C27", modes=("numpy",), witnesses=2, grid_cap=3, rtol=1e-8, bounds="gridded sensitivity 2x3")
def grid(h, cfg):
    import numpy as np
    from gwpopulation.vt import GridVT
    X, Y = np.meshgrid(np.array([1.0, 2.0, 4.0]), np.array([0.5, 1.5]))
    vt, lam = h.reals("v", 6, 0, 2), h.real("lam", 0.5, 2)

    def f():
        g = {"w": h.arr(X), "y": h.arr(Y), "vt": h.arr(np.array(vt, dtype=object if h.sym else float).reshape(2, 3))}
        return dict(vt=GridVT([lambda dataset, lam: lam * dataset["w"] * dataset["y"]], g)(dict(lam=lam)))
    compare(h, f, "grid")


@harness("C27", modes=("numpy",), witnesses=2, rtol=1e-6, bounds="detector-frame samples with a free cosmology, 2 samples")
def cosmological(h, cfg):
    from gwpopulation.experimental.cosmo_models import CosmoModel
    dl, m, c = h.reals("dl", 2, 0.5, 5), h.reals("m", 2, 5, 80), h.real("c", 0.5, 2)

    def f():
        data = {"mass_1_detector": h.arr(m), "mass_ratio": h.arr([0.5, 0.75]), "luminosity_distance": h.arr(dl)}
        fn = lambda dataset, c: c + dataset["mass_1"] * dataset["mass_ratio"] + dataset["redshift"]
        return dict(density=CosmoModel(model_functions=[fn], cosmo_model="FlatLambdaCDM").prob(data, c=c, H0=70.0, Om0=0.3))
    compare(h, f, "cosmology")


@harness("C27", modes=("numpy", "jax", "cupy"), configs=[dict(how=k) for k in ("x", "dx", "unit")], witnesses=2, rtol=1e-12, bounds="trapezoidal integration of a 2x3 array along either axis, with given points, given or unit spacing")
def trapezoidal(h, cfg):
    import numpy as np
    from gwpopulation.utils import trapezoid
    ys = h.reals("y", 6, -3, 3)
    arr = h.arr(ys).reshape((2, 3))
    axis = (-1, 0, 1)[h.choose("axis", 3)]
    n = 2 if axis == 0 else 3
    xs = [0.0]
    kw = {}
    if cfg["how"] == "x":
        for i in range(n - 1):
            xs.append(xs[-1] + h.real("d%d" % i, 0.1, 3))
        kw["x"] = h.arr(xs)
    else:
        d = 1.0
        if cfg["how"] == "dx":
            kw["dx"] = d = h.real("dx", 0.1, 3)
        xs = [i * d for i in range(n)]
    if axis != -1:
        kw["axis"] = axis
    rows = [ys[0:3], ys[3:6]] if axis != 0 else [[ys[j], ys[j + 3]] for j in range(3)]
    h.eq("integrals", trapezoid(arr, **kw), [h.trapz([h.O(v) for v in r], [h.O(x) for x in xs]) for r in rows])
