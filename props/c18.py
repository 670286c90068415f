"""Mass models with a smooth low-mass turn-on."""
from fractions import Fraction

from .common import harness
from .smooth import Values, hyper, o_pm1, o_pq, o_window

KINDS = ["single", "multi", "broken", "brokenpeak", "user"]
TOP = (2, 50)


@harness("C18", modes=("numpy", "jax", "cupy"), witnesses=4, bounds="any mass in [0.1,500], 0.1<=mmin<=50, upper edge up to 400, turn-on length 0.001..100")
def window(h, cfg):
    from gwpopulation.models.mass import BaseSmoothedMassDistribution as B
    m, mmin, mmax, d = h.real("m", 0.1, 500, log=True), h.real("mmin", 0.1, 50, log=True), h.real("mmax", 51, 400), h.real("d", 0.001, 100, log=True)
    got = B.smoothing(h.arr([m]), mmin=mmin, mmax=mmax, delta_m=d)
    h.eq("Planck-taper window", got, [o_window(h, m, mmin, mmax, d)])
    h.ge("non-negative", got, 0)
    h.ge("at most one", [-x for x in got], -1)


def model(cls, cfg, **k):
    return cls(mmin=TOP[0], mmax=TOP[1], normalization_shape=cfg["grid"], **k)


FREE = {"single": ["m1+lam", "m1+delta_m", "alpha", "mmin", "mmax", "mpp", "sigpp"],
        "multi": ["m1+lam", "m1+lam_1", "m1+delta_m", "alpha", "mmin", "mmax", "mpp_1", "mpp_2", "sigpp_1", "sigpp_2"],
        "broken": ["m1+delta_m", "alpha_1", "alpha_2", "mmin", "mmax", "b"],
        "brokenpeak": ["m1+lam", "m1+delta_m", "alpha_2", "mpp", "sigpp"],
        "user": ["m1+delta_m", "m1+mmin", "m1+c"]}
P1 = [dict(kind=k, grid=(4, 3), free=f) for k in KINDS for f in FREE[k]]


@harness("C18", modes=("numpy", "jax"), configs=P1, thorough=[dict(c, grid=(6, 3)) for c in P1], witnesses=2, paths=4000,
         bounds="primary mass density: 1 sample, 4-node normalisation grid, the four built-in models and a user-defined one; each parameter symbolic in turn, the others fixed")
def primary(h, cfg):
    v = Values(h, cfg["free"])
    cls, p, prim = hyper(h, cfg["kind"], TOP[1], v)
    d = v("delta_m", 20, 0.1, 30)
    m = v("m1", 12, 1, 70)
    M = model(cls, cfg)
    got = M.p_m1({"mass_1": h.arr([m])}, delta_m=d, **p, **M.kwargs)
    grid = h.linspace(*TOP, cfg["grid"][0])
    h.eq("normalised smoothed density", got, [o_pm1(h, m, prim, p["mmin"], TOP[1], d, grid)])


PQ = [dict(kind="user", grid=(4, 3), free=f) for f in ("q", "m1", "beta", "delta_m", "mmin", "q+m1")] + [dict(kind="user", grid=(5, 4), free=f) for f in ("q", "m1")]


@harness("C18", modes=("numpy", "jax"), configs=PQ, witnesses=2, paths=6000, rtol=1e-6,
         bounds="mass-ratio density given the primary mass: 1 sample, exponent in [-4,8], 4 x 3-4 normalisation grid")
def mass_ratio(h, cfg):
    v = Values(h, cfg["free"])
    cls, p, prim = hyper(h, cfg["kind"], TOP[1], v)
    d = v("delta_m", 20, 0.1, 30)
    m, q, beta = v("m1", 18 if cfg["free"] in ("beta", "mmin") else 20, 1, 70), v("q", Fraction(3, 4), 0.01, 1.2), v("beta", 1, -4, 8, pts=[-1, 0])
    o = h.ops
    if h.sym and "beta" in cfg["free"]:
        beta > -1, beta == -1      # the sign of 1 + beta is needed on every path
    h.assume(o.of(m) != o.of(p["mmin"]))
    h.assume(o.of(p["mmin"]) != 2)
    h.assume(o.of(m) * o.of(q) != o.of(p["mmin"]))
    M = model(cls, cfg)
    got = M.p_q({"mass_1": h.arr([m]), "mass_ratio": h.arr([q])}, beta=beta, mmin=p["mmin"], delta_m=d)
    grid, qs = h.linspace(*TOP, cfg["grid"][0]), h.linspace(0.001, 1, cfg["grid"][1])
    h.eq("normalised over the mass ratio", got, [o_pq(h, q, m, beta, p["mmin"], d, grid, qs)])


J = [dict(kind="user", free="m1+q", delta=20), dict(kind="user", free="m1+q", delta=None)]
J += [dict(kind="user", free=f, delta=20, cache=False) for f in ("m1", "q")] + [dict(kind="single", free="q", delta=20, cache=False)]
J += [dict(kind=k, free=f, delta=d) for k in KINDS[:4] for f, d in (("q", 20), ("m1", None), ("lam" if "peak" in k or k != "broken" else "m1", 20))]
SETS = {"single": {"alpha", "mmin", "mmax", "lam", "mpp", "sigpp"}, "multi": {"alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2"},
        "broken": {"alpha_1", "alpha_2", "mmin", "mmax", "break_fraction"}, "brokenpeak": {"alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp", "sigpp"},
        "user": {"c", "mmin"}}


@harness("C18", modes=("numpy", "jax"), configs=J, witnesses=2, paths=4000, rtol=1e-6,
         bounds="joint density of primary mass and mass ratio of one sample, all five models, with and without smoothing; 4x3 grid")
def joint(h, cfg):
    v = Values(h, cfg["free"])
    cls, p, prim = hyper(h, cfg["kind"], TOP[1], v)
    d = v("delta_m", cfg["delta"], 0.1, 30) if cfg["delta"] else 0
    m, q, beta = v("m1", 20, 1, 70), v("q", Fraction(3, 4), 0.01, 1.2), v("beta", 1, -4, 8)
    o = h.ops
    h.assume(o.of(m) != o.of(p["mmin"]))
    h.assume(o.of(m) * o.of(q) != o.of(p["mmin"]))
    if cfg["kind"] == "user" and not cfg["delta"]:
        # a user's model that does not vanish outside the mass range is only cut there when smoothing is applied
        h.assume(o.of(m) >= o.of(p["mmin"]))
        h.assume(o.of(m) <= TOP[1])
    M = cls(mmin=TOP[0], mmax=TOP[1], normalization_shape=(4, 3), cache=cfg.get("cache", True))
    h.true("parameters of the model", set(M.variable_names) == SETS[cfg["kind"]] | {"beta", "delta_m"}, str(sorted(M.variable_names)))
    kw = dict(p, beta=beta)
    if cfg["delta"] or h.mode == "jax":
        kw["delta_m"] = d
    got = M({"mass_1": h.arr([m]), "mass_ratio": h.arr([q])}, **kw)
    grid, qs = h.linspace(*TOP, 4), h.linspace(0.001, 1, 3)
    a = o_pm1(h, m, prim, p["mmin"], TOP[1], d, grid)
    h.eq("product of the two densities", got, [a * o_pq(h, q, m, beta, p["mmin"], d, grid, qs)])


@harness("C18", modes=("numpy", "cupy"), configs=[dict(kind=k) for k in KINDS], witnesses=3, bounds="limits outside the model's mass range: minimum in [0.5,10], maximum in [30,70]")
def limits(h, cfg):
    v = Values(h, "")
    cls, p, prim = hyper(h, cfg["kind"], TOP[1], v)
    p["mmin"] = h.real("mmin", 0.5, 10, pts=[2])
    bad = p["mmin"] < 2
    if "mmax" in p:
        p["mmax"] = h.real("mmax", 30, 70, pts=[50])
        bad = bad or p["mmax"] > 50
    M = cls(mmin=TOP[0], mmax=TOP[1], normalization_shape=(4, 3))
    f = lambda: M({"mass_1": h.arr([19.0]), "mass_ratio": h.arr([0.75])}, beta=1.0, delta_m=3.0, **p)
    if bad:
        h.raises("rejected", ValueError, f)
    else:
        f()
        h.true("accepted", True)


@harness("C18", modes=("numpy", "jax"), configs=[dict(kind=k, free=f) for k in ("single", "user") for f in ("q", "m1")], grid_cap=3, witnesses=2, paths=4000, rtol=1e-6,
         bounds="models built without arguments: masses from 2 to 100 on a 1000 x 500 grid (3 x 3 symbolically, full in replays); one sample")
def defaults(h, cfg):
    v = Values(h, cfg["free"])
    cls, p, prim = hyper(h, cfg["kind"], 100, v)
    o = h.ops
    m, q = v("m1", 20, 6, 130), v("q", Fraction(3, 4), 0.01, 1.2)
    h.assume(o.of(m) * o.of(q) != o.of(p["mmin"]))
    M = cls()
    got = M({"mass_1": h.arr([m]), "mass_ratio": h.arr([q])}, beta=1, delta_m=20, **p)
    grid, qs = h.linspace(2, 100, 1000), h.linspace(0.001, 1, 500)
    if not h.sym:
        got2 = type(M)(mmin=2, mmax=100, normalization_shape=(1000, 500))({"mass_1": h.arr([m]), "mass_ratio": h.arr([q])}, beta=1, delta_m=20, **p)
        h.eq("as with the documented defaults given", got, got2)
        return
    h.eq("product of the two densities on the default grid", got, [o_pm1(h, m, prim, p["mmin"], 100, 20, grid) * o_pq(h, q, m, 1, p["mmin"], 20, grid, qs)])
