"""Spline-based population models."""
from fractions import Fraction

from symx.engine import S
from symx.stubs import spline
from .common import harness, o_powerlaw, o_trapz
from .smooth import Values, o_pq, o_window


def const(h, x):
    return S.of(Fraction(x)) if h.sym else float(x)


def kind_of(h, cfg):
    return cfg["kind"]


def setup(h, cfg, n, free_x):
    """node positions (regular, in log for log_nodes) and values -> names, xs, fs"""
    if cfg.get("log"):
        x0 = h.real("x0", 0.5, 2) if free_x else const(h, 1)
        xs = [x0 * 2 ** i for i in range(n)]
    else:
        x0 = h.real("x0", -0.5, 1.5) if free_x else const(h, Fraction(1, 4))
        dx = h.real("dx", 0.25, 1) if free_x else const(h, Fraction(1, 2))
        xs = [x0 + dx * i for i in range(n)]
    fs = h.reals("f", n, -3, 3)
    return xs, fs


def o_reg(h, fs, rms):
    o = h.ops
    ms = sum((o.of(f) * o.of(f) for f in fs), o.of(0)) / len(fs)
    return [o.of(f) * o.of(rms) / o.sqrt(ms) for f in fs]


def o_density(h, kind, log, x, xs, fs):
    o = h.ops
    x, xs = o.of(x), [o.of(v) for v in xs]
    if x < xs[0] or x > xs[-1]:
        return o.of(0)
    t = (lambda v: o.log(v)) if log else (lambda v: v)
    return o.exp(spline(o, kind, t(x), [t(v) for v in xs], fs))


CF = [dict(cls=c, kind=k, reg=r, log=l, n=n, free=f) for c, k, r, l, n, f in (
    ("base2", "cubic", False, False, 4, True), ("base2", "linear", False, False, 4, False), ("base1", "cubic", True, False, 4, False), ("base1", "cubic", False, True, 5, True),
    ("base1", "linear", True, True, 4, False), ("base3", "cubic", True, False, 4, False), ("mag", "cubic", True, False, 5, False), ("mag", "linear", False, False, 4, True), ("tilt", "cubic", False, False, 5, True), ("tilt", "cubic", True, False, 4, False))]
CF += [dict(cls=c, kind="cubic", reg=False, log=False, n=n, free=False, default=True) for c, n in (("mag", 5), ("tilt", 5), ("base1", 10))]


def build(cfg, **over):
    from gwpopulation.models import spin
    from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical as B
    kw = dict(nodes=cfg["n"], kind=cfg["kind"], regularize=cfg["reg"])
    kw.update(over)
    if cfg.get("default"):
        kw = {}
    if cfg["cls"] == "mag":
        return spin.SplineSpinMagnitudeIdentical(**kw), ["a_1", "a_2"], "a", (0, 1)
    if cfg["cls"] == "tilt":
        return spin.SplineSpinTiltIdentical(**kw), ["cos_tilt_1", "cos_tilt_2"], "cos_tilt", (-1, 1)
    names = {"base1": ["mass_1"], "base2": ["a_1", "a_2"], "base3": ["x", "y", "zz"]}[cfg["cls"]]
    lim = (0.5, 4) if cfg["log"] else (0, 2)
    if cfg["log"]:
        kw["log_nodes"] = True
    return B(names, *lim, **kw), names, {"base1": "mass", "base2": "a", "base3": "x"}[cfg["cls"]], lim


def check(h, cfg, M, names, base, lim, n, xs, fs, label):
    o = h.ops
    par = {"%s%d" % (base, i): x for i, x in enumerate(xs)}
    par.update({"f%s%d" % (base, i): f for i, f in enumerate(fs)})
    if cfg["reg"]:
        h.assume(sum((o.of(f) * o.of(f) for f in fs), o.of(0)) > 0)
        par["rms" + base] = h.real("rms", 0.1, 4)
        fs = o_reg(h, fs, par["rms" + base])
    h.true("hyperparameter names", set(M.variable_names) == set(par) or label != "density", str(M.variable_names))
    lo, hi = (0.25, 24) if cfg["log"] else (-2, 5)
    data = {k: [h.real("%s_s" % k, lo, hi)] for k in names[:1]}
    for j, k in enumerate(names[1:]):
        data[k] = [const(h, Fraction(3 + 2 * j, 4))]
    got = M({k: h.arr(v) for k, v in data.items()}, **par)
    grid = h.linspace(lim[0], lim[1], 10 * n)
    norm = h.trapz([o_density(h, cfg["kind"], cfg["log"], g, xs, fs) for g in grid], grid)
    if norm == 0:
        return
    want = o.of(1)
    for k in names:
        want = want * o_density(h, cfg["kind"], cfg["log"], data[k][0], xs, fs) / norm
    h.eq(label, got, [want])
    h.shape("one value per sample", got, (1,))


@harness("C20", modes=("numpy", "jax"), configs=CF, grid_cap=3, witnesses=2, paths=3000, rtol=1e-7,
         bounds="4-5 nodes on a regular grid of any position and spacing, values in [-3,3]; one sample per parameter, anywhere; 3 symbolic grid nodes (10 per node in replays)")
def density(h, cfg):
    M, names, base, lim = build(cfg)
    xs, fs = setup(h, cfg, cfg["n"], cfg["free"])
    check(h, cfg, M, names, base, lim, cfg["n"], xs, fs, "density")


@harness("C20", modes=("numpy", "jax"), configs=CF[:7], grid_cap=3, witnesses=2, paths=3000, rtol=1e-7,
         bounds="models built for 4 nodes, evaluated with 4 to 6")
def node_count(h, cfg):
    n = 4 + h.choose("extra", 3)
    M, names, base, lim = build(cfg, nodes=4)
    xs, fs = setup(h, cfg, n, False)
    check(h, cfg, M, names, base, lim, n, xs, fs, "density with the number of nodes given by the parameters")


PL = [dict(kind=k, reg=r, free=f, delta=d) for k, r, f, d in (
    ("cubic", False, "m1", 20), ("cubic", False, "m1", None), ("linear", False, "m1", 20), ("cubic", True, "f", 20), ("linear", True, "f", None), ("cubic", False, "alpha", 20), ("cubic", False, "delta_m", 20), ("cubic", False, "mmax", 20),
    ("cubic", False, "x0", 20))]


@harness("C20", modes=("numpy", "jax"), configs=[{}], witnesses=2, paths=2000, grid_cap=3, bounds="interpolated power law built without arguments: names, and the density against one built with the documented defaults")
def interpolated_defaults(h, cfg):
    from gwpopulation.models.mass import InterpolatedPowerlaw
    A, B = InterpolatedPowerlaw(), InterpolatedPowerlaw(nodes=10, kind="cubic", mmin=2, mmax=100, normalization_shape=(1000, 500), regularize=False)
    want = {"alpha", "beta", "mmin", "mmax", "delta_m"} | {"%s%d" % (k, i) for k in ("mass", "fmass") for i in range(10)}
    h.true("hyperparameter names", set(A.variable_names) == set(B.variable_names) == want, str(sorted(A.variable_names)))
    par = dict(alpha=const(h, 2), beta=const(h, 1), mmin=const(h, 5), mmax=const(h, 90), delta_m=const(h, 8))
    for i in range(10):
        par["mass%d" % i] = const(h, Fraction(2) * Fraction(3, 2) ** i)
        par["fmass%d" % i] = const(h, Fraction((7 * i) % 5 - 2, 2))
    m, q = h.real("m1", 6, 120), h.real("q", 0.25, 1)
    h.assume(h.O(m) * h.O(q) != 5)
    data = {"mass_1": h.arr([m]), "mass_ratio": h.arr([q])}
    h.eq("same density", A(data, **par), B(data, **par))


@harness("C20", modes=("numpy", "jax"), configs=PL, witnesses=2, paths=4000, rtol=1e-6,
         bounds="interpolated power law: 4 nodes, 4 x 3 grid, one sample; each parameter symbolic in turn, node values symbolic or fixed")
def interpolated_power_law(h, cfg):
    from gwpopulation.models.mass import InterpolatedPowerlaw
    o = h.ops
    v = Values(h, cfg["free"])
    M = InterpolatedPowerlaw(nodes=4, kind=cfg["kind"], mmin=2, mmax=50, normalization_shape=(4, 3), regularize=cfg["reg"])
    x0 = v("x0", Fraction(5, 2), 1, 8)
    xs = [x0 * 3 ** i for i in range(4)]
    fs = h.reals("f", 4, -3, 3) if cfg["free"] == "f" else [const(h, Fraction(k, 4)) for k in (1, -3, 2, 5)]
    p = dict(alpha=v("alpha", 2, -4, 8), mmin=const(h, 5), mmax=v("mmax", 40, 30, 50), beta=const(h, 1))
    if cfg["free"] == "alpha":
        h.assume(p["alpha"] != 1)
        if h.sym:
            p["alpha"] > 1
    d = v("delta_m", cfg["delta"], 0.1, 30) if cfg["delta"] else 0
    m, q = v("m1", 12, 6, 70), const(h, Fraction(7, 8))
    par = dict(p, delta_m=d, **{"mass%d" % i: x for i, x in enumerate(xs)}, **{"fmass%d" % i: f for i, f in enumerate(fs)})
    if cfg["reg"]:
        h.assume(sum((o.of(f) * o.of(f) for f in fs), o.of(0)) > 0)
        par["rmsmass"] = h.real("rms", 0.1, 4) if cfg["free"] == "f" else const(h, 2)
        fs = o_reg(h, fs, par["rmsmass"])
    h.true("hyperparameter names", set(M.variable_names) == set(par), str(sorted(M.variable_names)))
    got = M({"mass_1": h.arr([m]), "mass_ratio": h.arr([q])}, **par)
    grid, qs = h.linspace(2, 50, 4), h.linspace(0.001, 1, 3)

    def un(x):
        a = o_powerlaw(h, x, -o.of(p["alpha"]), p["mmax"], p["mmin"]) * o_density(h, cfg["kind"], True, x, xs, fs)
        return a * o_window(h, x, p["mmin"], 50, d)
    n = o_trapz(h, [un(x) for x in grid], grid)
    if n == 0:
        return
    h.eq("power law modulated by the spline, smoothed and normalised", got, [un(m) / n * o_pq(h, q, m, p["beta"], p["mmin"], d, grid, qs)])
