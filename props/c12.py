from .common import harness, o_powerlaw


@harness("C12", modes=("numpy", "jax", "cupy"), configs=[{"n": 1}, {"n": 2}], bounds="power law: 1-2 sample points, alpha in [-12,12], low between 0.01 and 100, high from 6% to 1000 times larger, x between 0.001 and 1e5", witnesses=4)
def density(h, cfg):
    from gwpopulation.utils import powerlaw
    alpha = h.real("alpha", -12, 12, pts=[-1, 0, 1, -2])
    low = h.real("low", 0.01, 100, log=True)
    high = low * (1 + h.real("width", 0.0625, 1000, log=True))
    xs = h.reals("x", cfg["n"], 1e-3, 1e5, log=True)
    got = powerlaw(h.arr(xs), alpha, high, low)
    h.shape("one density per sample", got, (cfg["n"],))
    h.eq("normalised power-law density", got, [o_powerlaw(h, x, alpha, high, low) for x in xs])


@harness("C12", modes=("numpy", "jax"), bounds="scalar sample, keyword arguments", witnesses=4)
def scalar(h, cfg):
    from gwpopulation.utils import powerlaw
    alpha = h.real("alpha", -12, 12, pts=[-1, 0, 1, -2])
    low = h.real("low", 0.01, 100, log=True)
    high = low * (1 + h.real("width", 0.0625, 1000, log=True))
    x = h.real("x", 1e-3, 1e5, log=True)
    got = powerlaw(h.npf(x), alpha=alpha, high=high, low=low)
    h.eq("normalised power-law density", got, o_powerlaw(h, x, alpha, high, low))


@harness("C12", modes=("numpy", "jax"), bounds="array-valued index and limits, 2 samples", witnesses=4)
def arrays(h, cfg):
    from gwpopulation.utils import powerlaw
    alpha = h.reals("alpha", 2, -12, 12, pts=[-1, 0, 1, -2])
    low = h.reals("low", 2, 0.01, 100, log=True)
    high = [l * (1 + w) for l, w in zip(low, h.reals("width", 2, 0.0625, 1000, log=True))]
    xs = h.reals("x", 2, 1e-3, 1e5, log=True)
    got = powerlaw(h.arr(xs), h.arr(alpha), h.arr(high), h.arr(low))
    h.eq("normalised power-law density", got, [o_powerlaw(h, *a) for a in zip(xs, alpha, high, low)])


@harness("C12", modes=("numpy", "jax", "cupy"), configs=[{"array": False}, {"array": True}], witnesses=4, rtol=1e-8,
         bounds="samples anywhere including zero and negative ones, lower limit zero or positive, indices above -1 with a lower limit of zero; limits given as numbers or arrays")
def anywhere(h, cfg):
    from gwpopulation.utils import powerlaw
    x = [h.real("x", -100, 100, pts=[0]), -1.5, 0.0]
    low = [0, 0.25][h.choose("low", 2)]
    alpha = h.real("alpha", -0.9 if low == 0 else -6, 6, pts=[0, 1])
    high = h.real("high", 0.5, 90)
    if low == 0:
        h.assume(x[0] != 0)
        x = x[:2]           # the value at a lower limit of zero follows below
    one = (lambda v: h.arr([v])) if cfg["array"] else (lambda v: v if h.sym else float(v))
    got = powerlaw(h.arr(x), one(alpha), one(high), one(low))
    h.eq("normalised power-law density, zero outside", got, [o_powerlaw(h, v, alpha, high, low) for v in x])
    if low == 0:
        h.assume(alpha > 0)
        h.eq("zero at a limit of zero", powerlaw(h.arr([0.0]), one(alpha), one(high), one(low)), [0])
