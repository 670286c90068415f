"""Conversions between the parameterisations of the beta distribution."""
from .common import harness


@harness("C15", modes=("numpy", "jax"), witnesses=4, configs=[{"arr": False}, {"arr": True}],
         bounds="alpha,beta in [0.01,1000], amax in [0.01,10], scalars and arrays of 2")
def forward(h, cfg):
    from gwpopulation.conversions import alpha_beta_max_to_mu_var_max as f
    m = h.ops
    n = 2 if cfg["arr"] else 1
    A, B, X = h.reals("alpha", n, 0.01, 1000, log=True), h.reals("beta", n, 0.01, 1000, log=True), h.reals("amax", n, 0.01, 10, log=True)
    args = [h.arr(v) if cfg["arr"] else v[0] for v in (A, B, X)]
    mu, var, ax = f(*args)
    A, B, X = ([m.of(v) for v in w] for w in (A, B, X))
    h.eq("mean of the scaled beta distribution", mu, [x * a / (a + b) for a, b, x in zip(A, B, X)])
    h.eq("variance of the scaled beta distribution", var, [x * x * a * b / ((a + b) * (a + b) * (a + b + 1)) for a, b, x in zip(A, B, X)])
    h.eq("maximum unchanged", ax, X)


@harness("C15", modes=("numpy", "jax"), witnesses=4, configs=[{"arr": False}, {"arr": True}], rtol=1e-8,
         bounds="mu in (0,amax), variance below the two-point bound, amax in [0.01,10]")
def inverse(h, cfg):
    from gwpopulation.conversions import alpha_beta_max_to_mu_var_max as fwd, mu_var_max_to_alpha_beta_max as inv
    m = h.ops
    n = 2 if cfg["arr"] else 1
    X = h.reals("amax", n, 0.01, 10, log=True)
    U = h.reals("u", n, 0.001, 0.999)
    W = h.reals("w", n, 0.001, 0.999)
    MU = [x * u for x, u in zip(X, U)]
    V = [x * x * u * (1 - u) * w for x, u, w in zip(X, U, W)]
    args = [h.arr(v) if cfg["arr"] else v[0] for v in (MU, V, X)]
    al, be, ax = inv(*args)
    XS, US, WS = ([m.of(v) for v in w] for w in (X, U, W))
    h.eq("alpha", al, [u * (1 / w - 1) for u, w in zip(US, WS)])
    h.eq("beta", be, [(1 - u) * (1 / w - 1) for u, w in zip(US, WS)])
    h.eq("maximum unchanged", ax, XS)
    h.gt("alpha positive", al, 0)
    h.gt("beta positive", be, 0)
    mu, var, _ = fwd(al, be, ax)
    h.eq("round trip mean", mu, [m.of(v) for v in MU])
    h.eq("round trip variance", var, [m.of(v) for v in V])


@harness("C15", modes=("numpy",), witnesses=4, rtol=1e-8, bounds="round trip from alpha, beta")
def round_trip(h, cfg):
    from gwpopulation.conversions import alpha_beta_max_to_mu_var_max as fwd, mu_var_max_to_alpha_beta_max as inv
    a, b, x = h.real("alpha", 0.01, 1000, log=True), h.real("beta", 0.01, 1000, log=True), h.real("amax", 0.01, 10, log=True)
    a2, b2, x2 = inv(*fwd(a, b, x))
    h.eq("round trip alpha", a2, a)
    h.eq("round trip beta", b2, b)
    h.eq("round trip maximum", x2, x)


def _need(sfx):
    return ["%s%s" % (k, sfx) for k in ("mu_chi", "sigma_chi", "amax")]


@harness("C15", modes=("numpy",), witnesses=2, rtol=1e-8,
         configs=[{"case": c, "remove": r} for c in ("shared", "both", "one", "two", "given", "none_given", "none_alpha", "none_beta", "none_two", "absent", "mixed") for r in (True, False)],
         bounds="dictionary conversion: every combination of shared, per-component, already given, given as None and absent parameters")
def dictionary(h, cfg):
    from gwpopulation.conversions import convert_to_beta_parameters
    m = h.ops
    case, remove = cfg["case"], cfg["remove"]
    p, want = {}, {}

    def moments(sfx, add=True):
        x, u, w = h.real("amax" + sfx, 0.01, 10, log=True), h.real("u" + sfx, 0.001, 0.999), h.real("w" + sfx, 0.001, 0.999)
        p["amax" + sfx], p["mu_chi" + sfx], p["sigma_chi" + sfx] = x, x * u, x * x * u * (1 - u) * w
        if add:
            u, w = m.of(u), m.of(w)
            want["alpha_chi" + sfx], want["beta_chi" + sfx] = u * (1 / w - 1), (1 - u) * (1 / w - 1)

    other = h.real("lamb", -2, 2)
    p["lamb"] = other
    if case == "shared":
        moments("")
    elif case == "both":
        moments("_1")
        moments("_2")
    elif case == "one":
        moments("_1")
        p["alpha_chi_2"], p["beta_chi_2"] = h.real("a2", 0.1, 5), h.real("b2", 0.1, 5)
    elif case == "two":
        moments("_2")
    elif case == "given":
        moments("", add=False)
        p["alpha_chi"], p["beta_chi"] = h.real("a", 0.1, 5), h.real("b", 0.1, 5)
    elif case == "none_given":
        p["alpha_chi"], p["beta_chi"] = None, None
        moments("")
    elif case in ("none_alpha", "none_beta"):     # one of the two is not known
        p["alpha_chi"], p["beta_chi"] = (None, 2.5) if case == "none_alpha" else (2.5, None)
        moments("")
    elif case == "none_two":
        p["alpha_chi_1"], p["beta_chi_1"] = h.real("a1", 0.1, 5), h.real("b1", 0.1, 5)
        p["alpha_chi_2"] = None
        moments("_2")
    elif case == "absent":
        p["mu_chi"] = h.real("mu", 0.1, 0.5)
    elif case == "mixed":
        moments("_1")
        moments("", add=False)
    before = dict(p)
    out, added = convert_to_beta_parameters(p) if remove and h.choose("default", 2) else convert_to_beta_parameters(p, remove=remove)
    h.true("input dictionary not modified", list(p) == list(before) and all(p[k] is before[k] for k in before))
    h.true("converted keys", set(out) == set(before) | set(want), "keys %s" % sorted(out))
    for k, v in want.items():
        h.eq("converted %s" % k, out[k], v)
    for k in before:
        if k not in want:
            h.true("other parameters unchanged", out[k] is before[k] or (before[k] is not None and out[k] == before[k]), k)
    h.true("added keys listed only with remove", sorted(added) == (sorted(want) if remove else []), "%s" % (added,))
