"""The just-in-time compiled likelihood wrapper."""
import numpy as np

from gwpopulation.experimental import jax as _warm  # noqa: F401
from .common import harness
from .lik import Case


class Traced:
    """what a compiled function sees of an argument that is not static"""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        raise TypeError("abstract value used as a bool")

    def __eq__(self, o):
        raise TypeError("abstract value compared")

    __hash__ = None


def jit(f, static_argnames=(), static_argnums=(), **k):
    if isinstance(static_argnames, str):
        static_argnames = (static_argnames,)

    def wrapped(*a, **kw):
        return f(*a, **{k: Traced(v) if isinstance(v, (bool, str)) and k not in static_argnames else v for k, v in kw.items()})
    return wrapped


def stubs(h):
    import jax
    from gwpopulation.experimental import jax as J
    if not h.sym:
        return []
    return [(o, "jit", jit) for o in (jax, J) if o is jax or "jit" in o.__dict__]


def simple(h, name="c"):
    from bilby.core.likelihood import Likelihood

    class L(Likelihood):
        """ratio 3x - y, noise evidence c"""

        def __init__(self, c):
            self.c, self.parameters_seen = c, []
            super().__init__()

        def log_likelihood_ratio(self, parameters=None):
            return 3 * parameters["x"] - parameters["y"]

        def log_likelihood(self, parameters=None):
            return 3 * parameters["x"] - parameters["y"] + self.c

        def noise_log_likelihood(self):
            return self.c
    return L(h.real(name, -5, 5))


def extra(likelihood, parameters, scale, flag=False):
    r = likelihood.log_likelihood_ratio(parameters)
    return scale * r if flag else r - scale


CF = [dict(kind=k) for k in ("default", "ratio", "full", "scale", "scale+flag", "scale+noflag")]


@harness("C32", modes=("jax",), configs=CF, witnesses=3, rtol=1e-9, bounds="sequences of 3 calls at any parameters, with and without additional options")
def wrapper(h, cfg):
    from gwpopulation.experimental.jax import JittedLikelihood
    o = h.ops
    L = simple(h)
    k = cfg["kind"]
    s = h.real("s", 0.5, 4)
    kw = {"default": {}, "ratio": dict(kwargs=dict(use_ratio=True)), "full": dict(kwargs=dict(use_ratio=False)), "scale": dict(kwargs=dict(scale=s)),
          "scale+flag": dict(kwargs=dict(scale=s, flag=True)), "scale+noflag": dict(kwargs=dict(flag=False, scale=s))}[k]
    if k.startswith("scale"):
        kw["likelihood_func"] = extra
    pts = [dict(x=h.real("x%d" % i, -2, 2), y=h.real("y%d" % i, -2, 2)) for i in range(2)]

    def want(p):
        r = 3 * o.of(p["x"]) - o.of(p["y"])
        if k == "full":
            return r + o.of(L.c)
        if k in ("scale", "scale+noflag"):
            return r - o.of(s)
        if k == "scale+flag":
            return r * o.of(s)
        return r
    with h.stub(*stubs(h)):
        J = JittedLikelihood(L, **kw)
        for i in (0, 1, 0):
            p = dict(pts[i])
            h.eq("value of the wrapped likelihood", J.log_likelihood_ratio(p), want(p), atol=1e-12)
            h.true("parameters unchanged", set(p) == {"x", "y"})
        live = dict(pts[0])
        J.log_likelihood_ratio(live)
        live.update(pts[1])
        h.eq("the same dictionary with other values", J.log_likelihood_ratio(live), want(pts[1]), atol=1e-12)
        h.eq("reordered parameters", J.log_likelihood_ratio(dict(reversed(list(pts[1].items())))), want(pts[1]), atol=1e-12)
        h.eq("noise evidence", J.noise_log_likelihood(), o.of(L.c))
        h.eq("other attributes of the wrapped likelihood", J.c, o.of(L.c))
        J2 = JittedLikelihood(simple(h, "c2"))
        h.eq("another wrapper", J2.log_likelihood_ratio(dict(pts[0])), 3 * o.of(pts[0]["x"]) - o.of(pts[0]["y"]), atol=1e-12)


@harness("C32", modes=("jax",), witnesses=4, bounds="undefined and infinite values of the wrapped likelihood")
def nonfinite(h, cfg):
    from bilby.core.likelihood import Likelihood
    from gwpopulation.experimental.jax import JittedLikelihood
    import gwpopulation.utils as U
    o = h.ops

    class L(Likelihood):
        def log_likelihood_ratio(self, parameters=None):
            return U.xp.log(parameters["x"])
    x = h.real("x", -1, 2, pts=[0])
    with h.stub(*stubs(h)):
        got = JittedLikelihood(L()).log_likelihood_ratio(dict(x=h.npf(x)))
    if o.of(x) > 0:
        h.eq("finite values unchanged", got, o.log(o.of(x)), atol=1e-12)
    elif o.of(x) == 0:
        h.true("minus infinity becomes the most negative number", bool(got < -1e300) and bool(o.isfinite(got)), repr(got))
    else:
        h.true("undefined becomes finite", bool(o.isfinite(got)), repr(got))


HL = [dict(sizes=(2, 2), sel="pair", conv=True, limit=True), dict(sizes=(1, 1, 1), sel="one", conv=False, limit=False), dict(sizes=(2,), sel="none", conv=False, limit=False, lo=0.0, wpts=(0,))]


@harness("C32", modes=("jax",), configs=HL, witnesses=3, paths=1000, rtol=1e-7, bounds="the hierarchical likelihood wrapped: up to 3 events of up to 2 samples, with selection, conversion and limit")
def hierarchical(h, cfg):
    from gwpopulation.experimental.jax import JittedLikelihood
    o = h.ops
    kw = {}
    if cfg["limit"]:
        kw["maximum_uncertainty"] = h.real("umax", 0.1, 2)
    c = Case(h, cfg, **kw)
    dead = any(m == 0 for m, _, _ in c.ev)
    with h.stub(*stubs(h)):
        J = JittedLikelihood(c.like)
        for i in range(2):
            got = J.log_likelihood_ratio(dict(c.par))
            if dead or (cfg["limit"] and c.var > o.of(kw["maximum_uncertainty"]) * o.of(kw["maximum_uncertainty"])):
                h.true("rejected", bool(got < -1e300) and bool(o.isfinite(got)), repr(got))
            else:
                h.eq("log likelihood ratio", got, c.lnl, atol=1e-9)
        h.true("a plain number", isinstance(got, float) or h.sym)
