"""Shared pieces for the likelihood properties: symbolic event posteriors, population
models, selection functions, and the documented formulas."""
import contextlib

import numpy as np
import pandas as pd

from .common import harness  # noqa: F401


@contextlib.contextmanager
def seeded(h):
    """the real pandas/numpy sampling with a fixed seed (paths are re-executed)"""
    rng = np.random.default_rng
    st = np.random.get_state()
    np.random.seed(7)
    try:
        with h.stub((np.random, "default_rng", lambda *a, **k: rng(7))):
            yield
    finally:
        np.random.set_state(st)


def labels(kind, n):
    """row labels of a data frame"""
    return dict(repeated=[j % max(1, n // 2) for j in range(n)], reverse=list(range(n, 0, -1)), text=["s%d" % j for j in range(n)]).get(kind)


def frame(h, cols, index=None):
    n = len(next(iter(cols.values())))
    ix = labels(index, n)
    if h.sym:
        from symx.engine import S
        return pd.DataFrame({k: pd.Series([S.of(x) for x in v], dtype=object, index=ix) for k, v in cols.items()})
    return pd.DataFrame({k: np.array([float(x) for x in v]) for k, v in cols.items()}, index=ix)


def posteriors(h, sizes, prior=True, lo=0.25, hi=4.0, pts=(), sparse=False, zeros=0):
    """-> (list of frames, list of list of (w, prior)); sparse: large sizes, only the first and last value free"""
    fr, raw = [], []
    for i, k in enumerate(sizes):
        if sparse:
            w, p = [0.5 + (j * 7 + i) % 16 / 8 for j in range(k)], [0.5 * 2 ** ((j + i) % 3) if prior else 1 for j in range(k)]
            if i in (0, len(sizes) - 1):
                w[-1] = h.real("w%d_" % i, lo, hi, log=hi > 100)
                if prior:
                    p[0] = h.real("p%d_" % i, 0.25, 4)
        else:
            w = h.reals("w%d_" % i, k, lo, hi, pts=pts, log=lo > 0 and hi > 100)
            p = h.reals("p%d_" % i, k, 0.25, 4) if prior else [1] * k
        w[:zeros] = [0.0] * zeros
        cols = {"w": w}
        if prior:
            cols["prior"] = p
        fr.append(frame(h, cols))
        raw.append(list(zip(w, p)))
    return fr, raw


def linear(dataset, lam):
    return lam * dataset["w"]


def affine(dataset, lam, mu):
    return lam * dataset["w"] + mu


def conv(parameters):
    """adds a derived parameter and redefines another, without touching its input"""
    out = dict(parameters)
    out["mu"] = parameters["lam"] * parameters["kap"]
    out["lam"] = parameters["lam"] + parameters["kap"]
    return out, ["mu"]


def o_events(h, raw, model):
    """per event (mean weight, relative variance of the mean)"""
    o = h.ops
    out = []
    for ev in raw:
        ws = [model(o.of(w)) / o.of(p) for w, p in ev]
        k = len(ws)
        m = sum(ws[1:], ws[0]) / k
        m2 = sum([x * x for x in ws[1:]], ws[0] * ws[0]) / k
        out.append((m, m2 - m * m, k))
    return out


def o_lnl(h, ev, sel):
    o = h.ops
    s = o.of(0)
    for m, _, _ in ev:
        s = s + o.log(m)
    return s - len(ev) * o.log(o.of(sel))


def o_var(h, ev, sel, svar):
    o = h.ops
    s = o.of(0)
    for m, v, k in ev:
        s = s + v / (k * m * m)
    sel = o.of(sel)
    return s + len(ev) * len(ev) * o.of(svar) / (sel * sel)


class Selection:
    """selection function of the population parameters, records what it was given"""

    def __init__(self, h, kind):
        self.h, self.kind, self.seen = h, kind, []
        if kind != "none":
            self.a = h.real("sel", 1e-8, 1e4, log=True)
        if kind == "pair":
            self.v = h.real("selvar", 0, 1)

    def __call__(self, parameters):
        self.seen.append(dict(parameters))
        val = self.a * (parameters["lam"] + parameters.get("mu", 0))
        if self.kind == "pair":
            return val, self.v * parameters["lam"]
        return val

    def truth(self, lam, mu=0):
        o = self.h.ops
        if self.kind == "none":
            return o.of(1), o.of(0)
        return o.of(self.a) * (o.of(lam) + o.of(mu)), (o.of(self.v) * o.of(lam) if self.kind == "pair" else o.of(0))


class Case:
    """likelihood + parameters + documented values"""

    def __init__(self, h, cfg, cls=None, **kw):
        from gwpopulation import hyperpe
        cls = cls or hyperpe.HyperparameterLikelihood
        self.h = h
        fr, raw = posteriors(h, cfg.get("sizes", (2, 2)), cfg.get("prior", True), cfg.get("lo", 0.25), cfg.get("hi", 4.0), pts=cfg.get("wpts", ()), sparse=cfg.get("sparse"), zeros=cfg.get("zeros", 0))
        self.lam = h.real("lam", 0.5, 2)
        self.par = {"lam": self.lam}
        o = h.ops
        lam = o.of(self.lam)
        mu = o.of(0)
        model, truth = linear, (lambda w: lam * w)
        if cfg.get("conv"):
            self.kap = h.real("kap", 0.25, 2)
            self.par["kap"] = self.kap
            kw["conversion_function"] = conv
            mu = lam * o.of(self.kap)
            lam = lam + o.of(self.kap)
            model, truth = affine, (lambda w: lam * w + mu)
        self.sel = Selection(h, cfg.get("sel", "none"))
        if self.sel.kind != "none":
            kw["selection_function"] = self.sel
        with seeded(h):
            self.like = cls(fr, model, **kw)
        self.n = len(fr)
        self.ev = o_events(h, raw, truth)
        self.S, self.V = self.sel.truth(lam, mu)
        self.lnl = o_lnl(h, self.ev, self.S)
        self.var = o_var(h, self.ev, self.S, self.V)


class Rand(np.random.Generator):
    """random generator under the explorer's control: every outcome is a branch"""

    def __init__(self, h):
        super().__init__(np.random.PCG64(0))
        self.h, self.calls, self.n = h, [], 0

    def _pick(self, n):
        self.n += 1
        return self.h.choose("r%d" % self.n, n) if n > 1 else 0

    def choice(self, a, size=None, replace=True, p=None, **kw):
        try:
            pool = list(range(int(a)))
        except TypeError:
            pool = list(a)
        k = 1 if size is None else int(np.prod(size))
        self.calls.append(dict(n=len(pool), size=k, replace=bool(replace), p=p))
        if not replace and k > len(pool):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        out = []
        for _ in range(k):
            j = self._pick(len(pool))
            out.append(pool[j] if replace else pool.pop(j))
        self.calls[-1]["out"] = list(out)
        arr = np.array(out)
        return arr.reshape(size) if size is not None else out[0]

    def permutation(self, a):
        n = a if isinstance(a, (int, np.integer)) else len(a)
        r = self.choice(int(n), size=int(n), replace=False)
        return r if isinstance(a, (int, np.integer)) else np.asarray(a)[r]

    def shuffle(self, x, axis=0):
        x[...] = np.asarray(x)[self.choice(len(x), size=len(x), replace=False)]

    def permuted(self, x, axis=None, out=None):
        return self.permutation(x)

    def _no(self, *a, **k):
        self.h.unsupported("random draw that is not modelled")

    integers = random = uniform = multinomial = normal = standard_normal = random_sample = _no

    def jchoice(self, key, a, shape=(), replace=True, p=None, axis=0, **kw):
        r = self.choice(a, size=shape if shape else None, replace=replace, p=p)
        if self.h.sym or self.h.mode != "jax":
            return r
        import jax.numpy as jnp
        return jnp.asarray(r)

    def stubs(self):
        import jax
        out = [(np.random, "choice", self.choice), (np.random, "permutation", self.permutation), (np.random, "shuffle", self.shuffle),
               (np.random, "randint", lambda *a, **k: 3), (np.random, "default_rng", lambda *a, **k: self),
               (jax.random, "choice", self.jchoice)]
        if self.h.sym:
            out += [(jax.random, "PRNGKey", lambda *a: None), (jax.random, "key", lambda *a: None)]
        return out


class Pattern(Rand):
    """for large pools: the first, the last or a middle remaining element each time (a symbolic choice between the three)"""

    def __init__(self, h):
        super().__init__(h)
        self.k = h.choose("pattern", 3)

    def _pick(self, n):
        self.n += 1
        return (0, n - 1, (self.n * 7919) % n)[self.k]


def same(h, a, b):
    """structural (symbolic) or bitwise (concrete) equality"""
    if h.sym:
        from symx.engine import S
        a, b = S.of(a), S.of(b)
        return a.sp is None and b.sp is None and a.p.key == b.p.key
    return float(a) == float(b)
