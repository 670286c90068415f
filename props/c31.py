"""Densities are evaluated sample by sample, whatever the shape of the sample arrays."""
import numpy as np

from .common import harness
from . import zoo

# fixed neighbours: inside, below and above the support
REST = dict(mass_1=[18.0, 3.0, 30.0, 75.0, 6.0, 24.0], mass_2=[10.0, 2.5, 20.0, 12.0, 5.5, 30.0], mass_ratio=[0.75, 0.5, 1.125, 0.9, 1.1, 0.25], a_1=[0.25, 1.5, 0.9, 0.5, -0.125, 0.75],
            a_2=[0.5, 0.125, 1.5, 0.875, 0.7, 0.375], cos_tilt_1=[0.25, -1.5, 0.0, 0.75, -0.9, 0.5], cos_tilt_2=[0.75, -0.125, 1.25, -0.75, 0.1, -0.5],
            chi_eff=[0.125, -1.25, 0.5, 1.5, 0.9, 0.0], chi_p=[0.25, 0.5, -0.25, 0.125, 1.25, 0.625], redshift=[0.5, 1.25, 3.0, 0.1, 2.0, 2.25])
SHAPES = [(3,), (2, 2), (1, 3), (3, 1), (1, 2, 2), (2, 1, 3)]
# the sample is symbolic here; in the other models it is fixed too and a hyperparameter is symbolic
SLOW = {"single", "multi", "broken", "brokenpeak", "user", "interpolated"}


def fill(h, cols, shape, at, own):
    n = int(np.prod(shape))
    out = {}
    for c in cols:
        v = (REST[c] * (n // 6 + 1))[:n]
        v[at] = own[c]
        out[c] = h.arr(v).reshape(shape)
    return out


@harness("C31", modes=("numpy", "jax"), configs=[dict(name=n) for n in zoo.NAMES + zoo.CLASSES], witnesses=1, paths=3000, rtol=1e-9, grid_cap=3,
         bounds="every model; arrays of up to 3 axes and 6 samples, one sample anywhere in the array (symbolic; for the smoothed mass models fixed, with one symbolic hyperparameter), the others fixed inside and outside the support")
def shapes(h, cfg):
    name = cfg["name"]
    build, d, p = zoo.constant(h, name)
    if name in SLOW:
        k = [x for x in ("lam_1", "lam", "c", "fmass1") if x in p]
        if k:
            p[k[0]] = h.real(k[0], *zoo.span(k[0]))
    else:
        d = zoo.samples(h, d)
        zoo.regular(h, d, p)
    some = SHAPES if h.mode == "numpy" else SHAPES[1::2]
    shape = some[h.choose("shape", len(some))]
    n = int(np.prod(shape))
    at = h.choose("position", n) if n <= 3 else [0, n - 1][h.choose("position", 2)]
    own = {c: v[0] for c, v in d.items()}
    got = build()(fill(h, d, shape, at, own), **p)
    if tuple(got.shape) != shape:
        h.fail("the density has the shape of the samples", "%s for samples of shape %s" % (got.shape, shape))
        return
    got = got.reshape(-1)
    if name in zoo.CLASSES:
        h.forget()
    h.eq("the density of the sample", [got[at]], build()({c: h.arr([v]) for c, v in own.items()}, **p))
    k = (at + 1) % n
    h.eq("the density of another sample", [got[k]], build()({c: h.arr([(REST[c] * n)[k]]) for c in d}, **p))


@harness("C31", modes=("numpy",), configs=[dict(name=n, n=1100) for n in zoo.NAMES + zoo.CLASSES], witnesses=1, paths=3000, rtol=1e-9, grid_cap=3,
         bounds="every model: arrays of 1100 samples (six values repeated), one sample symbolic (or, for the smoothed models, a hyperparameter)")
def many(h, cfg):
    name, n = cfg["name"], cfg["n"]
    build, d, p = zoo.constant(h, name)
    if name not in SLOW:
        d = zoo.samples(h, d)
        zoo.regular(h, d, p)
    own = {c: v[0] for c, v in d.items()}
    at = n - 3
    got = build()(fill(h, d, (n,), at, own), **p)
    h.forget()
    h.eq("the density of the sample", [got[at]], build()({c: h.arr([v]) for c, v in own.items()}, **p))
    h.forget()
    few = build()({c: h.arr(REST[c]) for c in d}, **p)
    h.eq("the density of the other samples", [got[i] for i in range(n) if i != at], [few[i % 6] for i in range(n) if i != at])
