"""Selection function from a gridded sensitivity."""
import itertools

import numpy as np

from .common import harness, o_trapz


def grid(h, lens, order, down=""):
    """axes, full grids (numpy meshgrid convention `order`), sensitivities"""
    names = ["a", "b", "c"][: len(lens)]
    axes = {}
    for k, n in zip(names, lens):
        x = [h.real(k + "0", 0.5, 2)]
        for i in range(1, n):
            x.append(x[-1] + h.real("d%s%d" % (k, i), 0.25, 2))
        axes[k] = x[::-1] if k in down else x
    # array axis t of the grid belongs to parameter order[t]
    shape = [len(axes[k]) for k in order]
    full = {}
    for k in names:
        arr = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            arr[ix] = axes[k][ix[order.index(k)]]
        full[k] = arr
    vt = np.empty(shape, object)
    for ix in np.ndindex(*shape):
        vt[ix] = h.real("v" + "_".join(map(str, ix)), 0, 3)
    return names, axes, full, vt


def fixed(h, lens, order, down=""):
    """a large grid of fixed unequal steps with one free position per axis and three free sensitivities"""
    names = ["a", "b", "c"][: len(lens)]
    axes = {}
    for k, n in zip(names, lens):
        x = [1.0]
        for i in range(1, n):
            x.append(x[-1] + 0.25 + (i * 5 % 7) / 16)
        x[-1] = x[-2] + h.real("d" + k, 0.25, 2)
        axes[k] = x[::-1] if k in down else x
    shape = [len(axes[k]) for k in order]
    full = {}
    for k in names:
        arr = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            arr[ix] = axes[k][ix[order.index(k)]]
        full[k] = arr
    vt = np.empty(shape, object)
    for n, ix in enumerate(np.ndindex(*shape)):
        vt[ix] = n * 11 % 32 / 8
    vt.flat[0], vt.flat[vt.size // 2], vt.flat[vt.size - 1] = h.reals("v", 3, 0, 3)
    return names, axes, full, vt


def conv(h, a):
    if h.sym:
        return h.arr(a)
    return h.arr(a.astype(float))


def o_int(h, axes, order, f, down="", ix=()):
    if len(ix) == len(order):
        return f(ix)
    xs = axes[order[len(ix)]]
    vals = [o_int(h, axes, order, f, down, ix + (i,)) for i in range(len(xs))]
    if order[len(ix)] in down:      # a decreasing axis
        vals, xs = vals[::-1], xs[::-1]
    return o_trapz(h, vals, xs)


ORD = {1: ["a"], 2: ["a", "b"], 3: ["a", "b", "c"]}
CFGS = [dict(lens=(3,), order="a"), dict(lens=(2, 3), order="ab"), dict(lens=(2, 3), order="ba"), dict(lens=(2, 2), order="ab"), dict(lens=(2, 2), order="ba"),
        dict(lens=(2, 2, 2), order="bac"), dict(lens=(2, 3, 2), order="cab"),
        dict(lens=(3,), order="a", down="a"), dict(lens=(3, 3), order="ba", down="b"), dict(lens=(3, 2), order="ab", down="ab")]


@harness("C10", modes=("numpy", "jax"), configs=CFGS, thorough=[dict(lens=(3, 3), order="ba"), dict(lens=(2, 2, 2), order="cba"), dict(lens=(3, 2, 2), order="abc")],
         witnesses=3, bounds="1-3 parameters, 2-3 increasing or decreasing grid values each, equal and different lengths, every assignment of parameters to array axes listed")
def integral(h, cfg):
    check(h, cfg, grid)


@harness("C10", modes=("numpy", "jax"), configs=[dict(lens=(40, 30), order="ba"), dict(lens=(30, 30), order="ab"), dict(lens=(9, 12, 7), order="cab"), dict(lens=(400,), order="a"), dict(lens=(9, 12), order="ba", down="a")], witnesses=2,
         bounds="grids of up to 40x30, 9x12x7 or 400 values with fixed unequal steps; the last step of each axis and three sensitivities free")
def large(h, cfg):
    check(h, cfg, fixed)


def check(h, cfg, grid):
    from gwpopulation.vt import GridVT
    names, axes, full, v = grid(h, cfg["lens"], cfg["order"], cfg.get("down", ""))
    lam, mu = h.real("lam", -2, 2), h.real("mu", 0.5, 2)

    def model(dataset, lam, mu):
        r = mu
        for i, k in enumerate(names):
            r = r + lam * (i + 1) * dataset[k]
        return r

    data = {k: conv(h, full[k]) for k in names}
    data["vt"] = conv(h, v)
    vt = GridVT(model, data)
    got = vt(dict(lam=lam, mu=mu))
    o = h.ops

    def f(ix):
        r = o.of(mu)
        for i, k in enumerate(names):
            r = r + o.of(lam) * (i + 1) * o.of(axes[k][ix[cfg["order"].index(k)]])
        return r * o.of(v[ix])

    h.eq("nested trapezoidal integral of density times sensitivity", got, o_int(h, axes, cfg["order"], f, cfg.get("down", "")), atol=1e-9)
    h.shape("a number", got, ())
    h.true("the caller's dictionary is unchanged", set(data) == set(names) | {"vt"}, str(sorted(data)))
