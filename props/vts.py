"""Shared pieces for the selection-function properties."""


def injections(h, n, total=None, lo=0.25, pts=(), sparse=False, wide=False):
    """sparse: large sizes, two free weights and two free densities"""
    if sparse:
        w, p = [0.5 + j * 7 % 16 / 8 for j in range(n)], [0.5 * 2 ** (j % 3) for j in range(n)]
        w[0], w[-1] = h.reals("w", 2, lo, 4)
        p[1], p[-1] = h.reals("p", 2, 0.25, 4)
    elif wide:
        w, p = h.reals("w", n, 1e-30, 1e30, log=True), h.reals("p", n, 1e-20, 1e20, log=True)
    else:
        w, p = h.reals("w", n, lo, 4, pts=pts), h.reals("p", n, 0.25, 4)
    data = {"w": h.arr(w), "prior": h.arr(p)}
    if total == "sym":
        t = h.real("total", n, 10 ** 10 if wide else 20 * n, log=wide)
        data["total_generated"] = t
        tot = h.ops.of(t)
    else:
        tot = h.ops.of(n)
    return data, list(zip(w, p)), tot


def linear(dataset, lam):
    return lam * dataset["w"]


def shift(dataset, mu):
    return dataset["w"] * 0 + mu


def o_eff(h, raw, tot, model):
    o = h.ops
    ws = [model(o.of(w)) / o.of(p) for w, p in raw]
    s1, s2 = o.of(0), o.of(0)
    for x in ws:
        s1, s2 = s1 + x, s2 + x * x
    mu = s1 / tot
    return mu, s2 / (tot * tot) - mu * mu / tot
