"""Detector-frame to source-frame conversion."""
import itertools

from .common import harness
from .cosmo import MODELS, cosmology

DET = ("mass_1_detector", "mass_2_detector", "chirp_mass_detector")


def converter(h, model):
    from gwpopulation.experimental.cosmo_models import CosmoMixin
    return CosmoMixin(cosmo_model=model)


def distance(h, n, which):
    if which == "dl":
        return h.reals("d", n, 1, 80000, log=True)
    return h.reals("z", n, 0.001, 12, log=True)


def source_z(h, vals, which, c):
    o = h.ops
    cc = [o.of(v) for v in c]
    if which == "dl":
        zs = [o.fn("ZDL", o.of(d), *cc) for d in vals]
        return zs, [o.fn("DDL", z, *cc) for z in zs]
    return [o.of(z) for z in vals], [o.of(1) for _ in vals]


CFG = []
for which in ("dl", "z"):
    for k, extra in ((0, True), (1, False), (2, True), (3, True)):
        CFG.append(dict(which=which, k=k, extra=extra, cosmo=MODELS[(k + (which == "z")) % 3]))


@harness("C24", modes=("numpy", "jax"), configs=CFG, witnesses=2, paths=2000, rtol=1e-8,
         bounds="2 samples; luminosity distance 1..80000 Mpc or redshift 0.001..12; 0-3 detector-frame masses and one or two frame-independent columns; every order of the columns; three cosmologies")
def convert(h, cfg):
    which, k = cfg["which"], cfg["k"]
    par, c = cosmology(h, cfg["cosmo"])
    vals = distance(h, 2, which)
    cols = {("luminosity_distance" if which == "dl" else "redshift"): vals}
    for i in range(k):
        cols[DET[i]] = h.reals("m%d_" % i, 2, 0.1, 5000, log=True)
    if cfg["extra"]:
        cols["a_1"] = h.reals("a", 2, 0, 1)
        if k == 2:
            cols["snr_detector_1"] = h.reals("snr", 2, 1, 40)
    perms = list(itertools.permutations(cols)) if len(cols) <= 3 else [tuple(list(cols)[i:] + list(cols)[:i]) for i in range(len(cols))]
    order = perms[h.choose("order", len(perms))]
    data = {x: h.arr(cols[x]) for x in order}
    conv = converter(h, cfg["cosmo"])
    got, jac = conv.detector_frame_to_source_frame(data, **par)
    zs, js = source_z(h, vals, which, c)
    want = {"redshift": zs}
    for i in range(k):
        want[DET[i][:-9]] = [h.ops.of(m) / (1 + z) for m, z in zip(cols[DET[i]], zs)]
    if cfg["extra"]:
        want.update({x: cols[x] for x in ("a_1", "snr_detector_1") if x in cols})
    h.true("exactly the source-frame columns", set(got) == set(want), "%s, expected %s" % (sorted(got), sorted(want)))
    for x in want:
        if x in got:
            h.eq(x, got[x], want[x])
    h.eq("jacobian: dDL/dz and one factor (1+z) per redshifted mass", jac, [j * (1 + z) ** k for j, z in zip(js, zs)])
    h.true("the caller's dictionary is unchanged", list(data) == list(order), str(list(data)))
    for x in order:
        h.eq("the caller's arrays are unchanged", data[x], cols[x])


@harness("C24", modes=("numpy", "jax"), configs=[dict(cosmo=m) for m in MODELS], witnesses=2, bounds="two consecutive conversions with different samples and cosmologies")
def fresh(h, cfg):
    """nothing is kept from one conversion to the next"""
    par, c = cosmology(h, cfg["cosmo"])
    conv = converter(h, cfg["cosmo"])
    v1, v2 = h.reals("d", 1, 1, 80000, log=True), h.reals("e", 1, 1, 80000, log=True)
    m = h.real("m", 0.1, 5000, log=True)
    conv.detector_frame_to_source_frame({"luminosity_distance": h.arr(v1), "mass_1_detector": h.arr([m])}, **par)
    par2 = {k: par[k] * (0.9 if k != "w0" else 1.1) for k in par}
    c2 = tuple(par2.get(k, x) for k, x in zip(("H0", "Om0", "w0"), c))
    got, jac = conv.detector_frame_to_source_frame({"luminosity_distance": h.arr(v2), "mass_1_detector": h.arr([m])}, **par2)
    zs, js = source_z(h, v2, "dl", c2)
    h.eq("redshift", got["redshift"], zs)
    h.eq("mass", got["mass_1"], [h.ops.of(m) / (1 + zs[0])])
    h.eq("jacobian", jac, [js[0] * (1 + zs[0])])


@harness("C24", modes=("numpy", "jax"), configs=[dict(cosmo=m) for m in MODELS], witnesses=1, bounds="samples without any distance")
def no_distance(h, cfg):
    par, c = cosmology(h, cfg["cosmo"])
    m = h.reals("m", 2, 0.1, 5000, log=True)
    h.raises("rejected", ValueError, converter(h, cfg["cosmo"]).detector_frame_to_source_frame, {"mass_1_detector": h.arr(m)}, **par)
    h.raises("unknown cosmology rejected", Exception, lambda: converter(h, "NotACosmology"))
