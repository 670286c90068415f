"""Redshift distributions."""
from .common import harness
from .cosmo import MODELS, cosmology, dvc

NODES = 2500


def setup(h, cfg):
    from gwpopulation.models import redshift as R
    par, c = cosmology(h, cfg["cosmo"])
    if cfg["kind"] == "powerlaw":
        cls = R.PowerLawRedshift
        par["lamb"] = h.real("lamb", -5, 8, pts=[0, 1])
        psi = lambda m, z: (1 + z) ** m.of(par["lamb"])
    else:
        cls = R.MadauDickinsonRedshift
        par.update(gamma=h.real("gamma", -10, 20, pts=[0]), kappa=h.real("kappa", 0, 40, pts=[0, 1]), z_peak=h.real("z_peak", 0, 4, pts=[0]))
        psi = lambda m, z: (1 + z) ** m.of(par["gamma"]) / (1 + ((1 + z) / (1 + m.of(par["z_peak"]))) ** m.of(par["kappa"])) \
            * (1 + (1 + m.of(par["z_peak"])) ** (-m.of(par["kappa"])))
    if cfg.get("default"):
        return cls(), par, psi, c, 2.3
    zmax = h.real("z_max", 0.002, 20, log=True)
    return cls(z_max=zmax, cosmo_model=cfg["cosmo"]), par, psi, c, zmax


def o_norm(h, psi, c, zmax):
    zs = h.linspace(1e-6, zmax, NODES)

    def f(m, z):
        return dvc(m, z, c) * psi(m, z) / (1 + z)
    return h.trapz(h.map(f, zs), zs)


KINDS = [dict(kind=k, cosmo=c) for k in ("powerlaw", "madau") for c in MODELS] + [dict(kind=k, cosmo="Planck15", default=True) for k in ("powerlaw", "madau")]


@harness("C23", modes=("numpy", "jax"), configs=KINDS, grid_cap=3, witnesses=3, rtol=1e-6,
         bounds="2 samples with 0<z<=25 including beyond the maximum; 0.002<=z_max<=20; power-law index in [-5,8], gamma in [-10,20], kappa in [0,40]; three cosmologies; 2500-point normalisation grid reduced to 3 nodes symbolically, full in replays")
def density(h, cfg):
    model, par, psi, c, zmax = setup(h, cfg)
    zs = h.reals("z", 2, 0, 25, open=True)
    got = model({"redshift": h.arr(zs)}, **par)
    h.shape("one density per sample", got, (2,))
    o = h.ops
    n = o_norm(h, psi, c, zmax)
    want = []
    for z in zs:
        zz = o.of(z)
        if zz <= o.of(zmax):
            want.append(dvc(o, zz, [o.of(v) for v in c]) * psi(o, zz) / (1 + zz) / n)
        else:
            want.append(o.of(0))
    h.eq("comoving volume, time dilation and rate evolution, normalised below the maximum redshift", got, want)
    h.ge("non-negative", got, 0)


@harness("C23", modes=("numpy", "jax", "cupy"), configs=KINDS, grid_cap=4, witnesses=2, rtol=1e-6, bounds="as above, 4 symbolic nodes")
def normalisation(h, cfg):
    model, par, psi, c, zmax = setup(h, cfg)
    z = h.real("z", 0, 12, open=True)
    h.eq("rate-weighted volume", model.normalisation(dict(par)), o_norm(h, psi, c, zmax))
    o = h.ops
    zz = o.of(z)
    d = dvc(o, zz, [o.of(v) for v in c]) * psi(o, zz) / (1 + zz)
    arr = h.arr([z])
    h.eq("differential spacetime volume", model.differential_spacetime_volume({"redshift": arr}, **par), [d])
    h.eq("... limited to the maximum redshift", model.differential_spacetime_volume({"redshift": arr}, bounds=True, **par), [d if zz <= o.of(zmax) else o.of(0)])
    h.eq("input unchanged", arr, [z])


@harness("C23", modes=("numpy", "jax"), configs=KINDS, witnesses=3, grid_cap=3, bounds="rate evolution: any z in [0,12]; normalised to one at redshift zero")
def evolution(h, cfg):
    model, par, psi, c, zmax = setup(h, cfg)
    z = h.real("z", 0, 12, pts=[0])
    got = model.psi_of_z(h.arr([z, 0]), **par)
    o = h.ops
    h.eq("documented evolution", got[0], psi(o, o.of(z)))
    h.eq("one at redshift zero", got[1], 1)
    h.gt("positive", got[0], 0)


@harness("C23", modes=("numpy",), configs=KINDS, witnesses=1, grid_cap=3, bounds="declared hyperparameter names, with and without free cosmology")
def names(h, cfg):
    model, par, psi, c, zmax = setup(h, cfg)
    got = list(model.variable_names)
    h.true("exactly the parameters it uses", sorted(got) == sorted(par), str(got))
    again = list(model.variable_names)
    h.true("stable", got == again and sorted(type(model)(cosmo_model=cfg["cosmo"]).variable_names) == sorted(par), str(again))
    h.eq("evaluated with those only", model.normalisation({k: par[k] for k in got}), model.normalisation(dict(par, other=3.0)))
