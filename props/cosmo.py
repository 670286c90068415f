"""Shared pieces for redshift / cosmology properties.  The distances and volumes are wcosmo's
(uninterpreted positive functions of redshift and cosmological parameters)."""


def p15():
    from wcosmo.astropy import Planck15 as c
    return float(getattr(c._H0, "value", c._H0)), float(c.Om0), float(c.w0)


def cosmology(h, model):
    """-> (population parameters, (H0, Om0, w0) as used by the library)"""
    if model == "Planck15":
        return {}, p15()
    par = dict(H0=h.real("H0", 20, 200), Om0=h.real("Om0", 0.05, 0.9))
    w0 = -1.0
    if model == "FlatwCDM":
        w0 = par["w0"] = h.real("w0_de", -2, -0.4)
    return par, (par["H0"], par["Om0"], w0)


def dvc(m, z, c):
    return 4 * m.pi * m.fn("DVC", z, *c)


MODELS = ("Planck15", "FlatLambdaCDM", "FlatwCDM")
