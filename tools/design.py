#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (properties, repairs, planted changes)."""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ORACLE = dict(
    C01="sum of log mean weights, written out term by term", C02="moments of the weights", C03="comparison of the exact standard deviation with the limit", C04="Poisson log likelihood",
    C05="the terms of C01/C02", C06="set relations between retained and given samples, over every outcome of the stubbed draw", C07="exact mixture weights; the draw is a symbolic choice whose probabilities are recorded",
    C08="importance sum", C09="threshold on n_eff = mu^2/var", C10="nested trapezoid sums", C11="trapezoid of dVc/dz (uninterpreted E(z), comoving distance) and gamma scale", C12="x^a over its antiderivative difference (log at -1)",
    C13="Gaussian over erf difference", C14="x^(a-1)(s-x)^(b-1)/B(a,b)/s^(a+b-1) with B as atom", C15="inverse maps, dictionary cases", C16="documented mixtures from C12/C13 oracles", C17="two-branch power law matched at the break, normalised analytically",
    C18="Planck taper, trapezoids over the reduced grid, linear interpolation of the norms", C19="a fresh object with all module/class state reset (`h.forget`)", C20="natural/not-a-knot cubic or linear spline solved exactly, trapezoid norm",
    C21="mixtures from C13", C22="bivariate normal, trapezoid norm; von Mises with the Bessel function as atom", C23="psi(z) dVc/dz/(1+z) with uninterpreted distances; trapezoid norm", C24="1/(1+z) per mass times ddL/dz", C25="product of the factors over C24's Jacobian",
    C26="the array library, special functions and types each module ends up with", C27="numpy's values for the same symbolic inputs", C28="domains of the densities", C29="C01/C02/C11 oracles; numpyro primitives recorded by a handler", C30="structural and value equality with a deep copy",
    C31="the same model on each sample alone", C35="the product of direct evaluations with the needed hyperparameters only",
    C32="the wrapped likelihood called directly (jax.jit traced as the identity on symbols, real jit in replays)")


def props():
    import warnings
    warnings.simplefilter("ignore")
    import gwpopulation  # noqa: F401
    from symx import harness as H, stubs  # noqa: F401
    out = []
    rows = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    man = json.load(open(ROOT + "/MANIFEST.json"))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    for r in rows:
        i = r["id"]
        out.append("### %s %s" % (i, r["title"]))
        if i in na:
            out.append("Not applicable: %s\n" % na[i])
            continue
        importlib.import_module("props." + i.lower())
        out.append("Oracle: %s.\n" % ORACLE[i])
        for h in H.HARNESSES[i]:
            n = len(h.configs)
            out.append("* `%s` (%s; %d configuration%s%s): %s" % (h.name, ", ".join(h.modes), n, "s" if n != 1 else "", ", %d more in thorough" % len(h.thorough) if h.thorough else "", h.bounds))
        out.append("")
    return "\n".join(out)


def fixes():
    d = json.load(open(ROOT + "/known_findings.json"))["fixed"]
    return "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (`\2`): ", x) for x in d)


def seeded():
    res = json.load(open(ROOT + "/tools/seeded.json")) if os.path.exists(ROOT + "/tools/seeded.json") else {}
    out = ["| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
    for p in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
        m, i = json.load(open(p)), p.split("/")[-2]
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "?")))
    return "\n".join(out)


def main():
    s = open(ROOT + "/DESIGN.md").read()
    for k, f in (("PROPS", props), ("FIXES", fixes), ("SEEDED", seeded)):
        a, b = "<!-- %s -->" % k, "<!-- /%s -->" % k
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n" + f() + "\n" + s[j:]
    open(ROOT + "/DESIGN.md", "w").write(s)


main()
