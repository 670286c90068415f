#!/usr/bin/env python
"""check.py <PROPERTY> [--tier quick|thorough] [--only NAME] [--replay FILE] [-v]"""
import argparse
import json
import os
import sys

sys.path.insert(0, "/verif")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = "props." + a.prop.lower()
    if a.replay:
        from symx import harness as H
        import importlib
        import gwpopulation  # noqa: F401
        importlib.import_module(module)
        from symx import stubs  # noqa: F401
        v = json.load(open(a.replay))
        h = [x for x in H.HARNESSES[a.prop] if x.name == v["harness"]][0]
        cfg = [c for c in h.configs + h.thorough if {k: str(x) for k, x in c.items()} == {k: str(x) for k, x in v["cfg"].items()}]
        fs = H.run_concrete(h, v["mode"], cfg[0] if cfg else v["cfg"], v["env"], v["choices"])
        for f in fs or []:
            print(f.label, f.detail)
        sys.exit(1 if fs else 0)
    from symx.runner import run_property
    rc, _ = run_property(a.prop, a.tier, seed, module, only=a.only, verbose=a.v, nproc=a.j)
    sys.stdout.flush()
    os._exit(rc)


main()
