"""Run the real modules of gwpopulation on symbolic values: swap the array
modules they refer to, and restore everything afterwards."""
import builtins
import contextlib
import math
import sys
import types

import numpy as np
import scipy.special

from . import shim

EXTRA = []   # callables(mode) -> list of (object, attribute, replacement) installed while symbolic


def gw_modules():
    return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == "gwpopulation" or n.startswith("gwpopulation."))]


@contextlib.contextmanager
def switched(mode):
    """inside symbolic(): another backend"""
    old, cap = shim.CFG["mode"], shim.CFG["grid_cap"]
    xp = {"numpy": shim.NP, "jax": shim.JNP, "cupy": shim.CNP}
    mods = [m for m in gw_modules() if isinstance(m.__dict__.get("xp"), shim.Shim)]
    for m in mods:
        m.xp = xp[mode]
    shim.CFG["mode"] = mode
    try:
        yield
    finally:
        for m in mods:
            m.xp = xp[old]
        shim.CFG["mode"] = old


@contextlib.contextmanager
def symbolic(mode):
    xp = {"numpy": shim.NP, "jax": shim.JNP, "cupy": shim.CNP}[mode]
    saved = []

    def put(o, k, v):
        old = o.__dict__.get(k, _MISSING) if isinstance(o, (types.ModuleType, type)) else getattr(o, k, _MISSING)
        saved.append((o, k, old))
        setattr(o, k, v)

    np_funcs = {}
    for k in shim.OVER:
        f = getattr(np, k, None)
        if callable(f):
            np_funcs[id(f)] = k
    jnp = sys.modules.get("jax.numpy")
    for mod in gw_modules():
        for k, v in list(mod.__dict__.items()):
            if k.startswith("__"):
                continue
            if k == "xp" and isinstance(v, types.ModuleType):
                put(mod, k, xp)
            elif v is np:
                put(mod, k, shim.NP)
            elif jnp is not None and v is jnp:
                put(mod, k, shim.JNP)
            elif v is scipy.special or (isinstance(v, types.ModuleType) and v.__name__ in ("jax.scipy.special", "cupyx.scipy.special")):
                put(mod, k, shim.SCSM)
            elif v is math:
                put(mod, k, shim.MATH)
            elif id(v) in np_funcs and callable(v):
                put(mod, k, shim.OVER[np_funcs[id(v)]])
            elif callable(v) and getattr(v, "__module__", "") == "math" and hasattr(math, k):
                put(mod, k, getattr(shim.MATH, k))
            elif callable(v) and k in shim.SCS and v is getattr(scipy.special, k, None):
                put(mod, k, shim.SCS[k])
        if "float" not in mod.__dict__:
            put(mod, "float", shim.symfloat)
    # class attributes / default arguments are not rewritten (numpy constants only)
    for f in EXTRA:
        for o, k, v in f(mode):
            put(o, k, v)
    shim.CFG["mode"] = mode
    try:
        with np.errstate(all="ignore"):
            yield xp
    finally:
        for o, k, old in reversed(saved):
            if old is _MISSING:
                delattr(o, k)
            else:
                setattr(o, k, old)
        shim.CFG["mode"] = "numpy"
        shim.CFG["grid_cap"] = None


_MISSING = object()


# ---------------------------------------------------------------- module-level state
_BASE = {}     # id(owner) -> (owner, {name: (value, copy of its content or None)})
_KEEP = {"xp", "scs"}


def _plain(v):
    return v is None or isinstance(v, (bool, int, float, complex, str, tuple, np.ndarray, np.generic))


def _memo(v):
    return callable(getattr(type(v), "cache_clear", None))


def _owners():
    for mod in gw_modules():
        yield mod
        for v in list(mod.__dict__.values()):
            if isinstance(v, (type, types.FunctionType)) and getattr(v, "__module__", None) == mod.__name__:
                yield v
                if isinstance(v, type):
                    for f in list(v.__dict__.values()):
                        f = getattr(f, "__func__", f)
                        if isinstance(f, types.FunctionType):
                            yield f


def reset_state():
    """Module, class and function attributes of the library as they were after its import, so
    that nothing an earlier path left behind (memoised values) reaches the next one."""
    for o in _owners():
        if id(o) not in _BASE:
            d = {}
            for k, v in list(o.__dict__.items()):
                if k.startswith("__") or k in _KEEP:
                    continue
                if isinstance(v, (dict, list, set)):
                    d[k] = (v, v.copy())
                elif _plain(v):
                    d[k] = (v, None)
                elif _memo(v):
                    d[k] = (v, None)
            _BASE[id(o)] = (o, d, set(o.__dict__))
        _, d, names = _BASE[id(o)]
        for k, (v, c) in d.items():
            if _memo(v):
                v.cache_clear()
            elif isinstance(v, list):
                v[:] = c
            elif c is not None:
                v.clear()
                v.update(c)
            if o.__dict__.get(k, _MISSING) is not v and not isinstance(o.__dict__.get(k), types.ModuleType):
                setattr(o, k, v)
        for k in [k for k in o.__dict__ if k not in names and not k.startswith("__") and k not in _KEEP]:
            v = o.__dict__[k]
            if _plain(v) or isinstance(v, (dict, list, set)) or hasattr(v, "p"):
                delattr(o, k)
        for w in (o.__dict__.get(k) for k in list(o.__dict__)):
            if _memo(w):
                w.cache_clear()
