"""Stand-in `cupy` package for replays of the cupy code path (no GPU here):
numpy functions under the name `cupy`."""
import sys
import types

import numpy as np
import scipy.special


class _Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(np, k)


def install():
    if "cupy" in sys.modules:
        return
    m = _Mod("cupy")
    m.asnumpy = np.asarray
    sys.modules["cupy"] = m
    x = types.ModuleType("cupyx")
    sx = types.ModuleType("cupyx.scipy")
    sx.special = scipy.special
    x.scipy = sx
    sys.modules["cupyx"] = x
    sys.modules["cupyx.scipy"] = sx
    sys.modules["cupyx.scipy.special"] = scipy.special
