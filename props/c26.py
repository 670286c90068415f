"""Backend switching: any history of selections, failures at any point."""
import contextlib
import importlib.metadata
import sys
import types

from .common import harness

NAMES = {0: "numpy", 1: "jax", 2: "cupy"}
BAD = ["torch", "", "NumPy", "numpy.linalg"]
OPS = ["numpy", "jax", "cupy", "not installed", "not importable", "unknown name", "plugin not importable", "plugin without function"]


ENTRIES = {}


class Finder:
    """makes packages unimportable"""

    def __init__(self):
        self.bad = {}

    def find_spec(self, name, path=None, target=None):
        if name in self.bad:
            raise self.bad[name]("%s cannot be imported" % name)
        return None


def fake_cupy():
    cp, cx, cs, sp, la = (types.ModuleType(n) for n in ("cupy", "cupyx", "cupyx.scipy", "cupyx.scipy.special", "cupyx.scipy.linalg"))
    cx.scipy, cs.special, cs.linalg = cs, sp, la
    la.toeplitz = lambda *a: None
    for m in (cx, cs):
        m.__path__ = []
    return {m.__name__: m for m in (cp, cx, cs, sp, la)}


@contextlib.contextmanager
def world(h):
    """everything a switch may touch, restored at the end"""
    import jax.numpy
    import jax.scipy.linalg
    import jax.scipy.special
    import scipy.linalg
    from gwpopulation import backend
    mods = [m for n, m in sorted(sys.modules.items()) if m is not None and (n == "gwpopulation" or n.startswith("gwpopulation."))]
    saved = [(m, dict(m.__dict__)) for m in mods]
    keys = ["cupy", "cupyx", "cupyx.scipy", "cupyx.scipy.special", "cupyx.scipy.linalg", "vplug", "vplug.one", "vplug.two", "vplug.fail"]
    old = {k: sys.modules.get(k) for k in keys}
    real = importlib.metadata.entry_points
    known = {g: list(real(group=g)) for g in ("gwpopulation.xp", "gwpopulation.scs", "gwpopulation.other")} if not ENTRIES else ENTRIES
    ENTRIES.update(known)
    f = Finder()
    pkg, one, two = types.ModuleType("vplug"), types.ModuleType("vplug.one"), types.ModuleType("vplug.two")
    pkg.__path__, pkg.one, pkg.two = [], one, two
    plugins = {"gwpopulation.xp": ["vplug.one"], "gwpopulation.scs": ["vplug.two"], "gwpopulation.other": ["vplug.two:scipy.linalg.toeplitz"]}
    EP = importlib.metadata.EntryPoint

    def entry_points(**k):
        out = [e for g in ENTRIES if k.get("group", g) == g for e in ENTRIES[g]]
        return importlib.metadata.EntryPoints(out + [EP("v%d" % i, v, g) for g in plugins if k.get("group", g) == g for i, v in enumerate(plugins[g])])

    stubs = [(importlib.metadata, "entry_points", entry_points)]
    if "entry_points" in backend.__dict__:
        stubs.append((backend, "entry_points", entry_points))
    sys.meta_path.insert(0, f)
    try:
        for k in keys:
            sys.modules.pop(k, None)
        sys.modules.update({"vplug": pkg, "vplug.one": one, "vplug.two": two})
        with h.stub(*stubs):
            yield backend, f, plugins, one, two, mods
    finally:
        sys.meta_path.remove(f)
        for m, d in saved:
            for k in list(m.__dict__):
                if k not in d:
                    delattr(m, k)
            m.__dict__.update(d)
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        import jax
        jax.config.update("jax_enable_x64", True)


def pick(x, n):
    """the symbolic operation code decides, by solver-checked branches"""
    for i in range(n - 1):
        if x < i + 1:
            return i
    return n - 1


def run(h, ops):
    import jax
    import jax.numpy
    import jax.scipy.linalg
    import jax.scipy.special
    import numpy
    import scipy.linalg
    import scipy.special
    with world(h) as (backend, f, plugins, one, two, mods):
        cp = fake_cupy()
        want = {0: (numpy, scipy.special, scipy.linalg.toeplitz), 1: (jax.numpy, jax.scipy.special, jax.scipy.linalg.toeplitz),
                2: (cp["cupy"], cp["cupyx.scipy.special"], cp["cupyx.scipy.linalg"].toeplitz)}
        backend.set_backend("jax")
        backend.set_backend("numpy")
        cur, label = 0, "numpy"
        users = [(m, k, j) for m in mods for k, j in (("xp", 0), ("scs", 1)) if k in m.__dict__ and m is not backend]
        h.true("all parts of the library are followed", len(users) >= 10, str(users))
        users += [(one, "xp", 0), (two, "scs", 1), (two, "toeplitz", 2)]

        def state():
            for m, k, j in users:
                h.true("%s.%s after %s" % (m.__name__, k, label), m.__dict__.get(k) is want[cur][j], "%s.%s is %r with the %s backend (%s)" % (m.__name__, k, m.__dict__.get(k), NAMES[cur], label))

        def spec(v, If):
            """the last successfully selected backend"""
            c = 0
            for j in range(i + 1):
                o = v["op%d" % j] if j else ops[0]
                c = If(o < 1, 0, If(o < 2, 1, If(o < 3, 2, c)))
            return c
        state()
        for i, op in enumerate(ops):
            label = "%s step %d" % (OPS[op], i)
            for k in cp:
                sys.modules.pop(k, None)
            f.bad.clear()
            if op == 1:
                jax.config.update("jax_enable_x64", cur == 1)
            if op in (0, 1, 2):
                if op == 2:
                    sys.modules.update(cp)
                backend.set_backend(NAMES[op])
                cur = op
                if op == 1:
                    h.true("double precision", bool(jax.config.jax_enable_x64))
            elif op in (3, 4):
                exc = ModuleNotFoundError if op == 3 else ImportError
                f.bad["cupy" if op == 3 or i % 2 else "cupyx"] = exc
                if "cupy" not in f.bad:
                    sys.modules["cupy"] = cp["cupy"]
                if cur != 2:      # selecting the active backend again is a no-op
                    h.raises("an unavailable library is reported", ImportError, backend.set_backend, "cupy")
            elif op == 5:
                h.raises("an unknown name is rejected", ValueError, backend.set_backend, BAD[i])
            else:
                g = ["gwpopulation.xp", "gwpopulation.scs", "gwpopulation.other"][i % 3]
                plugins[g].append(("vplug.fail:scipy.linalg.toeplitz" if g.endswith("other") else "vplug.fail") if op == 6 else "vplug.one:scipy.linalg.nothing_here")
                if op == 7:
                    plugins["gwpopulation.other"] = ["vplug.two:scipy.linalg.toeplitz", "vplug.one:scipy.linalg.nothing_here"]
                    plugins["gwpopulation.xp"] = ["vplug.one"]
                    plugins["gwpopulation.scs"] = ["vplug.two"]
                try:
                    backend.set_backend(NAMES[1 - cur if cur < 2 else 0])
                    h.true("a failed switch is reported", False)
                except (ImportError, AttributeError):
                    h.true("a failed switch is reported", True)
                plugins.update({"gwpopulation.xp": ["vplug.one"], "gwpopulation.scs": ["vplug.two"], "gwpopulation.other": ["vplug.two:scipy.linalg.toeplitz"]})
            state()
            seen = [c for c in want if all(m.__dict__.get(k) is want[c][j] for m, k, j in users)]
            h.spec("the last successful selection is active everywhere", seen[0] if len(seen) == 1 else -1, ["op%d" % j for j in range(1, i + 1)], spec)


@harness("C26", modes=("numpy",), configs=[dict(first=i, n=3) for i in range(8)], paths=4000, witnesses=1, pool=512,
         thorough=[dict(first=i, n=4) for i in range(8)],
         bounds="every history of 3 switches over: three backends, a library missing or broken, unknown names, a registered plugin failing at any of its entry points")
def histories(h, cfg):
    ops = [cfg["first"]] + [pick(h.real("op%d" % i, 0, 8), 8) for i in range(1, cfg["n"])]
    run(h, ops)
