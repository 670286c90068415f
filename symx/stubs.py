"""Symbolic models of the third-party libraries the repository calls.

wcosmo: positive functions of (z; H0, Om0, w0), otherwise uninterpreted; their numeric
meaning (for replays and sample points) is the real wcosmo.
cached_interpolate: exact piecewise-linear interpolation; cubic splines are an uninterpreted
function of (x; first two nodes; node values), with the caching of the evaluation points kept.
"""
import numpy as np

from . import algebra as al
from . import engine as E
from . import harness as H
from . import patch, shim
from .engine import S, Unsupported

E.UF_ZERO |= {"DVC", "DL", "ZDL"}
H.POSFN |= {"DVC", "DL", "DDL", "ZDL"}


_REAL = {}


# ------------------------------------------------------------------ numeric meaning
def _wc():
    import wcosmo
    from wcosmo.utils import disable_units
    disable_units()
    return wcosmo


def _cosmo_f(name):
    def f(z, H0, Om0, w0):
        w = _wc()
        z, H0, Om0, w0 = (np.asarray(v, float) for v in (z, H0, Om0, w0))
        z = np.atleast_1d(z)
        fn = {"DVC": w.differential_comoving_volume, "DL": w.luminosity_distance, "DDL": w.wcosmo.dDLdz}.get(name)
        z, H0, Om0, w0 = np.broadcast_arrays(z, H0, Om0, w0)
        out = np.empty(z.shape)
        done = {}
        for i in np.ndindex(z.shape):
            done.setdefault((float(H0[i]), float(Om0[i]), float(w0[i])), []).append(i)
        with np.errstate(all="ignore"):
            for k, ix in done.items():
                ix = tuple(np.array(ix).T)
                kw = dict(H0=k[0], Om0=k[1], w0=k[2])
                if name == "ZDL":
                    out[ix] = _REAL.get("z", w.z_at_value)(lambda x: w.luminosity_distance(x, **kw), z[ix])
                else:
                    out[ix] = np.asarray(fn(z[ix], **kw))
        return out
    return f


def _cubic_f(*a):
    """cubic not-a-knot spline on a regular grid: x, node0, node1, y0..yn-1"""
    from cached_interpolate.matrix_forms import MAPPING
    a = np.broadcast_arrays(*[np.asarray(v, float) for v in a])
    x, x0, x1, ys = a[0], a[1], a[2], np.stack(a[3:])
    n = len(ys)
    with np.errstate(all="ignore"):
        sc = (x - x0) / (x1 - x0)
        sc_ = np.where(np.isfinite(sc), sc, 0)
        ix = np.clip(np.floor(sc_).astype(int), 0, n - 2)
        v = np.tensordot(np.asarray(MAPPING["not-a-knot"](n), float), ys, 1)
        bb = sc - ix
        aa = 1 - bb
        tk = lambda m, i: np.take_along_axis(m, i[None], 0)[0]
        return aa * tk(ys, ix) + bb * tk(ys, ix + 1) + (aa**3 - aa) / 6 * tk(v, ix) + (bb**3 - bb) / 6 * tk(v, ix + 1)


for _n in ("DVC", "DL", "DDL", "ZDL"):
    E.NUMF[_n] = _cosmo_f(_n)
    al.NUMERIC[_n] = lambda *a, _n=_n: float(np.ravel(E.NUMF[_n](*[float(v) for v in a]))[0])
E.NUMF["CUBIC"] = _cubic_f
al.NUMERIC["CUBIC"] = lambda *a: float(_cubic_f(*[float(v) for v in a]))


def spline(m, kind, x, nodes, ys):
    """value of the library's interpolant, for oracles (m: ops of the harness)"""
    x = m.of(x)
    nodes, ys = [m.of(v) for v in nodes], [m.of(v) for v in ys]
    if kind == "cubic":
        return m.fn("CUBIC", x, nodes[0], nodes[1], *ys)
    if isinstance(x, np.ndarray) and not m.sym:
        nodes, ys = np.array([float(v) for v in nodes]), np.array([float(v) for v in ys])
        k = np.clip(np.floor((x - nodes[0]) / (nodes[1] - nodes[0])).astype(int), 0, len(nodes) - 2)
        return ys[k] + (ys[k + 1] - ys[k]) / (nodes[k + 1] - nodes[k]) * (x - nodes[k])
    k = 0
    d = nodes[1] - nodes[0]
    while k < len(nodes) - 2 and not (x < nodes[0] + d * (k + 1)):
        k += 1
    return ys[k] + (ys[k + 1] - ys[k]) * (x - nodes[k]) / (nodes[k + 1] - nodes[k])


# ------------------------------------------------------------------ symbolic meaning
def _par(c):
    def one(v):
        v = getattr(v, "value", v)
        if isinstance(v, S):
            return v.np_()
        if isinstance(v, np.ndarray) and v.dtype == object:
            return S.of(v.ravel()[0]) if v.size == 1 else v
        return S.of(float(v)).np_()
    return one(c._H0), one(c.Om0), one(c.w0)


def _cosmo_s(name):
    def f(z, H0, Om0, w0):
        return E.uf(name, z, H0, Om0, w0, pos=True)
    return shim.ew(f, 4)


def _m(name):
    g = _cosmo_s(name)

    def method(self, z, *a, **k):
        return g(z, *_par(self))
    method.__name__ = name
    return method


def _z_at_value(func, fval, *a, **k):
    probe = al.atom("var", (), "_zprobe", lo=None, hi=None, pos=True)
    E.cur().pool.env.setdefault("_zprobe", np.full(E.cur().pool.n, 0.5))
    E.cur().declare("_zprobe", None)
    pr = np.empty(1, object)
    pr[0] = S(al.A(probe))
    r = S.of(func(shim.wrap(pr))[0])
    at = [al.ATOMS[i] for i in r.p.atoms()] if r.sp is None else []
    if len(at) != 1 or at[0].name != "DL" or al.A(at[0]).key != r.p.key or at[0].args[0].key != al.A(probe).key:
        raise Unsupported("z_at_value of something other than the luminosity distance")
    H0, Om0, w0 = (S(p) for p in at[0].args[1:])
    return shim.ew(lambda d: E.uf("ZDL", d, H0, Om0, w0, pos=True))(fval)


class Interp:
    """cached_interpolate.RegularCachingInterpolant"""

    def __init__(self, x, y, kind="cubic", backend=np, bc_type="not-a-knot"):
        if kind not in ("nearest", "linear", "cubic"):
            raise ValueError("kind must be in nearest, linear, cubic")
        if kind == "nearest" or bc_type != "not-a-knot":
            raise Unsupported("interpolation kind %s" % kind)
        self.kind, self.bk = kind, backend
        self.n_nodes = len(x)
        self.x_array = shim.asarray(x)
        self.y_array = shim.asarray(y)
        self.conversion = np.eye(self.n_nodes)
        self._cached = None
        self.return_float = False
        self.delta = x[1] - x[0]

    def __call__(self, x, y=None, use_cache=True):
        if y is not None:
            self.y_array = y
        nodes = list(shim.to_obj(self.x_array))
        ys = list(shim.to_obj(self.y_array))
        if self._cached is None or not use_cache:
            xs = np.atleast_1d(shim.to_obj(x)).view(np.ndarray)
            if xs.size == 1:
                self.return_float = True
            n = self.n_nodes
            idx = []
            for v in xs.ravel():
                k = 0
                if self.kind == "linear":
                    while k < n - 2 and not (v < nodes[0] + (nodes[1] - nodes[0]) * (k + 1)):
                        k += 1
                idx.append(k)
            self._cached = (xs.shape, list(xs.ravel()), idx)
        shape, xs, idx = self._cached
        if len(ys) != self.n_nodes:
            raise ValueError("operands could not be broadcast together")
        out = np.empty(len(xs), object)
        for i, (v, k) in enumerate(zip(xs, idx)):
            if self.kind == "cubic":
                out[i] = E.uf("CUBIC", S.of(v), S.of(nodes[0]), S.of(nodes[1]), *[S.of(q) for q in ys])
            else:
                out[i] = ys[k] + (ys[k + 1] - ys[k]) * (v - nodes[k]) / (nodes[k + 1] - nodes[k])
        out = shim.wrap(out.reshape(shape))
        return out[0] if self.return_float else out


def _flatw(self, H0, Om0, w0=-1, *a, **k):
    self.__dict__.update(_H0=H0, Om0=Om0, w0=w0, method="pade", zmin=1e-4, zmax=100, name=None, meta=None)


def _flatl(self, H0, Om0, *a, **k):
    self.__dict__.update(_H0=H0, Om0=Om0, w0=-1, method="pade", zmin=1e-4, zmax=100, name=None, meta=None)


def install(mode):
    import cached_interpolate
    import wcosmo.astropy as wa
    import wcosmo
    from gwpopulation.experimental import cosmo_models as cm
    if wcosmo.z_at_value is not _z_at_value:
        _REAL["z"] = wcosmo.z_at_value
    out = [
        (wa.WCosmoMixin, "differential_comoving_volume", _m("DVC")),
        (wa.WCosmoMixin, "luminosity_distance", _m("DL")),
        (wa.WCosmoMixin, "dDLdz", _m("DDL")),
        (wa.FlatwCDM, "__init__", _flatw),
        (wa.FlatLambdaCDM, "__init__", _flatl),
        (wcosmo, "z_at_value", _z_at_value),
        (cached_interpolate, "RegularCachingInterpolant", Interp),
    ]
    if "z_at_value" in cm.__dict__:
        out.append((cm, "z_at_value", _z_at_value))
    return out


patch.EXTRA.append(install)
