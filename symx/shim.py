"""Symbolic stand-ins for numpy / jax.numpy / cupy, scipy.special and math.

Arrays are ordinary numpy object arrays of `S`, so indexing, views, aliasing,
broadcasting and in-place semantics are numpy's own.  In jax mode arrays are
`JArr`: in-place operators rebind instead of mutating and item assignment raises.
"""
import math
import sys
import types
from fractions import Fraction as Q

import numpy as np

from . import algebra as al
from .engine import (INF, MAXF, NAN, NINF, S, Unsupported, const, cur, scos, sexp, si0,
                     slgamma, slog, sndtr, spow, ssin, uf)

CFG = {"mode": "numpy", "grid_cap": None, "grids": []}


class JArr(np.ndarray):
    """immutable object array with jax-like updates"""

    def _ro(self, op, o):
        return getattr(np.ndarray, op)(self, o)

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        return self / o

    def __ipow__(self, o):
        return self ** o

    def __setitem__(self, k, v):
        raise TypeError("JAX arrays are immutable")

    @property
    def at(self):
        return _At(self)

    def astype(self, dtype, **k):
        if dtype in (bool, int, "int", "bool"):
            return np.ndarray.astype(self, dtype)
        return self


class _At:
    def __init__(self, a, k=None):
        self.a, self.k = a, k

    def __getitem__(self, k):
        return _At(self.a, k)

    def _upd(self, f):
        b = np.array(self.a, copy=True).view(np.ndarray)
        b[self.k] = f(b[self.k])
        return b.view(JArr)

    def set(self, v):
        return self._upd(lambda old: v)

    def add(self, v):
        return self._upd(lambda old: old + v)

    def multiply(self, v):
        return self._upd(lambda old: old * v)

    def min(self, v):
        return self._upd(lambda old: np.minimum(old, v))

    def max(self, v):
        return self._upd(lambda old: np.maximum(old, v))


JArr.__module__ = "jax.symbolic"


def wrap(a):
    if CFG["mode"] == "jax" and isinstance(a, np.ndarray) and a.dtype.kind in "Oiu" and not isinstance(a, JArr):
        return a.view(JArr)
    return a


def to_obj(x):
    """numpy object array (possibly 0-d) of S"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        flat = [S.of(v).np_() for v in x.ravel().tolist()] if x.dtype != bool else [S.of(bool(v)).np_() for v in x.ravel()]
        out = np.empty(x.shape, object)
        out[...] = np.array(flat + [None], object)[:-1].reshape(x.shape)
        return out
    if isinstance(x, S):
        out = np.empty((), object)
        out[()] = x.np_()
        return out
    if isinstance(x, (list, tuple)) or x.__class__.__module__.startswith("pandas"):
        if hasattr(x, "to_numpy"):
            return to_obj(np.asarray(x.to_numpy()))
        parts = [to_obj(v) for v in x]
        shapes = {p.shape for p in parts}
        if len(shapes) > 1:
            raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
        sh = shapes.pop() if shapes else ()
        out = np.empty((len(parts),) + sh, object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p.item()
        return out
    if hasattr(x, "__array__"):
        return to_obj(np.asarray(x))
    out = np.empty((), object)
    out[()] = S.of(x).np_()
    return out


def _num(x):
    """S element from an array element"""
    return x if type(x) is S else S.of(x)


def ew(f, nin=1):
    """elementwise lift of a function on S; scalars in, scalar out"""

    def g(*args, out=None, where=None, **kw):
        if out is not None or where is not None:
            raise Unsupported("out=/where= arguments")
        a = args[:nin]
        if all(not isinstance(x, (np.ndarray, list, tuple)) and not hasattr(x, "__array__") for x in a):
            return f(*[_num(x).np_() for x in a])
        bs = np.broadcast_arrays(*[to_obj(x) for x in a])
        res = np.empty(bs[0].shape, object)
        it = [b.ravel() for b in bs]
        r = [f(*[_num(v).np_() for v in vs]) for vs in zip(*it)]
        if bs[0].shape == ():
            return r[0]
        for i, v in enumerate(r):
            res.flat[i] = v
        if r and isinstance(r[0], bool):
            return res.astype(bool)
        return wrap(res)

    return g


def _maximum(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN
    return a if a >= b else b


def _minimum(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN
    return a if a <= b else b


def _sign(a):
    if a.sp == "nan":
        return NAN
    return const(a.sign3())


def _arr_is(x):
    return isinstance(x, np.ndarray)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    posinf = S(al.C(MAXF)) if posinf is None else S.of(posinf)
    neginf = S(al.C(-MAXF)) if neginf is None else S.of(neginf)
    nanv = S.of(nan)

    def f(v):
        return {"nan": nanv, "inf": posinf, "-inf": neginf}[v.sp] if v.sp else v

    if isinstance(x, np.ndarray) and copy is False and not isinstance(x, JArr):
        for i in range(x.size):
            x.flat[i] = f(_num(x.flat[i])).np_()
        return x
    r = ew(f)(x)
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "ib":
        return x
    return r


def linspace(start, stop, num=50, endpoint=True, dtype=None, **kw):
    num = int(num)
    cap = CFG["grid_cap"]
    if cap and num > cap:
        CFG["grids"].append((num, cap))
        num = cap
    a, b = S.of(start), S.of(stop)
    n = num - 1 if endpoint else num
    out = np.empty(num, object)
    for i in range(num):
        if i == 0:
            v = a
        elif i == n:
            v = b
        else:
            v = a + (b - a) * const(Q(i, n))
        out[i] = v.np_()
    return wrap(out)


def geomspace(start, stop, num=50, **kw):
    ls = linspace(slog(S.of(start)), slog(S.of(stop)), num)
    return ew(sexp)(ls)


def logspace(start, stop, num=50, base=10.0, **kw):
    lb = slog(S.of(base))
    return ew(lambda v: sexp(v * lb))(linspace(start, stop, num))


def arange(*a, **k):
    return wrap(np.arange(*[float(x) if isinstance(x, S) else x for x in a], **k))


def _full(shape, v):
    if isinstance(shape, (S, float)):
        shape = int(shape)
    out = np.empty(shape, object)
    v = _num(v).np_()
    out.fill(v)
    return wrap(out)


def _isint(dtype):
    return dtype in (int, bool, "int", "bool", np.int64, np.int32, np.bool_)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if dtype is not None and _isint(dtype):
        return wrap(np.array(x, dtype=dtype))
    if isinstance(x, np.ndarray) and x.dtype.kind in "iub" or (
            isinstance(x, (list, tuple)) and x and all(isinstance(v, (int, np.integer)) for v in x)):
        return wrap(np.array(x))
    if isinstance(x, (bool, np.bool_)):
        return np.array(x)
    o = to_obj(x)
    if o is x and copy is not False:
        o = o.copy()
    if ndmin:
        o = np.array(o, ndmin=ndmin)
    return wrap(o)


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and (x.dtype == object or x.dtype.kind in "iub"):
        if dtype is None or not _isint(dtype):
            return wrap(x)
    return array(x, dtype=dtype, copy=None)


def atleast_1d(x):
    return wrap(np.atleast_1d(asarray(x)))


def where(c, *ab):
    if isinstance(c, np.ndarray) and c.dtype == object:
        c = np.array([bool(v) for v in c.ravel()]).reshape(c.shape)
    if not ab:
        return np.where(c)
    a, b = ab
    a = to_obj(a)
    b = to_obj(b)
    return wrap(np.where(c, a, b))


def select(condlist, choicelist, default=0):
    cs = [np.asarray(c, bool) if not (isinstance(c, np.ndarray) and c.dtype == object) else c.astype(bool) for c in condlist]
    ch = [to_obj(c) for c in choicelist] + [to_obj(default)]
    bs = np.broadcast_arrays(*cs, *ch)
    n = len(cs)
    out = bs[-1].copy()
    for k in range(n - 1, -1, -1):
        out = np.where(bs[k], bs[n + k], out)
    return wrap(out)


def piecewise(x, condlist, funclist, *a, **k):
    res = None
    fl = list(funclist)
    default = fl.pop() if len(fl) == len(condlist) + 1 else 0
    ev = lambda f: f(x, *a, **k) if callable(f) else f
    return select(condlist, [ev(f) for f in fl], ev(default))


def _sum(x, axis=None, keepdims=False, dtype=None, where=None, initial=None, out=None):
    if where is not None or out is not None:
        raise Unsupported("sum(where=)")
    if isinstance(x, S):
        return x
    if not isinstance(x, np.ndarray):
        x = asarray(x)
    if x.dtype != object:
        r = np.sum(x, axis=axis, keepdims=keepdims)
    else:
        if x.size == 0 and axis is None:
            return const(0)
        r = np.add.reduce(x.view(np.ndarray), axis=axis, keepdims=keepdims) if axis is not None else \
            np.add.reduce(x.view(np.ndarray).ravel())
        if axis is None and keepdims:
            r = np.full((1,) * x.ndim, r, object)
    return wrap(r)


def _mean(x, axis=None, keepdims=False, dtype=None, **kw):
    if kw:
        raise Unsupported("mean(where=)")
    if isinstance(x, S):
        return x
    if not isinstance(x, np.ndarray):
        x = asarray(x)
    n = x.size if axis is None else int(np.prod([x.shape[a] for a in np.atleast_1d(axis)]))
    s = _sum(to_obj(x), axis=axis, keepdims=keepdims)
    return s / const(n)


def _average(x, axis=None, weights=None, **kw):
    if weights is None:
        return _mean(x, axis)
    return _sum(asarray(x) * weights, axis) / _sum(asarray(weights) * np.ones(np.shape(x), int), axis)


def _var(x, axis=None, ddof=0, keepdims=False, **kw):
    x = to_obj(x)
    m = _mean(x, axis=axis, keepdims=True)
    n = x.size if axis is None else int(np.prod([x.shape[a] for a in np.atleast_1d(axis)]))
    return _sum((x - m) ** 2, axis=axis, keepdims=keepdims) / const(n - ddof)


def _std(x, *a, **k):
    return ew(lambda v: v.sqrt())(_var(x, *a, **k))


def _prod(x, axis=None, **kw):
    x = asarray(x)
    if axis is None:
        return np.multiply.reduce(x.view(np.ndarray).ravel())
    return wrap(np.multiply.reduce(x.view(np.ndarray), axis=axis))


def _extreme(f):
    def g(x, axis=None, keepdims=False, **kw):
        if isinstance(x, S):
            return x
        x = to_obj(asarray(x))
        u = np.frompyfunc(lambda a, b: f(_num(a), _num(b)), 2, 1)
        if axis is None:
            r = u.reduce(x.view(np.ndarray).ravel())
            if keepdims:
                r = np.full((1,) * x.ndim, r, object)
            return r
        return wrap(u.reduce(x.view(np.ndarray), axis=axis, keepdims=keepdims))
    return g


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = to_obj(y).view(np.ndarray)
    if x is None:
        d = _num(dx)
    else:
        x = to_obj(x).view(np.ndarray)
        if x.ndim == 1:
            d = x[1:] - x[:-1]
            sh = [1] * y.ndim
            sh[axis] = d.shape[0]
            d = d.reshape(sh)
        else:
            d = np.diff(x, axis=axis)
    sl1 = [slice(None)] * y.ndim
    sl2 = [slice(None)] * y.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    z = d * (y[tuple(sl1)] + y[tuple(sl2)]) / const(2)
    return wrap(np.add.reduce(z, axis=axis))


def interp(x, xp_, fp, left=None, right=None, period=None):
    xs, fs = list(to_obj(xp_).ravel()), list(to_obj(fp).ravel())

    def f(v):
        if v < xs[0]:
            return fs[0] if left is None else S.of(left)
        if v > xs[-1]:
            return fs[-1] if right is None else S.of(right)
        for k in range(len(xs) - 1):
            if v <= xs[k + 1]:
                return fs[k] + (fs[k + 1] - fs[k]) * (v - xs[k]) / (xs[k + 1] - xs[k])
        return fs[-1]

    return ew(f)(x)


def clip(x, a_min=None, a_max=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = x
    if a_min is not None:
        r = ew(_maximum, 2)(r, a_min)
    if a_max is not None:
        r = ew(_minimum, 2)(r, a_max)
    return r


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if x.sp or y.sp:
            return x.sp == y.sp and x.sp != "nan"
        return bool(abs(x - y) <= const(Q(repr(atol))) + const(Q(repr(rtol))) * abs(y))
    return ew(f, 2)(a, b)


def _isnan(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return np.isnan(x)
    return ew(lambda v: v.sp == "nan")(x)


def _div(a, b):
    if not isinstance(a, np.ndarray):
        a = _num(a).np_() if not isinstance(a, (list, tuple)) else asarray(a)
    if not isinstance(b, np.ndarray):
        b = _num(b).np_() if not isinstance(b, (list, tuple)) else asarray(b)
    return a / b


def _logaddexp(a, b):
    return slog(sexp(a) + sexp(b))


def _binop(f):
    return ew(f, 2)


def _heaviside(x, h):
    s = x.sign3()
    return const(0) if s < 0 else (h if s == 0 else const(1))


def _any_all(name):
    def g(x, axis=None, **k):
        if isinstance(x, (bool, np.bool_)):
            return np.bool_(x)
        if isinstance(x, S):
            return np.bool_(bool(x))
        x = np.asarray(x)
        if x.dtype == object:
            x = np.array([bool(v) for v in x.ravel()]).reshape(x.shape)
        return getattr(np, name)(x, axis=axis, **k)
    return g


def unique(x, **k):
    x = np.asarray(x)
    if x.dtype != object:
        return np.unique(x, **k)
    if k:
        raise Unsupported("unique options")
    vals = list(x.ravel())
    out = []
    for v in vals:
        lo = 0
        dup = False
        for w in out:
            if v == w:
                dup = True
                break
            if v > w:
                lo += 1
            else:
                break
        if not dup:
            out.insert(lo, v)
    r = np.empty(len(out), object)
    for i, v in enumerate(out):
        r[i] = v
    return wrap(r)


def _empty(shape, dtype=float, **k):
    if _isint(dtype):
        return wrap(np.zeros(shape, dtype))
    return _full(shape, NAN)


class SymFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (type(x) is S)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class symfloat(metaclass=SymFloatMeta):
    """replacement for the name `float` inside the executed modules"""

    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return x.py_()
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
            return _num(x.ravel()[0]).py_()
        return float(x)


OVER = dict(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, atleast_1d=atleast_1d,
    copy=lambda x, **k: array(x),
    zeros=lambda shape, dtype=float, **k: wrap(np.zeros(shape, dtype)) if _isint(dtype) else _full(shape, 0),
    ones=lambda shape, dtype=float, **k: wrap(np.ones(shape, dtype)) if _isint(dtype) else _full(shape, 1),
    full=lambda shape, v, dtype=None, **k: _full(shape, v), empty=_empty,
    zeros_like=lambda x, dtype=None, **k: wrap(np.zeros(np.shape(x), dtype)) if _isint(dtype) else _full(np.shape(x), 0),
    ones_like=lambda x, dtype=None, **k: wrap(np.ones(np.shape(x), dtype)) if _isint(dtype) else _full(np.shape(x), 1),
    full_like=lambda x, v, **k: _full(np.shape(x), v),
    empty_like=lambda x, dtype=None, **k: _empty(np.shape(x), dtype),
    linspace=linspace, geomspace=geomspace, logspace=logspace, arange=arange,
    exp=ew(sexp), expm1=ew(lambda v: sexp(v) - 1), exp2=ew(lambda v: sexp(v * slog(const(2)))),
    log=ew(slog), log1p=ew(lambda v: slog(v + 1)), log2=ew(S.log2), log10=ew(S.log10),
    sqrt=ew(S.sqrt), square=ew(S.square), reciprocal=ew(S.reciprocal),
    power=_binop(spow), float_power=_binop(spow), pow=_binop(spow),
    abs=ew(abs), absolute=ew(abs), fabs=ew(abs), sign=ew(_sign), negative=ew(lambda v: -v),
    positive=ew(lambda v: v),
    maximum=_binop(_maximum), minimum=_binop(_minimum), fmax=_binop(lambda a, b: b if a.sp == "nan" else a if b.sp == "nan" else _maximum(a, b)),
    fmin=_binop(lambda a, b: b if a.sp == "nan" else a if b.sp == "nan" else _minimum(a, b)),
    clip=clip, where=where, select=select, piecewise=piecewise, nan_to_num=nan_to_num,
    isnan=_isnan, isinf=ew(lambda v: v.sp in ("inf", "-inf")), isfinite=ew(lambda v: v.sp is None),
    isneginf=ew(lambda v: v.sp == "-inf"), isposinf=ew(lambda v: v.sp == "inf"),
    cos=ew(scos), sin=ew(ssin), tan=ew(S.tan), tanh=ew(S.tanh), cosh=ew(S.cosh), sinh=ew(S.sinh),
    arccos=ew(S.arccos), arcsin=ew(S.arcsin), arctan=ew(S.arctan),
    hypot=_binop(lambda a, b: (a * a + b * b).sqrt()),
    sum=_sum, mean=_mean, average=_average, var=_var, std=_std, prod=_prod, nansum=lambda x, axis=None, **k: _sum(nan_to_num(x, posinf=math.inf, neginf=-math.inf), axis),
    max=_extreme(_maximum), min=_extreme(_minimum), amax=_extreme(_maximum), amin=_extreme(_minimum),
    trapezoid=trapezoid, interp=interp, heaviside=_binop(_heaviside), logaddexp=_binop(_logaddexp),
    divide=_div, true_divide=_div, multiply=_binop(lambda a, b: a * b), add=_binop(lambda a, b: a + b),
    subtract=_binop(lambda a, b: a - b), isclose=_isclose,
    allclose=lambda a, b, **k: bool(np.all(_isclose(a, b, **k))),
    any=_any_all("any"), all=_any_all("all"), unique=unique,
    less=_binop(lambda a, b: a < b), less_equal=_binop(lambda a, b: a <= b), greater=_binop(lambda a, b: a > b),
    greater_equal=_binop(lambda a, b: a >= b), equal=_binop(lambda a, b: a == b), not_equal=_binop(lambda a, b: a != b),
    inf=math.inf, nan=math.nan, newaxis=None, ndarray=np.ndarray,
    float64=lambda x=0.0: x.np_() if isinstance(x, S) else (x if isinstance(x, np.ndarray) and x.dtype == object else np.float64(x)),
    asnumpy=lambda x: x,
)
PASS = set("""shape ndim size reshape squeeze expand_dims transpose swapaxes moveaxis concatenate stack vstack hstack
 column_stack broadcast_to broadcast_arrays meshgrid tile repeat diff cumsum cumprod dot matmul einsum outer tensordot
 ravel take argsort sort searchsorted logical_and logical_or logical_not logical_xor bitwise_and isscalar
 finfo iinfo int64 int32 bool_ float32 number generic floating integer errstate ix_ flip roll split triu tril eye
 identity diag trace vectorize apply_along_axis promote_types result_type dtype integer random seterr linalg testing
 flatnonzero nonzero argwhere argmax argmin count_nonzero indices may_share_memory shares_memory isin atleast_2d
 iterable append insert delete nditer ndenumerate ndindex can_cast array_equal intersect1d setdiff1d union1d inner vdot
 cross kron convolve unravel_index ravel_multi_index fromiter frompyfunc ptp median percentile quantile histogram
 digitize rollaxis put place copyto lexsort partition choose compress extract array_split dsplit hsplit vsplit block
 resize rot90 fliplr flipud floor ceil rint round trunc mod isreal real imag iscomplexobj bool ufunc integer
 __version__""".split())


class Shim(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__name__ = name

    def __getattr__(self, k):
        if k == "pi":
            return S(al.pi())
        if k == "e":
            return sexp(const(1))
        if k == "euler_gamma":
            raise Unsupported("euler_gamma")
        if k == "trapz" and self.__name__ == "cupy":
            return trapezoid
        if k in OVER:
            if self.__name__ == "numpy" and k == "asnumpy":
                raise AttributeError(k)
            return OVER[k]
        if k in PASS:
            f = getattr(np, k)
            if isinstance(f, types.FunctionType) or callable(f) and not isinstance(f, type):
                def g(*a, **kw):
                    return wrap(f(*a, **kw))
                g.__name__ = k
                return g
            return f
        if k.startswith("__"):
            raise AttributeError(k)
        if hasattr(np, k):
            raise Unsupported("numpy.%s is not modelled" % k)
        raise AttributeError("module %r has no attribute %r" % (self.__name__, k))


def _beta_ln(a, b):
    return slgamma(a) + slgamma(b) - slgamma(a + b)


SQ2 = lambda: const(2).sqrt()


def _i0e(x):
    a = abs(x)
    return si0(a) * sexp(-a)


def _xlogy(x, y):
    if x.sp is None and bool(x == 0) and y.sp != "nan":
        return const(0)
    return x * slog(y)


def _logsumexp(a, axis=None, b=None, keepdims=False, **k):
    if k.get("return_sign"):
        raise Unsupported("logsumexp(return_sign)")
    e = OVER["exp"](a)
    if b is not None:
        e = e * b
    return OVER["log"](_sum(e, axis=axis, keepdims=keepdims))


def _gamma(a):
    return sexp(slgamma(a))


def _erf(x):
    if x.sp == "nan":
        return NAN
    return sndtr(x * SQ2()) * 2 - 1


SCS = dict(
    ndtr=ew(sndtr), log_ndtr=ew(lambda x: slog(sndtr(x))), erf=ew(_erf), erfc=ew(lambda x: const(2) - sndtr(x * SQ2()) * 2),
    betaln=ew(_beta_ln, 2), beta=ew(lambda a, b: sexp(_beta_ln(a, b)), 2), gammaln=ew(slgamma), gamma=ew(_gamma),
    i0=ew(si0), i0e=ew(_i0e), expit=ew(lambda x: (const(0) if x.sp == "-inf" else const(1) if x.sp == "inf" else const(1) / (sexp(-x) + 1))),
    logit=ew(lambda x: slog(x) - slog(const(1) - x)), log_expit=ew(lambda x: -slog(sexp(-x) + 1)),
    xlogy=ew(_xlogy, 2), xlog1py=ew(lambda x, y: _xlogy(x, y + 1), 2), logsumexp=_logsumexp, exp10=ew(lambda x: sexp(x * slog(const(10)))),
)


class ScsShim(types.ModuleType):
    def __getattr__(self, k):
        if k in SCS:
            return SCS[k]
        if k.startswith("__"):
            raise AttributeError(k)
        import scipy.special
        if hasattr(scipy.special, k):
            raise Unsupported("scipy.special.%s is not modelled" % k)
        raise AttributeError(k)


def _m(f):
    """math.* functions: Python float semantics (domain errors raise)"""
    def g(*a):
        r = f(*[S.of(x) for x in a])
        if r.sp in ("nan", "-inf") and all(S.of(x).sp is None for x in a):
            raise ValueError("math domain error")
        return r.py_()
    return g


class MathShim(types.ModuleType):
    def __getattr__(self, k):
        t = dict(log=_m(lambda x, b=None: slog(x) if b is None else slog(x) / slog(b)), exp=_m(sexp), sqrt=_m(S.sqrt),
                 log1p=_m(S.log1p), expm1=_m(S.expm1), log10=_m(S.log10), log2=_m(S.log2), cos=_m(scos), sin=_m(ssin),
                 pow=_m(spow), fabs=_m(abs), erf=_m(_erf), erfc=_m(lambda x: const(2) - sndtr(x * SQ2()) * 2),
                 lgamma=_m(slgamma), gamma=_m(_gamma), inf=math.inf, nan=math.nan, pi=S(al.pi(), None, True), e=math.e,
                 isnan=lambda x: S.of(x).sp == "nan", isinf=lambda x: S.of(x).sp in ("inf", "-inf"),
                 isfinite=lambda x: S.of(x).sp is None, prod=lambda xs, start=1: _pyprod(xs, start),
                 fsum=lambda xs: sum(xs))
        if k in t:
            return t[k]
        if k.startswith("__"):
            raise AttributeError(k)
        if hasattr(math, k):
            f = getattr(math, k)
            def g(*a):
                return f(*[float(x) if isinstance(x, S) else x for x in a])
            return g
        raise AttributeError(k)


def _pyprod(xs, s):
    for x in xs:
        s = s * x
    return s


NP = Shim("numpy")
JNP = Shim("jax.numpy")
CNP = Shim("cupy")
SCSM = ScsShim("scipy.special")
MATH = MathShim("math")
JNP.__dict__["float64"] = OVER["float64"]
