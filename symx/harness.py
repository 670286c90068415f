"""Harness context (symbolic and concrete), path exploration, claims, replay."""
import contextlib
import io
import json
import math
import os
import random
import signal
import sys
import threading
import time
import traceback
import warnings
import zlib
from fractions import Fraction as Q

import mpmath
import numpy as np

from . import algebra as al
from . import engine as E
from . import patch, shim, solver
from .engine import S

REPO = "/repo"


class Discard(BaseException):
    """path or replay outside the harness's assumptions"""


class Ambiguous(Discard):
    """floating-point tie: the concrete replay says nothing"""


class HarnessError(BaseException):
    pass


class PathTimeout(al.Blowup):
    """one path took longer than the limit"""


@contextlib.contextmanager
def time_limit(seconds):
    def hit(*a):
        raise PathTimeout("path exceeded %d s" % seconds)
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, hit)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- exact numbers for concrete replays
class M:
    """mpmath value with the comparison/special-value conventions of S"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v if isinstance(v, mpmath.mpf) else mpmath.mpf(v)

    @staticmethod
    def of(x):
        if isinstance(x, M):
            return x
        if isinstance(x, Q):
            return M(al.mpq(x))
        if isinstance(x, (int, np.integer, bool, np.bool_)):
            return M(mpmath.mpf(int(x)))
        return M(mpmath.mpf(float(x)))

    def _b(self, o, f):
        return M(f(self.v, M.of(o).v))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return M(-self.v)

    def __abs__(self):
        return M(abs(self.v))

    def __truediv__(self, o):
        o = M.of(o)
        if o.v == 0:
            if self.v == 0 or mpmath.isnan(self.v):
                return M(mpmath.nan)
            return M(mpmath.inf if self.v > 0 else -mpmath.inf)
        return M(self.v / o.v)

    def __rtruediv__(self, o):
        return M.of(o) / self

    def __pow__(self, o):
        o = M.of(o)
        if self.v == 0:
            return M(0 if o.v > 0 else 1 if o.v == 0 else mpmath.inf)
        if self.v < 0 and o.v != int(o.v):
            return M(mpmath.nan)
        return M(mpmath.power(self.v, o.v))

    def __rpow__(self, o):
        return M.of(o) ** self

    def _c(self, o, op):
        o = M.of(o)
        a, b = self.v, o.v
        if mpmath.isnan(a) or mpmath.isnan(b):
            return op == "!="
        if a != b and not mpmath.isinf(a) and not mpmath.isinf(b) and abs(a - b) <= mpmath.mpf("1e-11") * max(abs(a), abs(b)):
            raise Ambiguous()
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    def __hash__(self):
        return hash(self.v)

    def __float__(self):
        return float(self.v)

    def __repr__(self):
        return mpmath.nstr(self.v, 17)


class OpsSym:
    """mathematical functions for oracles, symbolic"""
    sym = True

    def of(self, x):
        return S.of(x).np_()

    def q(self, a, b=1):
        return E.const(Q(a, b))

    @property
    def pi(self):
        return S(al.pi())

    @property
    def inf(self):
        return E.INF

    @property
    def nan(self):
        return E.NAN

    def exp(self, x):
        return E.sexp(self.of(x))

    def log(self, x):
        return E.slog(self.of(x))

    def sqrt(self, x):
        return self.of(x).sqrt()

    def ndtr(self, x):
        return E.sndtr(self.of(x))

    def lgamma(self, x):
        return E.slgamma(self.of(x))

    def i0(self, x):
        return E.si0(self.of(x))

    def cos(self, x):
        return E.scos(self.of(x))

    def fn(self, name, *args):
        return E.uf(name, *[a if isinstance(a, (str, tuple)) else self.of(a) for a in args], pos=name in POSFN)

    def isfinite(self, x):
        return self.of(x).sp is None


POSFN = set()


class OpsNum:
    sym = False

    def of(self, x):
        return M.of(x)

    def q(self, a, b=1):
        return M.of(Q(a, b))

    @property
    def pi(self):
        return M(mpmath.pi())

    @property
    def inf(self):
        return M(mpmath.inf)

    @property
    def nan(self):
        return M(mpmath.nan)

    def exp(self, x):
        return M(mpmath.exp(M.of(x).v))

    def log(self, x):
        v = M.of(x).v
        if mpmath.isnan(v) or v < 0:
            return M(mpmath.nan)
        return M(-mpmath.inf) if v == 0 else M(mpmath.log(v))

    def sqrt(self, x):
        v = M.of(x).v
        return M(mpmath.nan) if v < 0 else M(mpmath.sqrt(v))

    def ndtr(self, x):
        return M(mpmath.ncdf(M.of(x).v))

    def lgamma(self, x):
        return M(mpmath.loggamma(M.of(x).v).real)

    def i0(self, x):
        return M(mpmath.besseli(0, M.of(x).v).real)

    def cos(self, x):
        return M(mpmath.cos(M.of(x).v))

    def fn(self, name, *args):
        r = al.NUMERIC[name](*[a if isinstance(a, (str, tuple)) else M.of(a).v for a in args])
        return M(r)

    def isfinite(self, x):
        return bool(mpmath.isfinite(M.of(x).v))


class OpsFloat:
    """numpy double precision, for oracles evaluated over whole quadrature grids"""
    sym = False
    pi, inf, nan = math.pi, math.inf, math.nan

    def of(self, x):
        return float(x) if isinstance(x, (M, Q)) else x

    def q(self, a, b=1):
        return a / b

    exp, log, sqrt, cos = np.exp, np.log, np.sqrt, np.cos

    def ndtr(self, x):
        return E.NUMF["NDTR"](x)

    def lgamma(self, x):
        return E.NUMF["LGAMMA"](x)

    def fn(self, name, *args):
        return E.NUMF[name](*[a if isinstance(a, (str, tuple)) else self.of(a) for a in args])


FLOPS = OpsFloat()


def _flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out += _flat(v)
        return out
    if isinstance(x, np.ndarray):
        return list(x.ravel().tolist()) if x.dtype != object else list(x.ravel())
    if x.__class__.__module__.startswith("jax"):
        return np.asarray(x).ravel().tolist()
    if x.__class__.__module__.startswith("pandas"):
        return _flat(np.asarray(x))
    return [x]


class Fail:
    def __init__(self, label, detail, goal=None):
        self.label, self.detail, self.goal = label, detail, goal


class Ctx:
    def __init__(self, mode, cfg):
        self.mode = mode
        self.cfg = cfg
        self.fails = []
        self.nclaims = 0
        self.vars = {}
        self.choices = {}
        self.reached = set()

    # overridden: real, arr, choose, _eq1, _rel1
    @contextlib.contextmanager
    def stub(self, *triples):
        """replace library attributes (random generators, recorders) in both kinds of run"""
        saved = []
        try:
            for o, k, v in triples:
                saved.append((o, k, o.__dict__.get(k, patch._MISSING)))
                setattr(o, k, v)
            yield
        finally:
            for o, k, v in reversed(saved):
                if v is patch._MISSING:
                    delattr(o, k)
                else:
                    setattr(o, k, v)

    def forget(self):
        """module-level state of the library as after its import"""
        patch.reset_state()

    def reals(self, prefix, n, lo, hi, **k):
        return [self.real("%s%d" % (prefix, i), lo, hi, **k) for i in range(n)]

    def assume(self, cond):
        if not bool(cond):
            raise Discard()

    def unsupported(self, msg):
        """the code does something the harness has no model of: no verdict"""
        if self.sym:
            raise E.Unsupported(msg)
        raise Discard()

    def O(self, x):
        return self.ops.of(x)

    def eq(self, label, got, want, rtol=None, atol=None, scale=None):
        g, w = _flat(got), _flat(want)
        if len(g) != len(w) and len(w) == 1:
            w = w * len(g)
        if len(g) != len(w):
            self.fail(label, "shape mismatch: %d values, expected %d" % (len(g), len(w)))
            return
        if scale is not None and not self.sym:      # replay: rounding error of quantities of this size
            atol = 1e-13 * abs(float(scale))
        for i, (a, b) in enumerate(zip(g, w)):
            self.nclaims += 1
            self._eq1(label if len(g) == 1 else "%s[%d]" % (label, i), a, b, rtol, atol)

    def shape(self, label, got, want):
        self.true(label, tuple(np.shape(got)) == tuple(want), "shape %s, expected %s" % (np.shape(got), want))

    def ge(self, label, got, want=0):
        for a in _flat(got):
            self.nclaims += 1
            self._rel1(label, a, want, ">=")

    def gt(self, label, got, want=0):
        for a in _flat(got):
            self.nclaims += 1
            self._rel1(label, a, want, ">")

    def finite(self, label, got):
        for a in _flat(got):
            self.true(label, self.ops.isfinite(a), "not finite: %r" % (a,))

    def true(self, label, cond, detail=""):
        self.nclaims += 1
        self.reached.add(label)
        if not bool(cond):
            self.fail(label, detail or "does not hold")

    def fail(self, label, detail, goal=None):
        self.reached.add(label)
        self.fails.append(Fail(label, detail, goal))

    def raises(self, label, exc, f, *a, **k):
        self.nclaims += 1
        self.reached.add(label)
        try:
            r = f(*a, **k)
        except exc:
            return None
        except Exception as e:
            self.fail(label, "raised %s: %s instead of %s" % (type(e).__name__, e, exc))
            return None
        self.fail(label, "accepted, returned %r" % (r,))
        return r


class SymCtx(Ctx):
    sym = True
    ops = OpsSym()

    def __init__(self, mode, cfg, path, seed):
        super().__init__(mode, cfg)
        self.path = path
        self.special = {}
        self.seed = seed
        self.undecided = []

    def real(self, name, lo, hi, log=False, pts=(), open=False, nice=False, py=True):
        """a symbolic real input in [lo, hi] (open: lo < x)"""
        lo_, hi_ = Q(str(lo)) if isinstance(lo, float) else Q(lo), Q(str(hi)) if isinstance(hi, float) else Q(hi)
        if name in self.vars:
            raise HarnessError("input %s declared twice" % name)
        a = al.atom("var", (), name, lo=lo_, hi=hi_, pos=(lo_ > 0 or (open and lo_ == 0)))
        if name not in self.path.pool.env:
            rng = np.random.Generator(np.random.PCG64([self.seed, zlib.crc32(name.encode())]))
            n = self.path.pool.n
            flo, fhi = float(lo_), float(hi_)
            if log:
                l0 = math.log(flo if flo > 0 else fhi * 1e-6)
                v = np.exp(rng.uniform(l0, math.log(fhi), n))
            else:
                v = rng.uniform(flo, fhi, n)
            if len(pts):
                pick = rng.random(n) < 0.25
                v = np.where(pick, rng.choice(np.array([float(x) for x in pts]), n), v)
            # short binary fractions keep replays free of rounding ties
            sc = 2.0 ** (10 - np.floor(np.log2(np.abs(v) + 1e-300)))
            r = np.round(v * sc) / sc
            v = np.where((r >= flo) & (r <= fhi), r, v)
            if open:
                v = np.where(v == flo, (flo + fhi) / 2, v)
            self.path.pool.env[name] = v
        self.path.declare(name, None)
        self.vars[name] = (lo_, hi_)
        self.special[name] = {float(x) for x in pts}
        s = S(al.A(a), None, py)
        if open and lo_ < 0 or (open and lo_ > 0):
            if not (s > S.of(lo_)):
                raise Discard()
        return s

    def arr(self, x):
        return shim.array(shim.to_obj(x))

    def npf(self, x):
        """numpy scalar"""
        return S.of(x).np_()

    def choose(self, name, n):
        k = self.path.choose(n)
        self.choices[name] = k
        return k

    def under(self, mode):
        """run a block with another backend active"""
        return patch.switched(mode)

    def linspace(self, lo, hi, n):
        """the quadrature grid (reduced to the stated cap in symbolic runs)"""
        return list(shim.linspace(S.of(lo).np_(), S.of(hi).np_(), n))

    def map(self, f, xs):
        return [f(self.ops, x) for x in xs]

    def trapz(self, ys, xs):
        s = S.of(0)
        for i in range(len(xs) - 1):
            s = s + (S.of(xs[i + 1]) - xs[i]) * (S.of(ys[i]) + ys[i + 1]) / 2
        return s

    def _query(self, label, goals, detail):
        solver.STATS.claims += 1
        P = self.path
        self.reached.add(label)
        r, _ = solver.query(P.facts, goals, P.known_pos, timeout=self.cfg.get("_timeout", 5000))
        if r == "unsat":
            return
        # other facts may make the path infeasible: retry with everything
        if len(P.facts) < 60:
            r2, _ = solver.query(P.facts, goals, P.known_pos, timeout=self.cfg.get("_timeout", 5000), slicing=False)
            if r2 == "unsat":
                return
        self.fail(label, "%s (solver: %s)" % (detail, r), goals)

    def _eq1(self, label, a, b, rtol, atol):
        a, b = S.of(a), S.of(b)
        if a.sp or b.sp:
            if a.sp == b.sp:
                self._query(label, [(al.ZERO, "!=")], "")
                return
            self.fail(label, "value %s, expected %s" % (a, b), [])
            return
        d = self.path.norm(al.sub(self.path.norm(a.p), self.path.norm(b.p)))
        if d.t:
            c, m, prim = al.primitive(d)
            d = prim if prim.t else d
        if len(d.t) > 3000:
            self.fail(label, "difference too large to decide", [(d, "!=")])
            return
        self._query(label, [(d, "!=")], "value differs: got %.300s expected %.300s" % (a, b))

    def spec(self, label, observed, names, fn):
        """the concrete observation of this path equals a specification given as a formula over the inputs"""
        self.nclaims += 1
        self.reached.add(label)
        solver.STATS.claims += 1
        P = self.path
        tr = solver.Translator(P.known_pos)
        cons = {}
        for n in names:
            lo, hi = self.vars[n]
            a = al.atom("var", (), n, lo=lo, hi=hi, pos=lo > 0)
            cons[n] = tr.poly(al.A(a))
        fs = [tr.rel(p, o) for p, o in P.facts]
        for n in names:
            lo, hi = self.vars[n]
            fs += [cons[n] >= solver.q2z(lo), cons[n] <= solver.q2z(hi)]
        import z3
        fs.append(fn(cons, lambda c, x, y: z3.If(c, x, y) if z3.is_expr(c) else (x if c else y)) != observed)
        r, _ = solver._run(fs + tr.side, 5000, tr, False)
        if r != "unsat":
            self.fail(label, "observed %r differs from the specification (solver: %s)" % (observed, r), [])

    def _rel1(self, label, a, b, op):
        a, b = S.of(a), S.of(b)
        self.reached.add(label)
        if a.sp or b.sp:
            ok = a._cmp(b, op)
            if not ok:
                self.fail(label, "%s %s %s fails" % (a, op, b), [])
            return
        d = self.path.norm(al.sub(a.p, b.p))
        neg = {">=": "<", ">": "<=", "==": "!="}[op]
        if d.is_const():
            c = d.const()
            if not {">=": c >= 0, ">": c > 0, "==": c == 0}[op]:
                self.fail(label, "%s %s %s fails" % (a, op, b), [])
            return
        q = self.path.quick(d)
        if q <= {">=": frozenset({0, 1}), ">": frozenset({1}), "==": frozenset({0})}[op]:
            self._query(label, [(al.ZERO, "!=")], "")
            return
        self._query(label, [(d, neg)], "%.200s %s %.200s fails" % (a, op, b))


class NumCtx(Ctx):
    sym = False

    def spec(self, label, observed, names, fn):
        self.nclaims += 1
        self.reached.add(label)
        want = fn({n: self.env.get(n, 0.0) for n in names}, lambda c, x, y: x if c else y)
        if want != observed:
            self.fail(label, "observed %r, specified %r" % (observed, want))
    ops = OpsNum()

    def __init__(self, mode, cfg, env, choices=None):
        super().__init__(mode, cfg)
        self.env = env
        self.choices = choices or {}

    def real(self, name, lo, hi, log=False, pts=(), open=False, nice=False, py=True):
        if name not in self.env:     # the recorded path ended before this input was read
            self.env[name] = float(np.random.Generator(np.random.PCG64(zlib.crc32(name.encode()))).uniform(float(lo), float(hi)))
        v = float(self.env[name])
        if not (float(lo) <= v <= float(hi)) or (open and v == float(lo)):
            raise Discard()
        return v if py else np.float64(v)

    def arr(self, x):
        a = np.array(x, dtype=float)
        if self.mode == "jax":
            import jax.numpy as jnp
            return jnp.asarray(a)
        return a

    def npf(self, x):
        if self.mode == "jax":
            import jax.numpy as jnp
            return jnp.asarray(float(x))
        return np.float64(x)

    def choose(self, name, n):
        return self.choices.get(name, 0)

    @contextlib.contextmanager
    def under(self, mode):
        old = self.mode
        concrete_backend(mode)
        self.mode = mode
        try:
            yield
        finally:
            self.mode = old
            concrete_backend(old)

    def linspace(self, lo, hi, n):
        return np.linspace(float(M.of(lo)), float(M.of(hi)), n)

    def map(self, f, xs):
        """vectorised double-precision evaluation over a full quadrature grid"""
        with np.errstate(all="ignore"):
            return np.asarray(f(FLOPS, np.asarray(xs, float)), float) * np.ones(np.shape(xs))

    def trapz(self, ys, xs):
        return M.of(float(np.trapezoid(np.asarray([float(y) for y in ys]), np.asarray([float(x) for x in xs]))))

    def _eq1(self, label, a, b, rtol, atol):
        self.reached.add(label)
        b = M.of(b).v
        try:
            a = mpmath.mpf(float(a))
        except (TypeError, ValueError):
            self.fail(label, "not a number: %r" % (a,))
            return
        if mpmath.isnan(a) or mpmath.isnan(b):
            if not (mpmath.isnan(a) and mpmath.isnan(b)):
                self.fail(label, "got %s, expected %s" % (float(a), float(b)))
            return
        if mpmath.isinf(a) or mpmath.isinf(b):
            big = mpmath.mpf("1e300")
            if a != b and not (a > big and b > big) and not (a < -big and b < -big):
                self.fail(label, "got %s, expected %s" % (float(a), mpmath.nstr(b, 10)))
            return
        rtol = self.cfg.get("_rtol", 1e-9) if rtol is None else rtol
        atol = self.cfg.get("_atol", 1e-280) if atol is None else atol
        if abs(a - b) > rtol * max(abs(a), abs(b)) + atol:
            self.fail(label, "got %s, expected %s" % (float(a), mpmath.nstr(b, 17)))

    def _rel1(self, label, a, b, op):
        self.reached.add(label)
        a, b = float(a), float(M.of(b).v)
        tol = 1e-9 * max(abs(a), abs(b)) + self.cfg.get("_reltol", 0.0)
        ok = {">=": a >= b - tol, ">": a > b - tol, "==": abs(a - b) <= tol}[op]
        if not ok:
            self.fail(label, "%r %s %r fails" % (a, op, b))


# ---------------------------------------------------------------- harness registry
HARNESSES = {}
EDIR = "/verif/evidence"


class Harness:
    def __init__(self, prop, name, fn, modes, configs, paths, witnesses, grid_cap, quick, bounds, nofloat, pool, rtol, sites):
        self.__dict__.update(locals())


def harness(prop, modes=("numpy",), configs=({},), paths=600, witnesses=2, grid_cap=None, thorough=(),
            bounds="", pool=96, rtol=None, nofloat=False, tmodes=()):
    """register a harness; `thorough` are extra configurations, `tmodes` extra modes of the thorough tier"""

    def deco(fn):
        h = Harness(prop, fn.__name__, fn, tuple(modes), list(configs), paths, witnesses, grid_cap, True, bounds, nofloat, pool, rtol, None)
        h.thorough = list(thorough)
        h.tmodes = tuple(tmodes)
        HARNESSES.setdefault(prop, []).append(h)
        return fn

    return deco


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


def concrete_backend(mode):
    """put the real library on the real backend for a replay (switched lazily: it is slow)"""
    if BACKEND[0] == mode:
        return
    from gwpopulation import backend
    if mode == "cupy":
        from . import fakecupy
        fakecupy.install()
    backend.set_backend(mode)
    BACKEND[0] = mode


BACKEND = [""]


def run_concrete(h, mode, cfg, env, choices):
    """-> list of Fail, or None when the replay is outside the assumptions"""
    c = dict(cfg)
    if h.rtol:
        c.setdefault("_rtol", h.rtol if not isinstance(h.rtol, dict) else h.rtol.get(mode, 1e-9))
    ctx = NumCtx(mode, c, env, choices)
    E.CUR[0] = None
    try:
        with time_limit(c.get("_replay_s", 150)), quiet():
            concrete_backend(mode)
            patch.reset_state()
            h.fn(ctx, c)
    except Discard:
        return None
    except PathTimeout:
        ctx.fail("the evaluation returns", "no result after %d s" % c.get("_replay_s", 150))
    except HarnessError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        ctx.fail("no unexpected exception", "%s: %s at %s" % (type(e).__name__, e, "%s:%d" % (tb[-1].filename, tb[-1].lineno)))
    return ctx.fails


_SEEN_FN = set()


def _prof(frame, event, arg):
    if event == "call":
        co = frame.f_code
        f = co.co_filename
        if f.startswith(REPO):
            _SEEN_FN.add("%s:%s" % (os.path.relpath(f, REPO), co.co_qualname))


class JobResult(dict):
    pass


def run_job(h, mode, cfg, seed, deadline, tier):
    """explore one harness in one mode/config.  Returns a dict."""
    al.reset()
    solver.clear_memo()
    E._SNAP.clear()
    solver.STATS.__init__()
    t0 = time.time()
    res = dict(harness=h.name, mode=mode, cfg={k: v for k, v in cfg.items() if not callable(v)}, paths=0, infeasible=0, discarded=0, claims=0,
               witnesses=0, witness_skipped=0, violations=[], inconclusive=[], truncated=False, reached=set(),
               grids=[], feasible_witnessed=0, undecided_paths=0, decided=0, probes=0)
    pool = E.Pool(h.pool)
    todo = [[]]
    cfg = dict(cfg)
    rnd = random.Random(seed * 7919 + zlib.crc32(("%s/%s" % (h.name, mode)).encode()))
    limit = cfg.get("_paths", h.paths)
    patch_ctx = patch.symbolic
    first = True
    while todo:
        if res["paths"] >= limit or time.time() > deadline:
            res["truncated"] = True
            break
        pre = todo.pop()
        P = E.Path(pre, pool)
        E.CUR[0] = P
        ctx = SymCtx(mode, cfg, P, seed)
        exc = None
        status = "ok"
        shim.CFG["grids"] = []
        try:
            patch.reset_state()
            with time_limit(cfg.get("_path_s", 60 if tier == "quick" else 600)), quiet(), patch_ctx(mode):
                shim.CFG["grid_cap"] = cfg.get("_cap", h.grid_cap)
                if first:
                    sys.setprofile(_prof)
                try:
                    h.fn(ctx, cfg)
                finally:
                    sys.setprofile(None)
        except E.Infeasible:
            status = "infeasible"
        except Discard:
            status = "discard"
        except (E.Unsupported, al.Blowup) as e:
            tb = traceback.extract_tb(e.__traceback__)
            res["inconclusive"].append("unsupported: %s at %s" % (e, " < ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-6:]))))
            todo += P.pending
            res["undecided_paths"] += 1
            _probe(h, mode, cfg, ctx, P, res, rnd)
            if res["violations"] or res["undecided_paths"] >= 8:
                break
            continue
        except HarnessError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            ctx.fail("no unexpected exception", "%s: %s at %s" % (type(e).__name__, e, " < ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:]))), [])
        first = False
        todo += P.pending
        res["paths"] += 1
        if status == "infeasible":
            res["infeasible"] += 1
            continue
        if status == "discard":
            res["discarded"] += 1
            continue
        res["grids"] = sorted(set(res["grids"]) | set(shim.CFG["grids"]))
        res["claims"] += ctx.nclaims
        res["reached"] |= ctx.reached
        names = list(ctx.vars)
        idx = [int(i) for i in np.nonzero(P.mask)[0]]
        if idx:
            res["feasible_witnessed"] += 1

        def env_at(i):
            return {n: float(P.env[n][i]) for n in names}

        bad = False
        for f in ctx.fails:
            hit = _refute(h, mode, cfg, ctx, P, f, env_at, idx, rnd)
            if hit:
                res["violations"].append(hit)
                bad = True
                break
        if not bad and ctx.fails:
            # confirm that the path is reachable at all
            r, _ = solver.query(P.facts, [(al.ONE, ">")], P.known_pos, timeout=8000, slicing=False)
            if r != "unsat":
                res["undecided_paths"] += 1
                for f in ctx.fails[:3]:
                    res["inconclusive"].append("%s: %s [path %s]" % (f.label, f.detail[:700], P.facts if len(str(P.facts)) < 500 else "..."))
        if not ctx.fails:
            res["decided"] += ctx.nclaims
        if res["violations"]:
            break
        if h.nofloat:
            continue
        # replay solver/pool witnesses of this path on the unmodified real code
        picks = rnd.sample(idx, min(len(idx), h.witnesses if tier == "quick" else h.witnesses * 3)) if idx else []
        envs = [env_at(i) for i in picks]
        if not envs and names:
            r, m = solver.query(P.facts, [(al.ONE, ">")], P.known_pos, timeout=4000, slicing=False, want_model=True)
            if r == "sat" and m is not None:
                e = {n: float(m[n]) if n in m else float(pool.env[n][0]) for n in names}
                _apply_subs(P, e)
                envs = [e]
            elif r == "unsat":
                res["infeasible"] += 1
        if not names:
            envs = [{}]
        elif envs and h.witnesses > 0:
            # once more with full mantissas: short fractions survive a rounding to single precision
            envs.append(_perturbed(envs[-1], ctx, rnd))
        for e in envs:
            fs = run_concrete(h, mode, cfg, e, ctx.choices)
            if fs is None:
                res["witness_skipped"] += 1
                continue
            res["witnesses"] += 1
            if fs:
                hit = _confirm(h, mode, cfg, e, ctx.choices, fs, "witness replay")
                if hit:
                    res["violations"].append(hit)
                    break
        if res["violations"]:
            break
    res["pending"] = len(todo)
    res["wall"] = round(time.time() - t0, 2)
    res["stats"] = solver.STATS.as_dict()
    res["functions"] = sorted(_SEEN_FN)
    res["reached"] = sorted(res["reached"])
    E.CUR[0] = None
    return res


def _perturbed(e, ctx, rnd):
    out = dict(e)
    for n, v in e.items():
        w = v * (1 + rnd.uniform(-1, 1) * 2.0 ** -11)
        if n in ctx.vars and v != int(v) and v not in ctx.special.get(n, ()) and ctx.vars[n][0] <= w <= ctx.vars[n][1]:
            out[n] = w
    return out


def _probe(h, mode, cfg, ctx, P, res, rnd):
    """the encoding could not follow the code: look for a failing run among the sample points.
    This decides nothing; the path stays reported as undecided."""
    names = list(P.pool.env)
    for i in rnd.sample(range(P.pool.n), min(P.pool.n, 24)):
        e = {n: float(P.pool.env[n][i]) for n in names}
        try:
            fs = run_concrete(h, mode, cfg, e, ctx.choices)
        except KeyError:
            continue
        res["probes"] += fs is not None
        if fs:
            res["violations"].append(_confirm(h, mode, cfg, e, ctx.choices, fs, "concrete run (path not encodable)"))
            return


def _apply_subs(P, e):
    for _ in range(3):
        for i, expr in P.subs.items():
            at = al.ATOMS[i]
            try:
                e[at.name] = float(al.evalp(expr, e, {}))
            except Exception:
                pass


def _confirm(h, mode, cfg, env, choices, fs, how):
    return dict(harness=h.name, mode=mode, cfg={k: v for k, v in cfg.items() if not callable(v)}, env=env, choices=choices,
                label=fs[0].label, detail=fs[0].detail, how=how)


def _refute(h, mode, cfg, ctx, P, f, env_at, idx, rnd):
    """turn a failed claim into a concrete failing run of the real code"""
    names = list(ctx.vars)
    cands = []
    order = list(idx)
    goal = f.goal
    if goal:
        p, op = goal[0]
        try:
            v, mag = P.fev(p)
            with np.errstate(all="ignore"):
                score = np.abs(v) / np.where(mag > 0, mag, 1)
            score = np.where(np.isfinite(score), score, 0)
            sg = P.pool_signs(p)
            want = {v2: k for k, v2 in E.OPS.items()}[op]
            order = sorted(idx, key=lambda i: -(score[i] + (10 if int(sg[i]) in want else 0)))
        except Exception:
            pass
    cands += [env_at(i) for i in order[:14]]
    for extra in ([], ) + (([(al.sub(al.powi(goal[0][0], 2), al.C(Q(1, 10**6))), ">")],) if goal and len(goal[0][0].t) < 40 and goal[0][1] == "!=" else ()):
        r, m = solver.query(P.facts, list(goal or []) + list(extra) + [(al.ONE, ">")], P.known_pos, timeout=4000, slicing=False, want_model=True)
        if r == "sat" and m is not None:
            base = env_at(idx[0]) if idx else {n: float(P.pool.env[n][0]) for n in names}
            e = dict(base)
            e.update({n: float(m[n]) for n in names if n in m})
            _apply_subs(P, e)
            cands.append(e)
            for _ in range(4):
                e2 = {n: v * (1 + rnd.uniform(-1e-3, 1e-3)) for n, v in e.items()}
                _apply_subs(P, e2)
                cands.append(e2)
    if not names:
        cands = [{}]
    for e in cands:
        fs = run_concrete(h, mode, cfg, e, ctx.choices)
        if fs:
            return _confirm(h, mode, cfg, e, ctx.choices, fs, "solver counterexample to: " + f.label)
    return None
