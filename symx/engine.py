"""Path exploration and the symbolic scalar used to execute the real code."""
import math
import operator
import re
from fractions import Fraction as Q
from numbers import Number

import numpy as np

from . import algebra as al
from . import solver
from .algebra import ATOMS, Poly
from .solver import STATS


class Unsupported(BaseException):
    """the executed code uses something the encoding does not model"""


class PathLimit(BaseException):
    pass


class Infeasible(BaseException):
    pass


OPS = {
    frozenset({1}): ">", frozenset({0}): "==", frozenset({-1}): "<",
    frozenset({0, 1}): ">=", frozenset({0, -1}): "<=", frozenset({1, -1}): "!=",
}
ALL = frozenset({-1, 0, 1})
POS, NEG, ZERO_ = frozenset({1}), frozenset({-1}), frozenset({0})
NONZ = frozenset({1, -1})


def flip(s):
    return frozenset(-x for x in s)


# ---------------------------------------------------------------- numeric (float) pool
NUMF = {}   # fn name -> vectorised float64 implementation

EPS_AMB = 1e-9


class Pool:
    """concrete sample points used to recognise feasible branches cheaply"""

    def __init__(self, n=96):
        self.n = n
        self.env = {}


class Path:
    def __init__(self, prefix, pool, config=None):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.facts = []
        self.signs = {}
        self.subs = {}
        self.pool = pool
        self.env = dict(pool.env)
        self.cache = {}
        self.mask = np.ones(pool.n, bool)
        self.timeout = 3000
        self.notes = []
        self.nsub_cache = {}
        self.uncertain = False
        self.tmemo = {}
        self.ememo = {}

    # ---- variables
    def declare(self, name, values):
        if name not in self.pool.env:
            self.pool.env[name] = values
        if name not in self.env:
            self.env[name] = self.pool.env[name]

    # ---- normalisation under equalities
    def norm(self, p):
        if not self.subs:
            return p
        if not (solver._deep(p) & self.subs.keys()):
            return p
        r = self.nsub_cache.get(p)
        if r is None:
            try:
                r = al.subst(p, self.subs)
            except (ZeroDivisionError, AssertionError):
                r = p
            self.nsub_cache[p] = r
        return r

    # ---- positivity
    def known_pos(self, i):
        at = ATOMS[i]
        if at.pos:
            return True
        if at.kind == "var" and at.lo is not None and at.lo > 0:
            return True
        s = self.signs.get(al.A(at))
        if s == POS:
            return True
        if at.kind in ("F", "N"):
            return self.quick(at.args[0]) == POS
        if s is not None and s == NONZ or s == frozenset({0, 1}):
            return False
        return False

    def atom_nonneg(self, i):
        at = ATOMS[i]
        if self.known_pos(i):
            return True
        if at.kind == "var" and at.lo is not None and at.lo >= 0:
            return True
        s = self.signs.get(al.A(at))
        return s is not None and -1 not in s

    def quick(self, p):
        """sound superset of possible signs, no solver"""
        if not p.t:
            return ZERO_
        if p.is_const():
            return POS if p.const() > 0 else NEG
        c, m, prim = al.primitive(p)
        s = self._qprim(prim)
        sm = POS
        for a, e in m:
            if isinstance(e, int) and e % 2 == 0:
                if not self.known_pos(a) and e > 0 and self.signs.get(al.A(ATOMS[a])) != NONZ:
                    sm = frozenset(sm | ZERO_)
                continue
            if self.known_pos(a):
                continue
            if self.atom_nonneg(a):
                if e > 0:
                    sm = frozenset(sm | ZERO_)
                continue
            if ATOMS[a].kind in ("F", "N"):
                q = self.quick(ATOMS[a].args[0])
                if e < 0:
                    q = q - {0}
            else:
                q = self.signs.get(al.A(ATOMS[a]), ALL)
                at = ATOMS[a]
                if at.hi is not None and at.hi <= 0:
                    q = q & (NEG if at.hi < 0 else frozenset({0, -1}))
            sm = frozenset(x * y for x in sm for y in q)
        r = frozenset(x * y for x in s for y in sm)
        return flip(r) if c < 0 else r

    def _qprim(self, prim):
        if prim.is_const():
            return POS
        k = self.signs.get(prim)
        base = self._qterms(prim)
        if k is not None:
            base = base & k
        if len(base) > 1 and 2 <= len(prim.t) <= 24:
            r = self._explog(prim)
            if base & r:
                base = base & r
        return base

    def _explog(self, prim):
        """sign of A*e^a - B*e^b (A, B > 0) and of sums of logarithms, by monotonicity of exp and log"""
        key = (prim, len(self.facts), len(self.signs))
        r = self.ememo.get(key)
        if r is not None:
            return r
        self.ememo[key] = ALL     # guards against recursion
        groups, haslog, hasexp = {}, False, False
        for m, c in prim.t.items():
            g, rest = [], []
            for a, e in m:
                kd = ATOMS[a].kind
                if kd == "expb" or isinstance(e, Q):
                    g.append((a, e))
                    hasexp = True
                else:
                    rest.append((a, e))
                    haslog = haslog or kd == "log"
            groups.setdefault(tuple(g), {})[tuple(rest)] = c
        r = ALL
        if hasexp and len(groups) == 2:
            (g1, c1), (g2, c2) = [(g, Poly(c)) for g, c in groups.items()]
            s1, s2 = self.quick(c1), self.quick(c2)
            if s1 | s2 == NONZ and len(s1) == len(s2) == 1 and all(self.known_pos(a) for a, _ in g1 + g2):
                if s1 == NEG:
                    g1, c1, g2, c2 = g2, c2, g1, c1
                L = al.ZERO
                pos = lambda p: self.quick(p) == POS
                for g, c, sg in ((g1, c1, 1), (g2, al.neg(c2), -1)):
                    x = al.log(c, pos)
                    for a, e in g:
                        x = al.add(x, al.scale(al.log_atom(ATOMS[a]), Q(e)))
                    L = al.add(L, al.scale(x, sg))
                r = self._logsum(L)
        elif haslog and not hasexp:
            r = self._logsum(prim)
        self.ememo[key] = r
        return r

    def _logsum(self, L):
        """sign of k * sum_i r_i log(a_i) with rational r_i"""
        if not L.t or L.is_const():
            return self.quick(L)
        co = {}
        for m, c in L.t.items():
            lg = [(a, e) for a, e in m if ATOMS[a].kind == "log"]
            if len(lg) != 1 or lg[0][1] != 1:
                return self.quick(L)
            co.setdefault(lg[0][0], {})[tuple(x for x in m if x not in lg)] = c
        it = iter(co.items())
        ref, kt = next(it)
        k = Poly(kt)
        lead = max(kt)
        rs = {ref: Q(1)}
        for a, t in it:
            if lead not in t:
                return ALL
            q = t[lead] / kt[lead]
            if al.scale(k, q) != Poly(t):
                return ALL
            rs[a] = q
        d = 1
        for q in rs.values():
            d = math.lcm(d, q.denominator)
        num = den = al.ONE
        for a, q in rs.items():
            n = int(q * d)
            if abs(n) > 4:
                return ALL
            arg = ATOMS[a].args[0]
            if n > 0:
                num = al.mul(num, al.powi(arg, n))
            else:
                den = al.mul(den, al.powi(arg, -n))
        diff = al.sub(num, den)
        s = self.quick(diff)
        if len(s) > 1 and not diff.is_const() and len(diff.t) <= 12 and all(ATOMS[a].kind in ("var", "pi", "prime") for a in diff.atoms()):
            sg = set(self.pool_signs(diff)[self.mask].tolist()) - {9}
            for x in (POS, NEG):
                if sg <= x and solver.query(self.facts, [(diff, OPS[ALL - x])], self.known_pos, timeout=1000)[0] == "unsat":
                    s = x
                    break
        kk = self.quick(k)
        return frozenset(i * j for i in s for j in kk)

    def _qterms(self, prim):
        pos = neg = False
        strict = False
        for m, c in prim.t.items():
            ok = True
            st = True
            for a, e in m:
                if isinstance(e, int) and e % 2 == 0:
                    if not self.known_pos(a):
                        st = False
                    continue
                if self.known_pos(a):
                    continue
                if self.atom_nonneg(a):
                    st = False
                    continue
                ok = False
                break
            if not ok:
                return ALL
            if st:
                strict = True
            if c > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                return ALL
        if pos:
            return POS if strict else frozenset({0, 1})
        return NEG if strict else frozenset({0, -1})

    # ---- numeric pool
    def fev(self, p):
        n = self.pool.n
        with np.errstate(all="ignore"):
            s = np.zeros(n)
            mag = np.zeros(n)
            for m, c in p.t.items():
                try:
                    t = np.full(n, float(c))
                except OverflowError:
                    t = np.full(n, np.inf)
                for a, e in m:
                    v = self.fatom(a)
                    t = t * (v ** e if isinstance(e, int) else np.power(v, float(e)))
                s = s + t
                mag = mag + np.abs(t)
        return s, mag

    def fatom(self, i):
        v = self.cache.get(i)
        if v is not None:
            return v
        at = ATOMS[i]
        if at.kind == "var":
            v = self.env.get(at.name)
            if v is None:
                v = np.full(self.pool.n, np.nan)
        elif at.kind == "pi":
            v = np.full(self.pool.n, math.pi)
        elif at.kind == "prime":
            v = np.full(self.pool.n, float(at.args[0]))
        elif at.kind == "expb":
            v = np.exp(self.fev(Poly({at.args[0]: Q(1)}))[0])
        elif at.kind == "log":
            v = np.log(self.fev(at.args[0])[0])
        elif at.kind in ("F", "N"):
            v = self.fev(at.args[0])[0]
        else:
            f = NUMF.get(at.name)
            if f is None:
                v = np.full(self.pool.n, np.nan)
            else:
                v = f(*[self.fev(x)[0] if isinstance(x, Poly) else x for x in at.args])
        self.cache[i] = v
        return v

    def pool_signs(self, p):
        """per-point sign in {-1,0,1}; 9 = ambiguous"""
        v, mag = self.fev(p)
        out = np.full(self.pool.n, 9)
        with np.errstate(all="ignore"):
            clear = np.isfinite(v) & np.isfinite(mag) & (np.abs(v) > EPS_AMB * mag) & (mag > 0)
        out[clear] = np.sign(v[clear]).astype(int)
        return out

    # ---- facts
    def add_fact(self, prim, s):
        op = OPS[s]
        self.facts.append((prim, op))
        self.signs[prim] = self.signs.get(prim, ALL) & s
        if s == ZERO_:
            self._solve_eq(prim)

    def _solve_eq(self, prim):
        """use prim == 0 to eliminate a variable occurring linearly"""
        best = None
        for m, c in prim.t.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "var":
                i = m[0][0]
                others = Poly({k: v for k, v in prim.t.items() if k != m})
                if i in solver._deep(others):
                    continue
                cand = (len(others.t), i, al.scale(others, -1 / c))
                if best is None or cand[0] < best[0] or (cand[0] == best[0] and i > best[1]):
                    best = cand
        if best is None and len(prim.t) == 1:
            # a product that vanishes: nothing to substitute unless it is one variable
            (m, c), = prim.t.items()
            if len(m) == 1 and ATOMS[m[0][0]].kind == "var":
                best = (0, m[0][0], al.ZERO)
        if best is None and len(prim.t) <= 40:
            # v * A + B == 0 with A known not to vanish
            for i in sorted({a for m in prim.t for a, _ in m if ATOMS[a].kind == "var"}, reverse=True):
                A, B, ok = {}, {}, True
                for m, c in prim.t.items():
                    e = dict(m).get(i, 0)
                    rest = tuple(x for x in m if x[0] != i)
                    if e == 1:
                        A[rest] = c
                    elif e == 0:
                        B[rest] = c
                    else:
                        ok = False
                    if any(i in al.deep_atoms(al.A(ATOMS[a])) for a, _ in rest):
                        ok = False
                if ok and A and 0 not in self.quick(Poly(A)):
                    best = (0, i, al.neg(al.div(Poly(B), Poly(A))))
                    break
        if best is None:
            # log(x) == 0  <=> x == 1 ; expb never vanishes
            self.mask[:] = False
            return
        _, i, expr = best
        at = ATOMS[i]
        expr = self.norm(expr)
        env = {i: expr}
        self.subs = {k: al.subst(v, env) if i in solver._deep(v) else v for k, v in self.subs.items()}
        self.subs[i] = expr
        self.nsub_cache = {}
        extra = []
        if at.lo is not None:
            extra.append((al.sub(expr, al.C(at.lo)), ">="))
        if at.hi is not None:
            extra.append((al.sub(al.C(at.hi), expr), ">="))
        if at.pos:
            extra.append((expr, ">"))
        s = self.signs.get(al.A(at))
        if s is not None and s in OPS:
            extra.append((expr, OPS[s]))
        newfacts, newsigns = [], {}
        for p, op in self.facts + extra:
            q = self.norm(p)
            if q.is_const():
                continue
            c, m, pr = al.primitive(q)
            newfacts.append((q, op))
            inv = {v: k for k, v in OPS.items()}[op]
            if not m:
                if c < 0:
                    inv = flip(inv)
                newsigns[pr] = newsigns.get(pr, ALL) & inv
        self.facts = newfacts
        self.signs = newsigns
        v, _ = self.fev(expr)
        self.env[at.name] = v
        self.cache = {}
        self._remask()

    def _remask(self):
        mask = np.ones(self.pool.n, bool)
        for i in list(self.subs):
            at = ATOMS[i]
            v = self.env[at.name]
            with np.errstate(all="ignore"):
                mask &= np.isfinite(v)
                if at.lo is not None:
                    mask &= v >= float(at.lo)
                if at.hi is not None:
                    mask &= v <= float(at.hi)
        for p, op in self.facts:
            sg = self.pool_signs(p)
            inv = {v: k for k, v in OPS.items()}[op]
            mask &= np.isin(sg, list(inv))
        self.mask = mask

    def query(self, prim, s):
        return solver.query(self.facts, [(prim, OPS[s])], self.known_pos, timeout=self.timeout)[0]

    def tree_sign(self, node, depth=0):
        """signs a value can have, from the operations that produced it (sum of positives, ...)"""
        if node.sp:
            return ALL
        k = id(node)
        if k in self.tmemo:
            return self.tmemo[k][1]
        p = self.norm(node.p)
        r = self.quick(p)
        if len(r) > 1 and node.tr is not None and depth < 40:
            op, a, b = node.tr
            if op == "-":
                r = r & flip(self.tree_sign(a, depth + 1))
            else:
                x, y = self.tree_sign(a, depth + 1), self.tree_sign(b, depth + 1)
                if op == "*":
                    r = r & frozenset(i * j for i in x for j in y)
                elif 0 not in (x | y) and len(x | y) == 1:
                    r = r & x
                elif -1 not in (x | y):
                    r = r & (frozenset({0, 1}) if x != POS and y != POS else POS)
                elif 1 not in (x | y):
                    r = r & (frozenset({0, -1}) if x != NEG and y != NEG else NEG)
        if len(r) > 1 and len(p.t) <= 12:
            sg = set(self.pool_signs(p)[self.mask].tolist()) - {9}
            for s in (POS, NEG):
                if s <= r and sg <= s:
                    if not p.is_const() and solver.query(self.facts, [(p, OPS[ALL - s])], self.known_pos, timeout=1500)[0] == "unsat":
                        r = s
                        break
        self.tmemo[k] = (node, r)
        return r

    def split(self, p, parts, node=None):
        """choose which part (set of signs) the sign of p lies in on this path"""
        p = self.norm(p)
        parts = [frozenset(x) for x in parts]
        q = self.quick(p)
        live = [k for k, x in enumerate(parts) if x & q]
        if len(live) == 1:
            return live[0]
        c, m, prim = al.primitive(p)
        # drop positive atoms of the monomial content
        keep = []
        for a, e in m:
            if self.known_pos(a):
                continue
            if isinstance(e, int) and e % 2 == 0 and self.signs.get(al.A(ATOMS[a])) in (POS, NEG, NONZ):
                continue
            if e < 0:
                e = -e   # sign of 1/a is the sign of a
            if ATOMS[a].kind in ("F", "N"):
                prim = al.mul(prim, al.powi(ATOMS[a].args[0], 1 if e % 2 else 2))
                continue
            keep.append((a, e))
        if keep:
            prim = al.mul(prim, Poly({tuple(keep): Q(1)}))
        sgn = -1 if c < 0 else 1
        # sign(p) = sgn * sign(prim); fix prim orientation
        lead = prim.t[max(prim.t)]
        if lead < 0:
            prim, sgn = al.neg(prim), -sgn
        if lead not in (1, -1):
            prim = al.scale(prim, 1 / abs(lead))
        pp = [x if sgn > 0 else flip(x) for x in parts]
        known = self.signs.get(prim, ALL) & (q if sgn > 0 else flip(q))
        opts = [(k, x & known) for k, x in enumerate(pp) if x & known]
        if len(opts) == 1:
            return opts[0][0]
        n = len(self.trace)
        if n < len(self.prefix):
            k = self.prefix[n]
            if k >= 100:
                # entailed: recorded so that re-execution needs no query
                self.trace.append(k)
                self.signs[prim] = dict(opts)[k - 100]
                return k - 100
            s = dict(opts)[k]
            self.trace.append(k)
            self._take(prim, s)
            return k
        STATS.forks += 1
        sg = self.pool_signs(prim)
        sg = set(sg[self.mask].tolist())
        if sg <= {9}:
            sg = set(self.pool_signs(p)[self.mask].tolist())
            if sgn < 0:
                sg = {-x if x != 9 else 9 for x in sg}
        ok = []
        if node is not None and any(not (sg & x) for _, x in opts):
            tsg = self.tree_sign(node)
            tsg = tsg if sgn > 0 else flip(tsg)
            opts = [(k, x) for k, x in opts if x & tsg or sg & x]
            if len(opts) == 1:
                ok, opts = opts, []
        for k, x in opts:
            if sg & x:
                ok.append((k, x))
                continue
            r = self.query(prim, x)
            if r == "unsat":
                continue
            if r == "unknown":
                self.uncertain = True
            ok.append((k, x))
        if not ok:
            raise Infeasible()
        if len(ok) == 1:
            self.trace.append(100 + ok[0][0])
            self.signs[prim] = ok[0][1]
            return ok[0][0]
        for k, x in ok[1:]:
            self.pending.append(self.trace + [k])
        k, x = ok[0]
        self.trace.append(k)
        self._take(prim, x)
        return k

    def _take(self, prim, s):
        sg = self.pool_signs(prim)
        self.mask = self.mask & np.isin(sg, list(s))
        self.add_fact(prim, s)

    def choose(self, n, label=""):
        """nondeterministic choice among n alternatives (environment)"""
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for j in range(1, n):
                self.pending.append(self.trace + [j])
        self.trace.append(c)
        return c

    def entails_pos(self, p):
        p = self.norm(p)
        q = self.quick(p)
        if q == POS:
            return True
        if 1 not in q:
            return False
        sg = self.pool_signs(p)
        if set(sg[self.mask].tolist()) & {0, -1}:
            return False
        r, _ = solver.query(self.facts, [(p, "<=")], self.known_pos, timeout=self.timeout)
        return r == "unsat"


CUR = [None]


def cur():
    return CUR[0]


# ---------------------------------------------------------------- scalars
MAXF = Q(np.finfo(np.float64).max)
_SNAP = {}


def _consts():
    two = al.C(2)
    pi = al.pi()
    lg = lambda p: al.log(p, lambda q: True)
    half = Q(1, 2)
    sq = lambda p: al.exp(al.scale(lg(p), half))
    tab = [
        (math.sqrt(2), sq(two)), (1 / math.sqrt(2), al.div(al.ONE, sq(two))),
        (math.sqrt(3), sq(al.C(3))),
        (math.sqrt(math.pi), sq(pi)), (1 / math.sqrt(math.pi), al.div(al.ONE, sq(pi))),
        (math.sqrt(2 * math.pi), sq(al.mul(two, pi))), (1 / math.sqrt(2 * math.pi), al.div(al.ONE, sq(al.mul(two, pi)))),
        (math.sqrt(2 / math.pi), sq(al.div(two, pi))),
        (math.sqrt(math.pi / 2), sq(al.div(pi, two))),
        (math.log(2), lg(two)), (math.log(10), lg(al.C(10))), (math.log(math.pi), lg(pi)),
        (math.log(2 * math.pi), lg(al.mul(two, pi))),
        (0.5 * math.log(2 * math.pi), al.scale(lg(al.mul(two, pi)), half)),
        (math.e, al.exp(al.ONE)),
    ]
    out = {}
    for v, p in tab:
        out[v] = p
        out[-v] = al.neg(p)
    return out


def snap(f):
    """float -> exact value it denotes (small rationals, decimals, multiples of pi)"""
    if f == int(f) and abs(f) < 1e17:
        return al.C(int(f))
    fr = Q(f).limit_denominator(2000)
    if fr and float(fr) == f:
        return al.C(fr)
    if abs(f) > 1e300:
        return al.C(Q(f))
    r = f / math.pi
    fr = Q(r).limit_denominator(64)
    if fr and float(fr) * math.pi == f:
        return al.scale(al.pi(), fr)
    c = _SNAP.get("t")
    if c is None:
        c = _SNAP["t"] = _consts()
    if f in c:
        return c[f]
    return al.C(Q(repr(f)))


class S:
    """symbolic real number (finite value or nan/inf), executed by the real code"""

    __slots__ = ("p", "sp", "py", "tr")

    def __init__(self, p=None, sp=None, py=False, tr=None):
        self.p, self.sp, self.py, self.tr = p, sp, py, tr

    # --- construction
    @staticmethod
    def of(x):
        if type(x) is S:
            return x
        if isinstance(x, (bool, np.bool_)):
            return S(al.ONE if x else al.ZERO, None, isinstance(x, bool))
        if isinstance(x, int):
            return S(al.C(x), None, True)
        if isinstance(x, np.integer):
            return S(al.C(int(x)))
        if isinstance(x, (float, np.floating)):
            py = type(x) is float
            x = float(x)
            if x != x:
                return S(None, "nan", py)
            if x == math.inf:
                return S(None, "inf", py)
            if x == -math.inf:
                return S(None, "-inf", py)
            return S(snap(x), None, py)
        if isinstance(x, Q):
            return S(al.C(x), None, True)
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return S.of(x.item()).np_()
        if x.__class__.__module__.startswith("jax"):
            return S.of(float(x)).np_()
        raise TypeError("cannot convert %r" % type(x))

    def np_(self):
        return S(self.p, self.sp, False, self.tr) if self.py else self

    def py_(self):
        return self if self.py else S(self.p, self.sp, True, self.tr)

    def __repr__(self):
        return self.sp or repr(self.p)

    def __format__(self, spec):
        m = re.fullmatch(r"[<>^ 0+]*\d*\.(\d+)[fF]", spec or "")
        P = cur()
        if not m or self.sp or P is None or P.norm(self.p).is_const():
            return repr(self)
        # decimal rounding: values which round to the same number print alike
        nd = int(m.group(1))
        r = round(self, nd)
        seen = P.__dict__.setdefault("printed", [])
        for n, q, s in seen:
            if n == nd and r == q:
                return s
        seen.append((nd, r, repr(r)))
        return seen[-1][2]

    @property
    def fin(self):
        return self.sp is None

    # --- numpy scalar face
    def _need_np(self, name):
        if self.py:
            raise AttributeError("'float' object has no attribute %r" % name)

    @property
    def shape(self):
        self._need_np("shape")
        return ()

    @property
    def ndim(self):
        self._need_np("ndim")
        return 0

    @property
    def size(self):
        self._need_np("size")
        return 1

    @property
    def dtype(self):
        self._need_np("dtype")
        return np.dtype(float)

    @property
    def T(self):
        self._need_np("T")
        return self

    @property
    def real(self):
        return self

    def astype(self, *_a, **_k):
        self._need_np("astype")
        return self

    def item(self):
        self._need_np("item")
        return self.py_()

    def copy(self):
        self._need_np("copy")
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = prod = squeeze = flatten = sum

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        if self.sp is None and any(ATOMS[i].kind == "fn" and ATOMS[i].name == "FLOOR" for i in self.p.atoms()):
            return 12345        # compared, not hashed: rounded values coincide
        return hash((self.p, self.sp))

    def __float__(self):
        if self.sp:
            return float(self.sp)
        p = cur().norm(self.p) if cur() else self.p
        if p.is_const():
            return float(p.const())
        if all(ATOMS[a].kind in ("pi", "prime") or (ATOMS[a].kind == "log" and ATOMS[a].args[0].is_const()) for a in p.atoms()):
            return float(al.evalp(p, {}, {}))
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        p = cur().norm(self.p) if cur() and self.fin else self.p
        if self.fin and p.is_const():
            return int(p.const())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        p = cur().norm(self.p) if cur() and self.fin else self.p
        if self.fin and p.is_const() and p.const().denominator == 1:
            return int(p.const())
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __complex__(self):
        return complex(float(self))

    def is_integer(self):
        p = cur().norm(self.p)
        return self.fin and p.is_const() and p.const().denominator == 1

    # --- sign
    def sign(self, parts):
        return cur().split(self.p, parts, self)

    def sign3(self):
        """-1, 0, 1 (fork)"""
        if self.sp == "inf":
            return 1
        if self.sp == "-inf":
            return -1
        return (1, 0, -1)[self.sign([{1}, {0}, {-1}])]

    # --- comparisons
    def _cmp(self, o, op):
        o = _co(o)
        if o is NotImplemented:
            return NotImplemented
        if self.sp == "nan" or o.sp == "nan":
            return op == "!="
        if self.sp or o.sp:
            a = {"inf": 1, "-inf": -1, None: 0}[self.sp]
            b = {"inf": 1, "-inf": -1, None: 0}[o.sp]
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if self.p is o.p or self.p.key == o.p.key:
            return op in ("<=", ">=", "==")
        d = al.sub(self.p, o.p)
        if d.is_const():
            c = d.const()
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        t = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {1, 0}, "==": {0}, "!=": {1, -1}}[op]
        return cur().split(d, [t, ALL - t], S(d, None, False, ("+", self, -o))) == 0

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        if self.sp:
            return True
        return self._cmp(S(al.ZERO), "!=")

    # --- arithmetic
    def __neg__(self):
        if self.sp:
            return S(None, {"nan": "nan", "inf": "-inf", "-inf": "inf"}[self.sp], self.py)
        return S(al.neg(self.p), None, self.py, ("-", self, None))

    def __pos__(self):
        return self

    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        py = self.py and o.py
        if self.sp or o.sp:
            if "nan" in (self.sp, o.sp):
                return S(None, "nan", py)
            if self.sp and o.sp:
                return S(None, self.sp if self.sp == o.sp else "nan", py)
            return S(None, self.sp or o.sp, py)
        return S(al.add(self.p, o.p), None, py, ("+", self, o))

    __radd__ = __add__

    def __sub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        py = self.py and o.py
        if self.sp or o.sp:
            if "nan" in (self.sp, o.sp):
                return S(None, "nan", py)
            a, b = self.sign3(), o.sign3()
            s = a * b
            return S(None, "nan" if s == 0 else ("inf" if s > 0 else "-inf"), py)
        return S(al.mul(self.p, o.p), None, py, ("*", self, o))

    __rmul__ = __mul__

    def _div(self, o):
        py = self.py and o.py
        if self.sp == "nan" or o.sp == "nan":
            return S(None, "nan", py)
        if o.sp:
            return S(None, "nan", py) if self.sp else S(al.ZERO, None, py)
        d = o.p if o.p.is_const() or not cur() else cur().norm(o.p)
        if not d.is_const() and al.primitive(d)[0] == 0:
            d = al.ZERO
        z = d.is_const() and d.const() == 0 or (not d.is_const() and cur().split(d, [NONZ, ZERO_], o) == 1)
        if not z and cur() and not d.is_const():
            d = cur().norm(d)
            if al.primitive(d)[0] == 0:
                raise Infeasible()
        if z:
            if py:
                raise ZeroDivisionError("float division by zero")
            s = self.sign3()
            return S(None, "nan" if s == 0 else ("inf" if s > 0 else "-inf"))
        if self.sp:
            s = self.sign3() * o.sign3()
            return S(None, "inf" if s > 0 else "-inf", py)
        p = cur() if cur() else None
        den = d
        num = p.norm(self.p) if p else self.p
        return S(al.div(num, den), None, py, ("*", self, o))

    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return self._div(o)

    def __rtruediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o._div(self)

    def __floordiv__(self, o):
        q = self / o
        return q.floor() if type(q) is S else q

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __abs__(self):
        if self.sp:
            return S(None, "nan" if self.sp == "nan" else "inf", self.py)
        return self if self.sign([{1, 0}, {-1}]) == 0 else -self

    def __pow__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return spow(self, o)

    def __rpow__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return spow(o, self)

    # numpy ufuncs on object arrays call these
    def exp(self):
        return sexp(self)

    def expm1(self):
        return sexp(self) - 1

    def log(self):
        return slog(self)

    def log1p(self):
        return slog(self + 1)

    def log10(self):
        return slog(self) / slog(S.of(10))

    def log2(self):
        return slog(self) / slog(S.of(2))

    def sqrt(self):
        return spow(self.np_(), S(al.C(Q(1, 2))))

    def square(self):
        return self * self

    def reciprocal(self):
        return S(al.ONE)._div(self.np_())

    def fabs(self):
        return abs(self)

    absolute = fabs

    def conjugate(self):
        return self

    def cos(self):
        return scos(self)

    def sin(self):
        return ssin(self)

    def tan(self):
        return ssin(self) / scos(self)

    def tanh(self):
        a, b = sexp(self), sexp(-self)
        return (a - b) / (a + b)

    def cosh(self):
        return (sexp(self) + sexp(-self)) / 2

    def sinh(self):
        return (sexp(self) - sexp(-self)) / 2

    def arccos(self):
        return uf("ARCCOS", self)

    def arcsin(self):
        return uf("ARCSIN", self)

    def arctan(self):
        return uf("ARCTAN", self)

    def floor(self):
        p = cur().norm(self.p) if self.fin else None
        if p is None:
            return self
        if p.is_const():
            c = p.const()
            return S(al.C(Q(c.numerator // c.denominator)))
        if any(ATOMS[i].kind == "fn" and ATOMS[i].name == "FLOOR" for i in p.atoms()) and len(p.t) == 1 and list(p.t.values()) == [1]:
            return self
        return uf("FLOOR", S(p))

    def ceil(self):
        return -(-self).floor()

    def rint(self):
        return (self + Q(1, 2)).floor()

    def __round__(self, nd=None):
        if nd is None:
            return self.rint()
        return (self * Q(10) ** nd + Q(1, 2)).floor() / Q(10) ** nd

    def round(self, decimals=0):
        return self.__round__(decimals)

    def isnan(self):
        return self.sp == "nan"

    def isinf(self):
        return self.sp in ("inf", "-inf")

    def isfinite(self):
        return self.sp is None

    def logaddexp(self, o):
        return slog(sexp(self) + sexp(S.of(o)))


Number.register(S)


def _co(o):
    if type(o) is S:
        return o
    if isinstance(o, (int, float, np.number, np.bool_, Q)):
        return S.of(o)
    if isinstance(o, np.ndarray):
        return NotImplemented
    if o is None or isinstance(o, (str, tuple, list, dict)):
        return NotImplemented
    try:
        return S.of(o)
    except TypeError:
        return NotImplemented


NAN = S(None, "nan")
INF = S(None, "inf")
NINF = S(None, "-inf")


def const(x):
    return S(al.C(x))


def sexp(a):
    if a.sp == "nan":
        return NAN
    if a.sp == "inf":
        return INF
    if a.sp == "-inf":
        return S(al.ZERO)
    p = cur().norm(a.p) if cur() else a.p
    if p.is_const():
        c = p.const()
        if c > Q(709783, 1000):
            return INF
        if c < -Q(7452, 10):
            return S(al.ZERO)
    v = al.exp(p)
    solver.record_exp(p, v)
    return S(v)


def slog(a):
    if a.sp == "nan" or a.sp == "-inf":
        return NAN
    if a.sp == "inf":
        return INF
    s = cur().split(a.p, [POS, ZERO_, NEG], a) if not a.p.is_const() else (0 if a.p.const() > 0 else 1 if a.p.const() == 0 else 2)
    if s == 1:
        return NINF
    if s == 2:
        return NAN
    p = cur().norm(a.p)
    cp = cur()
    return S(al.log(p, cp.entails_pos))


def spow(a, b):
    py = a.py and b.py
    P = cur()
    if b.sp is None:
        bp = P.norm(b.p) if P else b.p
        if bp.is_const():
            c = bp.const()
            if c == 0:
                return S(al.ONE, None, py)
            if c.denominator == 1:
                n = c.numerator
                if a.sp:
                    if a.sp == "nan":
                        return S(None, "nan", py)
                    if n < 0:
                        return S(al.ZERO, None, py)
                    return S(None, "-inf" if a.sp == "-inf" and n % 2 else "inf", py)
                if n > 0:
                    return S(al.powi(a.p, n), None, py)
                den = S(al.powi(a.p, -n), None, py)
                if py:
                    return S(al.ONE, None, True)._div(den)
                return S(al.ONE)._div(den)
    if a.sp == "nan" or b.sp == "nan":
        return S(None, "nan", py)
    if a.sp or b.sp:
        if b.sp is None and a.sp == "inf":
            s = b.sign3()
            return S(None, "inf", py) if s > 0 else (S(al.ONE, None, py) if s == 0 else S(al.ZERO, None, py))
        if a.sp is None:
            # finite ** +-inf
            m = abs(a)
            d = al.sub(m.p, al.ONE)
            k = cur().split(d, [POS, ZERO_, NEG])
            if k == 1:
                return S(al.ONE, None, py)
            big = (k == 0) == (b.sp == "inf")
            return S(None, "inf", py) if big else S(al.ZERO, None, py)
        raise Unsupported("inf power")
    s = cur().split(a.p, [POS, ZERO_, NEG], a) if not a.p.is_const() else (0 if a.p.const() > 0 else 1 if a.p.const() == 0 else 2)
    if s == 1:
        k = b.sign3()
        if k > 0:
            return S(al.ZERO, None, py)
        if k == 0:
            return S(al.ONE, None, py)
        if py:
            raise ZeroDivisionError("zero to a negative power")
        return INF
    if s == 2:
        bp = cur().norm(b.p)
        if bp.is_const():
            if py:
                raise Unsupported("complex power")
            return NAN
        return NAN   # numpy: negative base, non-integer exponent (integers: outside the encoding)
    lg = al.log(cur().norm(a.p), cur().entails_pos)
    arg = al.mul(cur().norm(b.p), lg)
    v = al.exp(arg)
    solver.record_exp(arg, v)
    return S(v, None, py)


UF_ZERO = set()      # functions that vanish when their first argument does


def uf(name, *args, pos=False):
    ps = []
    for a in args:
        if isinstance(a, (str, tuple)):
            ps.append(a)
            continue
        if a.sp:
            return NAN
        ps.append(cur().norm(a.p) if cur() else a.p)
    if name in UF_ZERO and not ps[0].t:
        return const(0)
    return S(al.A(al.atom("fn", tuple(ps), name, pos=pos)))


def _lead_neg(p):
    return p.t[max(p.t)] < 0 if p.t else False


def ndtr_poly(p):
    if not p.t:
        return al.C(Q(1, 2))
    if _lead_neg(p):
        return al.sub(al.ONE, al.A(al.atom("fn", (al.neg(p),), "NDTR", pos=True)))
    return al.A(al.atom("fn", (p,), "NDTR", pos=True))


def cos_poly(p):
    if not p.t:
        return al.ONE
    pi = al.pi()
    r = al.exact_div(p, pi) if p.t else None
    if r is not None and r.is_const():
        k = r.const() * 2
        if k.denominator == 1:
            return al.C([1, 0, -1, 0][int(k) % 4])
    if _lead_neg(p):
        p = al.neg(p)
    return al.A(al.atom("fn", (p,), "COS"))


def sin_poly(p):
    if not p.t:
        return al.ZERO
    r = al.exact_div(p, al.pi())
    if r is not None and r.is_const():
        k = r.const() * 2
        if k.denominator == 1:
            return al.C([0, 1, 0, -1][int(k) % 4])
    if _lead_neg(p):
        return al.neg(al.A(al.atom("fn", (al.neg(p),), "SIN")))
    return al.A(al.atom("fn", (p,), "SIN"))


def lgamma_poly(p):
    if p.is_const() and p.const().denominator == 1 and 0 < p.const() <= 30:
        return al.log_const(Q(math.factorial(int(p.const()) - 1)))
    return al.A(al.atom("fn", (p,), "LGAMMA"))


def i0_poly(p):
    if not p.t:
        return al.ONE
    if _lead_neg(p):
        p = al.neg(p)
    return al.A(al.atom("fn", (p,), "I0", pos=True))


al.REBUILD.update(NDTR=ndtr_poly, COS=cos_poly, SIN=sin_poly, LGAMMA=lgamma_poly, I0=i0_poly)


def sndtr(a):
    if a.sp:
        return NAN if a.sp == "nan" else S(al.ONE if a.sp == "inf" else al.ZERO)
    return S(ndtr_poly(cur().norm(a.p)))


def scos(a):
    return NAN if a.sp else S(cos_poly(cur().norm(a.p)))


def ssin(a):
    return NAN if a.sp else S(sin_poly(cur().norm(a.p)))


def slgamma(a):
    if a.sp:
        return NAN if a.sp != "inf" else INF
    return S(lgamma_poly(cur().norm(a.p)))


def si0(a):
    if a.sp:
        return NAN if a.sp == "nan" else INF
    return S(i0_poly(cur().norm(a.p)))


def _reg_numeric():
    import mpmath
    import scipy.special as sc

    al.NUMERIC.update(
        NDTR=lambda x: mpmath.ncdf(x), COS=mpmath.cos, SIN=mpmath.sin,
        LGAMMA=lambda x: mpmath.loggamma(x), I0=lambda x: mpmath.besseli(0, x),
        ARCCOS=mpmath.acos, ARCSIN=mpmath.asin, ARCTAN=mpmath.atan, FLOOR=mpmath.floor,
    )
    NUMF.update(NDTR=sc.ndtr, COS=np.cos, SIN=np.sin, LGAMMA=sc.gammaln, I0=sc.i0,
                ARCCOS=np.arccos, ARCSIN=np.arcsin, ARCTAN=np.arctan, FLOOR=np.floor)


_reg_numeric()
