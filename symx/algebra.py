"""Exact exp-log algebra used by the symbolic executor.

A finite real value on one execution path is a `Poly`: a sum of terms
`rational * product(atom ** exponent)`.  Atoms are input variables, pi, and
applications of transcendental functions to normalised arguments.  `exp` and
`log` are rewritten with the identities  exp(a+b)=exp(a)exp(b), log(ab)=log a +
log b (for positive factors), exp(c log a)=a**c  so that mathematically equal
expressions written in different ways meet in one form; polynomial reasoning is
left to the SMT solver.
"""
from fractions import Fraction as Q
from math import gcd, isqrt

import mpmath

mpmath.mp.dps = 40

ATOMS = []          # id -> Atom
_ATOM_KEYS = {}     # key -> Atom


class Blowup(BaseException):
    pass


class Atom:
    __slots__ = ("id", "kind", "args", "pos", "name", "lo", "hi", "isint")

    def __init__(self, kind, args, name="", pos=False, lo=None, hi=None, isint=False):
        self.kind, self.args, self.name, self.pos = kind, args, name, pos
        self.lo, self.hi, self.isint = lo, hi, isint
        self.id = len(ATOMS)
        ATOMS.append(self)

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "pi":
            return "pi"
        if self.kind == "prime":
            return str(self.args[0])
        if self.kind == "expb":
            return "e^{%s}" % (mono_str(self.args[0]) or "1")
        if self.kind == "log":
            return "log(%s)" % self.args[0]
        if self.kind in ("F", "N"):
            return "(%s)" % self.args[0]
        return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))


def atom(kind, args=(), name="", **kw):
    key = (kind, name, tuple(a.key if isinstance(a, Poly) else a for a in args))
    a = _ATOM_KEYS.get(key)
    if a is None:
        a = _ATOM_KEYS[key] = Atom(kind, tuple(args), name, **kw)
    return a


def reset():
    """Forget all atoms (between harnesses)."""
    ATOMS.clear()
    _ATOM_KEYS.clear()


def mono_str(m):
    return "*".join(
        repr(ATOMS[a]) + ("" if e == 1 else "^%s" % e) for a, e in m
    )


def _norm_e(e):
    return int(e) if isinstance(e, Q) and e.denominator == 1 else e


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        s = d.get(a, 0) + e
        if s == 0:
            d.pop(a, None)
        else:
            d[a] = _norm_e(s)
    return tuple(sorted(d.items()))


def mono_pow(m, k):
    if k == 0:
        return ()
    return tuple((a, _norm_e(e * k)) for a, e in m)


class Poly:
    __slots__ = ("t", "_key", "_vars")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._vars = None

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def __eq__(self, other):
        return isinstance(other, Poly) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for i, (m, c) in enumerate(sorted(self.t.items())):
            if i > 12:
                out.append("...%d terms" % len(self.t))
                break
            s = mono_str(m)
            if not s:
                out.append(_cs(c))
            elif c == 1:
                out.append(s)
            else:
                out.append("%s*%s" % (_cs(c), s))
        return " + ".join(out)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Q(0)) if self.is_const() else None

    def atoms(self):
        """ids of atoms appearing directly."""
        if self._vars is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s.add(a)
            self._vars = frozenset(s)
        return self._vars


def _cs(c):
    s = str(c)
    return s if len(s) < 24 else "%.6g" % float(c)


ZERO = Poly({})


def C(x):
    x = Q(x)
    return Poly({(): x}) if x else ZERO


ONE = C(1)


def A(a, e=1):
    return Poly({((a.id, e),): Q(1)})


def var(name, pos=False, lo=None, hi=None, isint=False):
    return A(atom("var", (), name, pos=pos, lo=lo, hi=hi, isint=isint))


def pi():
    return A(atom("pi", (), pos=True))


def deep_atoms(p, acc=None):
    """All atom ids reachable from p."""
    if acc is None:
        acc = set()
    stack = list(p.atoms())
    while stack:
        i = stack.pop()
        if i in acc:
            continue
        acc.add(i)
        a = ATOMS[i]
        for x in a.args:
            if isinstance(x, Poly):
                stack.extend(x.atoms())
            elif isinstance(x, tuple) and a.kind == "expb":
                stack.extend(k for k, _ in x)
    return acc


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    d = dict(a.t)
    for m, c in b.t.items():
        s = d.get(m, 0) + c
        if s:
            d[m] = s
        else:
            d.pop(m, None)
    return Poly(d)


def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.t.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
    return Poly(d)


def scale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return Poly({m: v * c for m, v in a.t.items()})


def neg(a):
    return scale(a, Q(-1))


def sub(a, b):
    return add(a, neg(b))


def _special(m):
    """does the monomial need fixing (F with positive power, prime folding)?"""
    for a, e in m:
        k = ATOMS[a].kind
        if k == "F" and e > 0:
            return True
        if k == "prime" and (e >= 1 or e < 0):
            return True
    return False


def _fix(m, c):
    """Poly equal to c*m with F^positive expanded and prime powers folded."""
    rest, polys = [], []
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "F" and e > 0:
            if isinstance(e, int) and e <= 6:
                polys.extend([at.args[0]] * e)
            else:
                k = int(e)
                if k <= 6:
                    polys.extend([at.args[0]] * k)
                    if e - k:
                        rest.append((a, e - k))
                else:
                    rest.append((a, e))
        elif at.kind == "prime":
            fl = e.numerator // e.denominator if isinstance(e, Q) else e
            c = c * Q(at.args[0]) ** fl
            if e - fl:
                rest.append((a, e - fl))
        else:
            rest.append((a, e))
    p = Poly({tuple(rest): c})
    for q in polys:
        p = mul(p, q)
    return p


TERM_LIMIT = 4000


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a.is_const():
        return scale(b, a.const())
    if b.is_const():
        return scale(a, b.const())
    if len(a.t) * len(b.t) > TERM_LIMIT:
        # name the larger factor instead of expanding
        if len(a.t) < len(b.t):
            a, b = b, a
        c, m, prim = primitive(a)
        n = atom("N", (prim,), pos=False)
        a = Poly({mono_mul(m, ((n.id, 1),)): c})
        return mul(a, b)
    d = {}
    extra = []
    for m, c in a.t.items():
        for n, k in b.t.items():
            q = mono_mul(m, n)
            if q and _special(q):
                extra.append(_fix(q, c * k))
                continue
            s = d.get(q, 0) + c * k
            if s:
                d[q] = s
            else:
                d.pop(q, None)
    r = Poly(d)
    if extra:
        r = addn([r] + extra)
    return r


def powi(a, n):
    """integer power, n >= 0, or negative for single terms"""
    if n == 0:
        return ONE
    if len(a.t) == 1:
        (m, c), = a.t.items()
        q = mono_pow(m, n)
        if _special(q):
            return _fix(q, c ** n)
        return Poly({q: c ** n})
    if n < 0:
        return div(ONE, powi(a, -n))
    if n > 8 and len(a.t) > 1:
        c, m, prim = primitive(a)
        f = atom("N", (prim,))
        return scale(Poly({mono_mul(mono_pow(m, n), ((f.id, n),)): Q(1)}), c ** n)
    r = ONE
    base = a
    while n:
        if n & 1:
            r = mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def monomial_content(p):
    """largest monomial (with min exponents, possibly negative) dividing every term"""
    it = iter(p.t)
    first = dict(next(it))
    cur = dict(first)
    for m in it:
        d = dict(m)
        for a in list(cur):
            cur[a] = min(cur[a], d.get(a, 0))
        for a, e in d.items():
            if a not in cur:
                cur[a] = min(0, e)
        cur = {a: e for a, e in cur.items() if e != 0}
    return tuple(sorted(cur.items()))


def primitive(p):
    """p = c * m * prim, prim has leading coefficient 1 and no monomial content.
    Denominator factors in prim are expanded, repeatedly."""
    c, m = Q(1), ()
    for _ in range(6):
        k = monomial_content(p)
        if k:
            m = mono_mul(m, k)
            p = mul(p, Poly({mono_pow(k, -1): Q(1)}))
        if not any(
            ATOMS[a].kind == "F" or e < 0 for mm in p.t for a, e in mm
        ):
            break
        if not p.t:
            return Q(0), (), ZERO
        k2 = monomial_content(p)
        if not k2:
            break
    if not p.t:
        return Q(0), (), ZERO
    lead = max(p.t)
    c = p.t[lead]
    return c, m, scale(p, 1 / c)


def _lead(p):
    return max(p.t)


def exact_div(a, b, steps=60):
    """a/b if the division is exact within `steps`, else None."""
    ats = sorted(a.atoms() | b.atoms())
    idx = {x: i for i, x in enumerate(ats)}

    def vec(m):
        v = [0] * len(ats)
        for x, e in m:
            v[idx[x]] = e
        return tuple(v)

    # shift so that exponents are >= 0
    lb = max(b.t, key=vec)
    cb = b.t[lb]
    inv = mono_pow(lb, -1)
    q = {}
    r = dict(a.t)
    vb = vec(lb)
    mins = [min((vec(m)[i] for m in a.t), default=0) for i in range(len(ats))]
    minsb = [min(vec(m)[i] for m in b.t) for i in range(len(ats))]
    for _ in range(steps):
        if not r:
            return Poly(q)
        la = max(r, key=vec)
        m = mono_mul(la, inv)
        vm = vec(m)
        # quotient exponents may not drop below mins(a)-mins(b)
        if any(vm[i] < mins[i] - minsb[i] for i in range(len(ats))):
            return None
        c = r[la] / cb
        q[m] = q.get(m, 0) + c
        for n, k in b.t.items():
            t = mono_mul(m, n)
            s = r.get(t, 0) - c * k
            if s:
                r[t] = s
            else:
                r.pop(t, None)
        if len(r) > 400:
            return None
    return None


def div(a, b):
    """a/b, b known nonzero on this path."""
    if not b.t:
        raise ZeroDivisionError
    if b.is_const():
        return scale(a, 1 / b.const())
    if len(b.t) == 1:
        return mul(a, powi(b, -1))
    c, m, prim = primitive(b)
    base = mul(a, Poly({mono_pow(m, -1): 1 / c}))
    if prim.is_const():
        return scale(base, 1 / prim.const())
    if len(prim.t) == 1:
        return mul(base, powi(prim, -1))
    if base.t and len(base.t) <= 40 and len(prim.t) <= 12:
        q = exact_div(base, prim)
        if q is not None:
            return q
    f = atom("F", (prim,))
    return mul(base, Poly({((f.id, -1),): Q(1)}))


def factor_int(n, limit=100000):
    out = {}
    for p in (2, 3, 5, 7, 11, 13):
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
    f = 17
    while f * f <= n and f < limit:
        while n % f == 0:
            out[f] = out.get(f, 0) + 1
            n //= f
        f += 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def log_const(c):
    """log of a positive rational as combination of logs of integers."""
    r = ZERO
    big = c.numerator.bit_length() > 60 or c.denominator.bit_length() > 60
    if big:
        return A(atom("log", (C(c),)))
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor_int(n, 3000).items():
            r = add(r, scale(A(atom("log", (C(p),))), Q(s * k)))
    return r


def log(p, is_pos):
    """log of p, p > 0 on this path; is_pos(atom_poly) tells entailed positivity."""
    if p.is_const():
        return log_const(p.const())
    c, m, prim = primitive(p)
    # pull out positive atoms of the monomial content; leave the others inside
    r = ZERO
    keep = []
    for a, e in m:
        at = ATOMS[a]
        if at.pos or is_pos(A(at)):
            r = add(r, scale(log_atom(at), Q(e)))
        else:
            keep.append((a, e))
    inner = mul(prim, Poly({tuple(keep): Q(1)}))
    if inner.is_const():
        c = c * inner.const()
        return add(r, log_const(c)) if c != 1 else r
    if len(inner.t) == 1 and not keep:
        raise AssertionError
    # sign of the rational content goes inside if negative
    if c < 0:
        inner, c = neg(inner), -c
    if c != 1:
        r = add(r, log_const(c))
    return add(r, A(atom("log", (inner,))))


def log_atom(at):
    if at.kind == "expb":
        return Poly({at.args[0]: Q(1)})
    if at.kind == "prime":
        return A(atom("log", (C(at.args[0]),)))
    if at.kind in ("F", "N"):
        return A(atom("log", (at.args[0],)))
    return A(atom("log", (A(at),)))


def exp(p):
    """exp of a finite value."""
    coef = Q(1)
    mono = ()
    polys = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
            arg = ATOMS[m[0][0]].args[0]
            if arg.is_const():
                v = arg.const()
                if c.denominator == 1:
                    coef *= v ** c.numerator
                else:
                    fl = c.numerator // c.denominator
                    coef *= v ** fl
                    if v.denominator == 1 and v.numerator.bit_length() < 60:
                        pr = atom("prime", (int(v),), pos=True)
                        mono = mono_mul(mono, ((pr.id, c - fl),))
                    else:
                        lg = atom("expb", (m,), pos=True)
                        mono = mono_mul(mono, ((lg.id, c - fl),))
                continue
            if c.denominator == 1 and len(arg.t) == 1:
                polys.append(powi(arg, c.numerator))
                continue
            if len(arg.t) == 1:
                (mm, cc), = arg.t.items()
                if cc == 1 and len(mm) == 1 and mm[0][1] == 1:
                    mono = mono_mul(mono, ((mm[0][0], _norm_e(c)),))
                    continue
            f = atom("F", (arg,))
            if c.denominator == 1 and 0 < c <= 6:
                polys.append(powi(arg, c.numerator))
            else:
                mono = mono_mul(mono, ((f.id, _norm_e(c)),))
            continue
        b = atom("expb", (m,), pos=True)
        mono = mono_mul(mono, ((b.id, _norm_e(c)),))
    r = _fix(mono, coef) if _special(mono) else Poly({mono: coef})
    for q in polys:
        r = mul(r, q)
    return r


# ---------------------------------------------------------------- substitution
def subst(p, env, memo=None):
    """Replace variables (atom id -> Poly) everywhere, re-normalising.
    May raise ZeroDivisionError."""
    if memo is None:
        memo = {}
    if not p.t:
        return p
    if not (deep_atoms(p) & env.keys()):
        return p
    out = []
    for m, c in p.t.items():
        q = C(c)
        for a, e in m:
            q = mul(q, _powq(_subst_atom(a, env, memo), e))
        out.append(q)
    return addn(out)


def _powq(p, e):
    if isinstance(e, int):
        if e >= 0 or len(p.t) == 1:
            if not p.t and e < 0:
                raise ZeroDivisionError
            return powi(p, e)
        return div(ONE, powi(p, -e))
    if p.is_const():
        return exp(scale(log_const(p.const()), e))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return mul(Poly({mono_pow(m, e): Q(1)}), exp(scale(log_const(c), e)))
    f = atom("F", (p,))
    return Poly({((f.id, e),): Q(1)})


REBUILD = {}  # fn name -> callable(*polys) -> Poly, set by the numeric layer


def _subst_atom(i, env, memo):
    if i in memo:
        return memo[i]
    at = ATOMS[i]
    if i in env:
        r = env[i]
    elif at.kind in ("var", "pi", "prime"):
        r = A(at)
    elif at.kind == "expb":
        r = exp(subst(Poly({at.args[0]: Q(1)}), env, memo))
    elif at.kind == "log":
        r = log(subst(at.args[0], env, memo), lambda q: False)
    elif at.kind in ("F", "N"):
        r = subst(at.args[0], env, memo)
    else:
        args = [subst(x, env, memo) if isinstance(x, Poly) else x for x in at.args]
        f = REBUILD.get(at.name)
        r = f(*args) if f else A(atom("fn", args, at.name, pos=at.pos))
    memo[i] = r
    return r


# ---------------------------------------------------------------- numeric value
NUMERIC = {}  # fn name -> mpmath callable


def mpq(c):
    return mpmath.mpf(c.numerator) / c.denominator


def evalp(p, env, memo):
    s = mpmath.mpf(0)
    for m, c in p.t.items():
        t = mpq(c)
        for a, e in m:
            v = eval_atom(a, env, memo)
            if isinstance(e, int):
                t = t * v ** e
            else:
                t = t * mpmath.power(v, mpq(e))
        s += t
    return s


def eval_atom(i, env, memo):
    if i in memo:
        return memo[i]
    at = ATOMS[i]
    if at.kind == "var":
        v = mpmath.mpf(env[at.name])
    elif at.kind == "pi":
        v = mpmath.pi()
    elif at.kind == "prime":
        v = mpmath.mpf(at.args[0])
    elif at.kind == "expb":
        v = mpmath.exp(evalp(Poly({at.args[0]: Q(1)}), env, memo))
    elif at.kind == "log":
        v = mpmath.log(evalp(at.args[0], env, memo))
    elif at.kind in ("F", "N"):
        v = evalp(at.args[0], env, memo)
    else:
        f = NUMERIC.get(at.name)
        if f is None:
            raise KeyError("no numeric semantics for " + at.name)
        v = f(*[evalp(x, env, memo) if isinstance(x, Poly) else x for x in at.args])
    if isinstance(v, mpmath.mpc):
        raise ValueError("complex value")
    memo[i] = v
    return v
