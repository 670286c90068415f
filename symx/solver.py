"""Translation of path conditions and claims to z3 and the query driver."""
import sys
import time
from fractions import Fraction as Q
from math import lcm

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import algebra as al  # noqa: E402
from .algebra import ATOMS, Poly  # noqa: E402


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.memo = 0
        self.seconds = 0.0
        self.claims = 0
        self.forks = 0
        self.slowest = 0.0

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in vars(self).items()}


STATS = Stats()
PI_LO, PI_HI = Q(314159265358979, 10**14), Q(314159265358980, 10**14)

# exp applications recorded during execution: value-poly -> argument poly
EXPS = {}


def record_exp(arg, val):
    if not val.is_const() and not arg.is_const():
        EXPS.setdefault(val, arg)


def q2z(c):
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


class Translator:
    """one query: set of constraints -> z3 formulas"""

    def __init__(self, known_pos):
        self.known_pos = known_pos      # atom id -> True if known > 0
        self.cons = {}
        self.side = []
        self.roots = {}
        self.pending = []
        self.seen = set()

    def const(self, i):
        c = self.cons.get(i)
        if c is None:
            at = ATOMS[i]
            c = self.cons[i] = z3.Real("a%d" % i)
            self.seen.add(i)
            if at.kind == "var":
                if at.lo is not None:
                    self.side.append(c >= q2z(at.lo))
                if at.hi is not None:
                    self.side.append(c <= q2z(at.hi))
                if at.pos:
                    self.side.append(c > 0)
            elif at.kind == "pi":
                self.side += [c > q2z(PI_LO), c < q2z(PI_HI)]
            elif at.kind == "prime":
                self.side.append(c == at.args[0])
            elif at.pos or self.known_pos(i):
                self.side.append(c > 0)
            if at.kind not in ("var", "pi", "prime"):
                self.pending.append(i)
        return c

    def atom_pow(self, i, e, D):
        """z3 expr for atom**e, e >= 0, where D is the lcm of exponent denominators"""
        at = ATOMS[i]
        if e * D > 24 and at.kind not in ("F", "N", "prime") and (at.pos or self.known_pos(i)):
            # a power too high for the solver: an opaque positive number (sound for unsat)
            r = self.roots.get((i, e, "big"))
            if r is None:
                r = self.roots[(i, e, "big")] = z3.Real("b%d_%d" % (i, len(self.roots)))
                self.side.append(r > 0)
                self.const(i)
            return r
        if D == 1:
            if at.kind in ("F", "N"):
                b = self.poly(at.args[0])
            else:
                b = self.const(i)
            return _zpow(b, int(e))
        r = self.roots.get((i, D))
        if r is None:
            r = self.roots[(i, D)] = z3.Real("r%d_%d" % (i, D))
            self.side.append(r >= 0)
            if at.kind in ("F", "N"):
                b = self.poly(at.args[0])
            else:
                b = self.const(i)
            self.side.append(_zpow(r, D) == b)
            if at.pos or self.known_pos(i):
                self.side.append(r > 0)
        return _zpow(r, int(e * D))

    def poly(self, p):
        """expr with no negative exponents"""
        D = {}
        for m in p.t:
            for a, e in m:
                d = e.denominator if isinstance(e, Q) else 1
                D[a] = lcm(D.get(a, 1), d)
        terms = []
        for m, c in p.t.items():
            fs = [self.atom_pow(a, e, D[a]) for a, e in m]
            if c != 1 or not fs:
                fs = [q2z(c)] + fs
            t = fs[0]
            if len(fs) > 1:
                t = z3.Product(fs)
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def rel(self, p, op):
        p = self.clear(p)
        x = self.poly(p)
        return {">": x > 0, ">=": x >= 0, "<": x < 0, "<=": x <= 0, "==": x == 0, "!=": x != 0}[op]

    def clear(self, p):
        """multiply by a positive quantity so that no exponent is negative"""
        for _ in range(12):
            mins = {}
            for m in p.t:
                for a, e in m:
                    if e < 0:
                        mins[a] = min(mins.get(a, 0), e)
            if not mins:
                return p
            a, e = next(iter(mins.items()))
            pos = ATOMS[a].pos or self.known_pos(a)
            k = -e
            if not pos:
                k = -(-k.numerator // k.denominator) if isinstance(k, Q) else k
                k += k % 2
            out = []
            for m, c in p.t.items():
                q = al.mono_mul(m, ((a, k),))
                out.append(al._fix(q, c) if q and al._special(q) else Poly({q: c}))
            p = al.addn(out)
        return p

    def lemmas(self, depth=2, big=False):
        """sound facts about the transcendental atoms met so far"""
        out = []
        done = set()
        logs, ndtrs, exps = {}, {}, {}
        vals = None
        for _ in range(depth):
            work = [i for i in list(self.seen) if i not in done]
            if not work:
                break
            for i in work:
                done.add(i)
                at = ATOMS[i]
                x = self.cons[i]
                if at.kind == "log":
                    arg = at.args[0]
                    logs[i] = arg
                    out.append((x > 0) == self.rel(al.sub(arg, al.ONE), ">"))
                    out.append((x < 0) == self.rel(al.sub(arg, al.ONE), "<"))
                    if big:
                        # log y <= y - 1 and log y >= 1 - 1/y, needed only against huge constants
                        lo, hi = _box(arg)
                        if hi is not None and hi > 0:
                            out.append(x <= q2z(hi - 1))
                        if lo is not None and lo > 0:
                            out.append(x >= q2z(1 - 1 / lo))
                    if arg.is_const():
                        import mpmath
                        v = mpmath.log(al.mpq(arg.const()))
                        s = Q(int(mpmath.floor(v * 10**12)), 10**12)
                        out += [x >= q2z(s), x <= q2z(s + Q(1, 10**12))]
                elif at.kind == "expb":
                    arg = Poly({at.args[0]: Q(1)})
                    exps[i] = (al.A(at), arg)
                elif at.kind == "fn" and at.name == "NDTR":
                    arg = at.args[0]
                    ndtrs[i] = arg
                    out += [x > 0, x < 1, (x > q2z(Q(1, 2))) == self.rel(arg, ">"),
                            (x < q2z(Q(1, 2))) == self.rel(arg, "<")]
                elif at.kind == "fn" and at.name in ("COS", "SIN"):
                    out += [x >= -1, x <= 1]
                    o = al._ATOM_KEYS.get(("fn", "SIN" if at.name == "COS" else "COS", (at.args[0].key,)))
                    if o is not None and o.id in self.cons:
                        out.append(x * x + self.cons[o.id] * self.cons[o.id] == 1)
                elif at.kind == "fn" and at.name in FN_LEMMAS:
                    out += FN_LEMMAS[at.name](self, at, x)
            # recorded exp applications whose value only uses known atoms
            if vals is None:
                vals = [(v, a) for v, a in EXPS.items() if v.atoms() and v.atoms() <= set(self.seen)]
                if len(vals) > 12:
                    vals = vals[:12]
                for n, (v, a) in enumerate(vals):
                    exps[("r", n)] = (v, a)
        ks = list(logs)
        for n, i in enumerate(ks):
            for j in ks[:n]:
                d = al.sub(logs[i], logs[j])
                out.append((self.cons[i] > self.cons[j]) == self.rel(d, ">"))
                out.append((self.cons[i] == self.cons[j]) == self.rel(d, "=="))
        ks = list(ndtrs)
        for n, i in enumerate(ks):
            for j in ks[:n]:
                d = al.sub(ndtrs[i], ndtrs[j])
                out.append((self.cons[i] > self.cons[j]) == self.rel(d, ">"))
                out.append((self.cons[i] == self.cons[j]) == self.rel(d, "=="))
                # NDTR(a)+NDTR(b) vs 1
                s = al.add(ndtrs[i], ndtrs[j])
                out.append((self.cons[i] + self.cons[j] > 1) == self.rel(s, ">"))
        ks = list(exps)[:14]
        for n, i in enumerate(ks):
            v, a = exps[i]
            out.append(self.rel(v, ">"))
            out.append(self.rel(al.sub(v, al.ONE), ">") == self.rel(a, ">"))
            out.append(self.rel(al.sub(v, al.ONE), "<") == self.rel(a, "<"))
            for j in ks[:n]:
                w, b = exps[j]
                d = al.sub(a, b)
                out.append(self.rel(al.sub(v, w), ">") == self.rel(d, ">"))
                out.append(self.rel(al.sub(v, w), "<") == self.rel(d, "<"))
        return out


def _floor(tr, at, x):
    f = al.A(at)
    return [tr.rel(al.sub(at.args[0], f), ">="), tr.rel(al.sub(al.sub(at.args[0], f), al.ONE), "<"), z3.IsInt(x)]


FN_LEMMAS = {"FLOOR": _floor}


def _box(p):
    """rational interval enclosure over the declared variable ranges (None: unbounded)"""
    lo, hi = Q(0), Q(0)
    for m, c in p.t.items():
        a, b = c, c
        for i, e in m:
            at = ATOMS[i]
            if at.kind == "pi":
                l, u = PI_LO, PI_HI
            elif at.kind == "prime":
                l = u = Q(at.args[0])
            else:
                l, u = at.lo, at.hi
            if l is None or u is None or not isinstance(e, int):
                return None, None
            if e < 0:
                if l <= 0:
                    return None, None
                l, u, e = 1 / u, 1 / l, -e
            v = [l**e, u**e] + ([Q(0)] if l < 0 < u else [])
            w = [x * y for x in (a, b) for y in (min(v), max(v))]
            a, b = min(w), max(w)
        lo, hi = lo + a, hi + b
    return lo, hi


def _zpow(b, n):
    if n == 1:
        return b
    if n == 0:
        return z3.RealVal(1)
    if n <= 4:
        return z3.Product([b] * n)
    return b ** n


_MEMO = {}


def slice_facts(facts, seeds):
    """facts (poly, op) transitively sharing atoms with seed atom set"""
    live = set(seeds)
    rest = list(facts)
    out = []
    changed = True
    while changed and rest:
        changed = False
        keep = []
        for f in rest:
            da = _deep(f[0])
            if da & live:
                out.append(f)
                live |= da
                changed = True
            else:
                keep.append(f)
        rest = keep
    return out, live


_DEEP = {}


def _deep(p):
    d = _DEEP.get(p)
    if d is None:
        d = frozenset(al.deep_atoms(p))
        # constants such as pi or primes do not connect facts
        d = frozenset(i for i in d if ATOMS[i].kind not in ("pi", "prime"))
        _DEEP[p] = d
    return d


def clear_memo():
    _MEMO.clear()
    _DEEP.clear()
    EXPS.clear()


def query(facts, goals, known_pos, timeout=3000, lemmas=True, want_model=False, slicing=True):
    """satisfiability of facts + goals.  Each is (poly, op).
    Returns ('sat'|'unsat'|'unknown', model|None)"""
    seeds = set()
    for p, _ in goals:
        seeds |= _deep(p)
    if slicing:
        facts, _ = slice_facts(facts, seeds)
    key = None
    if not want_model:
        key = (frozenset((p, o) for p, o in facts), frozenset((p, o) for p, o in goals), lemmas)
        r = _MEMO.get(key)
        if r is not None:
            STATS.memo += 1
            return r, None
    res, model = "unknown", None
    big = any(abs(c) > 10**100 for p, _ in goals for c in p.t.values())
    if big and facts and not want_model and lemmas:
        res, _ = query([], goals, known_pos, timeout, slicing=False)
        if res == "unsat":
            return res, None
    for tier in ((0, 1) if lemmas else (0,)):
        tr = Translator(known_pos)
        fs = [tr.rel(p, o) for p, o in goals]
        fs += [tr.rel(p, o) for p, o in facts]
        if tier:
            lem = tr.lemmas(big=big)
            if not lem:
                break
            fs += lem
        res, model = _run(fs + tr.side, timeout, tr, want_model)
        if res == "unsat":
            break
    if key is not None:
        _MEMO[key] = res
    return res, model


def _run(fs, timeout, tr, want_model):
    t0 = time.time()
    STATS.queries += 1
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", timeout)
    s.add(*fs)
    r = str(s.check())
    if r == "unknown" and not want_model:
        s2 = z3.Solver()
        s2.set("timeout", timeout)
        s2.add(*fs)
        r2 = str(s2.check())
        STATS.queries += 1
        if r2 != "unknown":
            r, s = r2, s2
    model = None
    if r == "sat" and want_model:
        m = s.model()
        model = {}
        for i, c in tr.cons.items():
            if ATOMS[i].kind == "var":
                v = m.eval(c, model_completion=True)
                model[ATOMS[i].name] = _num(v)
    dt = time.time() - t0
    STATS.seconds += dt
    STATS.slowest = max(STATS.slowest, dt)
    setattr(STATS, r, getattr(STATS, r) + 1)
    return r, model


def _num(v):
    try:
        if z3.is_rational_value(v):
            return Q(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Q(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        pass
    return Q(0)
