"""Refutation by evaluation of *value-number terms* at sample points.

The rules compare value numbers.  Equal numbers are equal.  Different numbers are reported as a
violation only together with a point of the symbols' ranges at which the two value-number terms
differ, so an incomplete normalisation cannot raise an alarm.  Only terms are evaluated here (the
analysis result), never code of the analysed package.
"""
from __future__ import annotations
import math
import random
import decimal
from decimal import Decimal
from fractions import Fraction
from hashlib import blake2b
from . import terms as tm
from .terms import T


class NoValue(Exception):
    pass


CTX = decimal.Context(prec=60, Emax=10 ** 6, Emin=-10 ** 6,
                      traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])


# sampling conventions of a scene: they restrict the sample points, never the comparison of terms
FORCE = {}    # name (or prefix ending in *) of a boolean application -> its value
HINTS = {}    # name of an application -> function(point, key, random) giving its value
SIZES = {}    # name of a symbol -> (lo, hi) used for sampling


def reset():
    FORCE.clear()
    HINTS.clear()
    SIZES.clear()


def distinct(name, width, size, space):
    """declares the application family name(j, k) (name(k) for width 1), to be sampled injectively:
    values below the value of the term `size`"""
    if width == 1:
        def h(p, k, r):
            n = int(p.value(size))
            if not 0 <= k[0] < n:
                raise NoValue
            perm = list(range(n))
            p.rnd("perm", name).shuffle(perm)
            return perm[k[0]]
    else:
        def h(p, k, r):
            n = int(p.value(size))
            j, i = k
            if not isinstance(i, int) or i < 0 or i > 60:
                raise NoValue
            rows = p.table.setdefault(name, [])
            g = p.rnd("rows", name, len(rows))
            used = p.table.setdefault("used " + space, set())
            while len(rows) <= i:
                for t in range(200):
                    row = tuple(g.sample(range(n), width)) if n >= width else None
                    if row is None:
                        raise NoValue
                    if frozenset(row) not in used:
                        break
                else:
                    raise NoValue
                used.add(frozenset(row))
                rows.append(row)
            return rows[i][j]
    HINTS[name] = h


COVER = None    # while comparing: atom -> [outcomes met, valuation of its bound variables]


class Point:
    """a valuation: symbols and opaque applications get pseudo random values inside their range

    wide: values of very different magnitudes; given: {symbol or (name, arguments): value}"""

    def __init__(self, seed, given=None, exact=False, dec=False, wide=0):
        self.seed = seed
        self.wide = wide
        self.dec = dec      # 60 digits: the sampled values are those of the floating-point evaluation
        self.hinting = 0
        self.exact = exact  # rational values from a coarse grid: boundary cases are met exactly
        self.given = dict(given or {})
        self.memo = {}
        self.table = {}

    def rnd(self, *key):
        h = blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return random.Random(int.from_bytes(h, "big"))

    def again(self):
        """this point with 60 digits"""
        return Point(self.seed, self.given, False, True, self.wide)

    def factor(self, *key):
        """magnitude of a group of values"""
        if not self.wide:
            return 1.0
        r = self.rnd("factor", *key)
        return 10.0 ** r.choice((0, 0, r.uniform(-1, 1), r.uniform(-self.wide, self.wide)))

    def value(self, t: T):
        if not self.dec:
            return self._ev(t, {}, self.memo)
        if self.hinting:
            v = self._ev(t, {}, self.memo)
            return float(v) if isinstance(v, Decimal) else v
        with decimal.localcontext(CTX):
            try:
                return self._ev(t, {}, self.memo)
            except (decimal.DecimalException, OverflowError, ZeroDivisionError):
                raise NoValue

    def conv(self, v):
        """value of a leaf in the arithmetic of this point"""
        if self.dec:
            if isinstance(v, float):
                return Decimal(v)
            if isinstance(v, Fraction):
                return Decimal(v.numerator) / Decimal(v.denominator)
        return v

    def const(self, f):
        if f.denominator == 1:
            return f.numerator
        if self.dec:
            return Decimal(f.numerator) / Decimal(f.denominator)
        return f if self.exact else float(f)

    def key(self, x, env, memo):
        if isinstance(x, T):
            v = self._ev(x, env, memo)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, float):
                if v.is_integer():
                    return int(v)
                return float(f"{v:.9e}")
            if isinstance(v, Decimal):
                if v == v.to_integral_value():
                    return int(v)
                return float(f"{v:.9e}")
            return v
        if isinstance(x, tuple):
            return tuple(self.key(y, env, memo) for y in x)
        return x

    def sample(self, t, r, env, memo):
        m = tm.META.get(t)
        lo = hi = None
        st = False
        if m:
            lo, hi, st = m
            lo = None if lo is None else self._ev(lo, env, memo)
            hi = None if hi is None else self._ev(hi, env, memo)
            if self.dec:
                lo, hi = (float(x) if isinstance(x, Decimal) else x for x in (lo, hi))
        if t.isint and t.op == "s" and t.a[0] in SIZES:
            return r.randint(*SIZES[t.a[0]])
        if t.isint:
            a = int(math.ceil(lo)) if lo is not None else -3
            if st:
                a = max(a, 1)
            b = int(math.floor(hi)) if hi is not None else max(a, 0) + 4
            if b < a:
                raise NoValue
            return r.randint(a, b)
        if self.wide:
            f = self.factor("scale", t.a[0])
            if hi is None:
                return (r.uniform(-2, 2) if lo is None else float(lo) + r.uniform(0.1, 2.0)) * f if (
                    lo is None or lo >= 0) else float(lo) + r.uniform(0.1, 2.0) * f
            if lo is None:
                return float(hi) - r.uniform(0.1, 2.0) * f
            if hi < lo:
                raise NoValue
            u = r.uniform(0.02, 0.98) * min(f, 1 / f)
            return float(lo) + (u if r.random() < 0.5 else 1 - u) * (float(hi) - float(lo))
        if self.exact:
            c = [Fraction(x, 2) for x in (-4, -2, -1, 0, 0, 1, 2, 3, 4)]
            c = [x for x in c if (lo is None or x > lo) and (hi is None or x < hi) and not (st and x <= 0)]
            if c:
                x = r.choice(c)
                return x.numerator if x.denominator == 1 else x
        if lo is None and hi is None:
            if st:
                return r.uniform(0.3, 2.5)
            return r.uniform(-2, 2)
        if hi is None:
            return float(lo) + r.uniform(0.1, 2.0)
        if lo is None:
            return float(hi) - r.uniform(0.1, 2.0)
        if hi < lo:
            raise NoValue
        return float(lo) + r.uniform(0.02, 0.98) * (float(hi) - float(lo))

    def _ev(self, t: T, env, memo):
        if env and t.vars.isdisjoint(env):
            env, memo = {}, self.memo
        v = memo.get(t)
        if v is not None:
            return v
        SPENT[0] += 1
        v = self._ev1(t, env, memo)
        if self.dec:
            v = self.conv(v)
        if isinstance(v, float) and (math.isnan(v)):
            raise NoValue
        memo[t] = v
        return v

    def _ev1(self, t, env, memo):
        op, a = t.op, t.a
        if op == "c":
            f = a[0]
            if t is tm.INF:
                return math.inf
            return self.const(f)
        if op == "b":
            return t is tm.TRUE
        if op == "s":
            if t in env:
                return env[t]
            if t in self.given:
                return self.given[t]
            if t is tm.INF:
                return math.inf
            return self.sample(t, self.rnd("s", a[0]), env, memo)
        if op == "+":
            v = self.const(a[0])
            for m, k in a[1]:
                v = v + self.const(k) * self._num(m, env, memo)
            return v
        if op == "*":
            v = self.const(a[0])
            for m, e in a[1]:
                x = self._num(m, env, memo)
                v = v * self._pow(x, e)
            return v
        if op == "f":
            return self._fun(t, env, memo)
        if op == "ite":
            return self._ev(a[1] if self._ev(a[0], env, memo) else a[2], env, memo)
        if op == "not":
            return not self._ev(a[0], env, memo)
        if op == "and":
            for d in a:
                if not self._ev(d, env, memo):
                    return False
            return True
        if op == "pos":
            x = self._num(a[0], env, memo)
            if isinstance(x, float) and abs(x) < 1e-9 or isinstance(x, Decimal) and abs(x) < 1e-9:
                raise NoValue
            return met(t, x > 0, env)
        if op == "zero":
            x = self._num(a[0], env, memo)
            if isinstance(x, (float, Decimal)):
                if abs(x) < 1e-9 and not rounded(a[0]):
                    raise NoValue
                return met(t, abs(x) < 1e-9, env)
            return met(t, x == 0, env)
        if op in ("sum", "exists", "first", "maxover", "minover", "prod"):
            b, n, body = a[0], a[1], a[2]
            k = self._num(n, env, memo)
            k = int(round(k))
            if k > 400 or k < 0:
                raise NoValue
            vals = []
            for i in range(k):
                e = dict(env)
                e[b] = i
                x = self._ev(body, e, {})
                if op == "exists":
                    if x:
                        return True
                elif op == "first":
                    if x:
                        return i
                else:
                    vals.append(x)
            if op == "exists":
                return False
            if op == "first":
                return k
            if op == "sum":
                return sum(vals)
            if op == "prod":
                return math.prod(vals)
            if not vals:
                raise NoValue
            return max(vals) if op == "maxover" else min(vals)
        if op == "integral":
            raise NoValue
        raise NoValue

    def _num(self, t, env, memo):
        v = self._ev(t, env, memo)
        return int(v) if isinstance(v, bool) else v

    def _pow(self, x, e):
        try:
            if e.denominator == 1:
                n = e.numerator
                if n >= 0:
                    return x ** n
                if x == 0:
                    raise NoValue
                if self.dec:
                    return Decimal(x) ** n
                return (Fraction(x) if self.exact and not isinstance(x, float) else float(x)) ** n
            if x < 0:
                raise NoValue
            if self.dec:
                if x == 0 and e < 0:
                    raise NoValue
                return Decimal(x) ** (Decimal(e.numerator) / Decimal(e.denominator))
            return float(x) ** float(e)
        except (OverflowError, ZeroDivisionError):
            raise NoValue

    def _fun(self, t, env, memo):
        name, args = t.a
        try:
            if self.dec and name in ("exp", "log"):
                x = Decimal(self._num(args[0], env, memo))
                if name == "exp":
                    if x > 700:
                        raise NoValue
                    return x.exp()
                if x <= 0:
                    raise NoValue
                return x.ln()
            if name in ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan"):
                return getattr(math, name)(self._num(args[0], env, memo))
            if name in ("min", "max"):
                vs = [self._num(x, env, memo) for x in args]
                if COVER is not None and len(vs) < 9:
                    for g, i in ranks(t):
                        rest = vs[:i] + vs[i + 1:]
                        r = min(rest) if name == "min" else max(rest)
                        if vs[i] != r:
                            met(g, vs[i] > r, env)
                return min(vs) if name == "min" else max(vs)
            if name in ("floor", "ceil", "trunc"):
                x = self._num(args[0], env, memo)
                if isinstance(x, (float, Decimal)) and abs(x - round(x)) < 1e-9:
                    raise NoValue
                wholes(t, x, 1, env)
                return getattr(math, name)(x)
            if name == "round":
                x = self._num(args[0], env, memo)
                nd = self._num(args[1], env, memo) if len(args) > 1 else 0
                if isinstance(x, int) and nd >= 0:
                    return x
                y = Fraction(x) * Fraction(10) ** int(nd)
                digits(t, y, nd, env)
                if abs(y - math.floor(y) - Fraction(1, 2)) < Fraction(1, 10 ** 9) and not self.exact:
                    raise NoValue
                if len(args) == 1:
                    return round(y)
                return self.const(Fraction(round(y)) / Fraction(10) ** int(nd))
            if name == "abs":
                x = self._num(args[0], env, memo)
                if COVER is not None and x:
                    for g, i in ranks(t):
                        met(g, x > 0, env)
                return abs(x)
            if name == "fdiv":
                x, y = self._num(args[0], env, memo), self._num(args[1], env, memo)
                wholes(t, x, y, env)
                return math.floor(x / y)
            if name == "idiv":
                return self._num(args[0], env, memo) // self._num(args[1], env, memo)
            if name == "imod":
                return self._num(args[0], env, memo) % self._num(args[1], env, memo)
            if name == "pow":
                return float(self._num(args[0], env, memo)) ** float(self._num(args[1], env, memo))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise NoValue
        k = tuple(self.key(x, env, memo) for x in args)
        if (name, k) in self.given:
            return self.given[(name, k)]
        if name in ("gp", "gw") and all(isinstance(x, int) for x in k) and 0 <= k[1] < k[0] <= 40:
            return legendre(k[0])[name == "gw"][k[1]]
        r = self.rnd("f", name, k)
        h = HINTS.get(name)
        if h is not None:
            self.hinting += 1
            try:
                v = h(self, k, r)
            finally:
                self.hinting -= 1
            if v is not None:
                if self.exact and isinstance(v, float):
                    v = Fraction(v).limit_denominator(64)
                return v
        if t.isbool:
            f = FORCE.get(name, FORCE.get(name.split("_")[0] + "_*"))
            if f is not None:
                return f
            return r.random() < 0.5
        return self.sample(t, r, env, memo)


def rounded(t):
    """a combination of rounded numbers: close to zero only if it is zero"""
    ms = [m for m, _ in t.a[1]] if t.op == "+" else [t]
    return all(m.op == "f" and m.a[0] == "round" for m in ms)


_LEG = {}


def legendre(n):
    """ascending Gauss-Legendre nodes and weights on [-1, 1]"""
    if n not in _LEG:
        xs, ws = [], []
        for i in range(n):
            x = -math.cos(math.pi * (i + 0.75) / (n + 0.5))
            for _ in range(100):
                p0, p1 = 1.0, x
                for j in range(2, n + 1):
                    p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
                d = n * (x * p1 - p0) / (x * x - 1)
                dx = p1 / d
                x -= dx
                if abs(dx) < 1e-16:
                    break
            xs.append(x)
            ws.append(2 / ((1 - x * x) * d * d))
        _LEG[n] = (xs, ws)
    return _LEG[n]


def close(x, y, tol=1e-7):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    x, y = float(x), float(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))


def near(x, y, tol):
    """relative agreement of small numbers"""
    return x == y or abs(x - y) <= type(x)(tol) * max(abs(x), abs(y)) or max(abs(x), abs(y)) < 1e-40


def met(t, v, env):
    if COVER is not None:
        c = COVER.get(t)
        if c is None:
            c = COVER[t] = [set(), {x: env[x] for x in t.vars if x in env}]
        c[0].add(v)
    return v


_RANKS = {}
_WHOLES = {}


def wholes(t, x, y, env):
    """rounding to a whole number compares with the unit (y) and with zero"""
    if COVER is None:
        return
    w = _WHOLES.get(t)
    if w is None:
        a, b = (t.a[1] + (tm.ONE,))[:2]
        w = _WHOLES[t] = [(g, i) for i, g in enumerate((tm.pos(tm.sub(a, b)), tm.pos(tm.neg(a)))) if g.op == "pos"]
    for g, i in w:
        met(g, x > y if i == 0 else x < 0, env)


def digits(t, y, nd, env):
    """rounding to a number of digits compares the magnitude with the last digit"""
    if COVER is None:
        return
    g = _WHOLES.get((t, nd))
    if g is None:
        g = _WHOLES[t, nd] = tm.pos(tm.sub(tm.absv(t.a[1][0]), tm.const(Fraction(3) / Fraction(10) ** int(nd))))
    if g.op == "pos":
        met(g, abs(y) > 3, env)


def ranks(t):
    """the comparisons a minimum, maximum or absolute value stands for"""
    r = _RANKS.get(t)
    if r is None:
        name, args = t.a
        r = []
        if name == "abs":
            r.append((tm.pos(args[0]), 0))
        else:
            for i, x in enumerate(args):
                rest = args[:i] + args[i + 1:]
                if rest:
                    r.append((tm.pos(tm.sub(x, rest[0] if len(rest) == 1 else tm.minmax(name, rest))), i))
        r = _RANKS[t] = [(g, i) for g, i in r if g.op == "pos"]
    return r


def points(n, given=None, exact=False, wide=0):
    for s in range(n):
        yield Point(s, given, exact, wide=wide)


def within(p, assume, facts=None):
    """the point satisfies the assumptions and the known inequalities"""
    return all(p.value(c) for c in assume) and all(
        p._num(f, {}, p.memo) >= 0 for f in (tm.FACTS if facts is None else facts))


def leaves(g, limit=16):
    out, seen, todo = [], set(), [g]
    while todo and len(out) < limit:
        t = todo.pop(0)
        if t in seen or not isinstance(t, T):
            continue
        seen.add(t)
        if t.op == "s" and t is not tm.INF:
            out.append(t)
            continue
        if t.op == "f" and not t.isbool and t.a[0] not in MATHS and not t.isint:
            out.append(t)
        for x in parts(t.a):
            todo.append(x)
    return out


MATHS = {"exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "min", "max", "floor",
         "ceil", "trunc", "round", "abs", "fdiv", "idiv", "imod", "pow", "gp", "gw"}


def parts(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from parts(x)


# search effort: terms evaluated, the effort at which the present search has to end, and the share of it that
# all directed searches of a run may use together
SPENT = [0]
LIMIT = [None]
BUDGET = [5_000_000]


def spent():
    return LIMIT[0] is not None and SPENT[0] > LIMIT[0]


class effort:
    """a directed search: at most an eighth of what is left for all of them"""

    def __enter__(self):
        self.start, self.keep = SPENT[0], LIMIT[0]
        if LIMIT[0] is None:
            LIMIT[0] = SPENT[0] + max(20_000, BUDGET[0] // 8)

    def __exit__(self, *a):
        if self.keep is None:
            BUDGET[0] -= SPENT[0] - self.start
            STATS["ended early"] += spent()
        LIMIT[0] = self.keep


def directed(g, want, env, seeds=(0, 1)):
    """points at which the atom g (under the valuation env of its bound variables) has the truth value
    want, found by moving one of the values it depends on"""
    for seed, ex in [(s, e) for e in (False, True) for s in seeds]:
        if not ex and g.op == "zero" and want:
            continue
        base = Point(seed, exact=ex)
        try:
            f0 = base._ev(g.a[0], dict(env), {})
        except (NoValue, RecursionError):
            continue
        for t in leaves(g.a[0]):
            if t in env or not t.vars <= g.vars:
                continue
            if spent():
                return
            try:
                old = base._ev(t, dict(env), {})
                key = t if t.op == "s" else (t.a[0], tuple(base.key(x, dict(env), {}) for x in t.a[1]))
                m = tm.META.get(t)
                lo = hi = None
                if m:
                    lo = None if m[0] is None else base._ev(m[0], dict(env), {})
                    hi = None if m[1] is None else base._ev(m[1], dict(env), {})
            except (NoValue, RecursionError):
                continue
            if isinstance(old, bool):
                continue

            def probe(v):
                if spent() or lo is not None and v < lo or hi is not None and v > hi or m and m[2] and v <= 0:
                    return None
                q = Point(seed, {key: v}, ex)
                try:
                    return q, q._ev(g.a[0], dict(env), {})
                except (NoValue, RecursionError):
                    return None
            cand = []
            if t.isint:
                cand = [int(old) + d for d in (1, -1, 2, -2, 4, 9)]
            else:
                r = probe(old + 1) or probe(old - 1) or probe(old / 2)
                if r is not None and r[1] != f0:
                    d = r[0].given[key] - old
                    if ex and not isinstance(r[1], float) and not isinstance(f0, float):
                        cand.append(old - f0 * Fraction(d) / (Fraction(r[1]) - Fraction(f0)))
                    elif not ex:
                        x = old - float(f0) * float(d) / (float(r[1]) - float(f0))
                        cand += [x + e for e in (-.1, .1, -1e-3, 1e-3, -1.0, 1.0, -30.0, 30.0)]
                if ex:
                    cand += [Fraction(old).limit_denominator(64) + e for e in (-1, 1, -10, 10, -100, 100)]
                else:
                    cand += [float(old) + e for e in (-0.5, 0.5, -5.0, 5.0, -100.0, 100.0, -1e4, 1e4, -1e8, 1e8)]
                    for b, sg in ((lo, 1), (hi, -1)):
                        if b is not None and not math.isinf(b):
                            cand += [float(b) + sg * 1e-6, float(b) + sg * 1e-2]
            for v in cand:
                r = probe(v)
                if r is None:
                    continue
                x = r[1]
                if ex:
                    good = not isinstance(x, float) and ((x > 0) if g.op == "pos" else (x == 0)) == want
                else:
                    good = (x > 1e-9) == want if g.op == "pos" and abs(x) > 1e-9 else g.op == "zero" and abs(x) > 1e-9
                if good:
                    yield r[0]
                    break
        if g.op == "pos" and not ex:
            q = descend(g, want, env, base)
            if q is not None:
                yield q


def descend(g, want, env, base):
    """coordinate-wise search for the other outcome of g, ending close to the change of sign"""
    sg = -1.0 if want else 1.0
    given = {}

    def val(d):
        try:
            return sg * float(Point(base.seed, d)._ev(g.a[0], dict(env), {}))
        except (NoValue, RecursionError, OverflowError):
            return None
    cur = val(given)
    if cur is None:
        return None
    ls = []
    for t in leaves(g.a[0]):
        if t in env or not t.vars <= g.vars or t.isint:
            continue
        try:
            old = base._ev(t, dict(env), {})
            key = t if t.op == "s" else (t.a[0], tuple(base.key(x, dict(env), {}) for x in t.a[1]))
            m = tm.META.get(t) or (None, None, False)
            lo, hi = (None if x is None else float(base._ev(x, dict(env), {})) for x in m[:2])
        except (NoValue, RecursionError):
            continue
        if isinstance(old, bool):
            continue
        if m[2]:
            lo = max(lo or 0.0, 1e-9)
        given[key] = float(old)
        ls.append((key, lo, hi))
    if not ls:
        return None
    cur = val(given)
    for sweep in range(4):
        for key, lo, hi in ls:
            if cur is None or spent():
                return None
            v = given[key]
            h = 0.05 * (1 + abs(v))
            clip = lambda x: max(lo if lo is not None else x, min(hi if hi is not None else x, x))
            a, b = val({**given, key: v - h}), val({**given, key: v + h})
            cand = [v - 10 * h, v + 10 * h, v - h, v + h]
            if a is not None and b is not None and a + b - 2 * cur > 1e-14:
                cand.insert(0, v - h * (b - a) / (2 * (a + b - 2 * cur)))
            best = min(((val({**given, key: clip(x)}), clip(x)) for x in cand), key=lambda p: math.inf if p[0] is None else p[0])
            if best[0] is None or best[0] >= cur:
                continue
            if best[0] < -1e-9:
                x0, x1 = v, best[1]     # f(x0) >= 0 > f(x1)
                for _ in range(4):
                    xm = (x0 + x1) / 2
                    f = val({**given, key: xm})
                    if f is None:
                        break
                    if f < -1e-9:
                        x1 = xm
                    else:
                        x0 = xm
                return Point(base.seed, {**given, key: x1})
            given[key], cur = best[1], best[0]
    return None


def uncovered():
    return [(g, v, c[1]) for g, c in COVER.items() for v in (True, False) if v not in c[0]]


def differ(a: T, b: T, assume=(), n=40, tol=1e-7, precise=False):
    """a point at which a and b differ (inside the assumption), 'same' if all usable points agree,
    None if no point could be evaluated.  Points are added until every comparison met while evaluating
    has been met with both outcomes, as far as such points are found; precise: evaluate with 60 digits (for
    differences of nearly equal numbers)"""
    global COVER
    if a is b:
        return "same"

    def compare(p, strict=False):
        try:
            if strict:
                if not within(p, assume):
                    return None
            elif not all(p.value(c) for c in assume):
                return None
            if precise and not p.exact:
                p = p.again()
            x, y = p.value(a), p.value(b)
            if not (close if not precise else near)(x, y, tol):
                if p.exact or precise:
                    return (p.seed, x, y)
                # rounding errors of ill-conditioned points must not count: again with 60 digits
                p = p.again()
                if not all(p.value(c) for c in assume):
                    return None
                x, y = p.value(a), p.value(b)
                if not close(x, y, tol):
                    return (p.seed, x, y)
        except (NoValue, RecursionError, OverflowError):
            return None
        return True

    COVER, keep = {}, COVER
    try:
        ok, seeds = 0, []
        for p in points(n):
            r = compare(p)
            if r is None:
                continue
            if r is not True:
                return r
            ok += 1
            if len(seeds) < 2:
                seeds.append(p.seed)
            if ok >= 12:
                break
        if not ok:
            return None
        first = uncovered()
        if first:
            for k, p in enumerate(points(24, wide=3)):
                p.seed += 1000
                if k in (8, 16):
                    if not uncovered():
                        break
                    p.wide = 8
                r = compare(p, True)
                if r is not None and r is not True:
                    return r
            tried = set()
            with effort():
                for _ in range(3):
                    # also those met meanwhile, perhaps only where the outcome makes no difference
                    todo = [u for u in (first if not tried else uncovered()) if u[:2] not in tried][:20]
                    for g, v, env in todo:
                        tried.add((g, v))
                        for p in directed(g, v, env, seeds):
                            r = compare(p, True)
                            if r is not None and r is not True:
                                return r
            STATS["uncovered"] += len(uncovered())
            if DEBUG:
                for g, v, env in uncovered():
                    print("uncovered", v, tm.show(g)[:300])
        STATS["compared"] += 1
        return "same"
    finally:
        COVER = keep


DEBUG = bool(__import__("os").environ.get("VERIF_COVER"))
STATS = {"compared": 0, "uncovered": 0, "ended early": 0}


def witness(c: T, assume=(), n=200, exact=False, facts=None):
    """a point satisfying c, None if not found; exact: also search a coarse rational grid on which
    equalities occur; facts: the inequalities known to hold (those of the current path)"""
    global COVER

    def good(p, strict=False):
        try:
            if (not strict or within(p, (), facts)) and all(p.value(d) for d in assume) and p.value(c):
                if p.exact:
                    return True
                q = p.again()
                return all(q.value(d) for d in assume) and q.value(c)
        except (NoValue, RecursionError, OverflowError):
            pass
        return False

    def score(p):
        """how many of the required conditions hold"""
        k = 0
        for d in cs:
            try:
                k += bool(p.value(d))
            except (NoValue, RecursionError, OverflowError):
                pass
        return k
    cs = [x for d in (*assume, c) for x in (d.a if d.op == "and" else (d,))]
    COVER, keep = {}, COVER
    try:
        best = []
        for p in (q for e in ((False, True) if exact else (False,)) for q in points(n, exact=e)):
            if good(p):
                return p
            if not p.exact and p.seed < 60:
                best.append((-score(p), p.seed))
        best = [s for _, s in sorted(best)[:3]] or [0, 1]
        if n >= 100:
            # values of other magnitudes, then every comparison met so far with its other outcome
            for k, p in enumerate(points(24, wide=3)):
                p.seed += 1000
                p.wide = 8 if k >= 16 else 3
                if good(p, True):
                    return p
            tried = set()
            with effort():
                for _ in range(3):
                    for g, v, env in [u for u in uncovered() if u[:2] not in tried][:20]:
                        tried.add((g, v))
                        for p in directed(g, v, env, best):
                            if good(p, True):
                                return p
        return None
    finally:
        COVER = keep
