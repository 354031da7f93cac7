"""Value numbers: the scalar domain of the abstract interpreter.

A term is an expression DAG over symbols.  Two terms that are equal as rational functions of their
atoms (plus uninterpreted functions, gated phis and finite sums) get the same fingerprint modulo a
127-bit Mersenne prime and are *the same object* (global value numbering by random interpretation,
Gulwani & Necula, POPL 2004).  Nothing here ever executes the analysed program.
"""
from __future__ import annotations
from fractions import Fraction
from hashlib import blake2b
from math import isqrt

P = (1 << 127) - 1


def H(*parts) -> int:
    h = blake2b(repr(parts).encode(), digest_size=20).digest()
    return int.from_bytes(h, "big") % (P - 1) + 1


MUS = [0]  # MUS[k]: the model index of the binders at depth k (1 = outermost)
LEVEL = {}  # model values of bound variables -> depth of their binder


def MU(k):
    while len(MUS) <= k:
        v = H("model index", len(MUS))
        LEVEL[v] = len(MUS)
        MUS.append(v)
    return MUS[k]


def _depth(vars_, env):
    """depth of a binder over these free variables when env gives the values of the enclosing ones"""
    k = 1
    for s in vars_:
        if s in env:
            k = max(k, 1 + LEVEL.get(env[s], 0))
    return k


class ZeroDiv(Exception):
    pass


class T:
    __slots__ = ("op", "a", "fp", "isint", "vars", "isbool", "n", "_exp")

    def __repr__(self):
        return show(self)


_tab: dict = {}
_count = 0
_EMPTY = frozenset()
META: dict = {}  # T -> (lo, hi, strictly_positive)
UNBOUND_OK = True


def _intern(op, a, fp, isint, vars_, isbool=False) -> T:
    global _count
    key = (isbool, fp)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.fp = fp
    t.isint = isint
    t.vars = vars_
    t.isbool = isbool
    t._exp = None
    _count += 1
    t.n = _count
    _tab[key] = t
    return t


def _inv(x: int) -> int:
    if x % P == 0:
        raise ZeroDiv()
    return pow(x, -1, P)


_ffps: dict = {}
F0, F1 = Fraction(0), Fraction(1)


def _ffp(x: Fraction) -> int:
    n, d = x._numerator, x._denominator
    if d == 1:
        return n % P
    r = _ffps.get((n, d))
    if r is None:
        r = _ffps[(n, d)] = n * _inv(d) % P
    return r


def const(x) -> T:
    f = x if isinstance(x, Fraction) else Fraction(x)
    fp = _ffp(f)
    t = _tab.get((False, fp))
    if t is not None:
        return t
    return _intern("c", (f,), fp, f.denominator == 1, _EMPTY)


for _i in range(-64, 65):
    const(_i)
ZERO, ONE, TWO, NEG1 = const(0), const(1), const(2), const(-1)
HALF = const(Fraction(1, 2))
TRUE = _intern("b", (True,), 1, True, _EMPTY, True)
FALSE = _intern("b", (False,), 0, True, _EMPTY, True)


def cbool(x) -> T:
    return TRUE if x else FALSE


def is_const(t) -> bool:
    return t.op == "c"


def cval(t) -> Fraction:
    return t.a[0]


_fresh: dict = {}


def sym(name: str, isint=False, lo=None, hi=None, pos=False) -> T:
    fp = H("s", name)
    t = _tab.get((False, fp))
    if t is None:
        t = _intern("s", (name,), fp, isint, _EMPTY)
        t.vars = frozenset((t,))
    if lo is not None or hi is not None or pos:
        META[t] = (_bound(lo), _bound(hi), pos)
        _nn_memo.clear()
    return t


def _bound(x):
    return x if x is None or isinstance(x, T) else const(x)


def fresh_name(base: str) -> str:
    k = _fresh.get(base, 0)
    _fresh[base] = k + 1
    return f"{base}'{k}" if k else base


def fresh(base: str, isint=False, lo=None, hi=None, pos=False) -> T:
    return sym(fresh_name(base), isint, lo, hi, pos)


def set_range(t: T, lo=None, hi=None, pos=False):
    if t.op != "c":
        META[t] = (_bound(lo), _bound(hi), pos)
        _nn_memo.clear()


def _argkey(x, env=None, memo=None):
    if isinstance(x, T):
        return x.fp if env is None else _ev(x, env, memo)
    if isinstance(x, tuple):
        return tuple(_argkey(y, env, memo) for y in x)
    return x


def _argvars(args):
    out = _EMPTY
    for x in args:
        if isinstance(x, T):
            if x.vars:
                out = out | x.vars if out else x.vars
        elif isinstance(x, tuple):
            v = _argvars(x)
            if v:
                out = out | v
    return out


def app(name: str, args=(), isint=False, isbool=False) -> T:
    args = tuple(args)
    fp = H("f", name, _argkey(args))
    return _intern("f", (name, args), fp, isint, _argvars(args), isbool)


# ---------------------------------------------------------------- sums and products

def _as_lin(t: T):
    """(const, ((term, coef), ...))"""
    if t.op == "+":
        return t.a
    if t.op == "c":
        return t.a[0], ()
    if t.op == "*":
        c, fs = t.a
        if c._numerator != 1 or c._denominator != 1:
            r = _mul_raw(F1, fs)
            # (the representative of the monic term may be of any shape)
            if r.op == "c":
                return c * r.a[0], ()
            if r.op == "+":
                return r.a[0] * c, tuple((m, k * c) for m, k in r.a[1])
            return F0, ((r, c),)
    return F0, ((t, F1),)


def add(*ts: T) -> T:
    return lin([(t, F1) for t in ts])


def lin(pairs, c0=Fraction(0)) -> T:
    """sum of coef * term"""
    acc: dict = {}
    c = c0 if isinstance(c0, Fraction) else Fraction(c0)
    for t, k in pairs:
        if type(k) is not Fraction:
            k = Fraction(k)
        kn = k._numerator
        if kn == 0:
            continue
        one = kn == 1 and k._denominator == 1
        tc, tl = _as_lin(t)
        if tc._numerator:
            c = c + (tc if one else tc * k)
        for m, mk in tl:
            v = mk if one else k if mk._numerator == 1 and mk._denominator == 1 else mk * k
            o = acc.get(m)
            if o is None:
                acc[m] = v
                continue
            v = o + v
            if v._numerator == 0:
                del acc[m]
            else:
                acc[m] = v
    if not acc:
        return const(c)
    if len(acc) == 1 and c._numerator == 0:
        (m, k), = acc.items()
        if k == 1:
            return m
        if m.op != "+":
            # (a representative may carry a coefficient of its own)
            return _mul_raw(k * m.a[0], m.a[1]) if m.op == "*" else _mul_raw(k, ((m, Fraction(1)),))
    fp = _ffp(c)
    isint = c._denominator == 1
    vs = _EMPTY
    for m, k in acc.items():
        fp = (fp + _ffp(k) * m.fp) % P
        isint = isint and m.isint and k._denominator == 1
        if m.vars and not m.vars <= vs:
            vs = vs | m.vars if vs else m.vars
    return _intern("+", (c, tuple(acc.items())), fp, isint, vs)


def neg(t: T) -> T:
    return lin([(t, Fraction(-1))])


def sub(a: T, b: T) -> T:
    if a is b:
        return ZERO
    return lin([(a, Fraction(1)), (b, Fraction(-1))])


def content(t: T):
    """(coef, monic term), coef * monic == t, monic has leading coefficient one"""
    if t.op == "c":
        return (t.a[0], ONE) if t.a[0] != 0 else (Fraction(1), ZERO)
    if t.op == "*":
        c, fs = t.a
        return c, (t if c == 1 else _mul_raw(Fraction(1), fs))
    if t.op == "+":
        _, l = t.a
        m, k = min(l, key=lambda x: x[0].fp)
        if k == 1:
            return k, t
        return k, lin([(t, 1 / k)])
    return Fraction(1), t


def _root(fp: int, q: int) -> int:
    return H("root", q, fp)


def _powfp(fp: int, e: Fraction) -> int:
    if e._numerator == 1 and e._denominator == 1:
        return fp
    k = e.numerator // e.denominator
    r = e - k
    if k < 0:
        v = pow(_inv(fp), -k, P)
    else:
        v = pow(fp, k, P)
    if r:
        v = v * pow(_root(fp, r.denominator), r.numerator, P) % P
    return v


def _mul_raw(c: Fraction, fs) -> T:
    fs = tuple(fs)
    if c == 0:
        return ZERO
    if not fs:
        return const(c)
    if len(fs) == 1 and fs[0][1] == 1:
        m = fs[0][0]
        if c == 1:
            return m
        if m.op == "+":
            return lin([(m, c)])
    fp = _ffp(c)
    isint = c.denominator == 1
    vs = _EMPTY
    for m, e in fs:
        fp = fp * _powfp(m.fp, e) % P
        isint = isint and m.isint and e.denominator == 1 and e > 0
        if m.vars and not m.vars <= vs:
            vs = vs | m.vars if vs else m.vars
    return _intern("*", (c, fs), fp, isint, vs)


def mulpow(pairs, c0=Fraction(1)) -> T:
    """c0 * product of term ** exp"""
    c = Fraction(c0)
    acc: dict = {}
    todo = list(pairs)
    many = len(todo) > 1 or any(e != 1 for _, e in todo)
    while todo:
        t, e = todo.pop(0)
        if e == 0:
            continue
        if t.fp == 0:
            if e > 0:
                return ZERO
            raise ZeroDiv()
        if t.op == "c":
            if e.denominator == 1:
                c *= t.a[0] ** int(e)
                continue
        if t.op == "*" and (e.denominator == 1):
            k, fs = t.a
            c *= k ** int(e)
            todo = [(m, me * e) for m, me in fs] + todo
            continue
        if t.op == "+" and many and e.denominator == 1:
            k, m = content(t)
            if k != 1:
                c *= k ** int(e)
                t = m
        v = acc.get(t, Fraction(0)) + e
        if v == 0:
            acc.pop(t, None)
        else:
            acc[t] = v
    # abs(x)^(2k) = x^(2k)
    redo = False
    out = []
    for m, e in acc.items():
        if m.op == "f" and m.a[0] == "abs" and e.denominator == 1 and e % 2 == 0:
            out.append((m.a[1][0], e))
            redo = True
        elif m.op == "c" and e.denominator == 1:
            out.append((m, e))
            redo = True
        else:
            out.append((m, e))
    if redo:
        return mulpow(out, c)
    out.sort(key=lambda x: x[0].n)
    return _mul_raw(c, out)


def mul(*ts: T) -> T:
    if len(ts) == 2:
        a, b = ts
        if a.op == "c":
            if a.a[0] == 1:
                return b
            return lin([(b, a.a[0])])
        if b.op == "c":
            if b.a[0] == 1:
                return a
            return lin([(a, b.a[0])])
    return mulpow([(t, Fraction(1)) for t in ts])


def div(a: T, b: T) -> T:
    if b.fp == 0:
        raise ZeroDiv()
    if b.op == "c":
        return lin([(a, 1 / b.a[0])])
    return mulpow([(a, Fraction(1)), (b, Fraction(-1))])


def _perfect(x: int):
    r = isqrt(x)
    return r if r * r == x else None


def power(a: T, e) -> T:
    if isinstance(e, T):
        if e.op != "c":
            if a is ONE:
                return ONE
            return app("pow", (a, e), a.isint and e.isint)
        e = e.a[0]
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if e.denominator == 1:
        if a.op == "c":
            if a.a[0] == 0 and e < 0:
                raise ZeroDiv()
            return const(a.a[0] ** int(e))
        return mulpow([(a, e)])
    if a.fp == 0:
        return ZERO
    if e.denominator == 2:
        if a.op == "c":
            f = a.a[0]
            if f > 0:
                n, d = _perfect(f.numerator), _perfect(f.denominator)
                if n is not None and d is not None:
                    return power(const(Fraction(n, d)), e * 2)
        if a.op == "*":
            c, fs = a.a
            outside, inside = [], []
            for m, k in fs:
                if k.denominator == 1 and k % 2 == 0:
                    outside.append((absv(m), k * e))
                else:
                    inside.append((m, k))
            cc = Fraction(1)
            if c > 0:
                n, d = _perfect(c.numerator), _perfect(c.denominator)
                if n is not None and d is not None:
                    cc, c = power(const(Fraction(n, d)), e * 2).a[0], Fraction(1)
            if outside or cc != 1:
                ins = _mul_raw(c, inside)
                return mulpow(outside + ([(ins, e)] if ins is not ONE else []), cc)
    return mulpow([(a, e)])


def sqrt(a: T) -> T:
    return power(a, Fraction(1, 2))


def absv(x: T) -> T:
    if x.op == "c":
        return const(abs(x.a[0]))
    c, m = content(x)
    if nonneg(m):
        return lin([(m, abs(c))])
    if nonneg(neg(m)):
        return lin([(m, -abs(c))])
    if m.op == "f" and m.a[0] == "abs":
        return lin([(m, abs(c))])
    if m.op == "*" and all(e.denominator == 1 for _, e in m.a[1]):
        fs = m.a[1]
        if len(fs) > 1 or fs[0][1] != 1:
            return mulpow([((b if e % 2 == 0 else absv(b)), e) for b, e in fs], abs(c * m.a[0]))
    if m.op == "*":
        # products of roots and odd powers
        return mulpow([((b if (e.denominator == 2 or e % 2 == 0) else absv(b)), e)
                       for b, e in m.a[1]], abs(c * m.a[0]))
    t = app("abs", (m,), m.isint)
    META.setdefault(t, (ZERO, None, False))
    return lin([(t, abs(c))])


def exp(x: T) -> T:
    if x.op == "c" and x.a[0] == 0:
        return ONE
    c0, l = _as_lin(x)
    out = []
    if c0:
        out.append((app("exp", (ONE,)), c0) if c0.denominator == 1 else (app("exp", (const(abs(c0)),)), Fraction(1 if c0 > 0 else -1)))
    for m, k in l:
        if k.denominator == 1:
            out.append((app("exp", (m,)), k))
        else:
            out.append((app("exp", (lin([(m, abs(k))]),)), Fraction(1 if k > 0 else -1)))
    for e, _ in out:
        META.setdefault(e, (ZERO, None, True))
    return mulpow(out)


def log(x: T) -> T:
    if x is ONE:
        return ZERO
    if x.op == "f" and x.a[0] == "exp":
        return x.a[1][0]
    if x.op == "*" and len(x.a[1]) == 1 and x.a[0] == 1:
        m, e = x.a[1][0]
        if e.numerator % 2 == 1 or e.denominator == 2:
            return lin([(app("log", (m,)), e)])
    return app("log", (x,))


_FUN_ONE = {}


def fun(name: str, *args: T) -> T:
    """a named real function"""
    if name == "exp":
        return exp(*args)
    if name == "log":
        return log(*args)
    if name == "sqrt":
        return sqrt(*args)
    if name == "abs":
        return absv(*args)
    x = args[0]
    if name in ("sin", "tan", "sinh", "tanh", "asin", "atan") and len(args) == 1:
        if x is ZERO:
            return ZERO
        c, m = content(x)
        if c < 0:
            return neg(app(name, (neg(x),)))
    if name in ("cos", "cosh") and len(args) == 1:
        if x is ZERO:
            return ONE
        c, m = content(x)
        if c < 0:
            return app(name, (neg(x),))
    if name in ("min", "max"):
        return minmax(name, args)
    if name in ("floor", "ceil", "trunc", "round"):
        if x.isint:
            return x
        if x.op == "c":
            import math
            v = x.a[0]
            return const({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[name](v))
        if name == "floor" and nonneg(x):
            name = "trunc"
        if name in ("trunc", "floor"):
            # integer part plus a remainder inside [0, 1)
            c0, l = expand_lin(x)
            whole = lin([(m, k) for m, k in l if m.isint and k.denominator == 1], Fraction(c0 // 1))
            rest = sub(x, whole)
            if whole is not ZERO and rest is not ZERO and (name == "floor" or nonneg(x)):
                if nonneg(rest) and positive(sub(ONE, rest)):
                    return whole
        elif name == "ceil":
            return neg(fun("floor", neg(x)))
        t = app(name, (x,), True)
        if nonneg(x):
            META.setdefault(t, (ZERO, None, False))
        return t
    return app(name, args)


def minmax(kind, args) -> T:
    flat = []
    group = {}  # members of one long maximum have been compared with each other before
    for n, x in enumerate(args):
        if x.op == "f" and x.a[0] == kind:
            flat.extend(x.a[1])
            if len(x.a[1]) > 8:
                group.update(dict.fromkeys(x.a[1], n))
        else:
            flat.append(x)
    uniq = list(dict.fromkeys(flat))
    if len(uniq) > 1 and any(x.fp in (INF.fp, NINF.fp) for x in uniq):
        top, bot = (INF, NINF) if kind == "max" else (NINF, INF)
        if top in uniq:
            return top
        uniq = [x for x in uniq if x is not bot]
        if len(uniq) == 1:
            return uniq[0]
    cs = [x for x in uniq if x.op == "c"]
    if len(cs) > 1:
        best = const((min if kind == "min" else max)(x.a[0] for x in cs))
        uniq = [x for x in uniq if x.op != "c"] + [best]
    # drop dominated
    keep = []
    for i, x in enumerate(uniq):
        dom = False
        if len(uniq) > 24 and x.op != "c":
            keep.append(x)
            continue
        for j, y in enumerate(uniq):
            if i == j or (x in group and group.get(y) == group[x]):
                continue
            d = sub(y, x) if kind == "max" else sub(x, y)
            if nonneg(d) and not (nonneg(neg(d)) and j > i):
                dom = True
                break
        if not dom:
            keep.append(x)
    uniq = keep or uniq
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=lambda x: x.fp)
    t = app(kind, tuple(uniq), all(x.isint for x in uniq))
    if kind == "max" and any(nonneg(x) for x in uniq):
        META.setdefault(t, (ZERO, None, False))
    return t


def floordiv(a: T, b: T) -> T:
    return _divmod(a, b)[0]


def mod(a: T, b: T) -> T:
    return _divmod(a, b)[1]


def _divmod(a: T, b: T):
    if b.fp == 0:
        raise ZeroDiv()
    if a.op == "c" and b.op == "c":
        q = a.a[0] // b.a[0]
        return const(q), const(a.a[0] - q * b.a[0])
    if not (a.isint and b.isint):
        q = app("fdiv", (a, b), True)
        if nonneg(a) and nonneg(b):
            META.setdefault(q, (ZERO, None, False))
        return q, sub(a, mul(b, q))
    # split a = b*q + r using the expanded monomials
    q, r = ZERO, a
    if b.op == "c":
        c0, l = expand_lin(a)
        q = lin([(m, Fraction(k // b.a[0])) for m, k in l if m.isint], Fraction(c0 // b.a[0]))
        r = sub(a, mul(b, q))
    else:
        ea = expand(a)
        eb = expand(b)
        lead = max(eb, key=lambda m: (sum(e for _, e in m), tuple(sorted(x.fp for x, _ in m)))) if eb else None
        if ea is not None and eb is not None and lead is not None and lead:
            # divide by b repeatedly by its leading monomial
            qt = ZERO
            cur = ea
            for _ in range(12):
                hit = None
                for m, k in cur.items():
                    mq = _mono_div(m, lead)
                    if mq is not None and (k / eb[lead]).denominator == 1:
                        hit = (mq, k / eb[lead])
                        break
                if hit is None:
                    break
                term = mulpow([(x, Fraction(e)) for x, e in hit[0]], hit[1])
                qt = add(qt, term)
                cur = expand(sub(a, mul(b, qt)))
                if cur is None:
                    break
            if cur is not None:
                q = qt
                r = sub(a, mul(b, q))
    for dq in (0, 1, -1):
        rr = sub(r, mul(b, const(dq)))
        if nonneg(rr) and positive(sub(b, rr)):
            return add(q, const(dq)), rr
    qq = app("idiv", (r, b), True)
    if nonneg(r) and positive(b):
        META.setdefault(qq, (ZERO, None, False))
    rem = app("imod", (r, b), True)
    if positive(b):
        META.setdefault(rem, (ZERO, sub(b, ONE), False))
    # tie the two together: r = b*idiv + imod, expressed through idiv
    return add(q, qq), rem


def _mono_div(m, d):
    mm = dict(m)
    for x, e in d:
        if mm.get(x, 0) < e:
            return None
        mm[x] -= e
        if mm[x] == 0:
            del mm[x]
    return tuple(sorted(mm.items(), key=lambda z: z[0].n))


# ---------------------------------------------------------------- booleans

def bnot(c: T) -> T:
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    return _intern("not", (c,), (1 - c.fp) % P, True, c.vars, True)


def band(*cs: T) -> T:
    flat = {}
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            for d in c.a:
                flat[d] = 1
        else:
            flat[c] = 1
    for d in flat:
        if bnot(d) in flat:
            return FALSE
    if not flat:
        return TRUE
    if len(flat) == 1:
        return next(iter(flat))
    # absorb: x and not(x and y) = x and not y
    changed = False
    out = {}
    for d in flat:
        if d.op == "not" and d.a[0].op == "and":
            rest = [e for e in d.a[0].a if e not in flat]
            if len(rest) != len(d.a[0].a):
                changed = True
                out[bnot(band(*rest))] = 1
                continue
        out[d] = 1
    if changed:
        return band(*out)
    items = tuple(sorted(out, key=lambda d: d.fp))
    fp = 1
    vs = _EMPTY
    for d in items:
        fp = fp * d.fp % P
        vs = vs | d.vars
    return _intern("and", items, fp, True, vs, True)


def bor(*cs: T) -> T:
    return bnot(band(*[bnot(c) for c in cs]))


def _lead_coef(t: T) -> Fraction:
    return content(t)[0]


def pos(x: T) -> T:
    """x > 0"""
    if x.op == "c":
        return cbool(x.a[0] > 0)
    if x.op == "ite":
        return ite(x.a[0], pos(x.a[1]), pos(x.a[2]))
    if positive(x):
        return TRUE
    if nonneg(neg(x)):
        return FALSE
    if INF in x.vars and x.op == "+":
        for m, k in x.a[1]:
            if m is INF:
                return cbool(k > 0)
    elif x is INF or x is NINF:
        return cbool(x is INF)
    if x.isint:
        c0, l = _as_lin(x)
        m, k = min(l, key=lambda z: z[0].fp)
        if k < 0:
            y = sub(ONE, x)
            return bnot(_posatom(y))
        return _posatom(x)
    k, m = content(x)
    if abs(k) != 1:
        x = lin([(x, 1 / abs(k))])
    # positive factors drop out
    if x.op == "*":
        c, fs = x.a
        rest = [(b, e) for b, e in fs if not positive(b)]
        if len(rest) < len(fs):
            return pos(mulpow(rest, c))
    return _posatom(x)


def _posatom(x):
    return _intern("pos", (x,), H("pos", x.fp), True, x.vars, True)


def zero(x: T) -> T:
    """x == 0"""
    if x.op == "c":
        return cbool(x.a[0] == 0)
    if x.op == "ite":
        return ite(x.a[0], zero(x.a[1]), zero(x.a[2]))
    if positive(x) or positive(neg(x)):
        return FALSE
    k, m = content(x)
    if m.op == "*":
        return bor(*[zero(b) for b, e in m.a[1] if e > 0]) if any(e > 0 for _, e in m.a[1]) else FALSE
    if m.op == "f" and m.a[0] == "abs":
        return zero(m.a[1][0])
    if nonneg(x) and x.isint:
        return bnot(pos(x))
    f = min(m.fp, (-m.fp) % P)
    return _intern("zero", (m,), H("zero", f), True, m.vars, True)


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return bnot(pos(sub(a, b)))


def eq(a, b):
    return zero(sub(a, b))


def ite(c: T, a: T, b: T) -> T:
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.isbool and b.isbool:
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
    fp = (c.fp * a.fp + (1 - c.fp) * b.fp) % P
    t = _intern("ite", (c, a, b), fp, a.isint and b.isint, c.vars | a.vars | b.vars,
                a.isbool and b.isbool)
    if not t.isbool and t not in META and nonneg(a) and nonneg(b):
        META[t] = (ZERO, None, False)
    return t


def b2i(c: T) -> T:
    return ite(c, ONE, ZERO) if c.isbool else c


def exists(b: T, n: T, c: T) -> T:
    if c is FALSE or n is ZERO:
        return FALSE
    if c is TRUE:
        return pos(n)
    if b not in c.vars:
        return band(pos(n), c)
    if n.op == "c":
        return bor(*[subst(c, {b: const(i)}) for i in range(int(n.a[0]))])
    fp = H("exists", n.fp, evalfp(c, {b: MU(1)}))
    return _intern("exists", (b, n, c), fp, True, (c.vars | n.vars) - {b}, True)


def first(b: T, n: T, c: T) -> T:
    """least index below n at which c holds"""
    if c is TRUE:
        return ZERO
    fp = H("first", n.fp, evalfp(c, {b: MU(1)}))
    t = _intern("first", (b, n, c), fp, True, (c.vars | n.vars) - {b})
    META.setdefault(t, (ZERO, sub(n, ONE), False))
    return t


# ---------------------------------------------------------------- sums over symbolic ranges

def summ(b: T, n: T, body: T) -> T:
    if body.fp == 0:
        return ZERO
    if body.isbool:
        body = b2i(body)
    if b not in body.vars:
        return mul(n, body)
    if n.op == "c" and n.a[0] <= 64:
        return lin([(subst(body, {b: const(i)}), Fraction(1)) for i in range(int(n.a[0]))])
    if body.op == "+":
        c0, l = body.a
        if any(b not in m.vars for m, _ in l):
            return lin([(mul(n, m) if b not in m.vars else summ(b, n, m), k) for m, k in l] + [(n, c0)])
        if c0:
            return lin([(n, c0), (summ(b, n, sub(body, const(c0))), Fraction(1))])
    if body.op == "*":
        c, fs = body.a
        out = [(m, e) for m, e in fs if b not in m.vars]
        if out or c != 1:
            ins = [(m, e) for m, e in fs if b in m.vars]
            return mulpow(out + [(summ(b, n, _mul_raw(Fraction(1), ins)), Fraction(1))], c)
    if body is b:
        return mul(HALF, mul(n, sub(n, ONE)))
    v = _sumfp(b, n.fp, body, {}, 1)
    t = _intern("sum", (b, n, body), v, body.isint, (body.vars | n.vars) - {b})
    if nonneg(body):
        META.setdefault(t, (ZERO, None, False))
    return t


def _sumfp(b, nfp, body, env, level):
    e1 = dict(env)
    e1[b] = MU(level)
    e2 = dict(env)
    e2[b] = (nfp - 1 - MU(level)) % P
    LEVEL[e2[b]] = level
    return nfp * _inv(2) % P * ((evalfp(body, e1) + evalfp(body, e2)) % P) % P


def evalfp(t: T, env: dict) -> int:
    """fingerprint of t when the symbols of env take the given field values"""
    return _ev(t, env, {})


def _ev(t, env, memo):
    if not t.vars or t.vars.isdisjoint(env):
        return t.fp
    v = memo.get(t)
    if v is not None:
        return v
    op = t.op
    a = t.a
    if op == "s":
        v = env[t]
    elif op == "+":
        v = _ffp(a[0])
        for m, k in a[1]:
            v += _ffp(k) * _ev(m, env, memo)
        v %= P
    elif op == "*":
        v = _ffp(a[0])
        for m, e in a[1]:
            v = v * _powfp(_ev(m, env, memo), e) % P
    elif op == "f":
        v = H("f", a[0], _argkey(a[1], env, memo))
        if a[0] in ("min", "max"):
            v = H("f", a[0], tuple(sorted(_ev(x, env, memo) for x in a[1])))
    elif op == "ite":
        c = _ev(a[0], env, memo)
        v = (c * _ev(a[1], env, memo) + (1 - c) * _ev(a[2], env, memo)) % P
    elif op == "not":
        v = (1 - _ev(a[0], env, memo)) % P
    elif op == "and":
        v = 1
        for d in a:
            v = v * _ev(d, env, memo) % P
    elif op == "pos":
        v = H("pos", _ev(a[0], env, memo))
    elif op == "zero":
        f = _ev(a[0], env, memo)
        v = H("zero", min(f, (-f) % P))
    elif op == "sum":
        b, n, body = a
        v = _sumfp(b, _ev(n, env, memo), body, env, _depth(t.vars, env))
    elif op in ("exists", "first", "maxover", "minover", "prod", "psum"):
        v = _bindfp(op, a, env, memo, _depth(t.vars, env))
    elif op == "integral":
        x, body, lo, hi = a
        e = dict(env)
        e[x] = MU(_depth(t.vars, env))
        v = H("integral", evalfp(body, e), _ev(lo, env, memo), _ev(hi, env, memo))
    else:
        raise AssertionError(op)
    memo[t] = v
    return v


def _bindfp(op, a, env, memo, level):
    b, n, body = a[0], a[1], a[2]
    e = dict(env)
    e[b] = MU(level)
    if op == "psum":
        return H(op, evalfp(body, e), _ev(n, env, memo))
    return H(op, _ev(n, env, memo), evalfp(body, e))


def bindop(op: str, b: T, n: T, body: T, isint=False) -> T:
    """other big operators: maxover, minover, prod"""
    if op in ("maxover", "minover"):
        if b not in body.vars:
            return body
        if n.op == "c" and n.a[0] <= 64:
            return minmax(op[:3], [subst(body, {b: const(i)}) for i in range(int(n.a[0]))])
    if op == "prod":
        if b not in body.vars:
            return power(body, n)
        if n.op == "c" and n.a[0] <= 64:
            r = ONE
            for i in range(int(n.a[0])):
                r = mul(r, subst(body, {b: const(i)}))
            return r
    fp = H(op, n.fp, evalfp(body, {b: MU(1)}))
    t = _intern(op, (b, n, body), fp, isint, (body.vars | n.vars) - {b})
    if op in ("maxover", "minover") and nonneg(body):
        META.setdefault(t, (ZERO, None, False))
    return t


def integral(x: T, body: T, lo: T, hi: T) -> T:
    """definite integral; closed form for sums of c * x^k * exp(a x)"""
    r = _antider(x, body)
    if r is not None:
        return sub(subst(r, {x: hi}), subst(r, {x: lo}))
    if lo is hi:
        return ZERO
    fp = H("integral", evalfp(body, {x: MU(1)}), lo.fp, hi.fp)
    return _intern("integral", (x, body, lo, hi), fp, False, ((body.vars - {x}) | lo.vars | hi.vars))


def _antider(x: T, body: T):
    e = expand(body)
    if e is None:
        return None
    total = ZERO
    for m, k in e.items():
        deg = 0
        coef = const(k)
        rate = ZERO
        for f, p in m:
            if x not in f.vars:
                coef = mul(coef, power(f, p))
            elif f is x and p.denominator == 1 and p >= 0:
                deg += int(p)
            elif f.op == "f" and f.a[0] == "exp" and p.denominator == 1:
                r = mul(const(p), f.a[1][0])
                d = diff(r, x)
                if x in d.vars:
                    return None
                c0 = sub(r, mul(d, x))
                coef = mul(coef, exp(c0))
                rate = add(rate, d)
            else:
                return None
        if rate is ZERO:
            total = add(total, mul(coef, div(power(x, deg + 1), const(deg + 1))))
        else:
            # int x^n e^{rx} = e^{rx} sum_j (-1)^j n!/(n-j)! x^{n-j} / r^{j+1}
            s = ZERO
            fac = Fraction(1)
            for j in range(deg + 1):
                s = add(s, mul(const(fac * (-1) ** j), mul(power(x, deg - j), power(rate, -(j + 1)))))
                fac *= deg - j
            total = add(total, mul(coef, mul(exp(mul(rate, x)), s)))
    return total


# ---------------------------------------------------------------- traversal

def subst(t: T, mp: dict) -> T:
    """replace symbols (or arbitrary atoms) by terms"""
    if not mp:
        return t
    atoms = [k for k in mp if k.op != "s"]
    return _subst(t, mp, {}, frozenset(mp), atoms)


def _subst(t, mp, memo, keys, atoms):
    r = mp.get(t)
    if r is not None:
        return r
    if not atoms and t.vars.isdisjoint(keys):
        return t
    if t.op in ("c", "s", "b"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op, a = t.op, t.a
    S = lambda x: _subst(x, mp, memo, keys, atoms)
    if op == "+":
        r = lin([(S(m), k) for m, k in a[1]], a[0])
    elif op == "*":
        r = mulpow([pe for m, e in a[1] for pe in _spow(S(m), e)], a[0])
    elif op == "f":
        r = refun(a[0], _sargs(a[1], S), t)
    elif op == "ite":
        c = S(a[0])
        r = S(a[1]) if c is TRUE else S(a[2]) if c is FALSE else ite(c, S(a[1]), S(a[2]))
    elif op == "not":
        r = bnot(S(a[0]))
    elif op == "and":
        r = band(*[S(x) for x in a])
    elif op == "pos":
        r = pos(S(a[0]))
    elif op == "zero":
        r = zero(S(a[0]))
    elif op == "integral":
        x, body = _under(a[0], None, a[1], mp)
        r = integral(x, body, S(a[2]), S(a[3]))
    elif op in ("sum", "exists", "first", "maxover", "minover", "prod"):
        n = S(a[1])
        b, body = _under(a[0], n, a[2], mp)
        if op == "sum":
            r = summ(b, n, body)
        elif op == "exists":
            r = exists(b, n, body)
        elif op == "first":
            r = first(b, n, body)
        else:
            r = bindop(op, b, n, body, t.isint)
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


def _under(b, n, body, mp):
    """substitution below a binder: its own variable is shadowed, and renamed where it would capture"""
    if b in mp:
        mp = {k: v for k, v in mp.items() if k is not b}
    if any(b in v.vars and (k.op != "s" or k in body.vars) for k, v in mp.items()):
        b2 = fresh("j", b.isint, ZERO, sub(n, ONE)) if n is not None else fresh("x", b.isint)
        body = subst(body, {b: b2})
        b = b2
    return b, subst(body, mp)


def _spow(m, e):
    if e.denominator == 1:
        return [(m, e)]
    p = power(m, e)
    return [(p, Fraction(1))]


def _sargs(args, S):
    return tuple(S(x) if isinstance(x, T) else _sargs(x, S) if isinstance(x, tuple) else x for x in args)


REBUILD = {}  # app name -> constructor(args, old)


def refun(name, args, old=None):
    r = REBUILD.get(name)
    if r is not None:
        return r(args, old)
    if name in ("exp", "log", "abs", "sin", "cos", "tan", "floor", "ceil", "trunc", "round", "min", "max",
                "sinh", "cosh", "tanh"):
        return fun(name, *args)
    if name == "pow":
        return power(*args)
    if name == "idiv":
        return floordiv(*args)
    if name == "imod":
        return mod(*args)
    t = app(name, args, old.isint if old is not None else False, old.isbool if old is not None else False)
    if old is not None and old in META and t not in META:
        # ranges of families: re-derive by substituting when possible
        rng = RANGES.get(name)
        if rng is not None:
            META[t] = rng(args)
        else:
            lo, hi, p = META[old]
            if all(z is None or not (z.vars & old.vars) for z in (lo, hi)):
                META[t] = META[old]
    return t


RANGES = {}  # app name -> function(args) -> (lo, hi, strict)


def rapp(name, args=(), isint=False):
    """uninterpreted application whose range is given by RANGES[name]"""
    t = app(name, args, isint)
    if t not in META and name in RANGES:
        META[t] = RANGES[name](tuple(args))
    return t


def atoms(t: T, pred=None, out=None, seen=None):
    """all applications and symbols occurring in t"""
    if out is None:
        out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("s", "f") and (pred is None or pred(x)):
            out.append(x)
        for y in children(x):
            stack.append(y)
    return out


def children(x: T):
    op, a = x.op, x.a
    if op in ("c", "s", "b"):
        return ()
    if op == "+":
        return [m for m, _ in a[1]]
    if op == "*":
        return [m for m, _ in a[1]]
    if op == "f":
        return _flat(a[1])
    return [y for y in a if isinstance(y, T)]


def _flat(args):
    out = []
    for x in args:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            out.extend(_flat(x))
    return out


def diff(t: T, x: T, memo=None) -> T:
    if memo is None:
        memo = {}
    return _diff(t, x, memo)


def _diff(t, x, memo):
    if t is x:
        return ONE
    if not x.vars <= t.vars:
        return ZERO
    if t.op in ("c", "s", "b"):
        return ZERO
    r = memo.get(t)
    if r is not None:
        return r
    op, a = t.op, t.a
    D = lambda y: _diff(y, x, memo)
    if op == "+":
        r = lin([(D(m), k) for m, k in a[1]])
    elif op == "*":
        c, fs = a
        parts = []
        for i, (m, e) in enumerate(fs):
            d = D(m)
            if d is ZERO:
                continue
            rest = [fs[j] for j in range(len(fs)) if j != i]
            parts.append(mulpow([(d, Fraction(1)), (m, e - 1)] + rest, c * e))
        r = add(*parts) if parts else ZERO
    elif op == "f":
        name, args = a
        if name == "exp":
            r = mul(t, D(args[0]))
        elif name == "log":
            r = div(D(args[0]), args[0])
        elif name == "sin":
            r = mul(app("cos", args), D(args[0]))
        elif name == "cos":
            r = neg(mul(app("sin", args), D(args[0])))
        elif name == "abs":
            r = mul(div(args[0], t), D(args[0]))
        elif name == "pow":
            # d(a^e) = a^e (e' log a + e a'/a)
            r = mul(t, add(mul(D(args[1]), log(args[0])), mul(args[1], div(D(args[0]), args[0]))))
        else:
            fl = _flat(args)
            r = ZERO
            for i, y in enumerate(fl):
                d = D(y)
                if d is not ZERO:
                    r = add(r, mul(app("D", (name, i, args)), d))
    elif op == "ite":
        r = ite(a[0], D(a[1]), D(a[2]))
    elif op == "sum":
        r = summ(a[0], a[1], D(a[2]))
    elif op == "integral":
        y, body, lo, hi = a
        r = sub(mul(subst(body, {y: hi}), D(hi)), mul(subst(body, {y: lo}), D(lo)))
        db = D(body)
        if db is not ZERO:
            r = add(r, integral(y, db, lo, hi))
    else:
        r = app("D", (t, x))
    memo[t] = r
    return r


def expand_lin(t: T):
    e = expand(t)
    if e is None:
        return _as_lin(t)
    c0 = Fraction(0)
    out = []
    for m, k in e.items():
        if not m:
            c0 += k
        else:
            out.append((mulpow([(x, p) for x, p in m]), k))
    return c0, out


EXPAND_LIMIT = 600


def expand(t: T, limit=None):
    """dict monomial (sorted tuple of (atom, exponent)) -> coefficient, or None if too large"""
    if t._exp is not None:
        return t._exp if t._exp is not False else None
    r = _expand(t, limit or EXPAND_LIMIT)
    t._exp = r if r is not None else False
    return r


def _expand(t, limit):
    if t.op == "c":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "+":
        out: dict = {}
        if t.a[0]:
            out[()] = t.a[0]
        for m, k in t.a[1]:
            e = expand(m, limit)
            if e is None:
                return None
            for mm, kk in e.items():
                v = out.get(mm, 0) + k * kk
                if v:
                    out[mm] = v
                else:
                    out.pop(mm, None)
        return out if len(out) <= limit else None
    if t.op == "*":
        c, fs = t.a
        out = {(): c}
        for m, e in fs:
            if m.op == "+" and e.denominator == 1 and 0 < e <= 8:
                em = expand(m, limit)
                if em is None:
                    return None
                for _ in range(int(e)):
                    out = _pmul(out, em, limit)
                    if out is None:
                        return None
            else:
                out = _pmul(out, {((m, e),): Fraction(1)}, limit)
                if out is None:
                    return None
        return out
    return {((t, Fraction(1)),): Fraction(1)}


def _pmul(p, q, limit):
    out: dict = {}
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            d = dict(m1)
            for x, e in m2:
                v = d.get(x, 0) + e
                if v:
                    d[x] = v
                else:
                    del d[x]
            m = tuple(sorted(d.items(), key=lambda z: z[0].n))
            v = out.get(m, 0) + k1 * k2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            if len(out) > limit:
                return None
    return out


# ---------------------------------------------------------------- sign reasoning by ranges

_nn_memo: dict = {}
FACTS: list = []      # terms known to be >= 0 in the current context
_facts_ver = [0]


def set_facts(fs):
    if fs is not FACTS and list(fs) != FACTS:
        FACTS[:] = fs
        _facts_ver[0] += 1
        _nn_memo.clear()


def nonneg(t: T) -> bool:
    return _prove(t, False, 0)


def positive(t: T) -> bool:
    if t.op == "c":
        return t.a[0] > 0
    if t.isint:
        return _prove(sub(t, ONE), False, 0)
    return _prove(t, True, 0)


def _sgn_atom(x):
    """(nonneg, strictly positive) of an atom"""
    m = META.get(x)
    if m is None:
        if x.op == "*":
            nn = st = True
            c, fs = x.a
            if c < 0:
                return False, False
            for b, e in fs:
                if e.denominator == 1 and e % 2 == 0:
                    st = st and _sgn_atom(b)[1]
                    continue
                a, s = _sgn_atom(b)
                if e.denominator == 2 and not a:
                    st = False
                    continue
                nn = nn and a
                st = st and s
            return nn, nn and st
        if x.op == "c":
            return x.a[0] >= 0, x.a[0] > 0
        return False, False
    lo, hi, st = m
    if st:
        return True, True
    if lo is not None:
        if lo.op == "c":
            return lo.a[0] >= 0, lo.a[0] > 0
        if lo is not x and nonneg(lo):
            return True, positive(lo)
    return False, False


def _prove(t, strict, depth) -> bool:
    if t.op == "c":
        return t.a[0] > 0 if strict else t.a[0] >= 0
    if not t.vars and t.op not in ("+", "*") and t not in META:
        return False
    key = (t, strict)
    r = _nn_memo.get(key)
    if r is not None:
        return r
    _nn_memo[key] = False
    r = _prove1(t, strict, depth)
    _nn_memo[key] = r
    return r


def _mono_sign(m):
    nn, st = True, True
    for x, e in m:
        if e.denominator == 1 and e % 2 == 0:
            if not _sgn_atom(x)[1]:
                st = False
            continue
        a, s = _sgn_atom(x)
        if e.denominator == 2:
            a = True
        if not a:
            return False, False
        st = st and s
    return nn, st


def _const_low(e):
    """rational lower bound of a sum of products of roots of rationals"""
    tot = Fraction(0)
    for m, k in e.items():
        lo = hi = Fraction(1)
        for x, p in m:
            b = x.a[0] ** abs(p.numerator)
            q = p.denominator
            if b < 0 or q not in (1, 2):
                return Fraction(-1)
            if q == 1:
                l = h = b
            else:
                sc = 10 ** 40
                r = isqrt(b.numerator * b.denominator * sc * sc)
                l = Fraction(r, b.denominator * sc)
                h = Fraction(r + 1, b.denominator * sc)
            if p < 0:
                if l <= 0:
                    return Fraction(-1)
                l, h = 1 / h, 1 / l
            lo, hi = lo * l, hi * h
        tot += k * (lo if k > 0 else hi)
    return tot


def _prove1(t, strict, depth):
    if t.op == "ite":
        return _prove(t.a[1], strict, depth) and _prove(t.a[2], strict, depth)
    if t.op == "*":
        nn, st = _sgn_atom(t)
        if strict and st or (not strict and nn):
            return True
    if depth > 7:
        return False
    e = expand(t)
    if e is None or len(e) > 60:
        return False
    # all monomials nonnegative
    if not t.vars and all(x.op == "c" for m in e for x, _ in m):
        lo = _const_low(e)
        return lo > 0 or (lo == 0 and not strict)
    ok, anystrict = True, False
    for m, k in e.items():
        if k < 0:
            ok = False
            break
        nn, st = _mono_sign(m)
        if not nn:
            ok = False
            break
        anystrict = anystrict or st
    if ok and (not strict or anystrict):
        return True
    # facts
    if FACTS and depth < 4:
        for f in FACTS:
            if f is t and not strict:
                return True
            if f.vars & t.vars:
                d = sub(t, f)
                if d.op == "c":
                    if d.a[0] > 0 or (d.a[0] == 0 and not strict):
                        return True
                    continue
                ed = expand(d)
                if ed is not None and len(ed) < len(e) and _prove(d, strict, depth + 1):
                    return True
    # eliminate the newest bounded atom occurring linearly
    ats = {}
    for m in e:
        for x, p in m:
            ats.setdefault(x, set()).add(p)
    cand = [x for x, ps in ats.items() if len(ps) == 1 and x in META and (ps == {Fraction(1)} or _powers(x, min(ps)))]
    cand.sort(key=lambda x: -x.n)
    tried = 0
    for x in cand:
        lo, hi, st = META[x]
        A: dict = {}
        B: dict = {}
        for m, k in e.items():
            if any(y is x for y, _ in m):
                mm = tuple((y, p) for y, p in m if y is not x)
                A[mm] = A.get(mm, 0) + k
            else:
                B[m] = k
        ta = _unexpand(A)
        tb = _unexpand(B)
        if lo is None and st:
            lo = ZERO
        p = min(ats[x])
        if p != 1:
            lo, hi = (None if y is None else mulpow([(y, p)]) if y.a[0] else ZERO for y in (lo, hi))
        if lo is not None and x not in lo.vars and _prove(ta, False, depth + 1):
            tried += 1
            if _prove(add(tb, mul(ta, lo)), strict, depth + 1):
                return True
        if hi is not None and x not in hi.vars and _prove(neg(ta), False, depth + 1):
            tried += 1
            if _prove(add(tb, mul(ta, hi)), strict, depth + 1):
                return True
        if tried >= 3:
            break
    return False


def _powers(x, p):
    """x^p is monotone over the values of x, whose bounds are numbers"""
    lo, hi, st = META[x]
    return p > 0 and (lo is not None or st) and all(y is None or y.op == "c" and y.a[0] >= 0 for y in (lo, hi))


def _unexpand(e):
    return lin([(mulpow([(x, p) for x, p in m]) if m else ONE, k) for m, k in e.items()])


# ---------------------------------------------------------------- linear unification

def solve_eq(a: T, b: T, x: T):
    """solve a == b for the symbol x when it occurs linearly: returns term, 'any' or None"""
    d = sub(a, b)
    if x not in d.vars:
        return "any" if d.fp == 0 else None
    k = diff(d, x)
    if x in k.vars or k.fp == 0:
        return None
    c = sub(d, mul(k, x))
    if x in c.vars:
        c = subst(d, {x: ZERO})
        if x in c.vars:
            return None
    try:
        return neg(div(c, k))
    except ZeroDiv:
        return None


# ---------------------------------------------------------------- printing

def show(t: T, depth=6) -> str:
    if depth <= 0:
        return "…"
    op, a = t.op, t.a
    s = lambda y: show(y, depth - 1)
    if op == "c":
        f = a[0]
        if f.denominator == 1:
            return str(f.numerator)
        d = f.denominator
        if d > 64:
            return repr(float(f))
        return f"{f.numerator}/{d}"
    if op == "b":
        return str(a[0])
    if op == "s":
        return a[0]
    if op == "+":
        parts = []
        for m, k in a[1][:8]:
            parts.append((s(m) if k == 1 else "-" + s(m) if k == -1 else f"{show(const(k))}*{s(m)}"))
        if len(a[1]) > 8:
            parts.append("…")
        if a[0]:
            parts.append(show(const(a[0])))
        return "(" + " + ".join(parts).replace("+ -", "- ") + ")"
    if op == "*":
        parts = [] if a[0] == 1 else [show(const(a[0]))]
        for m, e in a[1][:8]:
            parts.append(s(m) if e == 1 else f"{s(m)}^{e}")
        return "*".join(parts)
    if op == "f":
        return a[0] + "(" + ", ".join(_showarg(x, depth - 1) for x in a[1]) + ")"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op == "and":
        return "(" + " and ".join(s(x) for x in a) + ")"
    if op == "pos":
        return f"{s(a[0])} > 0"
    if op == "zero":
        return f"{s(a[0])} == 0"
    if op in ("sum", "exists", "first", "maxover", "minover", "prod"):
        return f"{op}[{s(a[0])}<{s(a[1])}]({s(a[2])})"
    if op == "integral":
        return f"int[{s(a[0])}={s(a[2])}..{s(a[3])}]({s(a[1])})"
    return op


def _showarg(x, depth):
    if isinstance(x, T):
        return show(x, depth)
    if isinstance(x, tuple):
        return "(" + ", ".join(_showarg(y, depth) for y in x) + ")"
    return str(x)


# ---------------------------------------------------------------- infinity

INF = sym("inf")
NINF = neg(INF)
