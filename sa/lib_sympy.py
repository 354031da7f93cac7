"""Model of the symbolic algebra used at import time: expressions are value numbers over named symbols."""
from __future__ import annotations
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from . import containers as ct


def fn(name, f):
    return BuiltinV(name, f)


def sp_sym(name, k=None):
    k = k or {}
    pos = k.get("positive") is TRUE
    return tm.sym("sp:" + name + (":p" if pos else ""), False, None, None, pos)


def is_spsym(t):
    return isinstance(t, T) and t.op == "s" and t.a[0].startswith("sp:")


def has_sp(t):
    return any(v.op == "s" and v.a[0].startswith("sp:") for v in t.vars)


def num(ip, v):
    return ip.bm.num1(ip, v, lambda t: t)


# ------------------------------------------------------------------ nested tuples

def nest_map(d, f):
    return tuple(nest_map(x, f) for x in d) if isinstance(d, tuple) else f(d)


def nest_at(d, idx):
    for i in idx:
        d = d[i]
    return d


def to_nest(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Sym):
            return c.data
        if isinstance(c, Obj) and ip.find(c.cls, "__iter__") is None and ip.find(c.cls, "__len__") is None:
            raise Unsupported("matrix entry")
        return tuple(to_nest(ip, x) for x in ip.items(v))
    if isinstance(v, (tuple, RangeV)):
        return tuple(to_nest(ip, x) for x in ip.items(v))
    if isinstance(v, IteV):
        v = ct.to_num(ip, v)
    if isinstance(v, T):
        return tm.b2i(v) if v.isbool else v
    raise Unsupported("matrix entry")


def nest_shape(d):
    s = ()
    while isinstance(d, tuple):
        s += (len(d),)
        d = d[0] if d else None
    return s


def mk_matrix(ip, d):
    if d and not isinstance(d[0], tuple):
        d = tuple((x,) for x in d)
    s = nest_shape(d)
    if len(s) == 1:
        s = s + (0,)
    if any(len(r) != s[1] for r in d):
        ip.raise_("ValueError", "mismatched dimensions")
    return ip.new(Sym("Matrix", d, s))


def sp_matrix(ip, a, k):
    if len(a) >= 2 and isinstance(a[0], T):
        r, c = int(a[0].a[0]), int(a[1].a[0])
        if len(a) == 2:
            return mk_matrix(ip, tuple(tuple(ZERO for _ in range(c)) for _ in range(r)))
        if isinstance(a[2], (FuncV, BoundV, BuiltinV)):
            return mk_matrix(ip, tuple(tuple(num(ip, ip.call(a[2], [tm.const(i), tm.const(j)], {})) for j in range(c)) for i in range(r)))
        f = to_nest(ip, a[2])
        f = list(tm._flat(f))
        return mk_matrix(ip, tuple(tuple(f[i * c + j] for j in range(c)) for i in range(r)))
    d = to_nest(ip, a[0])
    if d and isinstance(d[0], tuple) and len(nest_shape(d)) > 2:
        # rows of matrices: stack blocks
        raise Unsupported("block matrix")
    return mk_matrix(ip, d)


def sp_array(ip, a, k):
    d = to_nest(ip, a[0])
    if len(a) > 1:
        shp = [int(x.a[0]) for x in (ip.items(a[1]) if not isinstance(a[1], T) else [a[1]])]
        d = renest(list(tm._flat(d)), shp)
    return ip.new(Sym("Array", d, nest_shape(d)))


def renest(flat, shp):
    if not shp:
        return flat[0]
    n = len(flat) // shp[0]
    return tuple(renest(flat[i * n:(i + 1) * n], shp[1:]) for i in range(shp[0]))


def map_sym(ip, v, c, f):
    return ip.new(Sym(c.kind, nest_map(c.data, f), c.shape))


def rows(ip, v, c):
    def wrap(d):
        return ip.new(Lst([("i", wrap(x) if isinstance(x, tuple) else x) for x in d]))
    return tuple(("i", wrap(x) if isinstance(x, tuple) else x) for x in c.data)


def iterate(ip, v, c):
    if c.kind == "Matrix":
        return tuple(("i", x) for x in tm._flat(c.data))
    return tuple(("i", ip.new(Sym("Array", x, c.shape[1:])) if isinstance(x, tuple) else x) for x in c.data)


def length(ip, v, c):
    if c.kind == "Matrix":
        return tm.const(c.shape[0] * c.shape[1])
    n = 1
    for s in c.shape:
        n *= s
    return tm.const(n)


def idx(ip, x, n):
    x = ip.vsimp(x)
    if not isinstance(x, T) or x.op != "c":
        raise Unsupported("symbolic matrix index")
    i = int(x.a[0])
    if not -n <= i < n:
        ip.raise_("IndexError", "Index out of range")
    return i % n


def getitem(ip, o, c, k):
    k = ip.vsimp(k)
    if isinstance(k, tuple):
        if any(isinstance(x, SliceV) for x in k):
            sel = []
            for x, n in zip(k, c.shape):
                if isinstance(x, SliceV):
                    cv = lambda t: None if t is None else int(t.a[0])
                    sel.append(list(range(n))[slice(cv(x.lo), cv(x.hi), cv(x.step))])
                else:
                    sel.append([idx(ip, x, n)])
            d = tuple(tuple(c.data[i][j] for j in sel[1]) for i in sel[0])
            return ip.new(Sym(c.kind, d, nest_shape(d)))
        d = nest_at(c.data, [idx(ip, x, n) for x, n in zip(k, c.shape)])
        return ip.new(Sym(c.kind, d, nest_shape(d))) if isinstance(d, tuple) else d
    if isinstance(k, SliceV):
        raise Unsupported("matrix slice")
    if c.kind == "Matrix":
        f = list(tm._flat(c.data))
        return f[idx(ip, k, len(f))]
    d = c.data[idx(ip, k, c.shape[0])]
    return ip.new(Sym("Array", d, c.shape[1:])) if isinstance(d, tuple) else d


def setitem(ip, o, c, k, v):
    v = num(ip, v)
    if not isinstance(k, tuple):
        i = idx(ip, k, c.shape[0] * c.shape[1])
        k = (tm.const(i // c.shape[1]), tm.const(i % c.shape[1]))
    path = [idx(ip, x, n) for x, n in zip(k, c.shape)]

    def put(d, p):
        if not p:
            return v
        return d[:p[0]] + (put(d[p[0]], p[1:]),) + d[p[0] + 1:]
    ip.put(o, Sym(c.kind, put(c.data, path), c.shape))


def transpose(d):
    return tuple(zip(*d))


def det(rows):
    n = len(rows)
    if n == 0:
        return ONE
    if n == 1:
        return rows[0][0]
    out = []
    for j in range(n):
        t = tm.mul(rows[0][j], det([tuple(r[:j]) + tuple(r[j + 1:]) for r in rows[1:]]))
        out.append(t if j % 2 == 0 else tm.neg(t))
    return tm.add(*out)


def matinv(ip, d):
    n = len(d)
    dt = det(d)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            m = det([tuple(d[p][q] for q in range(n) if q != i) for p in range(n) if p != j])
            row.append(tm.div(m if (i + j) % 2 == 0 else tm.neg(m), dt))
        out.append(tuple(row))
    return tuple(out)


def matmul(ip, x, y):
    if len(x[0]) != len(y):
        ip.raise_("ValueError", "Matrix size mismatch")
    return tuple(tuple(tm.add(*[tm.mul(x[i][q], y[q][j]) for q in range(len(y))]) for j in range(len(y[0]))) for i in range(len(x)))


def binop(ip, op, a, ca, b, cb):
    sa, sb = isinstance(ca, Sym), isinstance(cb, Sym)
    if sa and sb:
        if op in ("mul", "matmul") and ca.kind == "Matrix":
            return mk_matrix(ip, matmul(ip, ca.data, cb.data))
        if op in ("add", "sub"):
            if ca.shape != cb.shape:
                ip.raise_("ValueError", "Matrix size mismatch")
            f = tm.add if op == "add" else tm.sub

            def go(x, y):
                return tuple(go(p, q) for p, q in zip(x, y)) if isinstance(x, tuple) else f(x, y)
            return ip.new(Sym(ca.kind, go(ca.data, cb.data), ca.shape))
        return NOTIMPL
    x, c, other = (a, ca, b) if sa else (b, cb, a)
    if isinstance(other, T):
        if op == "mul":
            return map_sym(ip, x, c, lambda t: tm.mul(t, other))
        if op == "truediv" and sa:
            return map_sym(ip, x, c, lambda t: ip.arith("truediv", t, other))
        if op == "pow" and sa and other.op == "c" and c.kind == "Matrix":
            n = int(other.a[0])
            if n == -1:
                return mk_matrix(ip, matinv(ip, c.data))
            if n >= 1:
                r = c.data
                for _ in range(n - 1):
                    r = matmul(ip, r, c.data)
                return mk_matrix(ip, r)
    return NOTIMPL


def getattr_(ip, ref, c, name):
    d = c.data
    if name == "shape":
        return tuple(tm.const(n) for n in c.shape)
    if name == "rows":
        return tm.const(c.shape[0])
    if name == "cols":
        return tm.const(c.shape[1])
    if name == "T":
        return mk_matrix(ip, transpose(d))
    if name == "tolist":
        def lst(x):
            return ip.new(Lst([("i", lst(y)) for y in x])) if isinstance(x, tuple) else x
        return fn(name, lambda ip, a, k: lst(d))
    if name in ("transpose",):
        return fn(name, lambda ip, a, k: mk_matrix(ip, transpose(d)))
    if name == "det":
        return fn(name, lambda ip, a, k: det(d))
    if name in ("inv", "inverse"):
        return fn(name, lambda ip, a, k: mk_matrix(ip, matinv(ip, d)))
    if name == "trace":
        return fn(name, lambda ip, a, k: tm.add(*[d[i][i] for i in range(len(d))]))
    if name == "applyfunc":
        return fn(name, lambda ip, a, k: map_sym(ip, ref, c, lambda x: num(ip, ip.call(a[0], [x], {}))))
    if name in ("subs", "xreplace"):
        return fn(name, lambda ip, a, k: map_sym(ip, ref, c, lambda x: subs(ip, x, a, k)))
    if name == "diff":
        return fn(name, lambda ip, a, k: map_sym(ip, ref, c, lambda x: diff(ip, [x] + a)))
    if name in ("simplify", "expand", "evalf", "doit", "copy", "as_mutable", "as_immutable", "as_explicit"):
        return fn(name, lambda ip, a, k: ip.new(Sym(c.kind, d, c.shape)))
    if name == "norm":
        return fn(name, lambda ip, a, k: tm.sqrt(tm.add(*[tm.mul(x, x) for x in tm._flat(d)])))
    if name == "dot":
        return fn(name, lambda ip, a, k: tm.add(*[tm.mul(x, y) for x, y in zip(tm._flat(d), tm._flat(to_nest(ip, a[0])))]))
    if name == "row":
        return fn(name, lambda ip, a, k: mk_matrix(ip, (d[idx(ip, a[0], c.shape[0])],)))
    if name == "col":
        return fn(name, lambda ip, a, k: mk_matrix(ip, tuple((r[idx(ip, a[0], c.shape[1])],) for r in d)))
    if name == "reshape":
        def rs(ip, a, k):
            s = [int(x.a[0]) for x in a]
            return ip.new(Sym(c.kind, renest(list(tm._flat(d)), s), tuple(s)))
        return fn(name, rs)
    if name in ("flat",):
        return fn(name, lambda ip, a, k: ip.new(Lst([("i", x) for x in tm._flat(d)])))
    if name == "multiply_elementwise":
        def me(ip, a, k):
            o = to_nest(ip, a[0])
            return ip.new(Sym(c.kind, tuple(tuple(tm.mul(x, y) for x, y in zip(r, s)) for r, s in zip(d, o)), c.shape))
        return fn(name, me)
    ip.bm.no_attr(ip, "matrix", name)


# ------------------------------------------------------------------ expressions

def term_attr(ip, t, name):
    if not (t.op == "c" or has_sp(t)):
        return NOTIMPL
    if name in ("subs", "xreplace", "replace"):
        return fn(name, lambda ip, a, k: subs(ip, t, a, k))
    if name == "diff":
        return fn(name, lambda ip, a, k: diff(ip, [t] + a))
    if name in ("simplify", "expand", "evalf", "factor", "doit", "n", "cancel", "together", "nsimplify", "collect", "rewrite", "powsimp"):
        return fn(name, lambda ip, a, k: t)
    if name == "integrate":
        return fn(name, lambda ip, a, k: integrate(ip, [t] + a, k))
    if name == "free_symbols":
        return ip.new(St([("add", v) for v in t.vars if is_spsym(v)]))
    if name == "name" and is_spsym(t):
        return t.a[0][3:]
    return NOTIMPL


def subs(ip, t, a, k):
    if k.get("simultaneous") is TRUE:
        mp = {}
        for x, y in pairs(ip, a):
            mp[x] = y
        return tm.subst(t, mp)
    for x, y in pairs(ip, a):
        if not isinstance(x, T):
            raise Unsupported("substitution")
        t = tm.subst(t, {x: y})
    return t


def pairs(ip, a):
    if len(a) >= 2:
        return [(a[0], num(ip, a[1]))]
    v = ip.vsimp(a[0])
    if isinstance(v, Ref) and isinstance(ip.get(v), Dct):
        items = ip.concrete(ct.dict_items(ip, ip.get(v)))
        # sympy orders dictionary replacements by complexity; for plain symbols the order is by name
        out = [(x, num(ip, y)) for x, y in items]
        targets = {x for x, _ in out}
        if any(x is not y and (targets & set(y.vars)) for x, y in out):
            raise Unsupported("chained dictionary substitution")
        return out
    return [(x, num(ip, y)) for x, y in (ip.items(p) for p in ip.items(v))]


def diff(ip, a):
    t = num(ip, a[0])
    i = 1
    while i < len(a):
        x = ip.vsimp(a[i])
        n = 1
        if isinstance(x, tuple):
            x, n = x[0], int(x[1].a[0])
        elif isinstance(x, Ref):
            raise Unsupported("derivative with respect to a container")
        elif i + 1 < len(a) and isinstance(a[i + 1], T) and a[i + 1].op == "c":
            n = int(a[i + 1].a[0])
            i += 1
        if not is_spsym(x):
            ip.raise_("ValueError", "can't calculate derivative with respect to this")
        for _ in range(n):
            t = tm.diff(t, x)
        i += 1
    return t


def sp_diff(ip, a, k):
    v = ip.vsimp(a[0])
    if isinstance(v, Ref) and isinstance(ip.get(v), Sym):
        return map_sym(ip, v, ip.get(v), lambda x: diff(ip, [x] + a[1:]))
    if isinstance(v, Ref):
        raise Unsupported("derivative of a container")
    return diff(ip, a)


def integrate(ip, a, k):
    t = num(ip, a[0])
    for spec in a[1:]:
        spec = ip.vsimp(spec)
        if isinstance(spec, tuple) and len(spec) == 3:
            x, lo, hi = spec
            d = tm.sym(tm.fresh_name("sp:int"))
            t = tm.integral(d, tm.subst(t, {x: d}), num(ip, lo), num(ip, hi))
        elif isinstance(spec, T):
            F = tm._antider(spec, t)
            if F is None:
                raise Unsupported("indefinite integral")
            t = F
        else:
            raise Unsupported("integration bounds")
    return t


def sp_symbols(ip, a, k):
    v = a[0]
    if isinstance(v, str):
        out = []
        names = v.replace(",", " ").split()
        for n in names:
            if ":" in n:
                import re
                m = re.fullmatch(r"(.*?)(\d*):(\d+)", n)
                if not m:
                    raise Unsupported("symbol range")
                base, lo, hi = m.group(1), int(m.group(2) or 0), int(m.group(3))
                out += [f"{base}{j}" for j in range(lo, hi)]
            else:
                out.append(n)
        r = [sp_sym(n, k) for n in out]
        return r[0] if len(r) == 1 and "," not in v and ":" not in v else tuple(r)
    return tuple(sp_sym(n, k) for n in ip.items(v))


FNAMES = ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "min", "max")


def used_functions(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    out = set()
    if t.op == "f":
        out.add(t.a[0])
    elif t.op in ("exp", "log"):
        out.add(t.op)
    if t.op == "*":
        for f in t.a[1]:
            e = f[1] if isinstance(f, tuple) and len(f) > 1 else None
            if isinstance(e, Fraction) and e.denominator == 2:
                out.add("sqrt")
    for c in tm.children(t):
        out |= used_functions(c, seen)
    return out


def lambdify(ip, a, k):
    names = ip.vsimp(a[0])
    expr = ip.vsimp(a[1])
    modules = k.get("modules", a[2] if len(a) > 2 else None)
    if isinstance(names, T):
        names = (names,)
    else:
        names = tuple(ip.items(names))

    def flat_names(v):
        v = ip.vsimp(v)
        if isinstance(v, T):
            return v
        return tuple(flat_names(x) for x in ip.items(v))
    shape = [flat_names(x) for x in names]
    mapped = {}
    default = False
    if modules is None:
        default = True
    else:
        m = ip.vsimp(modules)
        ms = [m]
        if isinstance(m, Ref) and isinstance(ip.get(m), Lst) or isinstance(m, tuple):
            ms = ip.items(m)
        for x in ms:
            x = ip.vsimp(x)
            if isinstance(x, Ref) and isinstance(ip.get(x), Dct):
                for n, v in ip.concrete(ct.dict_items(ip, ip.get(x))):
                    mapped.setdefault(n, v)
            else:
                default = True
    if isinstance(expr, Ref) and isinstance(ip.get(expr), Sym):
        c = ip.get(expr)
        data, kind = c.data, "arr"
    elif isinstance(expr, Ref) or isinstance(expr, tuple):
        kind = "tuple" if isinstance(expr, tuple) else "list"
        data = to_nest(ip, expr)
    else:
        data, kind = num(ip, expr), "num"
    fns = set()
    for x in (tm._flat(data) if isinstance(data, tuple) else [data]):
        fns |= used_functions(x)
    unmapped = {f for f in fns if f not in mapped}

    def call(ip, args, kw):
        if kw:
            raise Unsupported("keyword arguments of a compiled expression")
        if len(args) != len(shape):
            ip.raise_("TypeError", "wrong number of arguments")
        mp = {}

        def bind(s, v):
            if isinstance(s, tuple):
                vs = ip.items(v)
                if len(vs) != len(s):
                    ip.raise_("ValueError", "unpack")
                for p, q in zip(s, vs):
                    bind(p, q)
                return
            v = ip.vsimp(v)
            if isinstance(v, Ref):
                cc = ip.get(v)
                from . import lib_pyomo
                t = lib_pyomo.as_term(ip, v, cc)
                if t is None:
                    raise Unsupported("compiled expression over a container")
                v = t
            if isinstance(v, IteV):
                v = ct.to_num(ip, v)
            if not isinstance(v, T):
                ip.raise_("TypeError", "bad operand")
            mp[s] = tm.b2i(v) if v.isbool else v
        for s, v in zip(shape, args):
            bind(s, v)
        if unmapped:
            if not default:
                ip.raise_("NameError", sorted(unmapped)[0])
            from . import lib_pyomo
            if any(lib_pyomo.has_cell(v) for v in mp.values()):
                ip.raise_("TypeError", "loop of ufunc does not support argument")
        # both gated sides of an argument stay gated in the result
        ev = lambda x: tm.subst(x, mp)
        if kind == "num":
            return ev(data)
        out = nest_map(data, ev)
        if kind == "arr":
            def tree(d):
                return ("const", tuple(tree(x) for x in d)) if isinstance(d, tuple) else d
            return ip.new(Arr(tree(out)))

        def lst(x):
            return ip.new(Lst([("i", lst(y)) for y in x])) if isinstance(x, tuple) else x
        if kind == "tuple":
            return tuple(lst(x) for x in out)
        return lst(out)
    for n, v in mapped.items():
        want = {"exp": "exp", "log": "log", "sqrt": "sqrt", "ln": "log"}.get(n)
        ok = isinstance(v, BuiltinV) and (v.name == want or v.name == "math") or want is None
        if not ok and want in fns:
            return remap(ip, call, mapped, data, kind, shape)
    return fn("lambdified", call)


def remap(ip, call, mapped, data, kind, shape):
    raise Unsupported("compiled expression with replaced functions")


def m1(f):
    def g(ip, a, k):
        v = ip.vsimp(a[0])
        if isinstance(v, Ref) and isinstance(ip.get(v), Sym):
            raise Unsupported("function of a matrix")
        return f(num(ip, v))
    return g


def ident(ip, a, k):
    v = ip.vsimp(a[0])
    return v


FUNCS = {
    "symbols": sp_symbols, "Symbol": lambda ip, a, k: sp_sym(a[0], k), "Dummy": lambda ip, a, k: tm.sym(tm.fresh_name("sp:dummy")),
    "Matrix": sp_matrix, "ImmutableMatrix": sp_matrix, "Array": sp_array, "ImmutableDenseNDimArray": sp_array,
    "diff": sp_diff, "integrate": integrate, "lambdify": lambdify,
    "exp": m1(tm.exp), "log": m1(tm.log), "ln": m1(tm.log), "sqrt": m1(tm.sqrt), "Abs": m1(tm.absv),
    **{n: m1(lambda t, n=n: tm.fun(n, t)) for n in ("sin", "cos", "tan", "sinh", "cosh", "tanh")},
    "Rational": lambda ip, a, k: ip.arith("truediv", a[0], a[1]) if len(a) > 1 else sp_number(ip, a[0]),
    "Integer": ident, "Float": ident, "sympify": ident, "S": ident, "nsimplify": ident,
    "simplify": ident, "expand": ident, "factor": ident, "cancel": ident, "together": ident, "powsimp": ident, "trigsimp": ident, "collect": ident,
    "Max": lambda ip, a, k: tm.minmax("max", [num(ip, x) for x in a]), "Min": lambda ip, a, k: tm.minmax("min", [num(ip, x) for x in a]),
    "eye": lambda ip, a, k: mk_matrix(ip, tuple(tuple(ONE if i == j else ZERO for j in range(int(a[0].a[0]))) for i in range(int(a[0].a[0])))),
    "zeros": lambda ip, a, k: mk_matrix(ip, tuple(tuple(ZERO for _ in range(int(a[-1].a[0]))) for _ in range(int(a[0].a[0])))),
    "ones": lambda ip, a, k: mk_matrix(ip, tuple(tuple(ONE for _ in range(int(a[-1].a[0]))) for _ in range(int(a[0].a[0])))),
    "det": lambda ip, a, k: det(ip.get(a[0]).data), "trace": lambda ip, a, k: tm.add(*[ip.get(a[0]).data[i][i] for i in range(len(ip.get(a[0]).data))]),
    "transpose": lambda ip, a, k: mk_matrix(ip, transpose(ip.get(a[0]).data)),
    "diag": lambda ip, a, k: mk_matrix(ip, tuple(tuple(num(ip, a[i]) if i == j else ZERO for j in range(len(a))) for i in range(len(a)))),
    "derive_by_array": lambda ip, a, k: (_ for _ in ()).throw(Unsupported("derive_by_array")),
    "hessian": lambda ip, a, k: hessian(ip, a),
}


def hessian(ip, a):
    xs = ip.items(a[1])
    return mk_matrix(ip, tuple(tuple(diff(ip, [a[0], x, y]) for y in xs) for x in xs))


def sp_number(ip, v):
    if isinstance(v, str):
        return tm.const(Fraction(v))
    return v


def module_attr(ip, m, name):
    if m.name == "sympy":
        if name in FUNCS:
            f = FUNCS[name]
            if name == "S":
                return ExtV("sympy.S", {"call": ident, "Half": tm.HALF, "One": ONE, "Zero": ZERO})
            return ExtV("sympy." + name, {"call": f})
        if name == "pi":
            from . import lib_std
            return lib_std.STD["math"]["pi"]
        if name == "E":
            return tm.exp(ONE)
        if name == "oo":
            return tm.INF
    return ExtV(m.name + "." + name)
