"""Models of the standard library modules and of small third-party ones."""
from __future__ import annotations
import math
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from . import containers as ct
from . import builtin_models as bm
from .engine import MISS

IMPURE = {"random", "secrets", "time", "os", "uuid", "datetime", "subprocess", "threading", "multiprocessing",
          "socket", "tempfile", "shutil", "pathlib", "sys", "gc", "io", "inspect", "signal"}
PURE = {"math", "cmath", "statistics", "scipy", "numpy"}
PACKAGES = {"numpy", "matplotlib", "scipy", "collections", "pyomo", "sympy"}


def fn(name, f):
    return BuiltinV(name, f)


def lib_module(ip, name):
    top = name.split(".")[0]
    if "." in name:
        ip.module(top)
    kind = "std"
    if name == "pyomo.environ":
        kind = "pyomo"
    elif top == "pyomo":
        kind = "pyomo"
    elif name == "numpy.polynomial.legendre":
        kind = "legendre"
    elif name in ("numpy.linalg",):
        kind = "linalg"
    elif name == "numpy.typing":
        kind = "opaque"
    elif top == "numpy":
        kind = "numpy"
    elif top == "sympy":
        kind = "sympy"
    elif top in ("matplotlib",):
        kind = "opaque"
    return ModuleV(name, None, kind)


def lib_attr(ip, m, name):
    key = (m.name, name)
    if key in ip.libs:
        return ip.libs[key]
    v = _lib_attr(ip, m, name)
    ip.libs[key] = v
    return v


def _lib_attr(ip, m, name):
    if m.lib == "pyomo":
        from . import lib_pyomo
        return lib_pyomo.module_attr(ip, m, name)
    if m.lib in ("numpy", "linalg", "legendre"):
        from . import lib_numpy
        return lib_numpy.module_attr(ip, m, name)
    if m.lib == "sympy":
        from . import lib_sympy
        return lib_sympy.module_attr(ip, m, name)
    if m.lib == "opaque":
        if m.name == "matplotlib" and name in ("pyplot", "animation", "patches", "axes", "figure", "collections", "cm", "colors"):
            return ip.module("matplotlib." + name)
        if (m.name, name) == ("matplotlib.pyplot", "subplots"):
            return fn("subplots", plt_subplots)
        if (m.name, name) == ("matplotlib.pyplot", "figure"):
            return fn("figure", plt_figure)
        return ExtV(m.name + "." + name)
    d = STD.get(m.name)
    if d is not None:
        if name in d:
            v = d[name]
            return v(ip) if isinstance(v, Lazy) else v
        if m.name in ("math",):
            ip.raise_("AttributeError", name)
    if m.name == "abc" and name == "ABC":
        return ip.object_class
    if m.name == "collections" and name == "abc":
        return ip.module("collections.abc")
    if m.name in ("typing", "typing_extensions", "collections.abc", "types", "numbers", "__future__"):
        if name == "Protocol":
            return ip.object_class
        if name == "NamedTuple":
            return namedtuple_base(ip)
        if name == "cast":
            return fn("cast", lambda ip, a, k: a[1])
        if name in ("TypeVar", "NewType", "ParamSpec"):
            return fn(name, lambda ip, a, k: ExtV("typing.TypeVar"))
        if name in ("override", "final", "no_type_check", "runtime_checkable", "overload"):
            return fn(name, lambda ip, a, k: a[0])
        if name == "TYPE_CHECKING":
            return FALSE
        if m.name == "numbers":
            return bm.type_class(ip, "numbers." + name) if False else ExtV("numbers." + name)
        return ExtV("typing." + name)
    if m.name == "enum":
        return enum_attr(ip, name)
    return ExtV(m.name + "." + name)


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self, ip):
        return self.f(ip)


def namedtuple_base(ip):
    c = ClassV("NamedTuple", [ip.object_class], ip.new(Scp({}, None, "class")), "typing")
    return c


def enum_attr(ip, name):
    if name in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"):
        return ClassV("Enum", [ip.object_class], ip.new(Scp({}, None, "class")), "enum")
    if name == "auto":
        n = [0]

        def auto(ip, a, k):
            n[0] += 1
            return tm.const(n[0])
        return fn("auto", auto)
    if name == "unique":
        return fn("unique", lambda ip, a, k: a[0])
    return ExtV("enum." + name)


# ------------------------------------------------------------------ itertools

def need(ip, v):
    x = ip.items(v)
    if x is None:
        raise Unsupported("itertools over a sequence of unknown length")
    return x


def mk(ip, vals):
    return ip.new(Itr([("i", v) for v in vals]))


def cint(v):
    if isinstance(v, T) and v.op == "c":
        return int(v.a[0])
    raise Unsupported("symbolic count")


def it_permutations(ip, a, k):
    import itertools
    r = k.get("r", a[1] if len(a) > 1 else None)
    return mk(ip, list(itertools.permutations(need(ip, a[0]), None if r is None else cint(r))))


def it_combinations(ip, a, k):
    import itertools
    return mk(ip, list(itertools.combinations(need(ip, a[0]), cint(k.get("r", a[1] if len(a) > 1 else None)))))


def it_cwr(ip, a, k):
    import itertools
    return mk(ip, list(itertools.combinations_with_replacement(need(ip, a[0]), cint(k.get("r", a[1] if len(a) > 1 else None)))))


def it_product(ip, a, k):
    rep = cint(k["repeat"]) if "repeat" in k else 1
    return ip.new(Itr(it_product_pieces(ip, [tuple(ip.iter(x)) for x in a] * rep)))


def it_product_pieces(ip, lists):

    def nest(i, acc):
        if i == len(lists):
            return (("i", tuple(acc)),)
        return go(lists[i], i, acc)

    def go(pieces, i, acc):
        out = []
        for p in pieces:
            if p[0] == "i":
                out.extend(nest(i + 1, acc + [p[1]]))
            elif p[0] == "c":
                out.append(("c", p[1], go(p[2], i, acc), go(p[3], i, acc)))
            elif p[0] == "g":
                b, n, sub = p[1], p[2], p[3]
                if i:
                    b2 = tm.fresh("b", True, ZERO, tm.sub(n, ONE))
                    ip.stamps[b2] = ip.stamps.get(b, Ref._n)
                    sub = ip.psubst(sub, {b: b2})
                    b = b2
                out.append(("g", b, n, go(sub, i, acc)))
            else:
                raise Unsupported("product of an opaque sequence")
        return tuple(out)
    return nest(0, [])


def it_chain(ip, a, k):
    out = ()
    for x in a:
        out += tuple(ip.iter(x))
    return ip.new(Itr(out))


def it_from_iterable(ip, a, k):
    def go(pieces):
        out = []
        for p in pieces:
            if p[0] == "i":
                out.extend(ip.iter(p[1]))
            elif p[0] == "c":
                out.append(("c", p[1], go(p[2]), go(p[3])))
            elif p[0] == "g":
                out.append(("g", p[1], p[2], go(p[3])))
            else:
                raise Unsupported("chain of an opaque sequence")
        return tuple(out)
    return ip.new(Itr(go(ip.iter(a[0]))))


def it_accumulate(ip, a, k):
    xs = need(ip, a[0])
    f = k.get("func", a[1] if len(a) > 1 else None)
    init = k.get("initial")
    out = []
    acc = init
    if init is not None:
        out.append(init)
    for x in xs:
        if acc is None and not out:
            acc = x
        else:
            acc = ip.call(f, [acc, x], {}) if f is not None else ip.binop("add", acc, x)
        out.append(acc)
    return mk(ip, out)


def it_islice(ip, a, k):
    args = a[1:]
    if len(args) == 1:
        sl = SliceV(None, args[0], None)
    else:
        sl = SliceV(args[0], args[1], args[2] if len(args) > 2 else None)
    if sl.lo is None and isinstance(sl.lo, type(None)):
        pass
    return ip.new(Itr(ct.slice_pieces(ip, tuple(ip.iter(a[0])), sl)))


def it_repeat(ip, a, k):
    t = k.get("times", a[1] if len(a) > 1 else None)
    if t is None:
        return ExtV("itertools.repeat", {"value": a[0]})
    if t.op == "c":
        return mk(ip, [a[0]] * max(0, int(t.a[0])))
    b = tm.fresh("b", True, ZERO, tm.sub(t, ONE))
    ip.stamps[b] = Ref._n
    return ip.new(Itr((("g", b, tm.minmax("max", [ZERO, t]), (("i", a[0]),)),)))


def it_pairwise(ip, a, k):
    p = tuple(ip.iter(a[0]))
    q = ct.slice_pieces(ip, p, SliceV(ONE, None, None))
    return ip.new(Itr(ct.zip_pieces(ip, [p, q])))


def it_starmap(ip, a, k):
    return ip.new(Itr(ct.map_values(ip, tuple(ip.iter(a[1])), lambda t: ip.call(a[0], need(ip, t), {}))))


def it_zip_longest(ip, a, k):
    xs = [need(ip, x) for x in a]
    fv = k.get("fillvalue")
    n = max(map(len, xs), default=0)
    return mk(ip, [tuple(x[i] if i < len(x) else fv for x in xs) for i in range(n)])


def it_count(ip, a, k):
    return ExtV("itertools.count", {"start": k.get("start", a[0] if a else ZERO), "step": k.get("step", a[1] if len(a) > 1 else ONE)})


def it_tee(ip, a, k):
    p = tuple(ip.iter(a[0]))
    n = cint(a[1]) if len(a) > 1 else 2
    return tuple(ip.new(Itr(p)) for _ in range(n))


# ------------------------------------------------------------------ functools / operator

def f_partial(ip, a, k):
    return PartialV(a[0], tuple(a[1:]), dict(k))


def f_reduce(ip, a, k):
    p = tuple(ip.iter(a[1]))
    f = a[0]
    if ct.all_items(p) or ip.concrete(p) is not None:
        xs = ip.concrete(p)
        if len(a) > 2:
            acc = a[2]
        else:
            if not xs:
                ip.raise_("TypeError", "reduce() of empty iterable")
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = ip.call(f, [acc, x], {})
        return acc
    if isinstance(f, BuiltinV) and f.name in ("add", "mul") and len(a) > 2:
        return ct.fold_sum(ip, p, a[2], f.name)
    box = ip.new(Scp({"acc": a[2] if len(a) > 2 else UNDEF}, None))
    if len(a) <= 2:
        raise Unsupported("reduce without initial value over a symbolic sequence")

    def body(v):
        acc = ip.getvar(box, "acc")
        ip.setvar(box, "acc", ip.call(f, [acc, v], {}))
        return []
    ip.run_loop(p, body)
    return ip.getvar(box, "acc")


def f_cached_property(ip, a, k):
    return PropertyV(a[0], None, True)


def f_lru(ip, a, k):
    if a and isinstance(a[0], (FuncV, BuiltinV)):
        return bm.make_lru(ip, a[0])
    return fn("lru_cache", lambda ip, b, kk: bm.make_lru(ip, b[0]))


def f_wraps(ip, a, k):
    return fn("wraps", lambda ip, b, kk: b[0])


def f_total_ordering(ip, a, k):
    raise Unsupported("total_ordering")


def op2(name):
    return fn(name, lambda ip, a, k: ip.binop(name, a[0], a[1]))


def cmp2(name):
    return fn(name, lambda ip, a, k: ip.order(name, a[0], a[1]))


def op_itemgetter(ip, a, k):
    keys = list(a)
    if len(keys) == 1:
        return fn("itemgetter", lambda ip, b, kk: ip.getitem(b[0], keys[0]))
    return fn("itemgetter", lambda ip, b, kk: tuple(ip.getitem(b[0], x) for x in keys))


def op_attrgetter(ip, a, k):
    def get(o, path):
        for n in path.split("."):
            o = ip.getattr(o, n)
        return o
    keys = list(a)
    if len(keys) == 1:
        return fn("attrgetter", lambda ip, b, kk: get(b[0], keys[0]))
    return fn("attrgetter", lambda ip, b, kk: tuple(get(b[0], x) for x in keys))


def op_methodcaller(ip, a, k):
    return fn("methodcaller", lambda ip, b, kk: ip.call(ip.getattr(b[0], a[0]), a[1:], k))


# ------------------------------------------------------------------ math

def m1(f):
    def g(ip, a, k):
        return bm.num1(ip, a[0], f)
    return fn("math", g)


def m_fun(name):
    return m1(lambda t: tm.fun(name, t))


def m_sqrt(ip, a, k):
    def f(t):
        ip.check(tm.le(ZERO, t), "ValueError", "math domain error")
        return tm.sqrt(t)
    return bm.num1(ip, a[0], f)


def m_log(ip, a, k):
    def f(t):
        ip.check(tm.pos(t), "ValueError", "math domain error")
        return tm.log(t)
    r = bm.num1(ip, a[0], f)
    if len(a) > 1:
        r = ip.binop("truediv", r, bm.num1(ip, a[1], f))
    return r


def as_T(ip, v):
    t = ct.to_num(ip, v)
    if t is None:
        ip.raise_("TypeError", "must be real number")
    return t


def num(ip, v):
    return bm.num1(ip, v, lambda t: t)


def m_isclose(ip, a, k):
    x, y = num(ip, a[0]), num(ip, a[1])
    rel = k.get("rel_tol", tm.const(Fraction(1, 10**9)))
    ab = k.get("abs_tol", ZERO)
    d = tm.absv(tm.sub(x, y))
    lim = tm.minmax("max", [tm.mul(rel, tm.minmax("max", [tm.absv(x), tm.absv(y)])), ab])
    return tm.le(d, lim)


def m_hypot(ip, a, k):
    s = ZERO
    for x in a:
        x = num(ip, x)
        s = tm.add(s, tm.mul(x, x))
    return tm.sqrt(s)


def m_dist(ip, a, k):
    p, q = need(ip, a[0]), need(ip, a[1])
    if len(p) != len(q):
        ip.raise_("ValueError", "both points must have the same number of dimensions")
    return m_hypot(ip, [ip.binop("sub", x, y) for x, y in zip(p, q)], {})


def m_prod(ip, a, k):
    return ct.fold_sum(ip, tuple(ip.iter(a[0])), k.get("start", ONE), "mul")


def m_fsum(ip, a, k):
    return ct.fold_sum(ip, tuple(ip.iter(a[0])), ZERO, "add")


def m_pow(ip, a, k):
    return ip.binop("pow", num(ip, a[0]), num(ip, a[1]))


def m_gcd(ip, a, k):
    xs = [num(ip, x) for x in a]
    if all(x.op == "c" for x in xs):
        return tm.const(math.gcd(*[int(x.a[0]) for x in xs]))
    return tm.app("gcd", tuple(xs), isint=True)


def m_sumprod(ip, a, k):
    z = ct.zip_pieces(ip, [tuple(ip.iter(a[0])), tuple(ip.iter(a[1]))])
    return ct.fold_sum(ip, ct.map_values(ip, z, lambda t: ip.binop("mul", t[0], t[1])), ZERO, "add")


def frac(x):
    return tm.const(Fraction(repr(x)))


# ------------------------------------------------------------------ copy

def c_copy(ip, a, k):
    v = ip.vsimp(a[0])
    if isinstance(v, IteV):
        return ip.cond(v.c, lambda: c_copy(ip, [v.a], k), lambda: c_copy(ip, [v.b], k))
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__copy__")
            if f is not None:
                return ip.call_method(f, v, [], {})
            for n in c.attrs:
                ip.note_read(v, n)
        elif isinstance(c, (Model, Comp)):
            raise Unsupported("copy of a model")
        elif type(c) in LOGS:
            ip.note_log(v)
        return ip.new(c)
    return v


def deep(ip, v, memo):
    v = ip.vsimp(v)
    if isinstance(v, IteV):
        return ip.mk_ite(v.c, deep(ip, v.a, memo), deep(ip, v.b, memo))
    if isinstance(v, tuple):
        return tuple(deep(ip, x, memo) for x in v)
    if isinstance(v, BoundV):
        return BoundV(v.fn, deep(ip, v.self, memo))
    if isinstance(v, PartialV):
        return PartialV(v.fn, tuple(deep(ip, x, memo) for x in v.args), {n: deep(ip, x, memo) for n, x in v.kwargs.items()})
    if not isinstance(v, Ref):
        return v
    if v in memo:
        return memo[v]
    c = ip.get(v)
    if isinstance(c, Obj):
        f = ip.find(c.cls, "__deepcopy__")
        if f is not None:
            r = ip.call_method(f, v, [ip.new(Dct(()))], {})
            memo[v] = r
            return r
        r = ip.new(Obj(c.cls, {}))
        memo[v] = r
        for n in c.attrs:
            ip.note_read(v, n)
        ip.put(r, Obj(c.cls, {n: deep(ip, x, memo) for n, x in c.attrs.items()}))
        return r
    if isinstance(c, (Model, Comp, Box)):
        raise Unsupported("deep copy of a library object")
    if type(c) in LOGS:
        ip.note_log(v)
    if isinstance(c, Arr):
        from . import lib_numpy
        r = lib_numpy.copy_arr(ip, v)
        memo[v] = r
        return r
    if isinstance(c, (Lst, Itr)):
        r = ip.new(type(c)(()))
        memo[v] = r
        ip.put(r, type(c)(ct.map_values(ip, c.segs, lambda x: deep(ip, x, memo))))
        return r
    if isinstance(c, Dct):
        r = ip.new(Dct((), c.default))
        memo[v] = r

        def ents(es):
            out = []
            for e in es:
                if e[0] == "put":
                    out.append(("put", deep(ip, e[1], memo), deep(ip, e[2], memo)))
                elif e[0] == "del":
                    out.append(e)
                elif e[0] == "c":
                    out.append(("c", e[1], ents(e[2]), ents(e[3])))
                elif e[0] == "g":
                    out.append(("g", e[1], e[2], ents(e[3])))
                else:
                    raise Unsupported("deep copy")
            return tuple(out)
        ip.put(r, Dct(ents(c.log), c.default))
        return r
    if isinstance(c, St):
        r = ip.new(St(c.log, c.frozen))
        memo[v] = r
        return r
    r = ip.new(c)
    memo[v] = r
    return r


def c_deepcopy(ip, a, k):
    return deep(ip, a[0], {})


# ------------------------------------------------------------------ collections, dataclasses

def col_defaultdict(ip, a, k):
    r = ip.new(Dct((), a[0] if a else None))
    if len(a) > 1:
        bm.dict_update(ip, r, a[1])
    for n, v in k.items():
        ip.setitem(r, n, v)
    return r


def col_ordered(ip, a, k):
    return bm.c_dict(ip, a, k)


def col_deque(ip, a, k):
    if len(a) > 1 and a[1] is not None or k.get("maxlen") is not None:
        raise Unsupported("bounded deque")
    return ip.new(Lst(tuple(ip.iter(a[0])) if a else ()))


def col_counter(ip, a, k):
    xs = need(ip, a[0]) if a else []
    r = ip.new(Dct((), fn("zero", lambda ip, b, kk: ZERO)))
    for x in xs:
        ip.setitem(r, x, tm.add(ip.getitem(r, x), ONE))
    return r


def col_namedtuple(ip, a, k):
    name = a[0]
    f = a[1]
    if isinstance(f, str):
        names = f.replace(",", " ").split()
    else:
        names = need(ip, f)
    d = need(ip, k["defaults"]) if "defaults" in k else []
    c = ClassV(name, [ip.object_class], ip.new(Scp({}, None, "class")), "collections")
    n = len(names)
    bm.make_namedtuple(ip, c, names, dict(zip(names[n - len(d):], d)))
    return c


def dc_dataclass(ip, a, k):
    if a:
        return bm.make_dataclass(ip, a[0], k)
    return fn("dataclass", lambda ip, b, kk: bm.make_dataclass(ip, b[0], k))


def dc_field(ip, a, k):
    return ExtV("dataclasses.field", dict(k))


def dc_replace(ip, a, k):
    o = ip.vsimp(a[0])
    c = ip.get(o)
    fields = [f[0] if isinstance(f, tuple) else f for f in bm.dataclass_fields(ip, c.cls)]
    kw = {}
    for f in fields:
        n = f[0] if isinstance(f, tuple) else f
        kw[n] = k[n] if n in k else ip.getattr(o, n)
    for n in k:
        if n not in kw:
            ip.raise_("TypeError", "unexpected field")
    return ip.call(c.cls, [], kw)


def field_names(ip, cls):
    return [f[0] if isinstance(f, tuple) else f for f in bm.dataclass_fields(ip, cls)]


def dc_conv(ip, v, mkd):
    v = ip.vsimp(v)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj) and any(x.dataclass for x in c.cls.mro):
            items = [(n, dc_conv(ip, ip.getattr(v, n), mkd)) for n in field_names(ip, c.cls)]
            return mkd(items)
        return deep(ip, v, {})
    if isinstance(v, tuple):
        return tuple(dc_conv(ip, x, mkd) for x in v)
    return v


def dc_asdict(ip, a, k):
    def mkd(items):
        d = ip.new(Dct(()))
        for n, v in items:
            ip.setitem(d, n, v)
        return d
    return dc_conv(ip, a[0], mkd)


def dc_astuple(ip, a, k):
    return dc_conv(ip, a[0], lambda items: tuple(v for _, v in items))


def dc_fields(ip, a, k):
    v = ip.vsimp(a[0])
    cls = v if isinstance(v, ClassV) else ip.get(v).cls
    return tuple(ExtV("dataclasses.Field", {"name": n}) for n in field_names(ip, cls))


def abc_abstract(ip, a, k):
    f = a[0]
    if isinstance(f, FuncV):
        f.attrs["abstract"] = True
    elif isinstance(f, PropertyV) and isinstance(f.fget, FuncV):
        f.fget.attrs["abstract"] = True
    return f


def tqdm_(ip, a, k):
    bm.event(ip, "ext", ("tqdm", (), (), None))
    return a[0] if a else k.get("iterable")


def trange(ip, a, k):
    return bm.c_range(ip, a, {})


def suppress(ip, a, k):
    return ExtV("contextlib.suppress()", {"args": tuple(a)})


STD = {
    "itertools": {
        "permutations": fn("permutations", it_permutations), "product": fn("product", it_product),
        "combinations": fn("combinations", it_combinations), "chain": None,
        "combinations_with_replacement": fn("cwr", it_cwr),
        "accumulate": fn("accumulate", it_accumulate), "islice": fn("islice", it_islice),
        "repeat": fn("repeat", it_repeat), "pairwise": fn("pairwise", it_pairwise),
        "starmap": fn("starmap", it_starmap), "zip_longest": fn("zip_longest", it_zip_longest),
        "count": fn("count", it_count), "tee": fn("tee", it_tee),
    },
    "functools": {
        "partial": fn("partial", f_partial), "reduce": fn("reduce", f_reduce),
        "cached_property": fn("cached_property", f_cached_property),
        "lru_cache": fn("lru_cache", f_lru), "cache": fn("cache", f_lru), "wraps": fn("wraps", f_wraps),
        "total_ordering": fn("total_ordering", f_total_ordering),
    },
    "operator": {
        **{n: op2(n) for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul")},
        **{n: cmp2(n) for n in ("lt", "le", "gt", "ge")},
        "eq": fn("eq", lambda ip, a, k: ip.eq_op(a[0], a[1])),
        "ne": fn("ne", lambda ip, a, k: tm.bnot(ip.truth(ip.eq_op(a[0], a[1])))),
        "neg": fn("neg", lambda ip, a, k: ip.unary("neg", a[0])),
        "abs": fn("abs", lambda ip, a, k: bm.b_abs(ip, a, k)),
        "not_": fn("not_", lambda ip, a, k: tm.bnot(ip.truth(a[0]))),
        "is_": fn("is_", lambda ip, a, k: ip.is_(a[0], a[1])),
        "getitem": fn("getitem", lambda ip, a, k: ip.getitem(a[0], a[1])),
        "contains": fn("contains", lambda ip, a, k: ip.contains(a[0], a[1])),
        "itemgetter": fn("itemgetter", op_itemgetter), "attrgetter": fn("attrgetter", op_attrgetter),
        "methodcaller": fn("methodcaller", op_methodcaller),
        "or_": op2("or"), "and_": op2("and"), "xor": op2("xor"),
        "setitem": fn("setitem", lambda ip, a, k: ip.setitem(a[0], a[1], a[2])),
    },
    "math": {
        "sqrt": fn("sqrt", m_sqrt), "exp": m1(tm.exp), "log": fn("log", m_log),
        "fabs": m1(tm.absv), "floor": m_fun("floor"), "ceil": m_fun("ceil"), "trunc": m_fun("trunc"),
        **{n: m_fun(n) for n in ("sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "erf", "expm1", "log1p", "radians", "degrees")},
        "atan2": fn("atan2", lambda ip, a, k: tm.app("atan2", (num(ip, a[0]), num(ip, a[1])))),
        "pow": fn("pow", m_pow), "hypot": fn("hypot", m_hypot), "dist": fn("dist", m_dist),
        "isclose": fn("isclose", m_isclose), "prod": fn("prod", m_prod), "fsum": fn("fsum", m_fsum),
        "sumprod": fn("sumprod", m_sumprod),
        "gcd": fn("gcd", m_gcd),
        "isfinite": fn("isfinite", lambda ip, a, k: TRUE), "isnan": fn("isnan", lambda ip, a, k: FALSE),
        "isinf": fn("isinf", lambda ip, a, k: FALSE),
        "pi": tm.sym("math.pi", False, None, None, True), "e": frac(math.e), "tau": tm.mul(tm.TWO, tm.sym("math.pi", False, None, None, True)),
        "inf": tm.INF, "nan": ExtV("math.nan"),
    },
    "copy": {"copy": fn("copy", c_copy), "deepcopy": fn("deepcopy", c_deepcopy)},
    "collections": {
        "defaultdict": fn("defaultdict", col_defaultdict), "OrderedDict": fn("OrderedDict", col_ordered),
        "deque": fn("deque", col_deque), "Counter": fn("Counter", col_counter),
        "namedtuple": fn("namedtuple", col_namedtuple),
    },
    "dataclasses": {
        "dataclass": fn("dataclass", dc_dataclass), "field": fn("field", dc_field), "replace": fn("replace", dc_replace),
        "asdict": fn("asdict", dc_asdict), "astuple": fn("astuple", dc_astuple), "fields": fn("fields", dc_fields),
    },
    "abc": {"abstractmethod": fn("abstractmethod", abc_abstract), "ABCMeta": ExtV("abc.ABCMeta")},
    "contextlib": {"suppress": ExtV("contextlib.suppress")},
    "tqdm": {"tqdm": fn("tqdm", tqdm_), "trange": fn("trange", trange)},
}
STD["itertools"]["chain"] = ExtV("itertools.chain", {"call": it_chain, "from_iterable": fn("from_iterable", it_from_iterable)})
STD["tqdm.auto"] = STD["tqdm"]


# ------------------------------------------------------------------ matplotlib

def plt_subplots(ip, a, k):
    bm.event(ip, "ext", ("matplotlib.pyplot.subplots", tuple(a), tuple(k.items()), None))
    f, x = ExtV("fig"), ExtV("ax")
    return (f, x)


def plt_figure(ip, a, k):
    bm.event(ip, "ext", ("matplotlib.pyplot.figure", tuple(a), tuple(k.items()), None))
    return ExtV("fig")
