"""Models of the Python builtins and dispatch to the library models."""
from __future__ import annotations
import builtins as _py
import functools
import json
import pathlib
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from .engine import MISS, DEAD, SubstV
from .containers import *  # noqa: F403
from . import containers as ct
from .containers import iterate, length, str_join, str_key, str_eq, to_str  # noqa: F401


def float_const(v):
    if v != v:
        return tm.sym("nan")
    if v in (float("inf"), float("-inf")):
        return tm.INF if v > 0 else tm.NINF
    return tm.const(Fraction(repr(v)))


EXC_PARENTS = {
    "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "LookupError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "ValueError": "Exception", "TypeError": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "AttributeError": "Exception", "AssertionError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "UnicodeError": "ValueError", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "PermissionError": "OSError", "EOFError": "Exception", "MemoryError": "Exception",
    "FrozenInstanceError": "AttributeError", "TimeoutError": "OSError", "BufferError": "Exception",
    "GeneratorExit": "BaseException", "FutureWarning": "Warning",
}


def exc_class(ip, name):
    c = ip.exc_classes.get(name)
    if c is None:
        if name == "BaseException":
            c = ClassV(name, [ip.object_class], {}, "builtins", builtin=None)
        else:
            parent = exc_class(ip, EXC_PARENTS.get(name, "Exception"))
            c = ClassV(name, [parent], {}, "builtins", builtin=None)
        ip.exc_classes[name] = c
    return c


def is_exception(cls):
    return any(k.name == "BaseException" for k in cls.mro)


TYPE_NAMES = ["int", "float", "complex", "bool", "str", "bytes", "list", "tuple", "dict", "set", "frozenset",
              "range", "slice", "type", "enumerate", "zip", "map", "filter", "reversed", "NoneType",
              "function", "ndarray", "Number", "Integral", "Real"]


def type_class(ip, name):
    c = ip.type_classes.get(name)
    if c is None:
        if name == "object":
            return ip.object_class
        bases = [ip.object_class]
        if name == "bool":
            bases = [type_class(ip, "int")]
        c = ip.type_classes[name] = ClassV(name, bases, {}, "builtins", builtin=name)
    return c


def B(name):
    """decorator registering a builtin function"""
    def deco(fn):
        REG[name] = fn
        return fn
    return deco


REG: dict = {}


def install(ip):
    for name in dir(_py):
        o = getattr(_py, name)
        if isinstance(o, type) and issubclass(o, BaseException):
            ip.builtins[name] = exc_class(ip, name)
    for n in ("int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "range", "slice", "type",
              "complex", "bytes"):
        ip.builtins[n] = type_class(ip, n)
    ip.builtins["object"] = ip.object_class
    for n, fn in REG.items():
        ip.builtins[n] = BuiltinV(n, fn)
    ip.builtins["NotImplemented"] = NOTIMPL
    ip.builtins["Ellipsis"] = ELLIPSIS
    ip.builtins["__name__"] = "module"
    ip.builtins["__debug__"] = TRUE
    ip.builtins["super"] = BuiltinV("super", b_super)
    for n in ("locals", "globals", "vars", "eval", "exec"):
        ip.builtins[n] = BuiltinV(n, unsupported(n))


def unsupported(n):
    def f(ip, args, kw):
        raise Unsupported(n)
    return f


def b_super(ip, args, kw):
    if len(args) == 2:
        return SuperV(args[0], args[1])
    raise Unsupported("super()")


def opt(ip, args, kw, names, defaults):
    """positional/keyword binding for builtins"""
    out = list(args) + [UNDEF] * (len(names) - len(args))
    for k, v in kw.items():
        if k not in names:
            ip.raise_("TypeError", f"unexpected keyword argument {k}")
        out[names.index(k)] = v
    for i, d in enumerate(defaults):
        j = len(names) - len(defaults) + i
        if out[j] is UNDEF:
            out[j] = d
    if len(out) > len(names) or any(o is UNDEF for o in out):
        ip.raise_("TypeError", "wrong arguments")
    return out


# ------------------------------------------------------------------ builtin functions

@B("len")
def b_len(ip, args, kw):
    return ip.len(args[0])


@B("print")
def b_print(ip, args, kw):
    event(ip, "print", tuple(args))
    return None


@B("abs")
def b_abs(ip, args, kw):
    return num1(ip, args[0], tm.absv, "__abs__")


def num1(ip, v, f, dunder=None):
    v = ip.vsimp(v)
    if isinstance(v, IteV):
        return ip.cond(v.c, lambda: num1(ip, v.a, f, dunder), lambda: num1(ip, v.b, f, dunder))
    if isinstance(v, T):
        return f(tm.b2i(v) if v.isbool else v)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            if dunder:
                m = ip.find(c.cls, dunder)
                if m is not None:
                    return ip.call_method(m, v, [], {})
            ip.raise_("TypeError", "bad operand")
        r = lib_map(ip, v, c, f)
        if r is not NOTIMPL:
            return r
    if isinstance(v, ExtV):
        return ext_op(ip, "fn", [v])
    ip.raise_("TypeError", "a number is required")


@B("sum")
def b_sum(ip, args, kw):
    it, start = opt(ip, args, kw, ["iterable", "start"], [ZERO])
    return ct.fold_sum(ip, ip.iter(it), start)


def _minmax(kind):
    def f(ip, args, kw):
        key = kw.get("key")
        if len(args) == 1:
            pieces = ip.iter(args[0])
        else:
            pieces = tuple(("i", a) for a in args)
        if key is not None:
            items = ip.concrete(pieces)
            if not items:
                raise Unsupported("extremum with key over a family")
            best, bk = items[0], ip.call(key, [items[0]], {})
            for x in items[1:]:
                k = ip.call(key, [x], {})
                c = ip.truth(ip.order("lt" if kind == "min" else "gt", k, bk))
                best, bk = ip.mk_ite(c, x, best), ip.mk_ite(c, k, bk)
            return best
        if not pieces:
            if "default" in kw:
                return kw["default"]
            ip.raise_("ValueError", f"{kind}() arg is an empty sequence")
        flat = [ip.vsimp(p[1]) for p in pieces if p[0] == "i"]
        if len(flat) == len(pieces) and any(not isinstance(x, T) for x in flat):
            if all(isinstance(x, (T, IteV)) for x in flat):
                return ct.fold_ext(ip, pieces, kind)
            if any(isinstance(x, ExtV) for x in flat):
                return ext_op(ip, kind, flat)
            best = flat[0]
            for x in flat[1:]:
                c = ip.truth(ip.order("lt" if kind == "min" else "gt", x, best))
                best = ip.mk_ite(c, x, best)
            return best
        empty = ip.simp(tm.bnot(tm.pos(ip.plen(pieces))))
        if empty is not FALSE and "default" not in kw:
            ip.check(tm.bnot(empty), "ValueError", f"{kind}() arg is an empty sequence")
        r = ct.fold_ext(ip, pieces, kind)
        if "default" in kw:
            if r is None:
                return kw["default"]
            if empty is not FALSE:
                return ip.mk_ite(empty, kw["default"], r)
        return r
    return f


REG["min"] = _minmax("min")
REG["max"] = _minmax("max")


@B("any")
def b_any(ip, args, kw):
    return ct.fold_any(ip, ip.iter(args[0]), ip.truth)


@B("all")
def b_all(ip, args, kw):
    return tm.bnot(ct.fold_any(ip, ip.iter(args[0]), lambda v: tm.bnot(ip.truth(v))))


@B("enumerate")
def b_enumerate(ip, args, kw):
    it, start = opt(ip, args, kw, ["iterable", "start"], [ZERO])
    return ip.new(Itr(ct.enumerate_pieces(ip, ip.iter(it), start)))


@B("zip")
def b_zip(ip, args, kw):
    lists = []
    for a in args:
        if isinstance(a, ExtV) and a.name == "itertools.count":
            lists.append(a)
        else:
            lists.append(ip.iter(a))
    strict = kw.get("strict")
    if any(isinstance(l, ExtV) for l in lists):
        fin = [l for l in lists if not isinstance(l, ExtV)]
        base = ct.zip_pieces(ip, fin)
        n = ip.plen(base)
        full = []
        for l in lists:
            if isinstance(l, ExtV):
                r = RangeV(l.data["start"], tm.add(l.data["start"], tm.mul(n, l.data["step"])), l.data["step"])
                full.append(ct.range_pieces(ip, r))
            else:
                full.append(l)
        lists = full
    if strict is not None and ip.simp(ip.truth(strict)) is TRUE:
        ls = [ip.plen(l) for l in lists]
        for x in ls[1:]:
            ip.check(tm.eq(ls[0], x), "ValueError", "zip() argument lengths differ")
    return ip.new(Itr(ct.zip_pieces(ip, lists)))


@B("map")
def b_map(ip, args, kw):
    f = args[0]
    lists = [ip.iter(a) for a in args[1:]]
    pieces = lists[0] if len(lists) == 1 else ct.zip_pieces(ip, lists)
    out = ip.new(Lst(()))

    def body(x):
        ip.append(out, ip.call(f, [x] if len(lists) == 1 else list(x), {}))
        return []
    ip.run_loop(pieces, body)
    return ip.new(Itr(ip.get(out).segs))


@B("filter")
def b_filter(ip, args, kw):
    f, it = args
    out = ip.new(Lst(()))

    def body(x):
        c = ip.truth(x if f is None else ip.call(f, [x], {}))
        ip.branch2(c, lambda: ip.append(out, x), lambda: None)
        return []
    ip.run_loop(ip.iter(it), body)
    return ip.new(Itr(ip.get(out).segs))


@B("reversed")
def b_reversed(ip, args, kw):
    v = ip.vsimp(args[0])
    if isinstance(v, Ref) and isinstance(ip.get(v), Obj):
        f = ip.find(ip.get(v).cls, "__reversed__")
        if f is not None:
            return ip.call_method(f, v, [], {})
    return ip.new(Itr(ct.reverse_pieces(ip, ip.iter(v))))


@B("sorted")
def b_sorted(ip, args, kw):
    pieces = ip.iter(args[0])
    return ip.new(Lst(sort_pieces(ip, pieces, kw.get("key"), kw.get("reverse"))))


def ground_order(keys, rev, ties):
    """the order of numbers without free symbols, by their values; None if there are others or if different
    terms have the same value (ties: these may stay in any order)"""
    from . import numeval
    p = numeval.Point(0).again()
    vals = []
    for k in keys:
        if not isinstance(k, T) or tm.atoms(k, lambda x: x.op == "s" or x.a[0] not in numeval.MATHS):
            return None
        try:
            vals.append(p.value(k))
        except (numeval.NoValue, OverflowError):
            return None
    order = sorted(range(len(vals)), key=lambda i: vals[i], reverse=rev)
    for n, (i, j) in enumerate(zip(order, order[1:])):
        if keys[i] is not keys[j] and abs(vals[i] - vals[j]) < 1e-12:
            if not ties:
                return None
            if i > j:
                order[n], order[n + 1] = j, i
    return order


def sort_pieces(ip, pieces, key, reverse):
    rev = reverse is not None and ip.simp(ip.truth(reverse)) is TRUE
    items = ip.concrete(pieces)
    if items is not None:
        keys = [ip.call(key, [x], {}) if key is not None else x for x in items]
        ks = [ct.ckey(k) for k in keys]
        if all(k is not None for k in ks):
            def plain(k):
                return tuple(plain(x) for x in k[1]) if k[0] == "t" else k[1]
            order = sorted(range(len(items)), key=lambda i: plain(ks[i]), reverse=rev)
            return tuple(("i", items[i]) for i in order)
        if len(items) <= 1:
            return tuple(("i", x) for x in items)
        # insertion with decidable comparisons
        out = []
        for x, k in zip(items, keys):
            pos = len(out)
            for j, (y, ky) in enumerate(out):
                c = ip.simp(ip.truth(ip.order("gt" if rev else "lt", k, ky)))
                if c is TRUE:
                    pos = j
                    break
                if c is not FALSE:
                    got = ground_order(keys, rev, key is None)
                    if got is not None:
                        return tuple(("i", items[i]) for i in got)
                    if all(isinstance(v, T) for v in keys) and key is None and len(items) == 2:
                        a, b = items
                        lo, hi = tm.minmax("min", [a, b]), tm.minmax("max", [a, b])
                        return (("i", hi), ("i", lo)) if rev else (("i", lo), ("i", hi))
                    raise Unsupported("sorting symbolic values")
            out.insert(pos, (x, k))
        return tuple(("i", x) for x, _ in out)
    if len(pieces) == 1 and pieces[0][0] == "g" and len(pieces[0][3]) == 1 and pieces[0][3][0][0] == "i" and key is None:
        b, n, x = pieces[0][1], pieces[0][2], pieces[0][3][0][1]
        if isinstance(x, T):
            d = tm.sub(tm.subst(x, {b: tm.add(b, ONE)}), x)
            if tm.nonneg(d):
                return ct.reverse_pieces(ip, pieces) if rev else pieces
    raise Unsupported("sorting a family")


@B("isinstance")
def b_isinstance(ip, args, kw):
    return ip.isinstance(args[0], args[1])


@B("issubclass")
def b_issubclass(ip, args, kw):
    cs = args[1] if isinstance(args[1], tuple) else (args[1],)
    return tm.cbool(any(c in args[0].mro for c in cs))


@B("callable")
def b_callable(ip, args, kw):
    v = ip.vsimp(args[0])
    if isinstance(v, (FuncV, BoundV, BuiltinV, ClassV, PartialV)):
        return TRUE
    if isinstance(v, Ref) and isinstance(ip.get(v), Obj):
        return tm.cbool(ip.find(ip.get(v).cls, "__call__") is not None)
    return tm.cbool(isinstance(v, ExtV))


@B("hasattr")
def b_hasattr(ip, args, kw):
    return has_attr(ip, args[0], args[1])


def has_attr(ip, o, name):
    o = ip.vsimp(o)
    if isinstance(o, IteV):
        return tm.ite(o.c, has_attr(ip, o.a, name), has_attr(ip, o.b, name))
    if isinstance(o, Ref):
        c = ip.get(o)
        if isinstance(c, Obj):
            if name in c.attrs:
                w = tm.bnot(ip._when(c.attrs[name], UNDEF))
                return TRUE if ip.find(c.cls, name) is not None else w
            return tm.cbool(ip.find(c.cls, name) is not None)
        if isinstance(c, Model):
            return tm.cbool(name in c.attrs)
        return tm.cbool(name in METHODS.get(type(c), {}))
    if isinstance(o, ClassV):
        return tm.cbool(ip.find(o, name) is not None)
    if isinstance(o, T) or o is None or isinstance(o, (str, tuple)):
        return tm.cbool(isinstance(o, T) and o.op == "f" and o.a[0] == "cell" and name in ("value", "fix"))
    raise Unsupported("hasattr")


@B("getattr")
def b_getattr(ip, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("getattr with a computed name")
    if len(args) == 3:
        c = ip.simp(has_attr(ip, args[0], args[1]))
        if c is FALSE:
            return args[2]
        if c is not TRUE:
            return ip.cond(c, lambda: ip.getattr(args[0], args[1]), lambda: args[2])
    return ip.getattr(args[0], args[1])


@B("setattr")
def b_setattr(ip, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("setattr with a computed name")
    ip.setattr(args[0], args[1], args[2])


@B("delattr")
def b_delattr(ip, args, kw):
    ip.delattr(args[0], args[1])


@B("iter")
def b_iter(ip, args, kw):
    v = ip.vsimp(args[0])
    if isinstance(v, Ref) and isinstance(ip.get(v), Itr):
        return v
    return ip.new(Itr(ip.iter(v)))


@B("next")
def b_next(ip, args, kw):
    v = ip.vsimp(args[0])
    if isinstance(v, ExtV) and v.name == "itertools.count":
        raise Unsupported("next(count)")
    if not isinstance(v, Ref):
        raise Unsupported("next")
    c = ip.get(v)
    if isinstance(c, Obj):
        f = ip.find(c.cls, "__next__")
        if f is not None:
            return ip.call_method(f, v, [], {})
    if not isinstance(c, Itr):
        ip.raise_("TypeError", "not an iterator")
    ip.note_log(v)
    pieces = c.segs
    if pieces and pieces[0][0] == "i":
        ip.put(v, Itr(pieces[1:]))
        return pieces[0][1]
    cond, x = ct.first_item(ip, pieces)
    # the remainder of the iterator is not tracked further
    ip.put(v, Itr((("spent",),)) if pieces else Itr(()))
    cond = ip.simp(cond)
    if len(args) == 2:
        return args[1] if cond is FALSE else x if cond is TRUE else ip.mk_ite(cond, x, args[1])
    ip.check(cond, "StopIteration")
    return x


@B("round")
def b_round(ip, args, kw):
    if len(args) == 2 and args[1] is not None:
        x = args[0]
        if isinstance(x, T) and x.op == "c" and args[1].op == "c":
            return tm.const(round(x.a[0], int(args[1].a[0])))
        return tm.app("round", (to_T(ip, x), args[1]))
    return num1(ip, args[0], lambda x: tm.fun("round", x))


@B("divmod")
def b_divmod(ip, args, kw):
    return (ip.binop("floordiv", *args), ip.binop("mod", *args))


@B("pow")
def b_pow(ip, args, kw):
    return ip.binop("pow", *args)


@B("repr")
def b_repr(ip, args, kw):
    return ct.to_str(ip, args[0], 114)


@B("format")
def b_format(ip, args, kw):
    return StrV((args[0],))


@B("id")
def b_id(ip, args, kw):
    v = ip.vsimp(args[0])
    if isinstance(v, Ref):
        return tm.const(10 ** 6 + v.id)
    raise Unsupported("id")


@B("hash")
def b_hash(ip, args, kw):
    ct.hashable(ip, args[0])
    v = ip.vsimp(args[0])
    t = nt_tuple(ip, v)
    if isinstance(v, Ref) and isinstance(ip.get(v), Obj):
        f = ip.find(ip.get(v).cls, "__hash__")
        if f is not None:
            return ip.call_method(f, v, [], {})
    return tm.app("hash", (ct.str_key(v if t is None else t),), True)


@B("input")
def b_input(ip, args, kw):
    raise Unsupported("input")


@B("open")
def b_open(ip, args, kw):
    event(ip, "open", tuple(args))
    return ExtV("file")


@B("property")
def b_property(ip, args, kw):
    return PropertyV(args[0], args[1] if len(args) > 1 else None)


@B("staticmethod")
def b_static(ip, args, kw):
    return StaticV(args[0])


@B("classmethod")
def b_classm(ip, args, kw):
    return StaticV(args[0], True)


@B("chr")
def b_chr(ip, args, kw):
    return chr(int(args[0].a[0]))


@B("ord")
def b_ord(ip, args, kw):
    return tm.const(ord(args[0]))


def to_T(ip, v):
    return ct.to_num(ip, v)


def event(ip, kind, data):
    ip.put(ip.trace_ref, Lst(ip.get(ip.trace_ref).segs + (("i", (kind,) + tuple(data)),)))


# ------------------------------------------------------------------ constructors of builtin types

def construct_builtin(ip, cls, args, kw):
    n = cls.builtin
    f = CONS.get(n)
    if f is None:
        if n == "object":
            return ip.new(Obj(cls, {}))
        raise Unsupported(f"{n}()")
    return f(ip, args, kw)


def c_int(ip, args, kw):
    if not args:
        return ZERO
    v = ip.vsimp(args[0])
    if isinstance(v, IteV):
        return ip.cond(v.c, lambda: c_int(ip, [v.a], kw), lambda: c_int(ip, [v.b], kw))
    if isinstance(v, T):
        if v.isbool:
            return tm.b2i(v)
        if v in (tm.INF, tm.NINF):
            ip.raise_("OverflowError")
        return tm.fun("trunc", v)
    if isinstance(v, str):
        try:
            return tm.const(int(v))
        except ValueError:
            ip.raise_("ValueError", "invalid literal")
    if isinstance(v, (StrV, ExtV)):
        return tm.app("int", (ct.str_key(v),), True)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            for d in ("__int__", "__index__", "__trunc__"):
                f = ip.find(c.cls, d)
                if f is not None:
                    return ip.call_method(f, v, [], {})
        r = lib_scalar(ip, v, c)
        if r is not None:
            return c_int(ip, [r], kw)
    ip.raise_("TypeError", "int() argument")


def c_float(ip, args, kw):
    if not args:
        return ZERO
    v = ip.vsimp(args[0])
    if isinstance(v, IteV):
        return ip.cond(v.c, lambda: c_float(ip, [v.a], kw), lambda: c_float(ip, [v.b], kw))
    if isinstance(v, T):
        if v.isbool:
            return tm.b2i(v)
        if v.op == "f" and v.a[0] == "cell":
            ip.raise_("TypeError", "implicit conversion of a model component to a number")
        return v
    if isinstance(v, str):
        try:
            return float_const(float(v))
        except ValueError:
            ip.raise_("ValueError", "could not convert string to float")
    if isinstance(v, (StrV, ExtV)):
        return tm.app("float", (ct.str_key(v),))
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__float__")
            if f is not None:
                return ip.call_method(f, v, [], {})
        r = lib_scalar(ip, v, c)
        if r is not None:
            return r
    ip.raise_("TypeError", "float() argument")


def c_bool(ip, args, kw):
    return ip.truth(args[0]) if args else FALSE


def c_str(ip, args, kw):
    return ct.to_str(ip, args[0]) if args else ""


def c_list(ip, args, kw):
    return ip.new(Lst(ip.iter(args[0]) if args else ()))


def c_tuple(ip, args, kw):
    if not args:
        return ()
    v = ip.vsimp(args[0])
    if isinstance(v, tuple):
        return v
    pieces = ip.iter(v)
    items = ip.concrete(pieces)
    if items is None:
        # a tuple of unknown length behaves as an immutable list here
        return ip.new(Lst(pieces))
    return tuple(items)


def c_dict(ip, args, kw):
    r = ip.new(Dct(()))
    if args:
        dict_update(ip, r, args[0])
    for k, v in kw.items():
        setitem(ip, r, k, v)
    return r


def c_set(ip, args, kw, frozen=False):
    es = ()
    if args:
        pieces = ip.iter(args[0])
        for p in pieces:
            if p[0] == "i":
                ct.hashable(ip, p[1])
        es = ct.entries_from(ip, pieces, lambda v: ("add", v))
    return ip.new(St(es, frozen))


def c_range(ip, args, kw):
    a = [to_T(ip, x) for x in args]
    for x in a:
        if not x.isint:
            ip.raise_("TypeError", "range() argument is not an integer")
    if len(a) == 1:
        return RangeV(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeV(a[0], a[1], ONE)
    if a[2] is ZERO:
        ip.raise_("ValueError", "range() arg 3 must not be zero")
    return RangeV(*a)


def c_slice(ip, args, kw):
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(*(list(args) + [None] * (3 - len(args))))


def c_type(ip, args, kw):
    if len(args) != 1:
        raise Unsupported("type()")
    return type_of(ip, args[0])


def type_of(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, T):
        return type_class(ip, "bool" if v.isbool else "int" if v.isint else "float")
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            return c.cls
        n = {Lst: "list", Dct: "dict", St: "set", Arr: "ndarray"}.get(type(c))
        if n:
            return type_class(ip, n)
    if isinstance(v, tuple):
        return type_class(ip, "tuple")
    if isinstance(v, (str, StrV)):
        return type_class(ip, "str")
    if v is None:
        return type_class(ip, "NoneType")
    if isinstance(v, ClassV):
        return type_class(ip, "type")
    if isinstance(v, SliceV):
        return type_class(ip, "slice")
    raise Unsupported("type()")


CONS = {"int": c_int, "float": c_float, "bool": c_bool, "str": c_str, "list": c_list, "tuple": c_tuple,
        "dict": c_dict, "set": c_set, "frozenset": lambda ip, a, k: c_set(ip, a, k, True), "range": c_range,
        "slice": c_slice, "type": c_type}


# ------------------------------------------------------------------ classes

def ignorable_base(v):
    return isinstance(v, ExtV) and v.name.split(".")[-1] in ("Protocol", "ABC", "Generic", "object", "Hashable",
                                                              "Sized", "Iterable", "Callable", "Sequence") or \
        isinstance(v, ExtV) and "[" in v.name


def finish_class(ip, c):
    if any(b.name == "NamedTuple" and b.module == "typing" for b in c.bases):
        d = ip.get(c.attrs).vars
        names = [n for n, _ in d.get("__annotations__", ())]
        make_namedtuple(ip, c, names, {n: d[n] for n in names if n in d})
        return
    if any(k.name == "Enum" and k.module == "enum" for k in c.mro[1:]):
        d = ip.get(c.attrs).vars
        names = []
        nv = dict(d)
        for k, v in d.items():
            if k.startswith("_") or isinstance(v, (FuncV, StaticV, PropertyV)):
                continue
            m = ip.new(Obj(c, {"name": k, "value": v}))
            nv[k] = m
            names.append(m)
        nv["__members__"] = tuple(names)
        s = ip.get(c.attrs)
        ip.put(c.attrs, Scp(nv, s.parent, s.kind, s.extra))
        c.builtin = "enum"
        CONS["enum"] = c_enum
        c.fields = names


def c_enum(ip, args, kw):
    raise Unsupported("enum lookup by value")


def enum_members(ip, cls):
    if cls.builtin == "enum":
        return cls.fields
    return None


def nt_fields(c):
    for k in getattr(c.cls, "mro", ()):
        if k.order_eq == "namedtuple":
            return k.fields
    return None


def nt_tuple(ip, v):
    """the tuple a named-tuple instance is, or None"""
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            f = nt_fields(c)
            if f is not None:
                return tuple(c.attrs[x] for x in f)
    return None


def make_namedtuple(ip, c, names, defaults):
    """turns the class into one of immutable records: constructor and the tuple protocol's named extras"""
    c.fields = list(names)
    c.order_eq = "namedtuple"

    def build(ip, cls, args, kw):
        if len(args) > len(names):
            ip.raise_("TypeError", f"{cls.name}() takes too many arguments")
        out = dict(zip(names, args))
        for x, v in kw.items():
            if x not in names or x in out:
                ip.raise_("TypeError", f"{cls.name}() got an unexpected argument {x}")
            out[x] = v
        for x in names:
            if x not in out:
                if x not in defaults:
                    ip.raise_("TypeError", f"{cls.name}() misses the argument {x}")
                out[x] = defaults[x]
        return ip.new(Obj(cls, {x: out[x] for x in names}))

    def new(ip, args, kw):
        return build(ip, args[0], args[1:], kw)

    def replace(ip, args, kw):
        o = ip.get(args[0])
        for x in kw:
            if x not in names:
                ip.raise_("ValueError", "unexpected field names")
        return ip.new(Obj(o.cls, {**o.attrs, **kw}))

    def asdict(ip, args, kw):
        o = ip.get(args[0])
        d = ip.new(Dct((), None))
        for x in names:
            ip.setitem(d, x, o.attrs[x])
        return d

    def make(ip, args, kw):
        v = nt_tuple(ip, args[1])
        v = list(v) if v is not None else ip.items(args[1])
        if v is None:
            raise Unsupported("_make of a sequence of unknown length")
        if len(v) != len(names):
            ip.raise_("TypeError", f"expected {len(names)} arguments")
        return build(ip, args[0], v, {})
    s = ip.get(c.attrs)
    nv = {k: v for k, v in s.vars.items() if k not in names}
    for m in ("index", "count"):
        if m not in names:
            nv.setdefault(m, BuiltinV(m, lambda ip, a, k, m=m: ip.call(ip.getattr(nt_tuple(ip, a[0]), m), a[1:], k)))
    nv.update({"__new__": BuiltinV("__new__", new), "_fields": tuple(names),
               "_replace": BuiltinV("_replace", replace), "_asdict": BuiltinV("_asdict", asdict),
               "_make": StaticV(BuiltinV("_make", make), True)})
    ip.put(c.attrs, Scp(nv, s.parent, s.kind, s.extra))


def match_args(ip, cls):
    """attribute names of positional sub-patterns"""
    m = ip.find(cls, "__match_args__")
    if m is not None:
        return [x for x in ip.items(m)]
    for k in cls.mro:
        if k.order_eq == "namedtuple":
            return k.fields
    return [f[0] for f in dataclass_fields(ip, cls)]


def dataclass_fields(ip, cls):
    out = {}
    for k in reversed(cls.mro):
        if not isinstance(k.attrs, Ref) or not k.dataclass:
            continue
        d = ip.get(k.attrs).vars
        for n, ann in d.get("__annotations__", ()):
            if "ClassVar" in ann:
                continue
            out[n] = (n, d.get(n, UNDEF))
    return list(out.values())


def dataclass_init(ip, cls):
    def init(ip, args, kw):
        self, rest = args[0], args[1:]
        fields = dataclass_fields(ip, cls)
        c = ip.get(self)
        init_fields = []
        for n, d in fields:
            if isinstance(d, ExtV) and d.name == "dataclasses.field" and d.data.get("init") is FALSE:
                continue
            init_fields.append((n, d))
        if len(rest) > len(init_fields):
            ip.raise_("TypeError", f"{cls.name}() takes too many arguments")
        vals = {}
        for (n, _), v in zip(init_fields, rest):
            vals[n] = v
        names = [n for n, _ in init_fields]
        for k, v in kw.items():
            if k not in names or k in vals:
                ip.raise_("TypeError", f"{cls.name}() got an unexpected argument {k}")
            vals[k] = v
        for n, d in fields:
            if n in vals:
                continue
            if isinstance(d, ExtV) and d.name == "dataclasses.field":
                if "default" in d.data:
                    d = d.data["default"]
                elif "default_factory" in d.data:
                    d = ip.call(d.data["default_factory"], [], {})
                elif d.data.get("init") is FALSE:
                    continue
                else:
                    d = UNDEF
            if d is UNDEF:
                ip.raise_("TypeError", f"{cls.name}() missing argument {n}")
            vals[n] = d
        for n, _ in fields:
            if n in vals:
                ip.raw_setattr(self, n, vals[n])
        post = ip.find(cls, "__post_init__")
        if post is not None:
            ip.call_method(post, self, [], {})
        return None
    return BuiltinV("__init__", init)


def make_dataclass(ip, cls, kw):
    cls.dataclass = True
    fz = kw.get("frozen")
    if fz is not None and ip.simp(ip.truth(fz)) is TRUE:
        cls.frozen = True
    s = ip.get(cls.attrs)
    if "__init__" not in s.vars and not (kw.get("init") is FALSE):
        ip.put(cls.attrs, Scp({**s.vars, "__init__": dataclass_init(ip, cls)}, s.parent, s.kind, s.extra))
    if kw.get("order") is TRUE:
        s = ip.get(cls.attrs)
        nv = dict(s.vars)
        for op in ("lt", "le", "gt", "ge"):
            def cmp(ip, args, kw, op=op):
                a = tuple(ip.getattr(args[0], n) for n, _ in dataclass_fields(ip, cls))
                b = tuple(ip.getattr(args[1], n) for n, _ in dataclass_fields(ip, cls))
                return ip.order(op, a, b)
            nv.setdefault(f"__{op}__", BuiltinV(op, cmp))
        ip.put(cls.attrs, Scp(nv, s.parent, s.kind, s.extra))
    if cls.frozen or kw.get("eq") is FALSE or kw.get("unsafe_hash") is TRUE:
        pass
    if kw.get("eq") is FALSE:
        s = ip.get(cls.attrs)
        if "__eq__" not in s.vars:
            ip.put(cls.attrs, Scp({**s.vars, "__eq__": BuiltinV("__eq__", lambda ip, a, k: ip.is_(a[0], a[1]))},
                                  s.parent, s.kind, s.extra))
    return cls


def is_abstract(ip, cls):
    seen = set()
    for k in cls.mro:
        d = ip.get(k.attrs).vars if isinstance(k.attrs, Ref) else k.attrs
        for n, v in d.items():
            if n in seen:
                continue
            seen.add(n)
            if isinstance(v, FuncV) and v.attrs.get("abstract"):
                return True
    return False


def class_attr(ip, cls, name):
    if name == "__name__" or name == "__qualname__":
        return cls.name
    if name == "__init__":
        return BuiltinV("object.__init__", lambda ip, a, k: None)
    if name == "__new__":
        return BuiltinV("object.__new__", lambda ip, a, k: ip.new(Obj(a[0], {})))
    if name == "__setattr__":
        return BuiltinV("object.__setattr__", lambda ip, a, k: ip.raw_setattr(a[0], a[1], a[2]))
    if name == "__mro__":
        return tuple(cls.mro)
    if name == "__members__":
        return ip.find(cls, name)
    if cls.builtin:
        for t, ms in METHODS.items():
            if TYPENAME.get(t) == cls.builtin and name in ms:
                return BuiltinV(name, ms[name])
        if cls.builtin == "dict" and name == "fromkeys":
            def fromkeys(ip, args, kw):
                r = ip.new(Dct(()))
                v = args[1] if len(args) > 1 else None
                es = ct.entries_from(ip, ip.iter(args[0]), lambda x: ("put", x, v))
                ip.put(r, Dct(es))
                return r
            return BuiltinV("fromkeys", fromkeys)
        if cls.builtin == "str" and name in STR:
            return BuiltinV(name, STR[name])
        if cls.builtin == "float" and name == "fromhex":
            raise Unsupported("fromhex")
    if is_exception(cls):
        pass
    ip.raise_("AttributeError", name)


def super_attr(ip, s, cls, name):
    obj = s.self
    if name == "__init__":
        if is_exception(cls):
            def init(ip, a, k):
                o = ip.get(obj)
                ip.put(obj, Obj(o.cls, {**o.attrs, "args": tuple(a)}))
            return BuiltinV("__init__", init)
        return BuiltinV("object.__init__", lambda ip, a, k: None)
    if name == "__new__":
        return BuiltinV("object.__new__", lambda ip, a, k: ip.new(Obj(a[0], {})))
    if name == "__setattr__":
        return BuiltinV("object.__setattr__", lambda ip, a, k: ip.raw_setattr(obj, a[0], a[1]))
    if name == "__eq__":
        return BuiltinV("object.__eq__", lambda ip, a, k: TRUE if ip.vsimp(a[0]) is obj else NOTIMPL)
    if name in ("__init_subclass__",):
        return BuiltinV(name, lambda ip, a, k: None)
    if name == "__hash__":
        return BuiltinV(name, lambda ip, a, k: tm.app("hash", (obj.id,), True))
    if name in ("__repr__", "__str__"):
        return BuiltinV(name, lambda ip, a, k: StrV((obj,)))
    ip.raise_("AttributeError", name)


def isinstance_model(ip, v, cls):
    if isinstance(cls, Ref) and isinstance(ip.get(cls), Lst):
        ip.raise_("TypeError", "isinstance() arg 2")
    if cls is None:
        return tm.cbool(v is None)
    if isinstance(cls, ExtV):
        t = nt_tuple(ip, v)
        v = v if t is None else t
        if "union" in cls.data:
            return tm.bor(*[ip.isinstance(v, c) for c in cls.data["union"]])
        n = cls.name.split("[")[0].split(".")[-1]
        if n in ("Number", "Real", "Complex"):
            return tm.cbool(isinstance(v, T))
        if n in ("Integral", "integer"):
            return tm.cbool(isinstance(v, T) and v.isint)
        if n in ("floating", "float64"):
            return tm.cbool(isinstance(v, T) and not v.isint and not v.isbool)
        if n == "Sequence":
            return tm.cbool(isinstance(v, (tuple, str, RangeV)) or isinstance(v, Ref) and isinstance(ip.get(v), Lst))
        if n in ("Mapping", "Dict"):
            return tm.cbool(isinstance(v, Ref) and isinstance(ip.get(v), Dct))
        if n in ("Iterable", "Collection"):
            return tm.cbool(isinstance(v, (tuple, str, RangeV)) or isinstance(v, Ref) and
                            isinstance(ip.get(v), (Lst, Dct, St, Itr, Arr)))
        if n == "Callable":
            return b_callable(ip, [v], {})
        if n == "Hashable":
            return TRUE
        if isinstance(v, (T, tuple, str)) or v is None:
            return FALSE
        raise Unsupported(f"isinstance of {cls.name}")
    if not isinstance(cls, ClassV):
        raise Unsupported("isinstance")
    n = cls.builtin
    if n == "object":
        return TRUE
    if isinstance(v, T):
        if n == "bool":
            return tm.cbool(v.isbool)
        if n in ("int", "Integral"):
            return tm.cbool(v.isint or v.isbool)
        if n == "float":
            return tm.cbool(not v.isbool and not (v.isint and v.op != "c") and not is_model_term(v)
                            and not (v.op == "c" and v.isint))
        return tm.cbool(n in ("Number", "Real"))
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Obj):
            return tm.cbool(cls in c.cls.mro or n == "tuple" and nt_fields(c) is not None)
        return tm.cbool(n is not None and n == TYPENAME.get(type(c)) or
                        isinstance(c, St) and n == ("frozenset" if c.frozen else "set"))
    if isinstance(v, tuple):
        return tm.cbool(n == "tuple")
    if isinstance(v, (str, StrV)):
        return tm.cbool(n == "str")
    if v is None:
        return tm.cbool(n == "NoneType")
    if isinstance(v, RangeV):
        return tm.cbool(n == "range")
    if isinstance(v, SliceV):
        return tm.cbool(n == "slice")
    if isinstance(v, ClassV):
        return tm.cbool(n == "type")
    if isinstance(v, ExtV):
        if n is not None and "kind" not in v.data:
            raise Unsupported(f"isinstance of an opaque value {v!r}")
        return FALSE
    return tm.cbool(n == "function" and isinstance(v, (FuncV, BoundV)))


def is_model_term(v):
    return bool(tm.atoms(v, lambda x: x.op == "f" and x.a[0] == "cell"))


TYPENAME = {Lst: "list", Dct: "dict", Arr: "ndarray", Itr: "generator"}


# ------------------------------------------------------------------ methods of builtin containers

METHODS: dict = {}
STR: dict = {}


def M(t, name):
    def deco(fn):
        METHODS.setdefault(t, {})[name] = fn
        return fn
    return deco


@M(Lst, "append")
def l_append(ip, a, k):
    ip.append(a[0], a[1])


@M(Lst, "extend")
def l_extend(ip, a, k):
    p = tuple(ip.iter(a[1]))
    c = ip.get(a[0])
    ip.put(a[0], Lst(c.segs + p))


@M(Lst, "insert")
def l_insert(ip, a, k):
    c = ip.get(a[0])
    i = a[1]
    ip.note_log(a[0])
    if i.op == "c" and ct.all_items(c.segs):
        s = list(c.segs)
        s.insert(int(i.a[0]), ("i", a[2]))
        ip.put(a[0], Lst(s))
        return
    if i is ZERO:
        ip.put(a[0], Lst((("i", a[2]),) + c.segs))
        return
    raise Unsupported("list.insert")


@M(Lst, "pop")
def l_pop(ip, a, k):
    c = ip.get(a[0])
    ip.note_log(a[0])
    i = int(a[1].a[0]) if len(a) > 1 and a[1].op == "c" else -1
    if len(a) > 1 and a[1].op != "c":
        raise Unsupported("list.pop at a symbolic index")
    if not c.segs:
        ip.raise_("IndexError", "pop from empty list")
    if ct.all_items(c.segs):
        s = list(c.segs)
        if not -len(s) <= i < len(s):
            ip.raise_("IndexError", "pop index out of range")
        v = s.pop(i)[1]
        ip.put(a[0], Lst(s))
        return v
    if i == -1 and c.segs[-1][0] == "i":
        ip.put(a[0], Lst(c.segs[:-1]))
        return c.segs[-1][1]
    if i == 0 and c.segs[0][0] == "i":
        ip.put(a[0], Lst(c.segs[1:]))
        return c.segs[0][1]
    n = ip.plen(c.segs)
    ip.check(tm.pos(n), "IndexError")
    if i == 0:
        v = ip.at(c.segs, ZERO)
        ip.put(a[0], Lst(ct.slice_pieces(ip, c.segs, SliceV(ONE, None, None))))
        return v
    if i == -1:
        v = ip.at(c.segs, tm.sub(n, ONE))
        ip.put(a[0], Lst(ct.slice_pieces(ip, c.segs, SliceV(None, tm.NEG1, None))))
        return v
    raise Unsupported("list.pop")


@M(Lst, "remove")
def l_remove(ip, a, k):
    c = ip.get(a[0])
    ip.note_log(a[0])
    if not ct.all_items(c.segs):
        raise Unsupported("list.remove")
    for j, p in enumerate(c.segs):
        e = ip.simp(ip.eq(p[1], a[1]))
        if e is TRUE:
            ip.put(a[0], Lst(c.segs[:j] + c.segs[j + 1:]))
            return
        if e is not FALSE:
            raise Unsupported("list.remove")
    ip.raise_("ValueError", "not in list")


@M(Lst, "clear")
def l_clear(ip, a, k):
    ip.note_log(a[0])
    ip.put(a[0], Lst(()))


@M(Lst, "copy")
def l_copy(ip, a, k):
    ip.note_log(a[0])
    return ip.new(Lst(ip.get(a[0]).segs))


@M(Lst, "reverse")
def l_reverse(ip, a, k):
    ip.note_log(a[0])
    ip.put(a[0], Lst(ct.reverse_pieces(ip, ip.get(a[0]).segs)))


@M(Lst, "sort")
def l_sort(ip, a, k):
    ip.note_log(a[0])
    ip.put(a[0], Lst(sort_pieces(ip, ip.get(a[0]).segs, k.get("key"), k.get("reverse"))))


@M(Lst, "index")
def l_index(ip, a, k):
    return seq_index(ip, ip.iter(a[0]), a[1])


def seq_index(ip, pieces, x):
    ps = ct.enumerate_pieces(ip, pieces, ZERO)
    sel = select(ip, ps, lambda v: ip.eq(v[1], x), lambda v: v[0])
    cond, v = ct.first_item(ip, sel)
    ip.check(cond, "ValueError", "not in list")
    return v


def select(ip, pieces, cond, val):
    out = []
    for p in pieces:
        if p[0] == "i":
            c = ip.simp(cond(p[1]))
            if c is TRUE:
                out.append(("i", val(p[1])))
            elif c is not FALSE:
                out.append(("c", c, (("i", val(p[1])),), ()))
        elif p[0] == "c":
            out.append(("c", p[1], select(ip, p[2], cond, val), select(ip, p[3], cond, val)))
        else:
            s = select(ip, p[3], cond, val)
            if s:
                out.append(("g", p[1], p[2], s))
    return tuple(out)


@M(Lst, "count")
def l_count(ip, a, k):
    return ip.plen(select(ip, ip.iter(a[0]), lambda v: ip.eq(v, a[1]), lambda v: v))


@M(Lst, "__getitem__")
def l_getitem(ip, a, k):
    return getitem(ip, a[0], a[1])


@M(Lst, "__contains__")
def l_contains(ip, a, k):
    return ip.contains(a[0], a[1])


for _t in (Lst, Dct, St):
    METHODS.setdefault(_t, {})["__len__"] = lambda ip, a, k: ip.len(a[0])
    METHODS[_t]["__iter__"] = lambda ip, a, k: ip.new(Itr(ip.iter(a[0])))


@M(Itr, "__next__")
def i_next(ip, a, k):
    return b_next(ip, a, k)


@M(Dct, "get")
def d_get(ip, a, k):
    d = a[2] if len(a) > 2 else k.get("default")
    ct.hashable(ip, a[1])
    v = ct.dict_get(ip, a[0], a[1])
    return replace_miss(ip, v, d)


def replace_miss(ip, v, d):
    v = ip.vsimp(v)
    if v is MISS:
        return d
    if isinstance(v, IteV) and ip._maybe(v, MISS):
        return ip.mk_ite(v.c, replace_miss(ip, v.a, d), replace_miss(ip, v.b, d))
    return v


@M(Dct, "setdefault")
def d_setdefault(ip, a, k):
    d = a[2] if len(a) > 2 else None
    v = ip.vsimp(ct.dict_get(ip, a[0], a[1]))
    w = ip.simp(ip._when(v, MISS))
    if w is FALSE:
        return v
    ip.branch2(w, lambda: ct.dict_put(ip, a[0], a[1], d), lambda: None)
    return replace_miss(ip, v, d)


@M(Dct, "keys")
def d_keys(ip, a, k):
    ip.note_log(a[0])
    return ip.new(Lst(ct.dict_keys(ip, ip.get(a[0]).log)))


@M(Dct, "values")
def d_values(ip, a, k):
    ip.note_log(a[0])
    return ip.new(Lst(ct.map_values(ip, ct.dict_items(ip, ip.get(a[0])), lambda kv: kv[1])))


@M(Dct, "items")
def d_items(ip, a, k):
    ip.note_log(a[0])
    return ip.new(Lst(ct.dict_items(ip, ip.get(a[0]))))


@M(Dct, "update")
def d_update(ip, a, k):
    if len(a) > 1:
        dict_update(ip, a[0], a[1])
    for kk, v in k.items():
        ct.dict_put(ip, a[0], kk, v)


@M(Dct, "pop")
def d_pop(ip, a, k):
    v = ct.dict_get(ip, a[0], a[1])
    if len(a) > 2:
        v = replace_miss(ip, v, a[2])
    else:
        v = ip.strip(v, MISS, "KeyError")
    c = ip.get(a[0])
    ip.put(a[0], Dct(c.log + (("del", a[1]),), c.default))
    return v


@M(Dct, "copy")
def d_copy(ip, a, k):
    c = ip.get(a[0])
    ip.note_log(a[0])
    return ip.new(Dct(c.log, c.default))


@M(Dct, "clear")
def d_clear(ip, a, k):
    ip.note_log(a[0])
    ip.put(a[0], Dct((), ip.get(a[0]).default))


@M(Dct, "__contains__")
def d_contains(ip, a, k):
    return ip.contains(a[0], a[1])


@M(Dct, "__getitem__")
def d_getitem(ip, a, k):
    return getitem(ip, a[0], a[1])


def dict_update(ip, ref, v):
    v = ip.vsimp(v)
    c = ip.get(ref)
    if isinstance(v, Ref) and isinstance(ip.get(v), Dct):
        ip.note_log(v)
        src = ip.get(v).log
        if not ct.has_removal(src):
            ip.put(ref, Dct(c.log + src, c.default))
            return
        pieces = ct.dict_items(ip, ip.get(v))
    else:
        pieces = ip.iter(v)
    out = ct.entries_from(ip, pieces, lambda kv: ("put",) + tuple(ip.unpack_items(kv, 2)))
    c = ip.get(ref)
    ip.put(ref, Dct(c.log + out, c.default))


def dict_items_concrete(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, Ref) and isinstance(ip.get(v), Dct):
        items = ip.concrete(ct.dict_items(ip, ip.get(v)))
        if items is not None:
            return items
    raise Unsupported("** of an unknown mapping")


def set_add(ip, ref, v):
    ct.hashable(ip, v)
    c = ip.get(ref)
    ip.put(ref, St(c.log + (("add", v),), c.frozen))


@M(St, "add")
def s_add(ip, a, k):
    set_add(ip, a[0], a[1])


@M(St, "discard")
def s_discard(ip, a, k):
    c = ip.get(a[0])
    ip.put(a[0], St(c.log + (("rem", a[1]),), c.frozen))


@M(St, "remove")
def s_remove(ip, a, k):
    ip.check(ip.contains(a[0], a[1]), "KeyError")
    s_discard(ip, a, k)


@M(St, "pop")
def s_pop(ip, a, k):
    items = ip.concrete(ip.iter(a[0]))
    if not items:
        raise Unsupported("set.pop")
    s_discard(ip, [a[0], items[0]], k)
    return items[0]


@M(St, "update")
def s_update(ip, a, k):
    for x in a[1:]:
        es = ct.entries_from(ip, ip.iter(x), lambda v: ("add", v))
        c = ip.get(a[0])
        ip.put(a[0], St(c.log + es, c.frozen))


@M(St, "difference_update")
def s_diffup(ip, a, k):
    for x in a[1:]:
        es = ct.entries_from(ip, ip.iter(x), lambda v: ("rem", v))
        c = ip.get(a[0])
        ip.put(a[0], St(c.log + es, c.frozen))


@M(St, "union")
def s_union(ip, a, k):
    r = ip.new(ip.get(a[0]))
    ip.note_log(a[0])
    s_update(ip, [r] + list(a[1:]), k)
    return r


@M(St, "difference")
def s_diff(ip, a, k):
    r = ip.new(ip.get(a[0]))
    ip.note_log(a[0])
    s_diffup(ip, [r] + list(a[1:]), k)
    return r


@M(St, "intersection")
def s_inter(ip, a, k):
    pieces = ip.iter(a[0])
    for x in a[1:]:
        other = ip.iter(x)
        pieces = ct.drop(ip, pieces, lambda v: tm.bnot(ct.member_soft(ip, other, v)))
    return ip.new(St(ct.entries_from(ip, pieces, lambda v: ("add", v)), ip.get(a[0]).frozen))


@M(St, "symmetric_difference")
def s_symdiff(ip, a, k):
    x, y = s_diff(ip, a, k), None
    tmp = c_set(ip, [a[1]], {})
    y = s_diff(ip, [tmp, a[0]], k)
    return s_union(ip, [x, y], k)


@M(St, "intersection_update")
def s_interup(ip, a, k):
    r = s_inter(ip, a, k)
    ip.put(a[0], St(ip.get(r).log, False))


@M(St, "symmetric_difference_update")
def s_symdiffup(ip, a, k):
    r = s_symdiff(ip, a, k)
    ip.put(a[0], St(ip.get(r).log, False))


@M(St, "issubset")
def s_issub(ip, a, k):
    other = ip.iter(a[1])
    return tm.bnot(ct.fold_any(ip, ip.iter(a[0]), lambda v: tm.bnot(ct.member_soft(ip, other, v))))


@M(St, "issuperset")
def s_issup(ip, a, k):
    mine = ip.iter(a[0])
    return tm.bnot(ct.fold_any(ip, ip.iter(a[1]), lambda v: tm.bnot(ct.member_soft(ip, mine, v))))


@M(St, "isdisjoint")
def s_isdis(ip, a, k):
    other = ip.iter(a[1])
    return tm.bnot(ct.fold_any(ip, ip.iter(a[0]), lambda v: ct.member_soft(ip, other, v)))


@M(St, "copy")
def s_copy(ip, a, k):
    return ip.new(ip.get(a[0]))


@M(St, "clear")
def s_clear(ip, a, k):
    ip.note_log(a[0])
    ip.put(a[0], St(()))


def _strm(name):
    def f(ip, a, k):
        if all(isinstance(x, str) for x in a):
            return getattr(a[0], name)(*a[1:])
        return StrV(("." + name,) + tuple(a))
    return f


for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "removesuffix",
           "removeprefix", "ljust", "rjust", "zfill"):
    STR[_n] = _strm(_n)


def _strp(name):
    def f(ip, a, k):
        if all(isinstance(x, str) for x in a):
            return tm.cbool(getattr(a[0], name)(*a[1:]))
        return tm.app("str." + name, tuple(ct.str_key(x) for x in a), isbool=True)
    return f


for _n in ("startswith", "endswith", "isdigit", "isalpha"):
    STR[_n] = _strp(_n)


def str_format(ip, a, k):
    return ct.str_join([a[0]] + [ct.to_str(ip, x) for x in a[1:]] + [ct.to_str(ip, x) for x in k.values()])


STR["format"] = str_format


def str_joinm(ip, a, k):
    pieces = ip.iter(a[1])
    items = ip.concrete(pieces)
    if items is None:
        return StrV((a[0], "join", ("family", len(pieces))))
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(a[0])
        out.append(ct.to_str(ip, x) if not isinstance(x, (str, StrV)) else x)
    return ct.str_join(out)


STR["join"] = str_joinm


def str_split(ip, a, k):
    if all(isinstance(x, str) for x in a):
        return ip.new(Lst([("i", x) for x in a[0].split(*a[1:])]))
    raise Unsupported("str.split")


STR["split"] = str_split


@functools.lru_cache(None)
def objects():
    return json.loads((pathlib.Path(__file__).resolve().parent / "libs.json").read_text())["objects"]


def no_attr(ip, kind, name):
    """attribute that is not modelled: an error only if objects of that kind do not have it"""
    if not name.startswith("__") and name in objects()[kind]:
        raise Unsupported(f"{kind} attribute {name}")
    ip.raise_("AttributeError", f"{kind} has no attribute {name!r}")


# ------------------------------------------------------------------ attribute access on plain values

def value_attr(ip, o, name):
    if isinstance(o, T):
        from . import lib_pyomo, lib_sympy
        r = lib_pyomo.term_attr(ip, o, name)
        if r is not NOTIMPL:
            return r
        r = lib_sympy.term_attr(ip, o, name)
        if r is not NOTIMPL:
            return r
        if name in ("real",):
            return o
        if name == "imag":
            return ZERO
        if name == "item":
            return BuiltinV("item", lambda ip, a, k: o)
        if name == "shape":
            ip.raise_("AttributeError", name)
        if name == "is_integer":
            return BuiltinV("is_integer", lambda ip, a, k: tm.eq(tm.fun("trunc", o), o) if not o.isint else TRUE)
        if name in ("tolist", "copy"):
            return BuiltinV(name, lambda ip, a, k: o)
        if name in ("__add__", "__mul__", "__sub__", "__truediv__"):
            return BuiltinV(name, lambda ip, a, k: ip.binop(name.strip("_"), o, a[0]))
        if name == "is_indexed":
            return BuiltinV(name, lambda ip, a, k: FALSE)
        no_attr(ip, "number", name)
    if isinstance(o, (str, StrV)):
        if name in STR:
            return BoundV(BuiltinV(name, STR[name]), o)
        no_attr(ip, "str", name)
    if isinstance(o, tuple):
        if name == "index":
            return BuiltinV("index", lambda ip, a, k: seq_index(ip, ip.iter(o), a[0]))
        if name == "count":
            return BuiltinV("count", lambda ip, a, k: ip.plen(select(ip, ip.iter(o), lambda v: ip.eq(v, a[0]), lambda v: v)))
        no_attr(ip, "tuple", name)
    if isinstance(o, ExtV):
        h = ip.ext_handlers.get((o.name, name))
        if h is not None:
            return h(ip, o)
        if name in o.data:
            return o.data[name]
        d = {"owner": o}
        if "no" in o.data:
            d["no"] = o.data["no"]
        r = ExtV(o.name + "." + name, d)
        return r
    if isinstance(o, RangeV):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
    if isinstance(o, FuncV):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
        if name in o.attrs:
            return o.attrs[name]
        if name == "__wrapped__":
            raise Unsupported("__wrapped__")
    if isinstance(o, PropertyV):
        if name == "setter":
            return BuiltinV("setter", lambda ip, a, k: PropertyV(o.fget, a[0], o.cached))
        if name == "getter":
            return BuiltinV("getter", lambda ip, a, k: PropertyV(a[0], o.fset, o.cached))
        if name == "fget":
            return o.fget
    if isinstance(o, BoundV):
        if name == "__name__":
            return value_attr(ip, o.fn, name)
        if name == "__self__":
            return o.self
        if name == "__func__":
            return o.fn
    if isinstance(o, BuiltinV) and name == "__name__":
        return o.name
    if isinstance(o, BuiltinV) and o.name == "lru" and name == "cache_clear":
        return BuiltinV("cache_clear", lambda ip, a, k: None)
    if isinstance(o, PartialV):
        if name == "func":
            return o.fn
    if isinstance(o, SliceV) and name in ("start", "stop", "step"):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, StaticV):
        return value_attr(ip, o.fn, name)
    for t, kind in ((FuncV, "function"), (BoundV, "function"), (BuiltinV, "function"), (PartialV, "function"), (RangeV, "iterator")):
        if isinstance(o, t):
            no_attr(ip, kind, name)
    ip.raise_("AttributeError", name)


def value_setattr(ip, o, name, v):
    if isinstance(o, T):
        from . import lib_pyomo
        if lib_pyomo.term_setattr(ip, o, name, v) is not NOTIMPL:
            return
    if isinstance(o, ExtV):
        event(ip, "setattr", (o.name, name, v))
        return
    if isinstance(o, FuncV):
        o.attrs[name] = v
        return
    if isinstance(o, ModuleV):
        event(ip, "setattr", (o.name, name, v))
        return
    ip.raise_("AttributeError", name)


def lib_getattr(ip, ref, c, name):
    ms = METHODS.get(type(c))
    if ms and name in ms:
        return BoundV(BuiltinV(name, ms[name]), ref)
    if isinstance(c, Dct) and c.default is not None and name == "default_factory":
        return c.default
    from . import lib_pyomo, lib_numpy, lib_sympy
    if isinstance(c, (Model, Comp)):
        return lib_pyomo.getattr_(ip, ref, c, name)
    if isinstance(c, Arr):
        return lib_numpy.getattr_(ip, ref, c, name)
    if isinstance(c, Sym):
        return lib_sympy.getattr_(ip, ref, c, name)
    if name == "__class__":
        return type_of(ip, ref)
    for t, kind in ((Lst, "list"), (Dct, "dict"), (St, "set"), (Itr, "iterator")):
        if isinstance(c, t):
            no_attr(ip, kind, name)
    ip.raise_("AttributeError", name)


def lib_setattr(ip, ref, c, name, v):
    from . import lib_pyomo, lib_numpy
    if isinstance(c, (Model, Comp)):
        return lib_pyomo.setattr_(ip, ref, c, name, v)
    if isinstance(c, Arr):
        return lib_numpy.setattr_(ip, ref, c, name, v)
    ip.raise_("AttributeError", name)


def lib_delattr(ip, ref, c, name):
    if isinstance(c, Model):
        from . import lib_pyomo
        return lib_pyomo.delattr_(ip, ref, c, name)
    return False


def lib_call(ip, ref, c, args, kw):
    from . import lib_pyomo
    if isinstance(c, (Model, Comp)):
        return lib_pyomo.call_(ip, ref, c, args, kw)
    if isinstance(c, Box) and isinstance(c.v, tuple) and c.v and c.v[0] == "lru":
        return call_lru(ip, ref, c, args, kw)
    ip.raise_("TypeError", "object is not callable")


def make_lru(ip, fn):
    def call(ip, args, kw):
        return call_lru(ip, box, ip.get(box), args, kw)
    box = ip.new(Box(("lru", fn, ())))
    return BuiltinV("lru", call)


def call_lru(ip, ref, c, args, kw):
    _, fn, memo = c.v
    if ip.loops:
        raise Unsupported("cached call inside a summarised loop")
    key = (tuple(args), tuple(sorted(kw.items())))
    for k, v in memo:
        e = ip.simp(ip.eq(key[0], k[0]) if not kw and not k[1] else tm.cbool(k == key))
        if e is TRUE:
            return v
        if e is not FALSE:
            raise Unsupported("cached call with undecided key")
    r = ip.call(fn, args, kw)
    ip.put(ref, Box(("lru", fn, ip.get(ref).v[2] + ((key, r),))))
    return r


# ------------------------------------------------------------------ opaque values

def ext_call(ip, f, args, kw):
    h = ip.ext_handlers.get(f.name)
    if h is not None:
        return h(ip, f, args, kw)
    if "call" in f.data:
        return f.data["call"](ip, args, kw)
    last = f.name.split(".")[-1]
    from . import lib_std
    if f.name.split(".")[0] in lib_std.PURE and all(isinstance(a, T) for a in args) and not kw:
        return tm.app("lib:" + f.name, tuple(args))
    if f.name.split(".")[0] in lib_std.IMPURE:
        event(ip, "impure", (f.name,))
    event(ip, "ext", (f.name, tuple(args), tuple(kw.items()), f.data.get("owner")))
    r = ExtV(f.name + "()", {"args": tuple(args), "kw": dict(kw), "owner": f.data.get("owner")})
    if last in ("get_xlim", "get_ylim", "get_position", "get_size_inches"):
        k = r.key
        return (tm.sym(f"ext:{f.name}:{k}:0"), tm.sym(f"ext:{f.name}:{k}:1"))
    return r


def term_call(ip, t, args, kw):
    if t.op == "f" and t.a[0] == "cell":
        from . import lib_pyomo
        return lib_pyomo.value_of(ip, t)
    if is_model_term(t):
        from . import lib_pyomo
        return lib_pyomo.value_of(ip, t)
    ip.raise_("TypeError", "'float' object is not callable")


def ext_item(ip, v, i):
    if "items" in v.data:
        return v.data["items"][i]
    return ExtV(f"{v.name}[{i!r}]", {"owner": v})


def ext_op(ip, op, vs):
    if any(isinstance(v, ExtV) and (v.name.startswith("typing") or v.name.startswith("numpy") or "union" in v.data)
           for v in vs) and op == "or":
        return ExtV("typing.Union", {"union": tuple(x for v in vs for x in (v.data["union"] if isinstance(v, ExtV) and "union" in v.data else (v,)))})
    return ExtV(f"({op})", {"args": tuple(vs)})


def lib_unary(ip, op, v, c):
    from . import lib_pyomo, lib_numpy, lib_sympy
    t = lib_pyomo.as_term(ip, v, c)
    if t is not None:
        return ip.unary(op, t)
    if isinstance(c, Arr):
        return lib_numpy.map_arr(ip, v, lambda x: ip.unary(op, x))
    if isinstance(c, Sym):
        return lib_sympy.map_sym(ip, v, c, lambda x: ip.unary(op, x))
    return NOTIMPL


def lib_map(ip, v, c, f):
    from . import lib_pyomo, lib_numpy, lib_sympy
    t = lib_pyomo.as_term(ip, v, c)
    if t is not None:
        return f(t)
    if isinstance(c, Arr):
        return lib_numpy.map_arr(ip, v, f)
    if isinstance(c, Sym):
        return lib_sympy.map_sym(ip, v, c, f)
    return NOTIMPL


def lib_scalar(ip, v, c):
    """number held by a zero-dimensional library object"""
    from . import lib_pyomo, lib_numpy
    t = lib_pyomo.as_term(ip, v, c)
    if t is not None:
        return lib_pyomo.value_of(ip, t)
    if isinstance(c, Arr):
        return lib_numpy.scalar(ip, v)
    return None


def lib_binop(ip, op, a, ca, b, cb):
    from . import lib_pyomo, lib_numpy, lib_sympy
    if isinstance(a, ClassV) or isinstance(b, ClassV) or (a is None and isinstance(b, (ExtV,))) or \
            (b is None and isinstance(a, ExtV) and op == "or"):
        if op == "or":
            return ext_op(ip, "or", [ExtV("typing.X") if not isinstance(a, ExtV) else a, b]) if False else \
                ExtV("typing.Union", {"union": (a, b)})
        return NOTIMPL
    if isinstance(ca, (Comp, Model)) or isinstance(cb, (Comp, Model)):
        r = lib_pyomo.binop(ip, op, a, ca, b, cb)
        if r is not NOTIMPL:
            return r
    if isinstance(ca, Arr) or isinstance(cb, Arr):
        r = lib_numpy.binop(ip, op, a, ca, b, cb)
        if r is not NOTIMPL:
            return r
    if isinstance(ca, Sym) or isinstance(cb, Sym):
        r = lib_sympy.binop(ip, op, a, ca, b, cb)
        if r is not NOTIMPL:
            return r
    if isinstance(a, ExtV) or isinstance(b, ExtV):
        return ext_op(ip, op, [a, b])
    if op == "add":
        if isinstance(ca, Lst) and isinstance(cb, Lst):
            ip.note_log(a)
            ip.note_log(b)
            return ip.new(Lst(ca.segs + cb.segs))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return ct.str_join([a, b])
        if isinstance(a, tuple) and isinstance(cb, Lst) or isinstance(ca, Lst) and isinstance(b, tuple):
            return NOTIMPL
    if op == "mul":
        for x, cx, y in ((a, ca, b), (b, cb, a)):
            if isinstance(y, T):
                if y.isbool:
                    y = tm.b2i(y)
                if isinstance(x, (str, tuple)) and y.op == "c":
                    return x * int(y.a[0])
                if isinstance(x, (str, StrV)):
                    return StrV((x, "*", y))
                if isinstance(cx, Lst):
                    ip.note_log(x)
                    if y.op == "c":
                        return ip.new(Lst(cx.segs * max(0, int(y.a[0]))))
                    k = tm.fresh("k", True, ZERO, tm.sub(y, ONE))
                    ip.stamps[k] = Ref._n
                    n = y if tm.nonneg(y) else tm.minmax("max", [ZERO, y])
                    return ip.new(Lst((("g", k, n, cx.segs),)))
    if op == "mod" and isinstance(a, (str, StrV)):
        return ct.str_join([a, ct.to_str(ip, b)])
    if isinstance(ca, St) and isinstance(cb, St):
        f = {"or": s_union, "and": s_inter, "sub": s_diff, "xor": s_symdiff}.get(op)
        if f is not None:
            return f(ip, [a, b], {})
    if isinstance(ca, Dct) and isinstance(cb, Dct) and op == "or":
        r = ip.new(ca)
        dict_update(ip, r, b)
        return r
    return NOTIMPL


def lib_inplace(ip, op, a, c, b):
    if isinstance(c, Lst):
        if op == "add":
            l_extend(ip, [a, b], {})
            return a
        if op == "mul" and isinstance(b, T) and b.op == "c":
            ip.note_log(a)
            ip.put(a, Lst(c.segs * max(0, int(b.a[0]))))
            return a
    if isinstance(c, St) and not c.frozen:
        f = {"or": s_update, "sub": s_diffup, "and": s_interup}.get(op)
        if f is not None:
            f(ip, [a, b], {})
            return a
    if isinstance(c, Dct) and op == "or":
        dict_update(ip, a, b)
        return a
    if isinstance(c, Arr):
        from . import lib_numpy
        return lib_numpy.inplace(ip, op, a, c, b)
    return NOTIMPL


def lib_relation(ip, op, a, b):
    from . import lib_pyomo
    return lib_pyomo.relation(ip, op, a, b)


def lib_order(ip, op, a, b):
    from . import lib_numpy, lib_pyomo
    ca = ip.get(a) if isinstance(a, Ref) else None
    cb = ip.get(b) if isinstance(b, Ref) else None
    ta = a if isinstance(a, T) else lib_pyomo.as_term(ip, a, ca) if ca is not None else None
    tb = b if isinstance(b, T) else lib_pyomo.as_term(ip, b, cb) if cb is not None else None
    if ta is not None and tb is not None:
        return ip.order(op, ta, tb)
    if isinstance(ca, Arr) or isinstance(cb, Arr):
        return lib_numpy.binop(ip, op, a, ca, b, cb)
    if isinstance(ca, St) and isinstance(cb, St):
        if op == "le":
            return s_issub(ip, [a, b], {})
        if op == "ge":
            return s_issup(ip, [a, b], {})
        if op == "lt":
            return tm.band(s_issub(ip, [a, b], {}), tm.bnot(s_issup(ip, [a, b], {})))
        return tm.band(s_issup(ip, [a, b], {}), tm.bnot(s_issub(ip, [a, b], {})))
    if isinstance(ca, Lst) and isinstance(cb, Lst):
        x, y = ip.concrete(ca.segs), ip.concrete(cb.segs)
        if x is not None and y is not None:
            return ip._tuple_order(op, tuple(x), tuple(y))
    if isinstance(a, ExtV) or isinstance(b, ExtV):
        return tm.app("ext_order", (op, ct.str_key(a), ct.str_key(b)), isbool=True)
    return NOTIMPL


def lib_contains(ip, ref, c, x):
    if isinstance(c, (Lst, Itr)):
        pieces = ip.iter(ref)
        return ct.member_soft(ip, pieces, x)
    if isinstance(c, Dct):
        ip.note_log(ref)
        v = ct.read(ip, c.log, x, lambda: MISS)
        return ip.simp(tm.bnot(ip._when(v, MISS)))
    if isinstance(c, St):
        ip.note_log(ref)
        v = ct.read(ip, tuple(relabel(c.log)), x, lambda: MISS)
        return ip.simp(tm.bnot(ip._when(v, MISS)))
    if isinstance(c, Comp):
        from . import lib_pyomo
        return lib_pyomo.contains(ip, ref, c, x)
    if isinstance(c, Arr):
        return ct.member_soft(ip, [("i", v) for v in ip.bm_np().flat_items(ip, ref)], x) if False else NOTIMPL
    return NOTIMPL


def relabel(log):
    for e in log:
        if e[0] == "add":
            yield ("put", e[1], TRUE)
        elif e[0] == "rem":
            yield ("del", e[1])
        elif e[0] == "c":
            yield ("c", e[1], tuple(relabel(e[2])), tuple(relabel(e[3])))
        elif e[0] == "g":
            yield ("g", e[1], e[2], tuple(relabel(e[3])))
        else:
            raise Unsupported("set log")


def lib_unpack(ip, t, n):
    return None


def lib_iterate(ip, v, c):
    from . import lib_pyomo, lib_numpy, lib_sympy
    if isinstance(c, Comp):
        return lib_pyomo.iterate(ip, v, c)
    if isinstance(c, Arr):
        return lib_numpy.iterate(ip, v, c)
    if isinstance(c, Sym):
        return lib_sympy.iterate(ip, v, c)
    ip.raise_("TypeError", "object is not iterable")


def lib_len(ip, v, c):
    from . import lib_pyomo, lib_numpy, lib_sympy
    if isinstance(c, Comp):
        return lib_pyomo.length(ip, v, c)
    if isinstance(c, Arr):
        return lib_numpy.length(ip, v, c)
    if isinstance(c, Sym):
        return lib_sympy.length(ip, v, c)
    ip.raise_("TypeError", "object has no len()")


# ------------------------------------------------------------------ equality of containers

def container_eq(ip, a, ca, b, cb):
    if isinstance(ca, Lst) and isinstance(cb, Lst):
        return seq_eq(ip, ca.segs, cb.segs)
    if isinstance(ca, Lst) and not isinstance(ip.vsimp(b), Ref) or isinstance(cb, Lst) and not isinstance(ip.vsimp(a), Ref):
        return FALSE
    if isinstance(ca, St) and isinstance(cb, St):
        return tm.band(s_issub(ip, [a, b], {}), s_issup(ip, [a, b], {}))
    if isinstance(ca, Dct) and isinstance(cb, Dct):
        out = tm.eq(ip.len(a), ip.len(b))
        for p in ct.dict_items(ip, ca):
            if p[0] != "i":
                raise Unsupported("comparison of symbolic dictionaries")
            k, v = p[1]
            w = ct.read(ip, cb.log, k, lambda: MISS)
            if w is MISS:
                return FALSE
            out = tm.band(out, tm.bnot(ip._when(w, MISS)), ip.eq(v, ip._without(w, MISS)))
        return out
    if isinstance(ca, (Comp, Model)) or isinstance(cb, (Comp, Model)):
        return tm.cbool(a is b)
    if isinstance(ca, Sym) and isinstance(cb, Sym):
        if ca.shape != cb.shape:
            return FALSE
        return tm.band(*[tm.eq(x, y) for x, y in zip(tm._flat(ca.data), tm._flat(cb.data))])
    if isinstance(ca, Arr) or isinstance(cb, Arr):
        return ip.truth(arr_eq(ip, a, b))
    if isinstance(ca, Itr) or isinstance(cb, Itr):
        return tm.cbool(a is b)
    return FALSE


def seq_eq(ip, x, y):
    if ct.all_items(x) and ct.all_items(y):
        if len(x) != len(y):
            return FALSE
        out = TRUE
        for p, q in zip(x, y):
            out = tm.band(out, ip.eq(p[1], q[1]))
            if out is FALSE:
                return FALSE
        return out
    le = ip.simp(tm.eq(ip.plen(x), ip.plen(y)))
    if le is FALSE:
        return FALSE
    z = ct.zip_pieces(ip, [x, y])
    return tm.band(le, tm.bnot(ct.fold_any(ip, z, lambda t: tm.bnot(ip.eq(t[0], t[1])))))


def arr_eq(ip, a, b):
    from . import lib_numpy
    ca = ip.get(a) if isinstance(a, Ref) else None
    cb = ip.get(b) if isinstance(b, Ref) else None
    return lib_numpy.binop(ip, "eq", a, ca, b, cb)


def arr_truth(ip, v):
    from . import lib_numpy
    s = lib_numpy.scalar(ip, v)
    if s is None:
        ip.raise_("ValueError", "The truth value of an array with more than one element is ambiguous")
    return ip.truth(s)


def arr_subst(ip, tree, mp):
    from . import lib_numpy
    return lib_numpy.tree_subst(ip, tree, mp)


# ------------------------------------------------------------------ subscription

def norm_index(ip, k, n, exc="IndexError"):
    """index into a sequence of length n, checked"""
    if isinstance(k, T) and k.isbool:
        k = tm.b2i(k)
    if not isinstance(k, T):
        k2 = ip.vsimp(k)
        if isinstance(k2, Ref) and isinstance(ip.get(k2), (Obj, Arr)):
            raise Unsupported("object used as index")
        ip.raise_("TypeError", "indices must be integers or slices")
    if not k.isint:
        ip.raise_("TypeError", "indices must be integers or slices")
    neg = ip.simp(tm.lt(k, ZERO))
    if neg is FALSE:
        ip.check(tm.lt(k, n), exc, "index out of range")
        return k
    if neg is TRUE:
        ip.check(tm.le(tm.neg(n), k), exc, "index out of range")
        return tm.add(k, n)
    ip.check(tm.band(tm.lt(k, n), tm.le(tm.neg(n), k)), exc, "index out of range")
    return tm.ite(neg, tm.add(k, n), k)


def getitem(ip, o, k):
    o = ip.vsimp(o)
    if isinstance(o, IteV):
        return ip.cond(o.c, lambda: getitem(ip, o.a, k), lambda: getitem(ip, o.b, k))
    k = ip.vsimp(k)
    if isinstance(k, IteV):
        return ip.cond(k.c, lambda: getitem(ip, o, k.a), lambda: getitem(ip, o, k.b))
    if isinstance(o, Ref):
        c = ip.get(o)
        if isinstance(c, Lst):
            if isinstance(k, SliceV):
                ip.note_log(o)
                return ip.new(Lst(ct.slice_pieces(ip, c.segs, k)))
            if isinstance(k, T) and k.op == "ite" and not ct.all_items(c.segs):
                return ip.cond(k.a[0], lambda: getitem(ip, o, k.a[1]), lambda: getitem(ip, o, k.a[2]))
            i = norm_index(ip, k, ip.plen(c.segs))
            ip.note_elem(o, i)
            if i.op == "ite":
                return ip.cond(i.a[0], lambda: ip.at(c.segs, i.a[1]), lambda: ip.at(c.segs, i.a[2]))
            return ip.at(c.segs, i)
        if isinstance(c, Dct):
            ct.hashable(ip, k)
            v = ip.vsimp(ct.dict_get(ip, o, k))
            if c.default is not None:
                w = ip.simp(ip._when(v, MISS))
                if w is FALSE:
                    return v
                if w is TRUE:
                    d = ip.call(c.default, [], {})
                    ct.dict_put(ip, o, k, d)
                    return d
                raise Unsupported("defaultdict with undecided key")
            return ip.strip(v, MISS, "KeyError", "key")
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__getitem__")
            if f is not None:
                return ip.call_method(f, o, [k], {})
            if nt_fields(c) is not None:
                return getitem(ip, tuple(c.attrs[x] for x in nt_fields(c)), k)
            ip.raise_("TypeError", "object is not subscriptable")
        if isinstance(c, Comp):
            from . import lib_pyomo
            return lib_pyomo.getitem(ip, o, c, k)
        if isinstance(c, Arr):
            from . import lib_numpy
            return lib_numpy.getitem(ip, o, c, k)
        if isinstance(c, Sym):
            from . import lib_sympy
            return lib_sympy.getitem(ip, o, c, k)
        ip.raise_("TypeError", "object is not subscriptable")
    if isinstance(o, (tuple, str)):
        if isinstance(k, SliceV):
            if all(x is None or isinstance(x, T) and x.op == "c" for x in (k.lo, k.hi, k.step)):
                return o[slice(*[None if x is None else int(x.a[0]) for x in (k.lo, k.hi, k.step)])]
            raise Unsupported("slice of a tuple")
        if isinstance(k, T) and k.isbool:
            k = tm.b2i(k)
        if isinstance(k, T) and k.op == "c":
            if not k.isint:
                ip.raise_("TypeError", "tuple indices must be integers")
            i = int(k.a[0])
            if not -len(o) <= i < len(o):
                ip.raise_("IndexError", "tuple index out of range")
            return o[i]
        i = norm_index(ip, k, tm.const(len(o)))
        v = o[-1]
        for j in reversed(range(len(o) - 1)):
            v = ip.mk_ite(tm.eq(i, tm.const(j)), o[j], v)
        return v
    if isinstance(o, RangeV):
        n = ct.range_len(ip, o)
        if isinstance(k, SliceV):
            lo, hi, st = ct.slice_bounds(ip, k, n)
            if st == 1:
                f = lambda i: tm.add(o.start, tm.mul(i, o.step))
                return RangeV(f(lo), f(hi), o.step)
            if st == -1:
                last = tm.add(o.start, tm.mul(tm.sub(n, ONE), o.step))
                return RangeV(last, tm.sub(o.start, o.step), tm.neg(o.step))
            raise Unsupported("strided range")
        i = norm_index(ip, k, n)
        return tm.add(o.start, tm.mul(i, o.step))
    if isinstance(o, ClassV):
        mem = enum_members(ip, o)
        if mem is not None and isinstance(k, str):
            for m in mem:
                if ip.get(m).attrs["name"] == k:
                    return m
            ip.raise_("KeyError")
        return o if o.builtin in ("tuple", "list", "dict", "set") and False else ExtV(f"{o.name}[]", {"kind": "type"})
    if isinstance(o, ExtV):
        return ExtV(f"{o.name}[{ct.str_key(k) if not isinstance(k, T) else tm.show(k)}]", {"owner": o, "item": k})
    if isinstance(o, StrV):
        raise Unsupported("index into a string")
    if isinstance(o, T) or o is None:
        ip.raise_("TypeError", "object is not subscriptable")
    ip.raise_("TypeError", "object is not subscriptable")


def setitem(ip, o, k, v):
    o = ip.vsimp(o)
    if isinstance(o, IteV):
        ip.branch2(o.c, lambda: setitem(ip, o.a, k, v), lambda: setitem(ip, o.b, k, v))
        return
    k = ip.vsimp(k)
    if isinstance(k, IteV):
        ip.branch2(k.c, lambda: setitem(ip, o, k.a, v), lambda: setitem(ip, o, k.b, v))
        return
    if isinstance(o, Ref):
        c = ip.get(o)
        if isinstance(c, Lst):
            if isinstance(k, SliceV):
                ip.note_log(o)
                if k.lo is None and k.hi is None and k.step is None:
                    ip.put(o, Lst(ip.iter(v)))
                    return
                raise Unsupported("slice assignment")
            i = norm_index(ip, k, ip.plen(c.segs))
            ip.note_elem(o, i)
            ip.put(o, Lst(list_set(ip, c.segs, i, v)))
            return
        if isinstance(c, Dct):
            ct.hashable(ip, k)
            ct.dict_put(ip, o, k, v)
            return
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__setitem__")
            if f is None:
                ip.raise_("TypeError", "object does not support item assignment")
            ip.call_method(f, o, [k, v], {})
            return
        if isinstance(c, Comp):
            from . import lib_pyomo
            lib_pyomo.setitem(ip, o, c, k, v)
            return
        if isinstance(c, Arr):
            from . import lib_numpy
            lib_numpy.setitem(ip, o, c, k, v)
            return
        if isinstance(c, Sym):
            from . import lib_sympy
            lib_sympy.setitem(ip, o, c, k, v)
            return
    if isinstance(o, ExtV):
        event(ip, "setitem", (o.name, k, v))
        return
    ip.raise_("TypeError", "object does not support item assignment")


def list_set(ip, segs, i, v):
    out = []
    off = ZERO
    done = False
    for j, p in enumerate(segs):
        ln = ip.plen((p,))
        end = tm.add(off, ln)
        if done:
            out.append(p)
            continue
        inside = ip.simp(tm.band(tm.le(off, i), tm.lt(i, end)))
        if inside is FALSE:
            out.append(p)
        elif p[0] == "i":
            if inside is TRUE:
                out.append(("i", v))
                done = True
            else:
                out.append(("i", ip.mk_ite(inside, v, p[1])))
        elif p[0] == "g" and len(p[3]) == 1 and p[3][0][0] == "i":
            _, b, n, sub = p
            hit = tm.eq(tm.add(off, b), i)
            out.append(("g", b, n, (("i", ip.mk_ite(hit, v, sub[0][1])),)))
            if inside is TRUE:
                done = True
        else:
            raise Unsupported("item assignment into a nested family")
        off = end
    return out


def delitem(ip, o, k):
    o = ip.vsimp(o)
    if isinstance(o, Ref):
        c = ip.get(o)
        if isinstance(c, Dct):
            v = ct.dict_get(ip, o, k)
            ip.check(tm.bnot(ip._when(v, MISS)), "KeyError")
            c = ip.get(o)
            ip.put(o, Dct(c.log + (("del", k),), c.default))
            return
        if isinstance(c, Lst):
            if isinstance(k, T):
                l_pop(ip, [o, k], {})
                return
            if isinstance(k, SliceV) and ct.all_items(c.segs):
                s = list(c.segs)
                del s[slice(*[None if x is None else int(x.a[0]) for x in (k.lo, k.hi, k.step)])]
                ip.note_log(o)
                ip.put(o, Lst(s))
                return
        if isinstance(c, Obj):
            f = ip.find(c.cls, "__delitem__")
            if f is not None:
                ip.call_method(f, o, [k], {})
                return
    raise Unsupported("del item")


# ------------------------------------------------------------------ with

def enter_context(ip, cm):
    if isinstance(cm, ExtV):
        if "enter" in cm.data:
            return cm.data["enter"]
        return cm
    return cm


def suppressed(ip, s, scope):
    import ast
    for item in s.items:
        e = item.context_expr
        if isinstance(e, ast.Call):
            f = ip.ev(e.func, scope)
            if isinstance(f, ExtV) and f.name.endswith("contextlib.suppress"):
                excs = [ip.ev(a, scope) for a in e.args]
                return lambda cls: any(isinstance(k, ClassV) and k.name in [m.name for m in cls.mro] for k in excs)
    return None


def lib_module(ip, name):
    from . import lib_std
    return lib_std.lib_module(ip, name)


def lib_attr(ip, m, name):
    from . import lib_std
    return lib_std.lib_attr(ip, m, name)


def lib_gettype(ip, name):
    return type_class(ip, name)
