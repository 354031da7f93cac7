"""Abstract values and heap contents of the interpreter."""
from __future__ import annotations
from . import terms as tm


class Unsupported(Exception):
    """the analysis cannot follow the program here (never a verdict)"""


class AbsRaise(Exception):
    """every path through the current abstract state raises"""

    def __init__(self, exc=None):
        super().__init__("abstract raise")
        self.exc = exc


class Sentinel:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNDEF = Sentinel("<undefined>")
NOTIMPL = Sentinel("NotImplemented")
ELLIPSIS = Sentinel("...")


class Ref:
    __slots__ = ("id",)
    _n = 0

    def __init__(self):
        Ref._n += 1
        self.id = Ref._n

    def __repr__(self):
        return f"<obj {self.id}>"


class IteV:
    """one of two values, by a boolean term"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"({self.a!r} if {self.c} else {self.b!r})"


class RangeV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return f"range({self.start},{self.stop},{self.step})"


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class StrV:
    """string not known as a constant; key identifies it up to value numbers"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "f" + repr("".join(p if isinstance(p, str) else "{" + repr(p) + "}" for p in self.parts))


class FuncV:
    __slots__ = ("node", "scope", "module", "name", "defaults", "kwdefaults", "owner", "is_gen", "qual", "attrs")

    def __init__(self, node, scope, module, name, defaults, kwdefaults, owner=None, is_gen=False, qual=None):
        self.node, self.scope, self.module, self.name = node, scope, module, name
        self.defaults, self.kwdefaults, self.owner, self.is_gen = defaults, kwdefaults, owner, is_gen
        self.qual = qual or name
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.module}.{self.qual}>"


class BoundV:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class BuiltinV:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class PartialV:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class ClassV:
    __slots__ = ("name", "bases", "attrs", "module", "dataclass", "frozen", "node", "mro", "builtin", "fields", "order_eq")

    def __init__(self, name, bases, attrs, module, node=None, builtin=None):
        self.name, self.bases, self.attrs, self.module, self.node = name, bases, attrs, module, node
        self.dataclass = False
        self.frozen = False
        self.builtin = builtin
        self.fields = []
        self.order_eq = True
        self.mro = _linearise(self)

    def __repr__(self):
        return f"<class {self.name}>"


def _linearise(c):
    # C3
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    return out


class ModuleV:
    __slots__ = ("name", "scope", "lib")

    def __init__(self, name, scope=None, lib=None):
        self.name, self.scope, self.lib = name, scope, lib

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV:
    """opaque value owned by an external library"""
    __slots__ = ("name", "key", "data")
    _n = 0

    def __init__(self, name, data=None):
        ExtV._n += 1
        self.name, self.key, self.data = name, ExtV._n, data or {}

    def __repr__(self):
        return f"<ext {self.name}>"


class PropertyV:
    __slots__ = ("fget", "fset", "cached")

    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class StaticV:
    __slots__ = ("fn", "cls")

    def __init__(self, fn, cls=False):
        self.fn, self.cls = fn, cls


class SuperV:
    __slots__ = ("owner", "self")

    def __init__(self, owner, self_):
        self.owner, self.self = owner, self_


# ---- heap contents (treated as immutable)

class Obj:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Scp:
    __slots__ = ("vars", "parent", "kind", "extra")

    def __init__(self, vars_, parent, kind="function", extra=None):
        self.vars, self.parent, self.kind, self.extra = vars_, parent, kind, extra


class Lst:
    """pieces: ('i', v) | ('g', b, n, pieces) | ('c', cond, pieces, pieces) | ('h', key, length) | ('d', pieces)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


class Itr:
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


class Dct:
    """entries: ('put', k, v) | ('del', k) | ('g', b, n, entries) | ('c', cond, entries, entries) | ('h', key, reader)"""
    __slots__ = ("log", "default")

    def __init__(self, log, default=None):
        self.log, self.default = tuple(log), default


class St:
    """entries: ('add', v) | ('rem', v) | g | c | h"""
    __slots__ = ("log", "frozen")

    def __init__(self, log, frozen=False):
        self.log, self.frozen = tuple(log), frozen


class Arr:
    """array tree: T leaf | ('const', (children)) | ('sym', n, b, child) ; writes: log like Dct keyed by index tuples"""
    __slots__ = ("tree", "log")

    def __init__(self, tree, log=()):
        self.tree, self.log = tree, tuple(log)


class Comp:
    """pyomo component: kind, index (list of pieces or None for scalars), log of ('put', (attr, key), v)"""
    __slots__ = ("kind", "index", "log", "info")

    def __init__(self, kind, index, log=(), info=None):
        self.kind, self.index, self.log, self.info = kind, index, tuple(log), info or {}


class Model:
    __slots__ = ("attrs", "order")

    def __init__(self, attrs):
        self.attrs = attrs




class Sym:
    """symbolic (sympy) container: nested tuples of terms with a shape"""
    __slots__ = ("kind", "data", "shape")

    def __init__(self, kind, data, shape):
        self.kind, self.data, self.shape = kind, data, shape


class Box:
    """single mutable cell of an opaque library object"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


LOGS = {Lst: "segs", Itr: "segs", Dct: "log", St: "log", Arr: "log", Comp: "log"}
