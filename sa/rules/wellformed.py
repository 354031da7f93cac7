"""C36: every internal name, attribute and call is well-formed.

Two complementary analyses, both over the current sources:
 * a resolver over the syntax trees: names (symbol tables), imports, attributes of modules, of `self`, of
   classes and of receivers whose attribute exists nowhere, and binding of every resolvable call;
 * an abstract drive through every public operation, error and plotting paths included, in which any
   TypeError, NameError or AttributeError that is not raised deliberately is reported.
"""
from __future__ import annotations
import ast
import builtins
import functools
import json
import pathlib
import re
import symtable
from .. import terms as tm
from .. import numeval
from ..values import Unsupported, AbsRaise
from .base import Lab, Rep, Violated, sources, PKG, site
from .exercise import Drive, SCENARIOS

LIBS = json.loads((pathlib.Path(__file__).resolve().parents[1] / "libs.json").read_text())
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__class__"}
MODULE_ATTRS = {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__dict__"}
OBJECT = set(dir(object)) | {"__dict__", "__annotations__", "__module__", "__weakref__", "__dataclass_fields__", "__wrapped__",
                            "__slots__", "__match_args__", "__orig_bases__", "__abstractmethods__", "__name__", "__qualname__"}
TRANSPARENT = {"abstractmethod", "override", "lru_cache", "cache", "wraps", "final", "no_type_check", "runtime_checkable", "overload"}
ABSTRACT_BASES = {"ABC", "Protocol", "Generic", "object", "NamedTuple"}


class Fn:
    """signature of a function of the package"""

    def __init__(self, node, drop=0):
        a = node.args
        self.node = node
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.nd = len(a.defaults)
        self.kw = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.va, self.vk = a.vararg is not None, a.kwarg is not None
        self.drop = drop
        self.known = True

    def problem(self, call, drop=None):
        """why the call does not bind (None: it does, or that cannot be known)"""
        drop = self.drop if drop is None else drop
        pos = self.pos[drop:]
        req = pos[:max(0, len(self.pos) - self.nd - drop)]
        return bind(pos, self.kw, req, self.kwreq, self.va, self.vk, set(self.posonly), call)


def bind(pos, kwo, req, kwreq, va, vk, posonly, call):
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([a for a in call.args if not isinstance(a, ast.Starred)])
    return bind_to(pos, kwo, req, kwreq, va, vk, posonly, n, [k.arg for k in call.keywords if k.arg is not None], star, dstar)


def bind_to(pos, kwo, req, kwreq, va, vk, posonly, n, names, star=False, dstar=False):
    if n > len(pos) and not va:
        return f"takes {len(pos)} positional argument(s), {n} given"
    given = set(pos[:n])
    for k in names:
        if k in given and k not in posonly:
            return f"multiple values for argument {k!r}"
        if k not in pos and k not in kwo and not vk:
            return f"unexpected keyword argument {k!r}"
        if k in posonly and not vk:
            return f"positional-only argument {k!r} passed by keyword"
    if not star and not dstar:
        for p in req[n:]:
            if p not in names:
                return f"missing argument {p!r}"
    if not dstar:
        for p in kwreq:
            if p not in names:
                return f"missing keyword argument {p!r}"
    return None


class Cls:
    def __init__(self, node, mod, name):
        self.node, self.mod, self.name = node, mod, name
        self.methods, self.attrs, self.stores = {}, set(), set()
        self.bases, self.open, self.subs = [], False, []
        self.dataclass, self.fields, self.decorated = False, [], False
        self.props = set()

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo = todo + c.bases
        return out

    def family(self):
        """the class, its bases, its subclasses and their bases"""
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            for x in c.mro():
                if x not in out:
                    out.append(x)
            for s in c.subs:
                if s not in out:
                    todo.append(s)
        return out

    def has(self, name, wide=True):
        cs = self.family() if wide else self.mro()
        return any(name in c.attrs or name in c.stores or c.open for c in cs) or name in OBJECT

    def method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
            if name in c.attrs or name in c.stores or c.open:
                return None
        return None


class Mod:
    def __init__(self, name, path, text):
        self.name, self.path, self.text = name, path, text
        self.tree = ast.parse(text, path)
        self.table = symtable.symtable(text, path, "exec")
        self.names, self.imports, self.classes, self.funcs, self.star = set(), {}, {}, {}, False


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        return [e.id] + out[::-1]
    return None


class Resolver:
    def __init__(self, src):
        self.problems, self.counts = [], {"names": 0, "attributes": 0, "calls": 0, "imports": 0, "functions": 0}
        self.mods = {}
        for name, (path, text) in src.items():
            if name == PKG or name.startswith(PKG + "."):
                self.mods[name] = Mod(name, path, text)
        for m in self.mods.values():
            self.collect(m)
        for m in self.mods.values():
            self.link(m)
        self.universe = set(LIBS["attributes"])
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 200:
                    self.universe.update(re.findall(r"[A-Za-z_]\w*", n.value))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.universe.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    self.universe.add(n.name)
                elif isinstance(n, ast.keyword) and n.arg:
                    pass
            for c in m.classes.values():
                self.universe |= c.attrs | c.stores
        self.by_method = {}
        for m in self.mods.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.by_method.setdefault(n, []).append((c, f))

    def bad(self, m, node, msg):
        self.problems.append((f"{m.path}:{getattr(node, 'lineno', 0)}", msg))

    # ---- collection
    def collect(self, m):
        for s in m.table.get_symbols():
            if s.is_assigned() or s.is_imported() or s.is_namespace():
                m.names.add(s.get_name())
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.names.update(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imports(m, n)
        for n in m.tree.body:
            self.define(m, n)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.If) or isinstance(n, ast.Try):
                for b in ast.iter_child_nodes(n):
                    if n in m.tree.body:
                        self.define(m, b)

    def define(self, m, n):
        if isinstance(n, ast.FunctionDef):
            m.funcs[n.name] = None if n.name in m.funcs or self.opaque(n) else Fn(n)
        elif isinstance(n, ast.ClassDef):
            m.classes[n.name] = self.klass(m, n)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, ast.Lambda) and n.targets[0].id not in m.funcs:
                m.funcs[n.targets[0].id] = Fn(n.value)
            elif n.targets[0].id in m.funcs:
                m.funcs[n.targets[0].id] = None

    @staticmethod
    def opaque(n):
        return any((dotted(d.func if isinstance(d, ast.Call) else d) or ["?"])[-1] not in TRANSPARENT for d in n.decorator_list)

    def klass(self, m, n):
        c = Cls(n, m, n.name)
        for d in n.decorator_list:
            nm = (dotted(d.func if isinstance(d, ast.Call) else d) or ["?"])[-1]
            if nm == "dataclass":
                c.dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg in ("init",):
                            c.decorated = True
            elif nm not in TRANSPARENT and nm != "total_ordering":
                c.decorated = c.open = True
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                c.attrs.add(s.name)
                kind = "method"
                op = False
                for d in s.decorator_list:
                    nm = (dotted(d.func if isinstance(d, ast.Call) else d) or ["?"])[-1]
                    if nm in ("staticmethod", "classmethod"):
                        kind = nm
                    elif nm in ("property", "cached_property", "setter", "getter", "deleter"):
                        c.props.add(s.name)
                        op = True
                    elif nm not in TRANSPARENT:
                        op = True
                if not op and s.name not in c.methods:
                    c.methods[s.name] = Fn(s, 0 if kind == "staticmethod" else 1)
                else:
                    c.methods.pop(s.name, None)
                if s.name in ("__getattr__", "__getattribute__", "__setattr__"):
                    c.open = True
                first = (s.args.posonlyargs + s.args.args)[0].arg if s.args.posonlyargs + s.args.args and kind != "staticmethod" else None
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == first:
                        c.stores.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                        c.open = True
                    if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                        c.open = True
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attrs.add(s.target.id)
                if "ClassVar" not in ast.dump(s.annotation):
                    c.fields.append(s)
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        c.attrs.add(x.id)
        return c

    def link(self, m):
        for c in m.classes.values():
            for b in c.node.bases:
                b = b.value if isinstance(b, ast.Subscript) else b
                t = self.lookup(m, dotted(b)) if dotted(b) else None
                if isinstance(t, Cls):
                    c.bases.append(t)
                    t.subs.append(c)
                elif (dotted(b) or ["?"])[-1] in ABSTRACT_BASES:
                    if (dotted(b) or ["?"])[-1] == "NamedTuple":
                        c.open = c.decorated = True
                else:
                    c.open = c.decorated = True
            if c.node.keywords and any(k.arg != "metaclass" or (dotted(k.value) or ["?"])[-1] != "ABCMeta" for k in c.node.keywords):
                c.open = c.decorated = True

    def imports(self, m, n):
        self.counts["imports"] += 1
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    m.imports[a.asname] = ("mod", a.name)
                else:
                    m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                if a.name.split(".")[0] == PKG and a.name not in self.known_modules():
                    self.bad(m, n, f"there is no module {a.name}")
            return
        base = n.module or ""
        if n.level:
            parts = m.name.split(".")[:-n.level] if m.name != PKG else [PKG]
            base = ".".join(parts + ([n.module] if n.module else []))
        for a in n.names:
            if a.name == "*":
                m.star = True
                continue
            m.imports[a.asname or a.name] = ("from", base, a.name, n)

    def known_modules(self):
        return set(sources())

    # ---- resolution
    def module_has(self, name, attr):
        """True/False/None (unknown module)"""
        if name in self.mods:
            t = self.mods[name]
            return attr in t.names or attr in MODULE_ATTRS or f"{name}.{attr}" in self.known_modules() or t.star or "__getattr__" in t.names
        if name in LIBS["modules"]:
            return attr in LIBS["modules"][name] or f"{name}.{attr}" in LIBS["modules"] or attr in MODULE_ATTRS
        return None

    def lookup(self, m, parts, depth=0):
        """what a dotted name means: Cls | Fn | ('mod', name) | ('lib', dotted) | None"""
        if not parts or depth > 8:
            return None
        n = parts[0]
        if n in m.classes:
            t = m.classes[n]
        elif n in m.funcs:
            t = m.funcs[n]
        elif n in m.imports:
            i = m.imports[n]
            if i[0] == "mod":
                t = ("mod", i[1])
            else:
                sub = f"{i[1]}.{i[2]}"
                if i[1] in self.mods and i[2] in self.mods[i[1]].names:
                    t = self.lookup(self.mods[i[1]], [i[2]], depth + 1)
                elif sub in self.known_modules() or sub in LIBS["modules"]:
                    t = ("mod", sub)
                else:
                    t = ("lib", sub)
        else:
            return None
        for p in parts[1:]:
            if isinstance(t, tuple) and t[0] == "mod":
                nm = t[1]
                if nm in self.mods:
                    if p in self.mods[nm].names:
                        t = self.lookup(self.mods[nm], [p], depth + 1)
                    elif f"{nm}.{p}" in self.known_modules():
                        t = ("mod", f"{nm}.{p}")
                    else:
                        return None
                elif f"{nm}.{p}" in LIBS["modules"]:
                    t = ("mod", f"{nm}.{p}")
                else:
                    t = ("lib", f"{nm}.{p}")
            elif isinstance(t, Cls) and t.method(p):
                c, f = t.method(p)
                t = ("unbound", c, f)
            else:
                return None
        return t

    # ---- checks
    def run(self):
        for m in self.mods.values():
            self.check_imports(m)
            self.names(m, m.table)
            self.walk(m, m.tree, None, [], set())

    def check_imports(self, m):
        for name, i in m.imports.items():
            if i[0] == "from":
                if i[1].split(".")[0] == PKG and i[1] not in self.known_modules():
                    self.bad(m, i[3], f"there is no module {i[1]}")
                elif self.module_has(i[1], i[2]) is False:
                    self.bad(m, i[3], f"{i[1]} has no {i[2]!r}")

    def names(self, m, tab):
        for s in tab.get_symbols():
            if not s.is_referenced():
                continue
            self.counts["names"] += 1
            n = s.get_name()
            top = tab.get_type() == "module"
            glob = s.is_global() or (top and not s.is_assigned() and not s.is_imported() and not s.is_namespace())
            if not glob or m.star:
                continue
            if n not in m.names and n not in BUILTINS:
                line = self.use_line(m, n)
                self.problems.append((f"{m.path}:{line}", f"name {n!r} is not defined (in {tab.get_name()})"))
        for c in tab.get_children():
            if c.get_type() in ("function", "class", "module"):
                self.names(m, c)

    @staticmethod
    def use_line(m, n):
        return next((x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n), 0)

    def walk(self, m, node, cls, scopes, ann):
        """cls: (class, name of self, kind) for code inside methods; scopes: local names"""
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                for d in ch.decorator_list + ch.bases:
                    self.expr(m, d, cls, scopes)
                c = m.classes.get(ch.name) if node is m.tree else None
                for s in ch.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.function(m, s, c, scopes, True)
                    else:
                        self.expr(m, s, cls, scopes)
            elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.function(m, ch, None, scopes, False, cls)
            else:
                self.expr(m, ch, cls, scopes)

    def function(self, m, f, c, scopes, method, outer=None):
        self.counts["functions"] += 1
        for d in f.decorator_list + f.args.defaults + [x for x in f.args.kw_defaults if x]:
            self.expr(m, d, outer, scopes)
        a = f.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        loc, nested = set(params), {}
        bound = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)
                bound[x.id] = bound.get(x.id, 0) + 1
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
                loc.add(x.name)
                bound[x.name] = bound.get(x.name, 0) + 1
                if isinstance(x, ast.FunctionDef) and not self.opaque(x):
                    nested[x.name] = Fn(x)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                loc.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(x, ast.arg):
                loc.add(x.arg)
                if x.arg in nested or x.arg not in params:
                    bound[x.arg] = bound.get(x.arg, 0) + 1
        nested = {k: v for k, v in nested.items() if bound.get(k) == 1 and k not in params}
        me = outer
        if method:
            kind = "method"
            for d in f.decorator_list:
                nm = (dotted(d) or ["?"])[-1]
                if nm in ("staticmethod", "classmethod"):
                    kind = nm
            pos = [x.arg for x in a.posonlyargs + a.args]
            me = (c, pos[0] if pos and kind != "staticmethod" else None, kind) if c else None
        elif outer and outer[1] in params:
            me = None
        for s in f.body:
            self.expr(m, s, me, scopes + [(loc, nested)])

    def expr(self, m, node, cls, scopes):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.function(m, node, None, scopes, False, cls)
            return
        if isinstance(node, ast.ClassDef):
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.function(m, s, None, scopes, True)
                else:
                    self.expr(m, s, None, scopes)
            return
        if isinstance(node, ast.Attribute):
            self.attribute(m, node, cls, scopes)
        elif isinstance(node, ast.Call):
            self.call(m, node, cls, scopes)
        if isinstance(node, (ast.AnnAssign, ast.arg)) and node.annotation is not None:
            for ch in ast.iter_child_nodes(node):
                if ch is not node.annotation:
                    self.expr(m, ch, cls, scopes)
            self.expr(m, node.annotation, cls, scopes)
            return
        for ch in ast.iter_child_nodes(node):
            self.expr(m, ch, cls, scopes)

    def local(self, scopes, name):
        return any(name in s[0] for s in scopes)

    def attribute(self, m, n, cls, scopes):
        if not isinstance(n.ctx, ast.Load):
            return
        self.counts["attributes"] += 1
        d = dotted(n)
        if isinstance(n.value, ast.Name) and cls and n.value.id == cls[1]:
            c = cls[0]
            if not c.has(n.attr):
                self.bad(m, n, f"{c.name} has no attribute {n.attr!r}")
            return
        if d and not self.local(scopes, d[0]):
            base = self.lookup(m, d[:-1])
            if isinstance(base, tuple) and base[0] == "mod":
                if self.module_has(base[1], n.attr) is False:
                    self.bad(m, n, f"module {base[1]} has no attribute {n.attr!r}")
                return
            if isinstance(base, Cls):
                if not base.has(n.attr, False) and n.attr not in dir(type):
                    self.bad(m, n, f"class {base.name} has no attribute {n.attr!r}")
                return
        if n.attr not in self.universe and not (n.attr.startswith("__") and n.attr.endswith("__")):
            self.bad(m, n, f"no class of the package or of its libraries has an attribute {n.attr!r}")

    def call(self, m, n, cls, scopes):
        f = n.func
        if isinstance(f, ast.Name):
            for loc, nested in reversed(scopes):
                if f.id in nested:
                    self.bind(m, n, nested[f.id], f.id)
                    return
                if f.id in loc:
                    return
            if cls and f.id == "cls" and cls[1] == "cls":
                self.construct(m, n, cls[0])
                return
            self.target(m, n, self.lookup(m, [f.id]), f.id)
            return
        if not isinstance(f, ast.Attribute):
            return
        v = f.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls and cls[0]:
            c = cls[0]
            for b in c.mro()[1:]:
                if f.attr in b.methods:
                    self.bind(m, n, b.methods[f.attr], f"{b.name}.{f.attr}")
                    return
                if f.attr in b.attrs or b.open:
                    return
            if f.attr == "__init__":
                b = next((b for b in c.mro()[1:] if b.dataclass), None)
                if b:
                    self.construct(m, n, b)
                elif not any(x.open for x in c.mro()) and not c.node.bases == [] and c.bases and (n.args or n.keywords):
                    self.bad(m, n, "object.__init__ takes no arguments")
            elif not any(x.open for x in c.mro()) and f.attr not in OBJECT and c.bases:
                self.bad(m, n, f"no base class of {c.name} has a method {f.attr!r}")
            return
        if isinstance(v, ast.Name) and cls and v.id == cls[1] and cls[0]:
            c = cls[0]
            fs = [(x, x.methods[f.attr]) for x in c.family() if f.attr in x.methods]
            if any(f.attr in x.stores for x in c.family()) or any(f.attr in x.props for x in c.family()):
                return
            if fs and all(x.problem(n) for _, x in fs):
                self.counts["calls"] += 1
                self.bad(m, n, f"call of {fs[0][0].name}.{f.attr}: {fs[0][1].problem(n)}")
            elif fs:
                self.counts["calls"] += 1
            return
        d = dotted(f)
        if d and not self.local(scopes, d[0]):
            t = self.lookup(m, d)
            if t is not None:
                self.target(m, n, t, ".".join(d))
                return
            if isinstance(self.lookup(m, d[:-1]), (Cls, tuple)):
                return
        # receiver of unknown class: only methods that no library class has
        if f.attr in self.by_method and f.attr not in LIBS["attributes"]:
            cands = self.by_method[f.attr]
            if any(f.attr in c.stores or f.attr in c.props for mm in self.mods.values() for c in mm.classes.values()):
                return
            self.counts["calls"] += 1
            if all(x.problem(n) for _, x in cands):
                self.bad(m, n, f"call of {cands[0][0].name}.{f.attr}: {cands[0][1].problem(n)}")

    def target(self, m, n, t, name):
        if isinstance(t, Fn):
            self.bind(m, n, t, name)
        elif isinstance(t, Cls):
            self.construct(m, n, t)
        elif isinstance(t, tuple) and t[0] == "unbound":
            c, f = t[1], t[2]
            self.counts["calls"] += 1
            p = f.problem(n, 0 if f.drop else None)
            kind = {(dotted(d) or ["?"])[-1] for d in f.node.decorator_list}
            if "classmethod" in kind:
                p = f.problem(n, 1)
            if p:
                self.bad(m, n, f"call of {name}: {p}")
        elif isinstance(t, tuple) and t[0] == "lib" and t[1] in LIBS["signatures"]:
            pos, kw, req, va, vk, kwreq = LIBS["signatures"][t[1]]
            self.counts["calls"] += 1
            p = bind(pos, kw, pos[:req], kwreq, va, vk, set(), n)
            if p:
                self.bad(m, n, f"call of {t[1]}: {p}")

    def bind(self, m, n, f, name):
        self.counts["calls"] += 1
        p = f.problem(n)
        if p:
            self.bad(m, n, f"call of {name}: {p}")

    def construct(self, m, n, c):
        if any(x.decorated or x.open for x in c.mro()):
            return
        self.counts["calls"] += 1
        for x in c.mro():
            if "__new__" in x.attrs:
                return
            if "__init__" in x.methods:
                p = x.methods["__init__"].problem(n)
                if p:
                    self.bad(m, n, f"construction of {c.name}: {p}")
                return
            if "__init__" in x.attrs:
                return
            if x.dataclass:
                p = self.dataclass_problem(x, n)
                if p:
                    self.bad(m, n, f"construction of {c.name}: {p}")
                return
        if n.args or n.keywords:
            if not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                self.bad(m, n, f"{c.name}() takes no arguments")

    def dataclass_problem(self, c, call):
        fields = {}
        for x in reversed(c.mro()):
            if not x.dataclass:
                continue
            kwonly = any(isinstance(d, ast.Call) and any(k.arg == "kw_only" for k in d.keywords) for d in x.node.decorator_list)
            for s in x.fields:
                if "KW_ONLY" in ast.dump(s.annotation) or kwonly:
                    return None
                req = s.value is None
                if isinstance(s.value, ast.Call) and (dotted(s.value.func) or ["?"])[-1] == "field":
                    ks = {k.arg for k in s.value.keywords}
                    if "init" in ks or "kw_only" in ks:
                        return None
                    req = not ks & {"default", "default_factory"}
                fields[s.target.id] = req
        pos = list(fields)
        return bind(pos, [], [p for p in pos if fields[p]], [], False, False, set(), call)


ACCIDENTS = {"TypeError", "NameError", "AttributeError", "UnboundLocalError"}


def deliberate(trees, rec):
    """the exception comes from a raise statement of the source that names its class"""
    s = rec.site
    if not s or len(s) < 2:
        return True
    t = trees.get(s[0])
    if t is None:
        return True
    for n in ast.walk(t):
        if isinstance(n, ast.Raise) and n.lineno <= s[1] <= (n.end_lineno or n.lineno):
            if n.exc is None:
                return True
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            d = dotted(e)
            if d is None or d[-1] == rec.exc or d[-1] not in dir(builtins):
                return True
    return False


def library_call(name, args, kwargs):
    """why a call of a method of a plotting object cannot work"""
    o, _, n = name.rpartition(".")
    ms = LIBS["methods"].get(o)
    if ms is None:
        return None
    if n not in ms:
        return f"there is no {n!r} on {'an axis' if o == 'ax' else 'a figure' if o == 'fig' else o}"
    if ms[n] is None:
        return None
    pos, kw, req, va, vk, kwreq = ms[n]
    p = bind_to(pos, kw, pos[:req], kwreq, va, vk, set(), len(args), [k for k, _ in kwargs])
    return f"call of {name}: {p}" if p else None


def c36(rep: Rep):
    src = sources()
    with rep.ob("names, attributes, imports and call bindings (syntax trees)"):
        r = Resolver(src)
        r.run()
        for w, msg in dict.fromkeys(r.problems):
            rep.fail(msg, w)
        rep.fact(sum(r.counts.values()))
        rep.notes.append("resolver: " + ", ".join(f"{v} {k}" for k, v in r.counts.items()))
        for m in r.mods.values():
            rep.functions.setdefault(m.path, 0)
    trees = {p: ast.parse(t) for p, t in src.values()}
    for name, fn in SCENARIOS:
        with rep.ob(f"no accidental error: {name}"):
            seen = set()
            pos = [0]

            def after(lab, what, recs):
                rep.fact()
                segs = lab.ip.get(lab.ip.trace_ref).segs
                for x in segs[pos[0]:]:
                    if x[0] == "i" and x[1][0] == "ext":
                        p = library_call(*x[1][1:4])
                        if p and p not in seen:
                            seen.add(p)
                            rep.fail(f"{what}: {p}")
                pos[0] = len(segs)
                for x in recs:
                    if not set(x.names) & ACCIDENTS or x.cond is tm.FALSE or deliberate(trees, x):
                        continue
                    key = (x.exc, x.site)
                    if key in seen:
                        continue
                    if x.cond is not tm.TRUE and numeval.witness(x.cond) is None:
                        rep.notes.append(f"{what}: possible {x.exc} at {site(x.site)} not realised at any sample point")
                        continue
                    seen.add(key)
                    rep.fail(f"{what}: {x.exc} ({x.msg})", site(x.site))
            d = Drive(rep, None, after)
            lab = fn(d)
            lab.done()
            for s in d.skipped:
                rep.notes.append(f"{name}: not analysed: {s[:200]}")
            if len(d.skipped) > d.ran // 2:
                raise Unsupported(f"{len(d.skipped)} of {d.ran} operations could not be analysed: {d.skipped[0][:200]}")


RULES = {"C36": c36}
