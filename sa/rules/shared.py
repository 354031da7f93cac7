"""C35: simulations are isolated and deterministic.

 * effect analysis of the syntax trees: reads of ambient state (randomness, clocks, environment, the
   current pyplot figure) whose value can reach anything but diagnostics, and writes to state shared
   between objects (module variables, classes, function attributes, default arguments, library settings),
   in every function that can be reached from a public one;
 * an abstract drive through every public operation in which everything reachable from module scopes,
   classes, default arguments and memo tables is compared before and after each operation;
 * two simulations built from equal inputs, one of them after everything else has run: the sequence of
   solver calls, the problems handed to the solver and the recorded steps are compared.
"""
from __future__ import annotations
import ast
import re
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref, ExtV
from .base import Lab, Rep, Violated, sources, PKG, site, show
from .exercise import Drive, SCENARIOS, has
from .scene import Scene
from .tensors import snap, _frozen, _pieces, freeze, changed
from .plots import mark
from . import steps as st

C = tm.const

AMBIENT = (
    "random.", "numpy.random.", "secrets.", "uuid.", "time.", "socket.", "platform.", "tempfile.", "getpass.", "resource.",
    "psutil.", "gc.", "inspect.", "os.environ", "os.getenv", "os.getpid", "os.urandom", "os.getcwd", "os.listdir", "os.scandir",
    "os.cpu_count", "os.getlogin", "os.times", "os.stat", "os.getloadavg", "sys.argv", "sys.flags", "sys.stdin", "sys.getsizeof",
    "threading.get_ident", "threading.current_thread", "multiprocessing.current_process", "multiprocessing.cpu_count",
    "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "pathlib.Path.cwd",
    "pathlib.Path.home", "locale.getlocale", "glob.", "pickle.load", "json.load", "numpy.load", "numpy.loadtxt", "numpy.genfromtxt",
    "numpy.fromfile", "shelve.", "sqlite3.", "urllib.", "numpy.empty", "os.path.getmtime", "os.path.getsize", "numpy.geterr",
    "matplotlib.rcParams", "matplotlib.pyplot.rcParams")
NOT_AMBIENT = ("time.sleep", "random.Random", "numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState",
               "numpy.random.SeedSequence", "inspect.signature", "time.struct_time", "uuid.UUID", "uuid.uuid3", "uuid.uuid5", "gc.collect",
               "numpy.empty", "numpy.empty_like", "random.Random.", "time.strftime", "platform.python_version")
AMBIENT_BUILTINS = {"input"}
# the current figure or axes of pyplot, unless the function itself has made one before
CURRENT = {"gca", "gcf", "plot", "scatter", "savefig", "title", "xlabel", "ylabel", "xlim", "ylim", "axis", "tripcolor", "triplot",
           "tricontourf", "colorbar", "legend", "axes", "subplot", "imshow", "contour", "contourf", "fill", "axhline", "axvline",
           "clf", "cla", "sca", "sci", "gci", "show", "text", "arrow", "tight_layout", "suptitle", "xticks", "yticks", "quiver"}
GLOBAL_CALLS = (
    "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "numpy.seterr", "numpy.set_printoptions",
    "numpy.seterrcall", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcdefaults", "matplotlib.rcdefaults",
    "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.use", "matplotlib.pyplot.switch_backend",
    "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "os.chdir", "os.putenv", "os.unsetenv", "os.umask", "sys.setrecursionlimit",
    "sys.path.append", "sys.path.insert", "locale.setlocale", "signal.signal", "decimal.setcontext", "warnings.filterwarnings",
    "warnings.simplefilter", "atexit.register", "gc.disable", "sympy.init_printing")
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
            "discard", "appendleft", "popleft", "extendleft", "rotate", "difference_update", "intersection_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "fill", "put", "itemset", "resize", "partition"}
SINKS = re.compile(r"^(print|warnings\.warn|logging\..*|(.*\.)?_?(logger|log|LOG|LOGGER|_log)\.\w+|sys\.std(out|err)\.\w+|tqdm.*\.write"
                   r"|.*\.set_(description|postfix)(_str)?|time\.sleep)$")
CONTAINERS = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {"list", "dict", "set", "bytearray", "collections.defaultdict", "collections.deque", "collections.Counter",
          "collections.OrderedDict", "numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.eye",
          "numpy.arange", "numpy.linspace", "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"}


def chain(e):
    """names along a chain of attributes, items and calls, from its root; None when not rooted at a name"""
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call, ast.Starred)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e if isinstance(e, ast.Name) else None


def own(fn):
    """nodes of a function without those of nested functions and classes"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo.append(c)


class Fun:
    def __init__(self, node, mod, cls, outer, qual):
        self.node, self.mod, self.cls, self.outer, self.qual = node, mod, cls, outer, qual
        a = node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])
        self.params = [p.arg for p in ps]
        self.globals, self.nonlocals, self.locals = set(), set(), set(self.params)
        for n in own(node):
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals.update((x.asname or x.name).split(".")[0] for x in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        for n in ast.iter_child_nodes(node):
            pass
        for n in node.body:
            for x in ast.walk(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.locals.add(x.name)
        self.locals -= self.globals | self.nonlocals
        self.decorators = {d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "" for d in node.decorator_list}
        self.imports = {}
        for n in own(node):
            self.imports.update(imports(n, mod.name))

    def is_local(self, name):
        f = self
        while f is not None:
            if name in f.locals and name not in f.imports:
                return True
            if name in f.globals:
                return False
            f = f.outer
        return False

    def alias(self, name):
        f = self
        while f is not None:
            if name in f.imports:
                return f.imports[name]
            if name in f.locals:
                return None
            f = f.outer
        return self.mod.imports.get(name)


def imports(n, modname):
    out = {}
    if isinstance(n, ast.Import):
        for x in n.names:
            out[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
    elif isinstance(n, ast.ImportFrom):
        base = n.module or ""
        if n.level:
            parts = modname.split(".")
            base = ".".join(parts[:len(parts) - n.level] + ([n.module] if n.module else []))
        for x in n.names:
            out[x.asname or x.name] = f"{base}.{x.name}"
    return out


class Mod:
    def __init__(self, name, path, text):
        self.name, self.path = name, path
        self.tree = ast.parse(text, path)
        self.imports, self.vars, self.containers, self.classes, self.funs = {}, set(), set(), {}, []
        for n in module_level(self.tree):
            self.imports.update(imports(n, name))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.vars.add(n.id)
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and self.container(n.value):
                        self.containers.add(t.id)
        self.collect(self.tree, None, None, "")

    def container(self, e):
        if isinstance(e, CONTAINERS):
            return True
        if isinstance(e, ast.Call):
            d = self.name_of(e.func)
            return d in MAKERS
        return False

    def name_of(self, e, fun=None):
        """dotted name with import aliases resolved"""
        out = []
        while isinstance(e, ast.Attribute):
            out.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        if fun is not None:
            if fun.is_local(e.id):
                return ".".join([e.id] + out[::-1]) if not out else None
            base = fun.alias(e.id)
        else:
            base = self.imports.get(e.id)
        return ".".join([base or e.id] + out[::-1])

    def collect(self, node, cls, outer, q):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fun(n, self, cls, outer, q + n.name)
                self.funs.append(f)
                for s in n.body:
                    self.collect_in(s, None, f, q + n.name + ".")
            elif isinstance(n, ast.ClassDef):
                if outer is None and cls is None:
                    self.classes[n.name] = n
                self.collect(n, n, outer, q + n.name + ".")
            elif not isinstance(n, ast.Lambda):
                self.collect(n, cls, outer, q)

    def collect_in(self, s, cls, outer, q):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.collect(ast.Module([s], []), cls, outer, q)
        else:
            self.collect(s, cls, outer, q)


def module_level(tree):
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp)):
                todo.append(c)


class Effects:
    def __init__(self, src):
        self.mods = {n: Mod(n, p, t) for n, (p, t) in src.items() if n == PKG or n.startswith(PKG + ".")}
        self.problems, self.memos, self.seen = [], set(), 0
        self.calls = 0
        self.reads = self.stores = 0
        self.live = self.reachable()

    def at(self, m, n, f=None):
        return f"{m.path}:{n.lineno}" + (f" ({f.qual})" if f else "")

    def report(self, m, n, f, msg):
        p = (self.at(m, n, f), msg)
        if p not in self.problems:
            self.problems.append(p)

    def reachable(self):
        """functions that a public operation may run: public ones, special methods, and what those mention"""
        funs = [f for m in self.mods.values() for f in m.funs]
        used = {}
        for f in funs:
            s = used[f] = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name):
                    s.add(n.id)
                elif isinstance(n, ast.Attribute):
                    s.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    s.add(n.value)
        top = set()
        for m in self.mods.values():
            for n in module_level(m.tree):
                for x in ast.walk(n) if isinstance(n, (ast.stmt, ast.expr)) and not isinstance(
                        n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.Name):
                        top.add(x.id)
                    elif isinstance(x, ast.Attribute):
                        top.add(x.attr)
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    for b in c.body:
                        if not isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            top |= {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}

        def public(f):
            n = f.node.name
            return not n.startswith("_") or (n.startswith("__") and n.endswith("__")) or n in top
        live = {f for f in funs if public(f)}
        grown = True
        while grown:
            names = set().union(*(used[f] for f in live)) if live else set()
            more = {f for f in funs if f not in live and (f.node.name in names or f.outer in live)}
            grown = bool(more)
            live |= more
        return live

    def run(self):
        for m in self.mods.values():
            for f in m.funs:
                self.seen += 1
                if f in self.live:
                    self.function(m, f)
        self.ambient()
        self.class_state()
        return self

    # ---- ambient reads
    def is_ambient(self, m, f, n):
        """name of the ambient source an expression node reads"""
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load):
            d = m.name_of(n, f)
            if d is None:
                return None
            if isinstance(n, ast.Name) and n.id in AMBIENT_BUILTINS and d == n.id and not (f and f.is_local(n.id)):
                return d
            base = n
            while isinstance(base, ast.Attribute):
                base = base.value
            imported = (f.alias(base.id) if f else m.imports.get(base.id)) is not None
            if not imported:
                return None
            for a in NOT_AMBIENT:
                if d == a or (a.endswith(".") and d.startswith(a)):
                    return None
            for a in AMBIENT:
                if (a.endswith(".") and d.startswith(a)) or d == a or d.startswith(a + "."):
                    return d
        return None

    def ambient(self):
        """values of ambient sources must only reach diagnostics"""
        attrs, funcs = set(), set()
        units = [(m, f, f.node) for m in self.mods.values() for f in m.funs if f in self.live]
        changed = True
        rounds = 0
        found = []
        while changed and rounds < 6:
            rounds += 1
            changed = False
            found = []
            for m, f, node in units:
                local = set()

                def source(e):
                    for n in ast.walk(e):
                        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not e:
                            continue
                        a = self.is_ambient(m, f, n)
                        if a:
                            return a, n
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local:
                            return f"{n.id} (from an ambient source)", n
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in attrs:
                            return f"{n.attr} (from an ambient source)", n
                        if isinstance(n, ast.Call) and not isinstance(n.func, ast.Call):
                            nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", None)
                            if nm in funcs:
                                return f"{nm}() (from an ambient source)", n
                        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and not n.args and not n.keywords \
                                and m.name_of(n.func, f) in ("random.Random", "numpy.random.default_rng", "numpy.random.RandomState",
                                                             "random.SystemRandom"):
                            return m.name_of(n.func, f), n
                    return None

                def stmts(body, quiet):
                    nonlocal changed
                    for s in body:
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                            continue
                        self.reads += 1
                        if isinstance(s, (ast.If, ast.While)):
                            x = source(s.test)
                            if x and not (only_sinks(s.body) and only_sinks(s.orelse)):
                                found.append((m, f, x[1], f"the branch taken depends on {x[0]}"))
                            stmts(s.body, quiet), stmts(s.orelse, quiet)
                        elif isinstance(s, (ast.For, ast.AsyncFor)):
                            x = source(s.iter)
                            if x:
                                found.append((m, f, x[1], f"the loop depends on {x[0]}"))
                            stmts(s.body, quiet), stmts(s.orelse, quiet)
                        elif isinstance(s, (ast.With, ast.AsyncWith)):
                            for i in s.items:
                                x = source(i.context_expr)
                                if x:
                                    found.append((m, f, x[1], f"depends on {x[0]}"))
                            stmts(s.body, quiet)
                        elif isinstance(s, ast.Try):
                            stmts(s.body, quiet), stmts(s.orelse, quiet), stmts(s.finalbody, quiet)
                            for h in s.handlers:
                                stmts(h.body, quiet)
                        elif isinstance(s, ast.Match):
                            x = source(s.subject)
                            if x:
                                found.append((m, f, x[1], f"the branch taken depends on {x[0]}"))
                            for c in s.cases:
                                stmts(c.body, quiet)
                        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                            x = source(s.value) if s.value is not None else None
                            if not x:
                                continue
                            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                                for leaf in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                                    if isinstance(leaf, ast.Name) and f.is_local(leaf.id):
                                        if leaf.id not in local:
                                            local.add(leaf.id)
                                            changed = True if rounds == 1 else changed
                                    elif isinstance(leaf, ast.Attribute) and leaf.attr.startswith("_") and chain(leaf) is not None \
                                            and chain(leaf).id == "self":
                                        if leaf.attr not in attrs:
                                            attrs.add(leaf.attr)
                                            changed = True
                                    else:
                                        found.append((m, f, x[1], f"{x[0]} is stored"))
                        elif isinstance(s, ast.Return):
                            x = source(s.value) if s.value is not None else None
                            if x:
                                if f.node.name.startswith("_") and not f.node.name.startswith("__"):
                                    if f.node.name not in funcs:
                                        funcs.add(f.node.name)
                                        changed = True
                                else:
                                    found.append((m, f, x[1], f"the result depends on {x[0]}"))
                        elif isinstance(s, ast.Expr) and self.sink(m, f, s.value):
                            continue
                        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
                            continue
                        else:
                            x = source(s)
                            if x:
                                found.append((m, f, x[1], f"uses {x[0]}"))

                def only_sinks(body):
                    return all(isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and self.sink(m, f, s.value)) for s in body)
                for _ in range(3):
                    k = len(local)
                    stmts(node.body, False)
                    if len(local) == k:
                        break
        for m, f, n, msg in found:
            self.report(m, n, f, msg)
        # module and class level code, default arguments
        for m in self.mods.values():
            inside = {id(x) for f in m.funs for s in f.node.body for x in ast.walk(s)}
            for n in ast.walk(m.tree):
                if id(n) in inside:
                    continue
                a = self.is_ambient(m, None, n)
                if a:
                    self.report(m, n, None, f"code run at import time reads {a}")
                if isinstance(n, ast.Call) and not n.args and not n.keywords and m.name_of(n.func) in (
                        "random.Random", "numpy.random.default_rng", "numpy.random.RandomState"):
                    self.report(m, n, None, f"{m.name_of(n.func)}() without a seed")

    def sink(self, m, f, e):
        if not isinstance(e, ast.Call):
            return isinstance(e, (ast.Constant, ast.Name))
        out = []
        x = e.func
        while isinstance(x, ast.Attribute):
            out.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return False
        raw = ".".join([x.id] + out[::-1])
        return bool(SINKS.match(raw) or SINKS.match(m.name_of(e.func, f) or ""))

    # ---- writes
    def shared_root(self, m, f, e):
        """description of the shared object an expression is rooted at (None: an object of its own)"""
        depth = 0
        x = e
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            if isinstance(x, ast.Attribute) and x.attr == "__class__":
                return "a class (through __class__)"
            if isinstance(x, ast.Attribute) and x.attr in ("__defaults__", "__kwdefaults__"):
                return "default arguments"
            x = x.value
            depth += 1
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Name) and x.func.id == "type" and len(x.args) == 1:
                return "a class (through type())"
            if isinstance(x.func, ast.Name) and x.func.id in ("globals", "vars") and not x.args:
                return "the module's variables"
            return None
        if not isinstance(x, ast.Name):
            return None
        if x.id == "cls" and "classmethod" in f.decorators:
            return "the class"
        if f.is_local(x.id):
            # a local name bound to nothing but a shared object
            vs = self.bindings(f, x.id)
            if vs and x.id not in f.params:
                roots = [self.shared_value(m, f, v) for v in vs]
                if all(roots) and roots:
                    return roots[0]
            return None
        al = f.alias(x.id)
        if al is not None:
            if al.startswith(PKG + "."):
                return f"{al} (shared by all objects)"
            return f"the library state {al}"
        if x.id in m.vars or x.id in m.classes or any(g.node.name == x.id and g.outer is None and g.cls is None for g in m.funs):
            return f"the module-level {x.id}"
        return None

    def bindings(self, f, name):
        out = []
        for n in own(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                out.append(n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name:
                out.append(n.value)
            elif isinstance(n, (ast.For, ast.With, ast.comprehension, ast.AugAssign, ast.ExceptHandler, ast.Tuple)):
                tg = getattr(n, "target", None)
                if tg is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(tg)):
                    return []
        return [v for v in out if v is not None]

    def shared_value(self, m, f, v):
        """does the expression denote a shared container or module itself (not something made from it)?"""
        if isinstance(v, ast.Name) and not f.is_local(v.id):
            if v.id in m.containers or v.id in m.classes:
                return f"the module-level {v.id}"
            return None
        if isinstance(v, ast.Attribute) and v.attr == "__class__":
            return "a class (through __class__)"
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" and len(v.args) == 1:
            return "a class (through type())"
        if isinstance(v, ast.Attribute):
            d = m.name_of(v, f)
            if d and d.startswith("matplotlib") and d.endswith("rcParams"):
                return "the library state " + d
        return None

    def memo(self, m, f, target, value):
        """TABLE[key] = value in which the value is determined by the names that make up the key"""
        if not (isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name)):
            return False
        k = target.slice
        keys = set()
        for _ in range(4):
            if isinstance(k, ast.Name) and f.is_local(k.id) and k.id not in f.params:
                vs = self.bindings(f, k.id)
                if len(vs) == 1:
                    k = vs[0]
                    continue
            break
        for e in (k.elts if isinstance(k, ast.Tuple) else [k]):
            if not isinstance(e, ast.Name):
                return False
            keys.add(e.id)
        todo, done = [value], set()
        while todo:
            e = todo.pop()
            if isinstance(e, ast.Name):
                if e.id in keys or e.id in done or not f.is_local(e.id):
                    continue
                done.add(e.id)
                if e.id in f.params:
                    return False
                vs = self.bindings(f, e.id)
                if not vs:
                    bound = any(isinstance(g, ast.comprehension) and any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(g.target))
                                for g in ast.walk(f.node))
                    if not bound:
                        return False
                todo += vs
            else:
                todo += list(ast.iter_child_nodes(e))
        self.memos.add((m.name, target.value.id))
        return True

    def lazy(self, m, f, name, value):
        """global X; X = <constant expression> - made once, the same for everyone"""
        for n in ast.walk(value):
            if isinstance(n, ast.Name) and f.is_local(n.id):
                bound = any(isinstance(g, ast.comprehension) and any(isinstance(t, ast.Name) and t.id == n.id for t in ast.walk(g.target))
                            for g in ast.walk(value))
                if not bound:
                    return False
            if isinstance(n, ast.Name) and n.id == name:
                return False
        self.memos.add((m.name, name))
        return True

    def function(self, m, f):
        made = [n.lineno for n in own(f.node) if isinstance(n, ast.Call)
                and m.name_of(n.func, f) in ("matplotlib.pyplot.subplots", "matplotlib.pyplot.figure", "matplotlib.pyplot.subplot_mosaic")]
        for n in own(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and not (isinstance(n, ast.AnnAssign) and n.value is None):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for leaf in leaves(t):
                        self.store(m, f, n, leaf, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for leaf in leaves(n.target):
                    self.store(m, f, n, leaf, n.iter)
            elif isinstance(n, ast.NamedExpr):
                self.store(m, f, n, n.target, n.value)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    self.store(m, f, n, t, None)
            elif isinstance(n, ast.Call):
                self.calls += 1
                self.call(m, f, n, made)
        self.defaults(m, f)

    def store(self, m, f, n, t, value):
        self.stores += 1
        if isinstance(t, ast.Name):
            if t.id in f.globals and not (value is not None and not isinstance(n, ast.AugAssign) and self.lazy(m, f, t.id, value)):
                self.report(m, n, f, f"writes the module variable {t.id}")
            elif isinstance(n, ast.AugAssign) and f.is_local(t.id) and t.id not in f.params:
                vs = [v for v in self.bindings(f, t.id)]
                r = [self.shared_value(m, f, v) for v in vs]
                if r and all(r):
                    self.report(m, n, f, f"changes {r[0]} in place")
            return
        if not isinstance(t, (ast.Attribute, ast.Subscript)):
            return
        r = self.shared_root(m, f, t)
        if r and not (value is not None and not isinstance(n, ast.AugAssign) and self.memo(m, f, t, value)):
            self.report(m, n, f, f"writes to {r}: {ast.unparse(t)}")

    def call(self, m, f, n, made):
        d = m.name_of(n.func, f)
        if d is not None:
            base = n.func
            while isinstance(base, ast.Attribute):
                base = base.value
            if f.alias(base.id) is not None:
                if d in GLOBAL_CALLS and not self.in_context(f, n):
                    self.report(m, n, f, f"changes process-wide state: {d}()")
                if d.startswith("matplotlib.pyplot.") and d.split(".")[-1] in CURRENT and not any(k <= n.lineno for k in made):
                    self.report(m, n, f, f"{d}() acts on whatever figure is current")
        if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and not f.is_local(n.func.id) and n.args:
            r = self.shared_root(m, f, ast.Attribute(value=n.args[0], attr="x", ctx=ast.Store()))
            if r:
                self.report(m, n, f, f"{n.func.id} on {r}")
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            x = n.func.value
            r = self.shared_root(m, f, x) if not isinstance(x, ast.Name) or not f.is_local(x.id) else None
            if isinstance(x, ast.Name) and f.is_local(x.id) and x.id not in f.params:
                vs = [self.shared_value(m, f, v) for v in self.bindings(f, x.id)]
                r = vs[0] if vs and all(vs) else None
            elif isinstance(x, ast.Name):
                al = f.alias(x.id)
                inner = x.id in m.containers or (al and self.is_container(al))
                r = r if inner else None
            elif r and "library" in r:
                r = r if ("rcParams" in ast.unparse(x) or (m.name_of(x, f) or "") in ("os.environ", "sys.path", "sys.modules")) else None
            if r:
                if n.func.attr == "setdefault" and len(n.args) == 2 and self.memo(
                        m, f, ast.Subscript(value=x, slice=n.args[0], ctx=ast.Store()), n.args[1]):
                    return
                self.report(m, n, f, f"{n.func.attr}() changes {r}")

    def is_container(self, dotted):
        mod, _, name = dotted.rpartition(".")
        return mod in self.mods and name in self.mods[mod].containers

    def in_context(self, f, n):
        for w in own(f.node):
            if isinstance(w, ast.With) and any(x is n for x in ast.walk(w)):
                if any(re.search(r"catch_warnings|rc_context|errstate|printoptions|style\.context", ast.unparse(i.context_expr)) for i in w.items):
                    return True
        return False

    def defaults(self, m, f):
        a = f.node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            if not m.container(d):
                continue
            name = p.arg
            for n in own(f.node):
                bad = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                        and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                    bad = f"{n.func.attr}()"
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                            bad = "item assignment"
                        if isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id == name:
                            bad = "in-place operator"
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and self.attr_mutated(t.attr):
                                self.report(m, n, f, f"the default argument {name} is kept in .{t.attr}, which is changed in place")
                if bad:
                    self.report(m, n, f, f"the default argument {name} is changed in place by {bad}")

    def attr_mutated(self, attr):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                        and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == attr:
                    return True
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]):
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == attr:
                            return True
                        if isinstance(n, ast.AugAssign) and isinstance(t, ast.Attribute) and t.attr == attr:
                            return True
        return False

    def class_state(self):
        """mutable class attributes changed through an instance"""
        for m in self.mods.values():
            for c in m.classes.values():
                if any("dataclass" in ast.unparse(d) for d in c.decorator_list):
                    continue
                own_attrs = {}
                for s in c.body:
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and m.container(s.value):
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            if isinstance(t, ast.Name):
                                own_attrs[t.id] = s
                for name in own_attrs:
                    assigned = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                                   and isinstance(n.value, ast.Name) and n.value.id == "self"
                                   for mm in self.mods.values() for n in ast.walk(mm.tree)
                                   if not self.aug_target(mm, n))
                    if not assigned and self.attr_mutated(name):
                        self.report(m, own_attrs[name], None, f"{c.name}.{name} is shared by all instances and changed in place")

    def aug_target(self, m, n):
        if not hasattr(m, "augs"):
            m.augs = {id(x.target) for x in ast.walk(m.tree) if isinstance(x, ast.AugAssign)}
        return id(n) in m.augs


def leaves(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from leaves(x)
    elif isinstance(t, ast.Starred):
        yield from leaves(t.value)
    else:
        yield t


# ------------------------------------------------------------------ abstract part

def shared_reach(lab, memos=()):
    """heap objects and function attributes reachable without any instance made by the operations:
    module variables, class attributes, default arguments, closures and memo tables"""
    ip = lab.ip
    refs, names = {}, {}
    seen = set()

    def go(v, why):
        if isinstance(v, tuple):
            for x in v:
                go(x, why)
            return
        if isinstance(v, va.IteV):
            go(v.a, why), go(v.b, why)
            return
        if isinstance(v, va.FuncV):
            if id(v) in seen:
                return
            seen.add(id(v))
            w = f"{v.module}.{v.qual}"
            for d in tuple(v.defaults or ()) + tuple((v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or ()):
                go(d, f"default argument of {w}")
            if isinstance(v.scope, Ref):
                go(v.scope, f"variables of {w}")
            for x in (v.attrs.values() if isinstance(v.attrs, dict) else ()):
                go(x, f"attribute of {w}")
            return
        if isinstance(v, va.ClassV):
            if id(v) in seen or not (v.module or "").startswith(PKG):
                return
            seen.add(id(v))
            for b in v.bases:
                go(b, why)
            if isinstance(v.attrs, Ref):
                go(v.attrs, f"class {v.name}")
            return
        if isinstance(v, (va.PropertyV,)):
            go(v.fget, why), go(v.fset, why)
            return
        if isinstance(v, va.StaticV):
            go(v.fn, why)
            return
        if isinstance(v, va.BoundV):
            go(v.fn, why), go(v.self, why)
            return
        if isinstance(v, va.PartialV):
            go(v.fn, why), go(tuple(v.args), why)
            return
        if isinstance(v, va.BuiltinV):
            box = getattr(v.fn, "__closure__", None)
            if v.name == "lru" and box:
                for c in box:
                    if isinstance(c.cell_contents, Ref):
                        b = ip.get(c.cell_contents)
                        if isinstance(b, va.Box):
                            go(b.v[1], why)
                            for key, r in b.v[2]:
                                go(r, f"cached results of {show(b.v[1])}")
            return
        if isinstance(v, Ref) and v not in refs:
            c = ip.get(v)
            if isinstance(c, va.Scp):
                vs = {k: x for k, x in c.vars.items() if (why, k) not in memos and not k.startswith("__")}
                refs[v] = (why, c)
                names[v] = vs
                for k, x in vs.items():
                    go(x, f"{why}: {k}" if not isinstance(x, (va.FuncV, va.ClassV)) else why)
                if isinstance(c.parent, Ref):
                    go(c.parent, why)
                return
            refs[v] = (why, c)
            if isinstance(c, va.Obj):
                for k, x in c.attrs.items():
                    go(x, f"{why}.{k}")
            elif isinstance(c, (va.Lst, va.Itr, va.Dct, va.St)):
                out = set()
                _pieces(lab, c.segs if isinstance(c, (va.Lst, va.Itr)) else c.log, out)
                for r in out:
                    if r not in refs:
                        refs[r] = (why, ip.get(r))
    for name, m in list(ip.modules.items()):
        if name.startswith(PKG) and isinstance(m, va.ModuleV) and isinstance(m.scope, Ref):
            go(m.scope, name)
    return refs, names


class Watch:
    """compares the shared state before and after every operation"""

    def __init__(self, rep, memos):
        self.rep, self.memos = rep, memos
        self.labs = {}
        self.seen = set()
        self.ops = self.size = 0

    def start(self, lab):
        for name in list(lab.ip.sources):
            if name.startswith(PKG):
                lab.ip.module(name)
        self.take(lab)

    def take(self, lab):
        refs, names = shared_reach(lab, self.memos)
        self.labs[id(lab)] = (lab, refs, names, self.impure(lab))
        self.size = max(self.size, len(refs))

    def impure(self, lab):
        return len(lab.ip.get(lab.ip.trace_ref).segs)

    def after(self, lab, what, recs):
        rep, ip = self.rep, lab.ip
        self.ops += 1
        rep.fact()
        if id(lab) not in self.labs:
            return
        _, refs, names, pos = self.labs[id(lab)]
        hit = False
        for r, (why, c) in refs.items():
            now = ip.get(r)
            if now is c:
                continue
            if isinstance(c, va.Scp):
                ks = [k for k in set(now.vars) | set(names[r]) if (why, k) not in self.memos and not k.startswith("__")
                      and now.vars.get(k) is not names[r].get(k) and now.vars.get(k) != names[r].get(k)]
                ks = [k for k in ks if not (k not in names[r] and isinstance(now.vars[k], va.ModuleV))]
                if not ks:
                    continue
                msg = f"{what} writes {', '.join(sorted(ks))} ({why})"
            elif _frozen(now) == _frozen(c):
                continue
            else:
                msg = f"{what} changes an object shared by everyone: {why}"
            hit = True
            if (why, msg) not in self.seen:
                self.seen.add((why, msg))
                rep.fail(msg)
        segs = ip.get(ip.trace_ref).segs
        for x in segs[pos:]:
            if x[0] == "i" and x[1][0] == "setattr" and isinstance(x[1][1][0], str):
                m = f"{what} sets {x[1][1][1]} of the module {x[1][1][0]}"
                if m not in self.seen:
                    self.seen.add(m)
                    rep.fail(m)
        if hit:
            self.take(lab)
        else:
            # cached results become shared state as soon as they are there
            n = sum(1 for r in refs)
            new, nn = shared_reach(lab, self.memos)
            for r, x in new.items():
                if r not in refs:
                    refs[r] = x
                    if r in nn:
                        names[r] = nn[r]
            self.labs[id(lab)] = (lab, refs, names, len(segs))


# ------------------------------------------------------------------ two simulations

def model_names(S):
    """which model is which, in the order of their first solves"""
    out = {}
    for s in S.solves():
        for n, ref, c in [x for k in ("Var", "Param", "Objective", "Constraint") for x in S.comps(s, k)]:
            cid = c.info.get("cid")
            if isinstance(cid, str) and "." in cid:
                out.setdefault(cid, f"{s.kind}.{n}")
    return out


def canon(v, names):
    """a value in which the components are called after their role"""
    if isinstance(v, T):
        mp = {}
        for a in tm.atoms(v, lambda t: t.op == "f" and t.a[0] in ("sol", "cell")):
            args = tuple(names.get(x, x) if isinstance(x, str) else x for x in a.a[1])
            if args != a.a[1]:
                mp[a] = tm.app(a.a[0], args)
        return tm.subst(v, mp) if mp else v
    if isinstance(v, tuple):
        return tuple(canon(x, names) for x in v)
    return v


def observe(S):
    """what a simulation does: solver calls, problems, recorded steps"""
    lab, ip = S.lab, S.ip
    out = []
    sv = S.solves()
    base = model_names(S)
    out.append(("sequence of solved problems", tuple(s.kind for s in sv)))
    out.append(("grids asked for", tuple((n, tuple(str(x) if isinstance(x, T) else "grid" for x in a)) for n, a in S.domain_calls)))
    out.append(("objects made by the factories", tuple(k for k, *_ in S.made)))
    for i, s in enumerate(sv):
        w = f"problem {i + 1} ({s.kind})"
        out.append((w + ": solver", (str(s.rec["solver"].data.get("kind")), tuple(sorted(s.rec["kw"])))))
        opts = s.rec["solver"].data.get("options")
        names = []
        with S.at(s):
            for kind in ("Var", "Param", "Objective", "Constraint"):
                names += [f"{kind} {n}" for n, *_ in S.comps(s, kind)]
            out.append((w + ": components", tuple(names)))
            if isinstance(opts, Ref):
                out.append((w + ": options", snap(lab, opts)))
            for y, g in ((True, "prev_y"), (False, "prev_theta")):
                arr = S.array(s.obj, g)
                for k, t in st.values(S, arr, y).items():
                    out.append((f"{w}: {g}{st.label(k)}", canon(t, base)))
            for kind in ("Var", "Param"):
                for n, ref, c in S.comps(s, kind):
                    for k in keys(S, c):
                        for attr in (("value", "lb", "ub", "fixed") if kind == "Var" else ("value",)):
                            try:
                                from .. import lib_pyomo as lp
                                x = lp.read_attr(ip, ref, attr, k, None)
                            except (Unsupported, AbsRaise):
                                continue
                            out.append((f"{w}: {attr} of {n}{list(map(str, k)) if k else ''}", canon(x, base)))
    try:
        for j, step in enumerate(S.steps()):
            for n, t in zip(("first deformation component", "second deformation component", "temperature"), st.evaluate(S, step)):
                out.append((f"step {j}: {n}", canon(t, base)))
    except Unsupported as e:
        S.rep.notes.append(f"recorded steps not compared: {e}")
    return out


def keys(S, c):
    if c.index is None:
        return [()]
    n = len(S.g.pts) if S.g.pts is not None else 0
    m = []
    for i in range(1, n + 1):
        m.append((C(i),))
    return [()] + m + [(C(i), C(d)) for i in range(1, n + 1) for d in range(1, 7)]


def fresh(S):
    """everything recorded so far about simulations is forgotten"""
    S.ip.solves = []
    S.made.clear()
    S.domain_calls.clear()
    S.integrals[0] = 0
    S.cid_of = {}


PLAN = (1, 2, 1)


def one(S):
    S.construct()
    for n in PLAN:
        S.run(n)


def others(S):
    """other simulations and operations in the same process"""
    lab, ip = S.lab, S.ip
    keep = S.T0, S.R, S.fps, S.scale, S.eps, S.factor, S.ext, S.trac
    S.T0, S.R, S.fps, S.scale = (tm.sym("other" + n, lo=0, pos=True)
                                 for n in ("T0", "R", "fps", "scale"))
    if S.reg:
        S.eps = tm.sym("othereps", lo=0, pos=True)
    S.ext = lab.opq("otherext")
    S.trac = va.BuiltinV("othertrac", lambda ip, a, k: tuple(tm.app(f"othertrac{i}", lab.flat(a)) for i in range(2)))
    d = Drive(S.rep)
    try:
        S.construct()
        first = S.sim
        for n in (2, 1):
            S.run(n)
        d.use(lab, "max_temp", lambda: lab.meth(S.sim, "max_temp"))
        for i in (0, 1, -1, 50):
            d.use(lab, "plot_step", lambda: lab.meth(S.sim, "plot_step", C(i)))
            d.use(lab, "save_step", lambda: lab.meth(S.sim, "save_step", C(i)))
        d.use(lab, "save_animation", lambda: lab.meth(S.sim, "save_animation"))
        d.use(lab, "run(0)", lambda: lab.meth(S.sim, "run", 0))
        for o in [x for _, x, _, _ in list(S.made)]:
            for n in ("y", "prev_y", "theta", "prev_theta"):
                if has(lab, o, n):
                    d.use(lab, n, lambda: lab.meth(o, n))
    finally:
        S.T0, S.R, S.fps, S.scale, S.eps, S.factor, S.ext, S.trac = keep
    return first


def alone_and_later(rep, reg, full):
    mesh = "one" if reg else "small"
    A = Scene(rep, reg, mesh, run=False, light=not full)
    where = A.lab.where("simulation.Simulation")
    one(A)
    a = observe(A)
    A.lab.done()
    # the same sequence of operations on a simulation made later
    B = Scene(rep, reg, mesh, run=False, light=not full)
    lab, ip = B.lab, B.ip
    inputs = {"grid": B.g.grid}
    if reg:
        inputs.update({"refined grid": B.r.grid, "grid for plots": B.q.grid})
    before_inputs = {k: freeze(lab, v) for k, v in inputs.items()}
    first = others(B)
    for k, fz in before_inputs.items():
        with rep.ob(f"the {k} is left alone by a simulation", where):
            if changed(lab, fz):
                rep.fail(f"the {k} the simulation obtained from the domain has been changed")
            else:
                rep.fact()
    hold = freeze(lab, first)
    fresh(B)
    one(B)
    with rep.ob("an existing simulation is left alone by another one", where):
        bad = changed(lab, hold)
        if bad:
            rep.fail(f"running a simulation changed {len(bad)} object(s) of another one, e.g. {show(ip.get(bad[0]))}")
        else:
            rep.fact()
    b = observe(B)
    da, db = dict(a), dict(b)
    for k in list(da) + [x for x in db if x not in da]:
        x, y = da.get(k, "absent"), db.get(k, "absent")
        if isinstance(x, T) and isinstance(y, T):
            rep.eq(y, x, f"after other operations, {k}", where)
        elif same(x, y):
            rep.fact()
        else:
            rep.fail(f"after other operations, {k} is {show(y)}, otherwise {show(x)}", where)
    # and interleaved: the older simulation continues as if alone
    rep.notes.append(f"{len(da)} observations compared")
    lab.done()


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(i, j) for i, j in zip(x, y))
    if isinstance(x, T) and isinstance(y, T):
        return x is y or numeval.differ(x, y, ()) == "same"
    return x == y


def interleaved(rep, reg):
    """two simulations from equal inputs, their operations interleaved"""
    mesh = "one" if reg else "small"
    S = Scene(rep, reg, mesh, run=False, light=True)
    lab, ip = S.lab, S.ip
    where = lab.where("simulation.Simulation")
    sims = []
    for _ in range(2):
        S.construct()
        sims.append(S.sim)
    for k in (0, 1, 1, 0, 0, 1):
        other = sims[1 - k]
        hold = freeze(lab, other)
        S.sim = sims[k]
        S.run(1)
        if changed(lab, hold):
            rep.fail("running one simulation changes another one built from equal inputs", where)
            raise Violated
        rep.fact()
    objs = [[o for kk, o, *_ in S.made][2 * i:2 * i + 2] for i in range(2)]
    ms = [set().union(*(S.models_of(o) for o in os_)) for os_ in objs]
    if ms[0] & ms[1]:
        rep.fail("two simulations share a model", where)
        raise Violated
    order = [[s.rec["model"] in ms[0] for s in S.solves()].count(x) for x in (True, False)]
    if order[0] != order[1]:
        rep.fail(f"two simulations with the same history have solved {order[0]} and {order[1]} problems", where)
        raise Violated
    rep.fact(2)
    lab.done()


def deep(lab, v, seen=()):
    """structural value without object identities; dictionaries and sets as such, lists in their order"""
    ip = lab.ip
    v = ip.vsimp(v)
    if isinstance(v, T):
        return str(tm.show(v))
    if isinstance(v, tuple):
        return tuple(deep(lab, x, seen) for x in v)
    if isinstance(v, Ref):
        if v in seen:
            return "rec"
        seen = seen + (v,)
        c = ip.get(v)
        if isinstance(c, va.Obj):
            return (c.cls.name,) + tuple((k, deep(lab, x, seen)) for k, x in sorted(c.attrs.items()))
        if isinstance(c, va.Dct):
            ks = lab.items(v)
            return ("dict", frozenset((deep(lab, k, seen), deep(lab, ip.getitem(v, k), seen)) for k in ks))
        if isinstance(c, va.St):
            return ("set", frozenset(deep(lab, k, seen) for k in lab.items(v)))
        if isinstance(c, (va.Lst, va.Itr)):
            return ("list",) + tuple(deep(lab, k, seen) for k in lab.items(v))
        return type(c).__name__
    return v if isinstance(v, (str, type(None))) else type(v).__name__


def set_order(rep):
    """results must not depend on the iteration order of sets of strings (it changes from process to process)"""
    out = []
    for rev in (False, True):
        lab = Lab(rep)
        lab.ip.reverse_sets = rev
        d = Drive(rep)
        res = []
        for fix in (None, "lower", "left", ["lower", "right"], ["left", "upper"], ["lower", "upper", "left"], "all"):
            f = lab.lst(fix) if isinstance(fix, list) else fix
            a = (2, 1) if fix is None else (2, 1, f)
            D = d.use(lab, "rectangle", lambda: lab.call("domain.RectangleDomain", *a))
            g = d.use(lab, "grid", lambda: lab.meth(D, "grid", 1)) if D is not None else None
            r = d.use(lab, "refine", lambda: lab.meth(D, "refine", g, 2)) if g is not None else None
            c = d.use(lab, "curves", lambda: lab.meth(D, "curves", 3, 1, 2)) if D is not None else None
            res.append((fix, [deep(lab, x) if x is not None else None for x in (g, r, c)]))
        out.append(res)
    for (fix, x), (_, y) in zip(*out):
        for n, i, j in zip(("grid", "refined grid", "curves"), x, y):
            if i != j:
                rep.fail(f"the {n} of a rectangle fixed at {fix} depends on the iteration order of a set of strings",
                         lab.where("domain.RectangleDomain.grid"))
                raise Violated
            rep.fact()


def siblings(rep):
    """two grids of one domain are independent objects"""
    lab = Lab(rep)
    D = lab.call("domain.RectangleDomain", 2, 1, "lower")
    g, g2 = lab.meth(D, "grid", 1), lab.meth(D, "grid", 1)
    r = lab.meth(D, "refine", g, 2)
    hold = {"domain": freeze(lab, D), "grid": freeze(lab, g), "refined grid": freeze(lab, r)}
    w = lab.where("domain.Grid.append_edge")
    d = Drive(rep)
    if has(lab, g2, "append_edge"):
        for e in ((0, 1), (1, 0), (0, 4), (4, 0)):
            d.use(lab, "append_edge", lambda: lab.meth(g2, "append_edge", e))
    d.use(lab, "refine", lambda: lab.meth(D, "refine", g2, 3))
    d.use(lab, "location", lambda: lab.meth(g2, "to_barycentric_point", lab.vec([1, 1])))
    d.use(lab, "plot", lambda: lab.meth(g2, "plot", ExtV("ax")))
    for k, fz in hold.items():
        if changed(lab, fz):
            rep.fail(f"operations on one grid change the {k} (another object)", w)
        else:
            rep.fact()
    lab.done()


def c35(rep: Rep):
    src = sources()
    eff = Effects(src)
    with rep.ob("no ambient state read, no shared state written (syntax trees)"):
        eff.run()
        for w, msg in eff.problems:
            rep.fail(msg, w)
        rep.fact(eff.seen + eff.calls + eff.stores)
        dead = [f.qual for m in eff.mods.values() for f in m.funs if f not in eff.live]
        rep.notes.append(f"effects: {eff.seen} functions, {eff.calls} calls, {eff.stores} stores; not reachable from any public "
                         f"operation: {dead}; memo tables: {sorted(eff.memos)}")
        for m in eff.mods.values():
            rep.functions.setdefault(m.path, 0)
    for name, fn in SCENARIOS:
        with rep.ob(f"shared state unchanged: {name}"):
            w = Watch(rep, eff.memos)
            d = Drive(rep, w.start, w.after)
            lab = fn(d)
            lab.done()
            for s in d.skipped:
                rep.notes.append(f"{name}: not analysed: {s[:200]}")
            rep.notes.append(f"{name}: {w.ops} operations, {w.size} shared objects watched")
            if len(d.skipped) > d.ran // 2:
                raise Unsupported(f"{len(d.skipped)} of {d.ran} operations could not be analysed: {d.skipped[0][:200]}")
    for reg, name in st.SETTINGS:
        with rep.ob(f"a simulation behaves the same alone and after others ({name})"):
            alone_and_later(rep, reg, rep.tier != "quick")
        with rep.ob(f"interleaved simulations do not affect each other ({name})"):
            interleaved(rep, reg)
    with rep.ob("no dependence on the order of sets of strings"):
        set_order(rep)
    with rep.ob("grids of one domain are independent objects"):
        siblings(rep)


RULES = {"C35": c35}
