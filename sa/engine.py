"""Abstract interpreter over the Python syntax trees of the analysed package.

Domain: gated value numbers (terms.py) for scalars, allocation-site objects with strong updates for
the heap, symbolic piece lists for containers.  Control flow is joined at every merge point (gated
single assignment), loops of unknown length are summarised by a fixpoint on their write log.
The analysed program is never executed.
"""
from __future__ import annotations
import ast
import builtins as _py
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from .values import _linearise  # noqa: F401

DEAD = Sentinel("<dead>")
MISS = Sentinel("<missing>")
STEP_LIMIT = 40_000_000


class RaiseRec:
    __slots__ = ("exc", "names", "cond", "site", "changed", "msg", "ev")

    def __init__(self, exc, names, cond, site, changed, msg=None, ev=0):
        self.exc, self.names, self.cond, self.site, self.changed, self.msg = exc, names, cond, site, changed, msg
        self.ev = ev

    def __repr__(self):
        return f"{self.exc} when {self.cond} at {self.site}"


class PhiV(Sentinel):
    """value of a non-numeric loop-carried variable at loop entry"""


class SubstV:
    """a value of the last iteration of a loop, instantiated on demand"""
    __slots__ = ("v", "mp")

    def __init__(self, v, mp):
        self.v, self.mp = v, mp


def has_phi(v, seen=None):
    return isinstance(v, PhiV) or (isinstance(v, tuple) and any(has_phi(x) for x in v)) or \
        (isinstance(v, IteV) and (has_phi(v.a) or has_phi(v.b)))


def locals_of(node):
    """names bound in a function body (not descending into nested functions)"""
    cached = getattr(node, "_sa_locals", None)
    if cached is not None:
        return cached
    names, glob, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    gen = False

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n, comp=False):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                visit(c, True)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For) or (isinstance(n, ast.comprehension) and False):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c, comp)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    res = (frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl), gen)
    node._sa_locals = res
    return res


BINOPS = {
    ast.Add: ("add", "+"), ast.Sub: ("sub", "-"), ast.Mult: ("mul", "*"), ast.Div: ("truediv", "/"),
    ast.FloorDiv: ("floordiv", "//"), ast.Mod: ("mod", "%"), ast.Pow: ("pow", "**"),
    ast.MatMult: ("matmul", "@"), ast.BitOr: ("or", "|"), ast.BitAnd: ("and", "&"),
    ast.BitXor: ("xor", "^"), ast.LShift: ("lshift", "<<"), ast.RShift: ("rshift", ">>"),
}


class LoopFrame:
    __slots__ = ("mark", "read", "written", "logread", "elems", "depth")

    def __init__(self, mark, depth):
        self.mark = mark
        self.read = set()
        self.written = set()
        self.logread = set()
        self.elems = {}      # list -> indices at which single elements are read or assigned
        self.depth = depth


class Interp:
    def __init__(self, sources, pkg_prefix=""):
        """sources: dict module name -> (path, source text)"""
        self.sources = sources
        self.layers = [{}]
        self.assumed = []
        self.known = {}
        self.raises = []
        self.tries = []
        self.loops = []
        self.frames = []
        self.modules = {}
        self.node = None
        self.steps = 0
        self.clones = {}
        self.clone_refs = {}
        self.taint = []
        self.functions_seen = {}
        self.calls_seen = 0
        self.libs = {}
        self.shared_marks = []
        self.stamps = {}
        self.ext_handlers = {}
        self.overrides = {}
        self.merges = 0
        self.loop_summaries = 0
        self.class_scopes = {}
        self.injective = {}
        self.events = 0
        self.reverse_sets = False
        self.trace_ref = self.new(Lst(()))
        self.builtins = {}
        self.exc_classes = {}
        self.object_class = ClassV("object", [], {}, "builtins", builtin="object")
        self.type_classes = {}
        from . import builtin_models
        self.bm = builtin_models
        builtin_models.install(self)

    # ------------------------------------------------------------ heap
    def new(self, content) -> Ref:
        r = Ref()
        self.layers[-1][r] = content
        return r

    def get(self, ref):
        for lay in reversed(self.layers):
            c = lay.get(ref)
            if c is not None:
                return c
        raise Unsupported(f"dangling reference {ref}")

    def put(self, ref, content):
        if ref in self.clone_refs:
            self.taint.append((ref, self.site()))
        self.layers[-1][ref] = content

    def push(self):
        self.layers.append({})

    def pop(self):
        return self.layers.pop()

    def commit(self, layer):
        self.layers[-1].update(layer)

    def keep_new(self, layer, mark):
        """keep the objects allocated in a discarded layer reachable"""
        base = self.layers[0]
        for r, c in layer.items():
            if r.id > mark and r not in base:
                base[r] = c

    # slot access with loop-carried tracking
    def note_read(self, ref, key):
        for f in self.loops:
            if ref.id <= f.mark and (ref, key) not in f.written:
                f.read.add((ref, key))

    def note_write(self, ref, key):
        for f in self.loops:
            if ref.id <= f.mark:
                if f.depth == len(self.assumed):
                    f.written.add((ref, key))

    def note_log(self, ref):
        for f in self.loops:
            if ref.id <= f.mark:
                f.logread.add(ref)

    def note_elem(self, ref, i):
        for f in self.loops:
            if ref.id <= f.mark:
                f.elems.setdefault(ref, {})[i] = None

    # ------------------------------------------------------------ path conditions
    def assume(self, c):
        if c.op == "and":
            for d in c.a:
                self.assume(d)
            return
        if c in self.known or c is TRUE:
            return
        self.known[c] = True
        self.assumed.append(c)
        fs = self._facts_of(c)
        if fs:
            tm.set_facts(tm.FACTS + fs)

    def _facts_of(self, c):
        n = c.op == "not"
        d = c.a[0] if n else c
        if d.op == "pos":
            x = d.a[0]
            if n:
                return [tm.neg(x)]
            return [tm.sub(x, ONE)] if x.isint else [x]
        if d.op == "zero" and not n:
            return [d.a[0], tm.neg(d.a[0])]
        return []

    def save_pc(self):
        return list(self.assumed)

    def restore_pc(self, saved):
        if len(saved) == len(self.assumed):
            return
        self.assumed = list(saved)
        self.known = {c: True for c in saved}
        fs = []
        for c in saved:
            fs += self._facts_of(c)
        tm.set_facts(fs)

    def pc(self):
        return tm.band(*self.assumed)

    def simp(self, c):
        if c.op == "b" or not self.assumed and not tm.FACTS:
            return c
        if not c.isbool:
            return c
        return self._simp(c, {})

    def _simp(self, c, memo):
        if c.op == "b":
            return c
        if c in self.known:
            return TRUE
        r = memo.get(c)
        if r is not None:
            return r
        if tm.bnot(c) in self.known:
            r = FALSE
        elif c.op == "not":
            r = tm.bnot(self._simp(c.a[0], memo))
        elif c.op == "and":
            r = tm.band(*[self._simp(d, memo) for d in c.a])
            if r.op == "and":
                # a disjunction known to hold: not(and(...))
                pass
        elif c.op == "ite":
            k = self._simp(c.a[0], memo)
            r = tm.ite(k, self._simp(c.a[1], memo), self._simp(c.a[2], memo)) if c.isbool else c
        elif c.op == "pos":
            r = tm.pos(c.a[0])
        elif c.op == "zero":
            r = tm.zero(c.a[0])
        else:
            r = c
        memo[c] = r
        return r

    def vsimp(self, v):
        """choose the live side of gated values under the current path"""
        while isinstance(v, IteV):
            c = self.simp(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                break
        if isinstance(v, SubstV):
            return self.vsubst(v.v, v.mp)
        if isinstance(v, T) and v.op == "ite" and self.assumed:
            c = self.simp(v.a[0])
            if c is TRUE:
                return self.vsimp(v.a[1])
            if c is FALSE:
                return self.vsimp(v.a[2])
        return v

    # ------------------------------------------------------------ branching
    def branch2(self, c, fa, fb):
        """run fa under c and fb under not c, join the heaps; returns (ra, rb), DEAD for raising sides"""
        c = self.simp(c)
        if c is TRUE:
            return fa(), DEAD
        if c is FALSE:
            return DEAD, fb()
        self.merges += 1
        saved = self.save_pc()
        depth = len(self.layers)
        self.push()
        self.assume(c)
        try:
            ra = fa()
        except AbsRaise:
            ra = DEAD
        del self.layers[depth + 1:]
        la = self.pop()
        self.restore_pc(saved)
        self.push()
        self.assume(tm.bnot(c))
        try:
            rb = fb()
        except AbsRaise:
            rb = DEAD
        del self.layers[depth + 1:]
        lb = self.pop()
        post_b = self.save_pc()
        self.restore_pc(saved)
        if ra is DEAD and rb is DEAD:
            raise AbsRaise()
        if ra is DEAD:
            self.commit(lb)
            self.assume(tm.bnot(c))
            for d in post_b:
                self.assume(d)
        elif rb is DEAD:
            self.commit(la)
            self.assume(c)
        else:
            self.merge(c, la, lb)
        return ra, rb

    def cond(self, c, fa, fb):
        ra, rb = self.branch2(c, fa, fb)
        if ra is DEAD:
            return rb
        if rb is DEAD:
            return ra
        return self.mk_ite(c, ra, rb)

    def mk_ite(self, c, a, b):
        if c is TRUE or a is b:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            if a.isbool == b.isbool:
                return tm.ite(c, a, b)
            return IteV(c, a, b)
        if type(a) is type(b):
            if isinstance(a, tuple) and len(a) == len(b):
                return tuple(self.mk_ite(c, x, y) for x, y in zip(a, b))
            if isinstance(a, (str, int, frozenset)) and a == b:
                return a
            if isinstance(a, IteV) and a.c is c:
                return self.mk_ite(c, a.a, b)
            if isinstance(a, FuncV) and a.node is b.node and a.scope is b.scope:
                return a
            if isinstance(a, BoundV) and a.fn is b.fn and a.self is b.self:
                return a
        if isinstance(a, IteV) and a.c is c:
            a = a.a
        if isinstance(b, IteV) and b.c is c:
            b = b.b
        return IteV(c, a, b)

    def merge(self, c, la, lb):
        top = self.layers[-1]
        for r in dict.fromkeys(list(la) + list(lb)):
            ca, cb = la.get(r), lb.get(r)
            if ca is not None and cb is not None:
                base = None
                try:
                    base = self.get(r)
                except Unsupported:
                    pass
                top[r] = self.merge_content(c, ca, cb, base) if base is not None else ca
                continue
            try:
                base = self.get(r)
            except Unsupported:
                top[r] = ca if ca is not None else cb
                continue
            top[r] = self.merge_content(c, ca if ca is not None else base, cb if cb is not None else base, base)

    def merge_content(self, c, a, b, base):
        if a is b:
            return a
        if type(a) is not type(b):
            raise Unsupported("join of different container kinds")
        t = type(a)
        if t in LOGS:
            attr = LOGS[t]
            xa, xb = getattr(a, attr), getattr(b, attr)
            k = 0
            m = min(len(xa), len(xb))
            while k < m and (xa[k] is xb[k] or self.entry_same(xa[k], xb[k])):
                k += 1
            sa, sb = xa[k:], xb[k:]
            log = xa[:k] + self.merge_entries(c, sa, sb)
            return self.with_log(a, log)
        if t is Obj:
            if a.cls is not b.cls:
                raise Unsupported("join of objects of different classes")
            return Obj(a.cls, self.merge_dict(c, a.attrs, b.attrs))
        if t is Scp:
            return Scp(self.merge_dict(c, a.vars, b.vars), a.parent, a.kind, a.extra)
        if t is Model:
            return Model(self.merge_dict(c, a.attrs, b.attrs))
        if t is Box:
            return Box(self.mk_ite(c, a.v, b.v))
        raise Unsupported(f"join of {t.__name__}")

    def merge_entries(self, c, sa, sb):
        if not sa and not sb:
            return ()
        if len(sa) == len(sb) and all(x[0] == y[0] == "i" for x, y in zip(sa, sb)):
            return tuple(("i", self.mk_ite(c, x[1], y[1])) for x, y in zip(sa, sb))
        if len(sa) == len(sb) and all(x[0] == y[0] == "put" and self.key_same(x[1], y[1]) for x, y in zip(sa, sb)):
            return tuple(("put", x[1], self.mk_ite(c, x[2], y[2])) for x, y in zip(sa, sb))
        return (("c", c, tuple(sa), tuple(sb)),)

    def with_log(self, a, log):
        t = type(a)
        if t is Lst:
            return Lst(log)
        if t is Itr:
            return Itr(log)
        if t is Dct:
            return Dct(log, a.default)
        if t is St:
            return St(log, a.frozen)
        if t is Arr:
            return Arr(a.tree, log)
        return Comp(a.kind, a.index, log, a.info)

    def merge_dict(self, c, a, b):
        out = {}
        for k in dict.fromkeys(list(a) + list(b)):
            out[k] = self.mk_ite(c, a.get(k, UNDEF), b.get(k, UNDEF))
        return out

    def key_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.key_same(x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def entry_same(self, a, b):
        return a[0] == b[0] and len(a) == len(b) and all(self.key_same(x, y) for x, y in zip(a[1:], b[1:]))

    # ------------------------------------------------------------ raising
    def site(self):
        fr = self.frames[-1] if self.frames else None
        line = getattr(self.node, "lineno", 0)
        if fr is None:
            return ("?", line, "<module>")
        return (fr[0], line, fr[1])

    def exc_class(self, name):
        return self.bm.exc_class(self, name)

    def raise_(self, exc, msg=None):
        """record an exception on the current path and stop it"""
        cls = exc if isinstance(exc, ClassV) else self.exc_class(exc)
        names = tuple(k.name for k in cls.mro)
        for tr in reversed(self.tries):
            if tr["match"](cls):
                snap = {}
                for lay in self.layers[tr["layer"]:]:
                    snap.update(lay)
                if len(self.loops) > tr["loops"]:
                    raise Unsupported("exception caught outside a summarised loop")
                rel = [c for c in self.assumed if c not in tr["known"]]
                tr["caught"].append((tm.band(*rel), snap, cls, msg))
                raise AbsRaise(cls)
            if tr["final"]:
                pass
        changed = None
        if self.shared_marks:
            changed = self.shared_marks[-1](self)
        n_ev = len(self.get(self.trace_ref).segs)
        self.raises.append(RaiseRec(cls.name, names, self.pc(), self.site(), changed, msg, n_ev))
        raise AbsRaise(cls)

    def check(self, ok, exc, msg=None):
        """raise exc unless ok"""
        ok = self.simp(ok)
        if ok is TRUE:
            return
        if ok is FALSE:
            self.raise_(exc, msg)
        self.branch2(ok, lambda: None, lambda: self.raise_(exc, msg))

    # ------------------------------------------------------------ variables
    def getvar(self, scope, name):
        ref = scope
        first = True
        while ref is not None:
            s = self.get(ref)
            if s.kind != "class" or first:
                ex = s.extra
                if name in s.vars:
                    v = s.vars[name]
                    self.note_read(ref, name)
                    v2 = self.vsimp(v)
                    if v2 is UNDEF or (isinstance(v2, IteV) and self._maybe(v2, UNDEF)):
                        v2 = self.strip(v2, UNDEF, "UnboundLocalError", name)
                    return v2
                if ex is not None and name in ex[0]:
                    self.raise_("UnboundLocalError", name)
            first = False
            ref = s.parent
        b = self.builtins.get(name)
        if b is not None:
            return b
        self.raise_("NameError", name)

    def _maybe(self, v, sent):
        if v is sent:
            return True
        if isinstance(v, IteV):
            return self._maybe(v.a, sent) or self._maybe(v.b, sent)
        return False

    def _when(self, v, sent):
        """condition under which gated value v is the sentinel"""
        if v is sent:
            return TRUE
        if isinstance(v, IteV):
            return tm.ite(v.c, self._when(v.a, sent), self._when(v.b, sent))
        return FALSE

    def _without(self, v, sent):
        if isinstance(v, IteV):
            if v.a is sent:
                return self._without(v.b, sent)
            if v.b is sent:
                return self._without(v.a, sent)
            a, b = self._without(v.a, sent), self._without(v.b, sent)
            if a is sent:
                return b
            if b is sent:
                return a
            return self.mk_ite(v.c, a, b)
        return v

    def strip(self, v, sent, exc, msg=None):
        w = self.simp(self._when(v, sent))
        if w is not FALSE:
            self.check(tm.bnot(w), exc, msg)
        v = self.vsimp(self._without(v, sent))
        return v

    def setvar(self, scope, name, v):
        s = self.get(scope)
        ex = s.extra
        if ex is not None:
            if name in ex[1]:
                scope = self.global_scope(scope)
                s = self.get(scope)
            elif name in ex[2]:
                ref = s.parent
                while ref is not None:
                    s = self.get(ref)
                    if s.kind == "function" and (name in s.vars or (s.extra and name in s.extra[0])):
                        break
                    ref = s.parent
                else:
                    raise Unsupported(f"nonlocal {name}")
                scope = ref
        nv = dict(s.vars)
        nv[name] = v
        self.note_write(scope, name)
        self.put(scope, Scp(nv, s.parent, s.kind, s.extra))

    def global_scope(self, scope):
        ref = scope
        while True:
            s = self.get(ref)
            if s.kind == "module":
                return ref
            ref = s.parent

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.sources:
            path, text = self.sources[name]
            tree = ast.parse(text, path)
            saved_layers = self.layers
            self.layers = saved_layers[:1]
            saved_pc = self.save_pc()
            self.restore_pc([])
            loops, self.loops = self.loops, []
            scope = self.new(Scp({"__name__": name, "__file__": path}, None, "module"))
            m = ModuleV(name, scope)
            self.modules[name] = m
            self.frames.append((path, "<module>"))
            node = self.node
            fl = self.block(tree.body, scope)
            self.node = node
            self.frames.pop()
            self.layers = saved_layers
            self.loops = loops
            self.restore_pc(saved_pc)
            return m
        # package namespace
        if any(k.startswith(name + ".") for k in self.sources):
            m = ModuleV(name, None, lib="package")
            self.modules[name] = m
            return m
        m = self.bm.lib_module(self, name)
        self.modules[name] = m
        return m

    def import_name(self, name):
        return self.module(name)

    # ------------------------------------------------------------ statements
    def block(self, stmts, scope, i=0):
        out = []
        n = len(stmts)
        while i < n:
            fl = self.stmt(stmts[i], scope)
            i += 1
            if fl:
                out.extend(fl)
                c = self.simp(tm.bor(*[f[0] for f in fl]))
                if c is TRUE:
                    return out
                if i >= n:
                    return out
                nc = tm.bnot(c)
                j = i
                ra, _ = self.branch2(nc, lambda: self.block(stmts, scope, j), lambda: None)
                if ra is not DEAD and ra:
                    out.extend((tm.band(nc, g[0]), g[1], g[2]) for g in ra)
                return out
        return out

    def stmt(self, s, scope):
        self.node = s
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Unsupported("analysis budget exhausted")
        return getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, scope)

    def s_unsupported(self, s, scope):
        raise Unsupported(f"statement {type(s).__name__} at {self.site()}")

    def s_Expr(self, s, scope):
        self.ev(s.value, scope)

    def s_Pass(self, s, scope):
        pass

    def s_Assign(self, s, scope):
        v = self.ev(s.value, scope)
        for t in s.targets:
            self.assign(t, v, scope)

    def s_AnnAssign(self, s, scope):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, scope), scope)
        if isinstance(s.target, ast.Name) and self.get(scope).kind == "class":
            sc = self.get(scope)
            ann = dict(sc.vars)
            ann["__annotations__"] = ann.get("__annotations__", ()) + ((s.target.id, ast.unparse(s.annotation)),)
            self.put(scope, Scp(ann, sc.parent, sc.kind, sc.extra))

    def s_AugAssign(self, s, scope):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getvar(scope, t.id)
            new = self.inplace(s.op, old, self.ev(s.value, scope))
            self.setvar(scope, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, scope)
            old = self.getattr(o, t.attr)
            new = self.inplace(s.op, old, self.ev(s.value, scope))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, scope)
            k = self.ev(t.slice, scope)
            old = self.getitem(o, k)
            new = self.inplace(s.op, old, self.ev(s.value, scope))
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented assignment target")

    def s_Return(self, s, scope):
        v = self.ev(s.value, scope) if s.value is not None else None
        return [(TRUE, "ret", v)]

    def s_Break(self, s, scope):
        return [(TRUE, "brk", None)]

    def s_Continue(self, s, scope):
        return [(TRUE, "cont", None)]

    def s_If(self, s, scope):
        c = self.truth(self.ev(s.test, scope))
        ra, rb = self.branch2(c, lambda: self.block(s.body, scope), lambda: self.block(s.orelse, scope))
        if ra is DEAD:
            return rb
        if rb is DEAD:
            return ra
        out = [(tm.band(c, f[0]), f[1], f[2]) for f in ra]
        nc = tm.bnot(c)
        out += [(tm.band(nc, f[0]), f[1], f[2]) for f in rb]
        return out

    def s_Assert(self, s, scope):
        c = self.truth(self.ev(s.test, scope))
        self.check(c, "AssertionError")

    def s_Raise(self, s, scope):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            self.raise_(cur[-1] if cur else "RuntimeError")
        e = self.ev(s.exc, scope)
        self.raise_value(e)

    def raise_value(self, e):
        e = self.vsimp(e)
        if isinstance(e, IteV):
            self.branch2(e.c, lambda: self.raise_value(e.a), lambda: self.raise_value(e.b))
            return
        if isinstance(e, ClassV):
            self.raise_(e)
        if isinstance(e, Ref) and isinstance(self.get(e), Obj):
            o = self.get(e)
            self.raise_(o.cls, o.attrs.get("args"))
        raise Unsupported("raise of a non-exception")

    def s_FunctionDef(self, s, scope):
        v = self.make_func(s, scope)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, scope), [v], {})
        self.setvar(scope, s.name, v)

    def make_func(self, s, scope, name=None):
        name = name or getattr(s, "name", "<lambda>")
        a = s.args
        defaults = [self.ev(d, scope) for d in a.defaults]
        kw = [self.ev(d, scope) if d is not None else UNDEF for d in a.kw_defaults]
        loc = locals_of(s)
        sc = self.get(scope)
        owner = scope if sc.kind == "class" else None
        fr = self.frames[-1]
        qual = name if fr[1] == "<module>" else fr[1] + "." + name
        f = FuncV(s, scope, fr[0], name, defaults, kw, owner, loc[3], qual)
        return f

    def s_ClassDef(self, s, scope):
        bases = []
        for b in s.bases:
            v = self.ev(b, scope)
            if isinstance(v, ClassV):
                if v.name not in ("Protocol", "ABC", "Generic", "object"):
                    bases.append(v)
            elif isinstance(v, (ExtV, ModuleV)):
                if not self.bm.ignorable_base(v):
                    raise Unsupported(f"base class {v!r}")
            else:
                raise Unsupported("base class")
        cs = self.new(Scp({}, scope, "class"))
        fr = self.frames[-1]
        self.frames.append((fr[0], s.name if fr[1] == "<module>" else fr[1] + "." + s.name))
        self.block(s.body, cs)
        self.frames.pop()
        attrs = dict(self.get(cs).vars)
        c = ClassV(s.name, bases or [self.object_class], {}, fr[0], s)
        c.attrs = self.new(Scp(attrs, None, "classdict"))
        sc = self.get(cs)
        self.put(cs, Scp({**sc.vars, "__class__": c}, sc.parent, "class", sc.extra))
        self.class_scopes[cs] = c
        v = c
        for k in attrs.values():
            if isinstance(k, FuncV):
                pass
        if any(b.dataclass for b in c.mro[1:]):
            pass
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, scope), [v], {})
        self.bm.finish_class(self, c)
        self.setvar(scope, s.name, v)

    def s_For(self, s, scope):
        it = self.ev(s.iter, scope)
        pieces = self.iter(it)

        def body(elem):
            self.assign(s.target, elem, scope)
            return self.block(s.body, scope)
        fl = self.run_loop(pieces, body)
        return self.after_loop(fl, s.orelse, scope)

    def after_loop(self, fl, orelse, scope):
        brk = tm.bor(*[f[0] for f in fl if f[1] == "brk"]) if fl else FALSE
        rets = [f for f in fl if f[1] == "ret"]
        if not orelse:
            return rets
        stop = tm.bor(brk, *[f[0] for f in rets])
        ra, _ = self.branch2(tm.bnot(stop), lambda: self.block(orelse, scope), lambda: None)
        if ra is not DEAD and ra:
            rets = rets + [(tm.band(tm.bnot(stop), g[0]), g[1], g[2]) for g in ra]
        return rets

    def s_While(self, s, scope):
        return self.after_loop(self.while_loop(s, scope, 0), s.orelse, scope)

    def while_loop(self, s, scope, k):
        out = []
        stopped = FALSE
        while True:
            if k > 3000:
                raise Unsupported("while loop not bounded")
            self.node = s
            c = self.simp(self.truth(self.ev(s.test, scope)))
            if c is FALSE:
                return out
            if c is not TRUE:
                if k > 24:
                    raise Unsupported("while loop with undecided condition")
                kk = k

                def rest():
                    fl = self.block(s.body, scope)
                    return self._while_cont(fl, s, scope, kk + 1)
                ra, rb = self.branch2(c, rest, lambda: [])
                if ra is DEAD:
                    return out
                return out + [(tm.band(c, f[0]), f[1], f[2]) for f in ra]
            fl = self.block(s.body, scope)
            k += 1
            fl = [f for f in fl or () if f[1] != "cont"]
            if fl:
                return out + self._while_cont(fl, s, scope, k)

    def _while_cont(self, fl, s, scope, k):
        fl = [f for f in fl or () if f[1] != "cont"]
        if not fl:
            return self.while_loop(s, scope, k)
        c = self.simp(tm.bor(*[f[0] for f in fl]))
        if c is TRUE:
            return fl
        ra, _ = self.branch2(tm.bnot(c), lambda: self.while_loop(s, scope, k), lambda: None)
        if ra is DEAD:
            return fl
        return fl + [(tm.band(tm.bnot(c), g[0]), g[1], g[2]) for g in ra]

    def s_Import(self, s, scope):
        for al in s.names:
            m = self.module(al.name)
            if al.asname:
                self.setvar(scope, al.asname, m)
            else:
                top = al.name.split(".")[0]
                self.setvar(scope, top, self.module(top))

    def s_ImportFrom(self, s, scope):
        name = s.module or ""
        if s.level:
            cur = self.get(self.global_scope(scope)).vars.get("__name__", "")
            base = cur.split(".")[:-s.level]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return
        m = self.module(name)
        for al in s.names:
            if al.name == "*":
                for k, v in self.get(m.scope).vars.items():
                    if not k.startswith("_"):
                        self.setvar(scope, k, v)
                continue
            sub = name + "." + al.name
            if sub in self.sources:
                v = self.module(sub)
            else:
                v = self.getattr(m, al.name)
            self.setvar(scope, al.asname or al.name, v)

    def s_Global(self, s, scope):
        pass

    s_Nonlocal = s_Global

    def s_Delete(self, s, scope):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(scope, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, scope), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, scope), self.ev(t.slice, scope))
            else:
                raise Unsupported("del target")

    def s_With(self, s, scope):
        exits = []
        for item in s.items:
            cm = self.ev(item.context_expr, scope)
            if isinstance(cm, Ref) and isinstance(self.get(cm), Obj):
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                exits.append(cm)
            else:
                v = self.bm.enter_context(self, cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, scope)
        sup = self.bm.suppressed(self, s, scope)
        if sup is not None:
            return self.run_try(lambda: self.block(s.body, scope), [(sup, lambda cls, msg: [])], None, None)
        fl = self.block(s.body, scope)
        for cm in reversed(exits):
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
        return fl

    def s_Try(self, s, scope):
        handlers = []
        for h in s.handlers:
            if h.type is None:
                match = lambda cls: True
            else:
                ht = self.ev(h.type, scope)
                hts = ht if isinstance(ht, tuple) else (ht,)
                match = (lambda hts: lambda cls: any(
                    isinstance(k, ClassV) and (k in cls.mro or k.name in [m.name for m in cls.mro]) for k in hts))(hts)

            def run(cls, msg, h=h):
                if h.name:
                    self.setvar(scope, h.name, self.new(Obj(cls, {"args": msg if isinstance(msg, tuple) else ()})))
                self.handling = getattr(self, "handling", []) + [cls]
                r = self.block(h.body, scope)
                self.handling = self.handling[:-1]
                return r
            handlers.append((match, run))
        fl = self.run_try(lambda: self.block(s.body, scope), handlers,
                          (lambda: self.block(s.orelse, scope)) if s.orelse else None,
                          (lambda: self.block(s.finalbody, scope)) if s.finalbody else None)
        return fl

    def run_try(self, body, handlers, orelse, final):
        saved = self.save_pc()
        tr = {"match": lambda cls: any(m(cls) for m, _ in handlers), "layer": len(self.layers),
              "loops": len(self.loops), "known": set(saved), "caught": [], "final": final is not None}
        self.tries.append(tr)
        depth = len(self.layers)
        self.push()
        try:
            flows = body() or []
        except AbsRaise:
            flows = DEAD
        finally:
            self.tries.pop()
        del self.layers[depth + 1:]
        lay = self.pop()
        after = self.save_pc()
        caught = tr["caught"]
        if not caught:
            self.commit(lay)
            if flows is DEAD:
                raise AbsRaise()
            if orelse:
                flows = self._seq_flows(flows, orelse)
            if final:
                flows = self._finally(flows, final)
            return flows
        self.restore_pc(saved)

        def handle(k):
            """state and flows from alternative k on"""
            if k == len(caught):
                if flows is DEAD:
                    raise AbsRaise()
                self.commit(lay)
                fl = flows
                return self._seq_flows(fl, orelse) if orelse else fl
            cnd, snap, cls, msg = caught[k]

            def do():
                self.commit(snap)
                for m, run in handlers:
                    if m(cls):
                        return run(cls, msg) or []
            if k == len(caught) - 1 and flows is DEAD:
                return do()
            ra, rb = self.branch2(cnd, do, lambda: handle(k + 1))
            if ra is DEAD:
                return rb
            if rb is DEAD:
                return ra
            nc = tm.bnot(cnd)
            return [(tm.band(cnd, f[0]), f[1], f[2]) for f in ra] + [(tm.band(nc, f[0]), f[1], f[2]) for f in rb]
        fl = handle(0)
        if final:
            fl = self._finally(fl, final)
        return fl

    def _seq_flows(self, fl, fn):
        c = self.simp(tm.bor(*[f[0] for f in fl])) if fl else FALSE
        if c is TRUE:
            return fl
        ra, _ = self.branch2(tm.bnot(c), fn, lambda: None)
        if ra is DEAD or not ra:
            return fl
        return fl + [(tm.band(tm.bnot(c), g[0]), g[1], g[2]) for g in ra]

    def _finally(self, fl, final):
        g = final()
        if g:
            raise Unsupported("control flow in finally")
        return fl

    def s_Match(self, s, scope):
        subj = self.ev(s.subject, scope)
        return self._match(subj, s.cases, 0, scope)

    def _match(self, subj, cases, k, scope):
        if k >= len(cases):
            return []
        case = cases[k]
        c = self.pattern(case.pattern, subj, scope)
        c = self.simp(c)
        if c is FALSE:
            return self._match(subj, cases, k + 1, scope)

        def hit():
            self.bind_pattern(case.pattern, subj, scope)
            if case.guard is not None:
                g = self.truth(self.ev(case.guard, scope))
                ra, rb = self.branch2(g, lambda: self.block(case.body, scope),
                                      lambda: self._match(subj, cases, k + 1, scope))
                return self._join_flows(g, ra, rb)
            return self.block(case.body, scope)
        ra, rb = self.branch2(c, hit, lambda: self._match(subj, cases, k + 1, scope))
        return self._join_flows(c, ra, rb)

    def _join_flows(self, c, ra, rb):
        if ra is DEAD:
            return rb
        if rb is DEAD:
            return ra
        nc = tm.bnot(c)
        return [(tm.band(c, f[0]), f[1], f[2]) for f in ra or ()] + [(tm.band(nc, f[0]), f[1], f[2]) for f in rb or ()]

    def pattern(self, p, v, scope):
        """condition under which v matches p"""
        v = self.vsimp(v)
        if isinstance(p, ast.MatchSequence):
            nt = self.bm.nt_tuple(self, v)
            v = v if nt is None else nt
        if isinstance(v, IteV):
            return tm.ite(v.c, self.pattern(p, v.a, scope), self.pattern(p, v.b, scope))
        t = type(p).__name__
        if t == "MatchValue":
            return self.eq(v, self.ev(p.value, scope))
        if t == "MatchSingleton":
            return self.is_(v, p.value if p.value is None else tm.cbool(p.value))
        if t == "MatchAs":
            return TRUE if p.pattern is None else self.pattern(p.pattern, v, scope)
        if t == "MatchOr":
            return tm.bor(*[self.pattern(q, v, scope) for q in p.patterns])
        if t == "MatchSequence":
            if isinstance(v, (str, StrV)) or v is None or isinstance(v, T):
                return FALSE
            if isinstance(v, Ref) and not isinstance(self.get(v), (Lst,)):
                return FALSE
            if not isinstance(v, (tuple, Ref)):
                return FALSE
            items = self.items(v)
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)][0]
                after = len(p.patterns) - st - 1
                if len(items) < st + after:
                    return FALSE
                pairs = list(zip(p.patterns[:st], items[:st])) + list(zip(p.patterns[st + 1:], items[len(items) - after:]))
            else:
                if len(items) != len(p.patterns):
                    return FALSE
                pairs = list(zip(p.patterns, items))
            return tm.band(*[self.pattern(q, x, scope) for q, x in pairs])
        if t == "MatchClass":
            cls = self.ev(p.cls, scope)
            c = self.isinstance(v, cls)
            if c is FALSE:
                return FALSE
            if p.patterns and not (isinstance(cls, ClassV) and cls.builtin):
                names = self.bm.match_args(self, cls)
            else:
                names = None
            conds = [c]
            if names is not None and len(p.patterns) > len(names):
                self.raise_("TypeError", "too many positional sub-patterns")
            for i, q in enumerate(p.patterns):
                conds.append(self.pattern(q, v if names is None else self.getattr(v, names[i]), scope))
            for kname, q in zip(p.kwd_attrs, p.kwd_patterns):
                conds.append(self.pattern(q, self.getattr(v, kname), scope))
            return tm.band(*conds)
        raise Unsupported(f"pattern {t}")

    def bind_pattern(self, p, v, scope):
        v = self.vsimp(v)
        t = type(p).__name__
        if t == "MatchAs":
            if p.pattern is not None:
                self.bind_pattern(p.pattern, v, scope)
            if p.name:
                self.setvar(scope, p.name, v)
        elif t == "MatchOr":
            for q in p.patterns:
                c = self.simp(self.pattern(q, v, scope))
                if c is TRUE:
                    self.bind_pattern(q, v, scope)
                    return
        elif t == "MatchSequence" and not isinstance(v, IteV):
            items = self.items(v)
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if st:
                k = st[0]
                after = len(p.patterns) - k - 1
                for q, x in zip(p.patterns[:k], items[:k]):
                    self.bind_pattern(q, x, scope)
                if p.patterns[k].name:
                    self.setvar(scope, p.patterns[k].name,
                                self.new(Lst([("i", x) for x in items[k:len(items) - after]])))
                for q, x in zip(p.patterns[k + 1:], items[len(items) - after:]):
                    self.bind_pattern(q, x, scope)
            else:
                for q, x in zip(p.patterns, items):
                    self.bind_pattern(q, x, scope)
        elif t == "MatchClass":
            cls = self.ev(p.cls, scope)
            if p.patterns:
                if isinstance(cls, ClassV) and cls.builtin:
                    self.bind_pattern(p.patterns[0], v, scope)
                else:
                    names = self.bm.match_args(self, cls)
                    for nme, q in zip(names, p.patterns):
                        self.bind_pattern(q, self.getattr(v, nme), scope)
            for kname, q in zip(p.kwd_attrs, p.kwd_patterns):
                self.bind_pattern(q, self.getattr(v, kname), scope)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.setvar(scope, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, scope)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, scope), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, scope), self.ev(t.slice, scope), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, scope)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, scope):
        v = self.vsimp(v)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, IteV):
            a = self.cond(v.c, lambda: self.unpack_items(v.a, n if not star else None),
                          lambda: self.unpack_items(v.b, n if not star else None))
            if not isinstance(a, tuple):
                raise Unsupported("unpacking of gated sequences")
            items = list(a)
        else:
            items = list(self.unpack_items(v, n if not star else None))
        if star:
            k = star[0]
            after = n - k - 1
            if len(items) < k + after:
                self.raise_("ValueError", "unpack")
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, scope)
            self.assign(elts[k].value, self.new(Lst([("i", x) for x in items[k:len(items) - after]])), scope)
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x, scope)
        else:
            for e, x in zip(elts, items):
                self.assign(e, x, scope)

    def unpack_items(self, v, n):
        v = self.vsimp(v)
        if isinstance(v, IteV):
            return self.cond(v.c, lambda: self.unpack_items(v.a, n), lambda: self.unpack_items(v.b, n))
        if isinstance(v, T):
            if n is not None and self.bm.lib_unpack(self, v, n) is not None:
                return self.bm.lib_unpack(self, v, n)
            self.raise_("TypeError", "cannot unpack")
        if isinstance(v, ExtV):
            if n is None:
                raise Unsupported("starred unpacking of an opaque value")
            return tuple(self.bm.ext_item(self, v, i) for i in range(n))
        pieces = self.iter(v)
        items = self.concrete(pieces)
        if items is None:
            # symbolic length: assume it fits when that is the only possibility
            if n is None:
                raise Unsupported("unpacking a sequence of unknown length")
            ln = self.plen(pieces)
            self.check(tm.eq(ln, tm.const(n)), "ValueError", "unpack")
            return tuple(self.at(pieces, tm.const(i)) for i in range(n))
        if n is not None and len(items) != n:
            self.raise_("ValueError", "unpack")
        return tuple(items)

    # ------------------------------------------------------------ expressions
    def ev(self, e, scope):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        prev = self.node
        self.node = e
        v = m(e, scope)
        self.node = prev
        if isinstance(v, PhiV):
            raise Unsupported(f"loop-carried value {v} read at {self.site()}")
        return v

    def e_Constant(self, e, scope):
        v = e.value
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return tm.cbool(v)
        if isinstance(v, int):
            return tm.const(v)
        if isinstance(v, float):
            return self.bm.float_const(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bytes):
            return repr(v)
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e, scope):
        return self.getvar(scope, e.id)

    def e_Attribute(self, e, scope):
        return self.getattr(self.ev(e.value, scope), e.attr)

    def e_Tuple(self, e, scope):
        return tuple(self.elts(e.elts, scope))

    def e_List(self, e, scope):
        return self.new(Lst(self.elt_pieces(e.elts, scope)))

    def e_Set(self, e, scope):
        r = self.new(St(()))
        for p in [self.ev(x, scope) for x in e.elts]:
            self.bm.set_add(self, r, p)
        return r

    def elts(self, es, scope):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value, scope)))
            else:
                out.append(self.ev(x, scope))
        return out

    def elt_pieces(self, es, scope):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iter(self.ev(x.value, scope)))
            else:
                out.append(("i", self.ev(x, scope)))
        return out

    def e_Dict(self, e, scope):
        r = self.new(Dct(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.bm.dict_update(self, r, self.ev(v, scope))
            else:
                kk = self.ev(k, scope)
                self.setitem(r, kk, self.ev(v, scope))
        return r

    def e_Lambda(self, e, scope):
        return self.make_func(e, scope, "<lambda>")

    def e_IfExp(self, e, scope):
        c = self.truth(self.ev(e.test, scope))
        return self.cond(c, lambda: self.ev(e.body, scope), lambda: self.ev(e.orelse, scope))

    def e_BoolOp(self, e, scope):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], scope)
            if i == len(e.values) - 1:
                return v
            c = self.simp(self.truth(v))
            if isand:
                if c is TRUE:
                    return go(i + 1)
                if c is FALSE:
                    return v
                ra, rb = self.branch2(c, lambda: go(i + 1), lambda: v)
                if isinstance(v, T) and v.isbool:
                    rb = FALSE if rb is not DEAD else DEAD
            else:
                if c is TRUE:
                    return v
                if c is FALSE:
                    return go(i + 1)
                ra, rb = self.branch2(c, lambda: v, lambda: go(i + 1))
                if isinstance(v, T) and v.isbool:
                    ra = TRUE if ra is not DEAD else DEAD
            if ra is DEAD:
                return rb
            if rb is DEAD:
                return ra
            return self.mk_ite(c, ra, rb)
        return go(0)

    def e_UnaryOp(self, e, scope):
        v = self.ev(e.operand, scope)
        if isinstance(e.op, ast.Not):
            return tm.bnot(self.truth(v))
        return self.unary({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)], v)

    def unary(self, op, v):
        v = self.vsimp(v)
        if isinstance(v, IteV):
            return self.cond(v.c, lambda: self.unary(op, v.a), lambda: self.unary(op, v.b))
        if isinstance(v, T):
            v = tm.b2i(v) if v.isbool else v
            if op == "neg":
                return tm.neg(v)
            if op == "pos":
                return v
            return tm.sub(tm.neg(v), ONE)
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, Obj):
                f = self.find(c.cls, f"__{op}__")
                if f is not None:
                    return self.call_method(f, v, [], {})
                self.raise_("TypeError", f"bad operand type for unary {op}")
            r = self.bm.lib_unary(self, op, v, c)
            if r is not NOTIMPL:
                return r
        if isinstance(v, ExtV):
            return self.bm.ext_op(self, op, [v])
        self.raise_("TypeError", f"bad operand type for unary {op}")

    def e_BinOp(self, e, scope):
        a = self.ev(e.left, scope)
        b = self.ev(e.right, scope)
        self.node = e
        return self.binop(BINOPS[type(e.op)][0], a, b)

    def inplace(self, opnode, a, b):
        op = BINOPS[type(opnode)][0]
        a = self.vsimp(a)
        if isinstance(a, IteV):
            return self.cond(a.c, lambda: self.inplace(opnode, a.a, b), lambda: self.inplace(opnode, a.b, b))
        if isinstance(a, Ref):
            c = self.get(a)
            if isinstance(c, Obj):
                f = self.find(c.cls, f"__i{op}__")
                if f is not None:
                    return self.call_method(f, a, [b], {})
            else:
                r = self.bm.lib_inplace(self, op, a, c, b)
                if r is not NOTIMPL:
                    return r
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        a, b = self.vsimp(a), self.vsimp(b)
        if isinstance(a, IteV):
            return self.cond(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, IteV):
            return self.cond(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if isinstance(a, T) and isinstance(b, T):
            return self.arith(op, a, b)
        ca = self.get(a) if isinstance(a, Ref) else None
        cb = self.get(b) if isinstance(b, Ref) else None
        if isinstance(ca, Obj) or isinstance(cb, Obj):
            if isinstance(ca, Obj):
                f = self.find(ca.cls, f"__{op}__")
                if f is not None:
                    r = self.call_method(f, a, [b], {})
                    if r is not NOTIMPL:
                        return r
            elif ca is not None:
                r = self.bm.lib_binop(self, op, a, ca, b, cb)
                if r is not NOTIMPL:
                    return r
            if isinstance(cb, Obj):
                f = self.find(cb.cls, f"__r{op}__")
                if f is not None:
                    r = self.call_method(f, b, [a], {})
                    if r is not NOTIMPL:
                        return r
            ta, tb = self.bm.nt_tuple(self, a), self.bm.nt_tuple(self, b)
            if ta is not None or tb is not None:
                return self.binop(op, a if ta is None else ta, b if tb is None else tb)
            self.raise_("TypeError", f"unsupported operand type(s) for {op}")
        r = self.bm.lib_binop(self, op, a, ca, b, cb)
        if r is not NOTIMPL:
            return r
        self.raise_("TypeError", f"unsupported operand type(s) for {op}")

    def arith(self, op, a, b):
        if a.isbool and b.isbool and op in ("and", "or", "xor"):
            if op == "and":
                return tm.band(a, b)
            if op == "or":
                return tm.bor(a, b)
            return tm.bnot(self.eqb(a, b))
        a, b = (tm.b2i(a) if a.isbool else a), (tm.b2i(b) if b.isbool else b)
        if op == "add":
            return tm.add(a, b)
        if op == "sub":
            return tm.sub(a, b)
        if op == "mul":
            return tm.mul(a, b)
        if op in ("truediv", "floordiv", "mod"):
            z = self.simp(tm.zero(b))
            if z is TRUE:
                self.raise_("ZeroDivisionError")
            if op == "truediv":
                return tm.div(a, b)
            if op == "floordiv":
                return tm.floordiv(a, b)
            return tm.mod(a, b)
        if op == "pow":
            return tm.power(a, b)
        if op in ("lshift", "rshift", "and", "or", "xor") and a.op == "c" and b.op == "c":
            x, y = int(a.a[0]), int(b.a[0])
            return tm.const({"lshift": x << y if op == "lshift" else 0, "rshift": x >> y if op == "rshift" else 0,
                             "and": x & y, "or": x | y, "xor": x ^ y}[op])
        return tm.app("op_" + op, (a, b), a.isint and b.isint)

    @staticmethod
    def eqb(a, b):
        return tm.bor(tm.band(a, b), tm.band(tm.bnot(a), tm.bnot(b)))

    def e_Compare(self, e, scope):
        left = self.ev(e.left, scope)

        def go(i, left):
            right = self.ev(e.comparators[i], scope)
            self.node = e
            r = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.simp(self.truth(r))
            if c is FALSE:
                return r
            return self.cond(c, lambda: go(i + 1, right), lambda: FALSE)
        return go(0, left)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return tm.bnot(self.is_(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return tm.bnot(self.contains(b, a))
        if t is ast.Eq:
            return self.eq_op(a, b)
        if t is ast.NotEq:
            a1, b1 = self.vsimp(a), self.vsimp(b)
            if isinstance(a1, Ref) and isinstance(self.get(a1), Obj):
                f = self.find(self.get(a1).cls, "__ne__")
                if f is not None:
                    return self.call_method(f, a1, [b1], {})
            return tm.bnot(self.truth(self.eq_op(a, b)))
        return self.order({ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[t], a, b)

    def order(self, op, a, b):
        a, b = self.vsimp(a), self.vsimp(b)
        if isinstance(a, IteV):
            return self.cond(a.c, lambda: self.order(op, a.a, b), lambda: self.order(op, a.b, b))
        if isinstance(b, IteV):
            return self.cond(b.c, lambda: self.order(op, a, b.a), lambda: self.order(op, a, b.b))
        if isinstance(a, T) and isinstance(b, T):
            rel = self.bm.lib_relation(self, op, a, b)
            if rel is not NOTIMPL:
                return rel
            a, b = (tm.b2i(a) if a.isbool else a), (tm.b2i(b) if b.isbool else b)
            if op == "lt":
                return tm.lt(a, b)
            if op == "le":
                return tm.le(a, b)
            if op == "gt":
                return tm.lt(b, a)
            return tm.le(b, a)
        if isinstance(a, str) and isinstance(b, str):
            return tm.cbool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self._tuple_order(op, a, b)
        swap = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}
        for x, y, o in ((a, b, op), (b, a, swap[op])):
            if isinstance(x, Ref) and isinstance(self.get(x), Obj):
                f = self.find(self.get(x).cls, f"__{o}__")
                if f is not None:
                    r = self.call_method(f, x, [y], {})
                    if r is not NOTIMPL:
                        return r
        ta, tb = self.bm.nt_tuple(self, a), self.bm.nt_tuple(self, b)
        if ta is not None or tb is not None:
            return self.order(op, a if ta is None else ta, b if tb is None else tb)
        r = self.bm.lib_order(self, op, a, b)
        if r is not NOTIMPL:
            return r
        self.raise_("TypeError", f"'{op}' not supported between these types")

    def _tuple_order(self, op, a, b):
        if not a or not b:
            return self.order(op, tm.const(len(a)), tm.const(len(b)))
        e = self.eq(a[0], b[0])
        strict = self.order({"lt": "lt", "le": "lt", "gt": "gt", "ge": "gt"}[op], a[0], b[0]) if self.simp(e) is not TRUE else FALSE
        return tm.ite(e, self._tuple_order(op, a[1:], b[1:]), strict)

    def is_(self, a, b):
        a, b = self.vsimp(a), self.vsimp(b)
        if isinstance(a, IteV):
            return tm.ite(a.c, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, IteV):
            return tm.ite(b.c, self.is_(a, b.a), self.is_(a, b.b))
        if a is b:
            return TRUE
        if isinstance(a, T) and isinstance(b, T):
            if a.isbool and b.isbool:
                return self.eqb(a, b)
            if a.isbool != b.isbool:
                return FALSE
            return tm.eq(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return tm.cbool(a == b)
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            if a is None or b is None:
                return FALSE
            return tm.cbool(a is b)
        return FALSE

    def eq_op(self, a, b):
        """a == b as an expression (may build a model relation)"""
        a, b = self.vsimp(a), self.vsimp(b)
        if isinstance(a, T) and isinstance(b, T):
            rel = self.bm.lib_relation(self, "eq", a, b)
            if rel is not NOTIMPL:
                return rel
        if isinstance(a, IteV):
            return self.cond(a.c, lambda: self.eq_op(a.a, b), lambda: self.eq_op(a.b, b))
        if isinstance(b, IteV):
            return self.cond(b.c, lambda: self.eq_op(a, b.a), lambda: self.eq_op(a, b.b))
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(self.get(x), (Arr,)):
                return self.bm.arr_eq(self, a, b)
        return self.eq(a, b)

    def eq(self, a, b):
        """boolean term: a == b"""
        a, b = self.vsimp(a), self.vsimp(b)
        if a is b and not isinstance(a, ExtV):
            if not (isinstance(a, Ref) and isinstance(self.get(a), Obj)):
                return TRUE
        if isinstance(a, IteV):
            return self._gated(a.c, lambda: self.eq(a.a, b), lambda: self.eq(a.b, b))
        if isinstance(b, IteV):
            return self._gated(b.c, lambda: self.eq(a, b.a), lambda: self.eq(a, b.b))
        if isinstance(a, T) and isinstance(b, T):
            if a.isbool and b.isbool:
                return self.eqb(a, b)
            a, b = (tm.b2i(a) if a.isbool else a), (tm.b2i(b) if b.isbool else b)
            return tm.eq(a, b)
        if a is None or b is None or isinstance(a, Sentinel) or isinstance(b, Sentinel):
            if a is None and b is None:
                return TRUE
            x = b if a is None else a
            if isinstance(x, Ref) and isinstance(self.get(x), Obj):
                f = self.find(self.get(x).cls, "__eq__")
                if f is not None:
                    r = self.call_method(f, x, [a if x is b else b], {})
                    return FALSE if r is NOTIMPL else self.truth(r)
            return FALSE
        if isinstance(a, (str, StrV)) or isinstance(b, (str, StrV)):
            if isinstance(a, ExtV) or isinstance(b, ExtV):
                from . import lib_pyomo
                r = lib_pyomo.ext_eq(self, a, b)
                if r is not NOTIMPL:
                    return r
            if isinstance(a, str) and isinstance(b, str):
                return tm.cbool(a == b)
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
                return self.bm.str_eq(self, a, b)
            return FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            out = TRUE
            for x, y in zip(a, b):
                out = tm.band(out, self.eq(x, y))
                if out is FALSE:
                    return FALSE
            return out
        if isinstance(a, Ref) or isinstance(b, Ref):
            ca = self.get(a) if isinstance(a, Ref) else None
            cb = self.get(b) if isinstance(b, Ref) else None
            for x, cx, y in ((a, ca, b), (b, cb, a)):
                if isinstance(cx, Obj):
                    f = self.find(cx.cls, "__eq__")
                    if f is not None:
                        r = self.call_method(f, x, [y], {})
                        if r is not NOTIMPL:
                            return self.truth(r)
                        continue
                    if cx.cls.dataclass and isinstance(y, Ref) and isinstance(self.get(y), Obj) and self.get(y).cls is cx.cls:
                        out = TRUE
                        for fn, _ in self.bm.dataclass_fields(self, cx.cls):
                            out = tm.band(out, self.eq(cx.attrs[fn], self.get(y).attrs[fn]))
                        return out
            if isinstance(ca, Obj) or isinstance(cb, Obj):
                ta, tb = self.bm.nt_tuple(self, a), self.bm.nt_tuple(self, b)
                if (ta is not None or isinstance(a, tuple)) and (tb is not None or isinstance(b, tuple)):
                    return self.eq(a if ta is None else ta, b if tb is None else tb)
                return tm.cbool(a is b)
            return self.bm.container_eq(self, a, ca, b, cb)
        if isinstance(a, ClassV) or isinstance(a, FuncV) or isinstance(a, BuiltinV):
            return tm.cbool(a is b)
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return tm.band(tm.cbool(a.fn is b.fn), self.is_(a.self, b.self))
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return tm.band(tm.eq(a.start, b.start), tm.eq(a.stop, b.stop), tm.eq(a.step, b.step))
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            if a is b:
                return TRUE
            from . import lib_pyomo
            r = lib_pyomo.ext_eq(self, a, b)
            if r is not NOTIMPL:
                return r
            return tm.app("ext_eq", (getattr(a, "key", 0), getattr(b, "key", 0)), isbool=True)
        return FALSE

    def _gated(self, c, fa, fb):
        ra, rb = self.branch2(c, fa, fb)
        if ra is DEAD:
            return rb
        if rb is DEAD:
            return ra
        return tm.ite(c, ra, rb)

    def contains(self, box, x):
        box = self.vsimp(box)
        if isinstance(box, IteV):
            return self._gated(box.c, lambda: self.contains(box.a, x), lambda: self.contains(box.b, x))
        x = self.vsimp(x)
        if isinstance(x, IteV):
            return self._gated(x.c, lambda: self.contains(box, x.a), lambda: self.contains(box, x.b))
        if isinstance(box, Ref):
            c = self.get(box)
            if isinstance(c, Obj):
                f = self.find(c.cls, "__contains__")
                if f is not None:
                    return self.truth(self.call_method(f, box, [x], {}))
            else:
                r = self.bm.lib_contains(self, box, c, x)
                if r is not NOTIMPL:
                    return r
        if isinstance(box, str):
            if isinstance(x, str):
                return tm.cbool(x in box)
            self.raise_("TypeError", "in <string>")
        if isinstance(box, RangeV) and isinstance(x, T):
            if box.step is ONE and x.isint:
                return tm.band(tm.le(box.start, x), tm.lt(x, box.stop))
        if isinstance(box, T) or box is None:
            self.raise_("TypeError", "argument is not iterable")
        return self.member(self.iter(box), x)

    def member(self, pieces, x):
        """x occurs among the pieces"""
        out = []
        for p in pieces:
            if p[0] == "i":
                c = self.eq(p[1], x)
            elif p[0] == "g":
                c = self.member_g(p, x)
            elif p[0] == "c":
                c = tm.ite(p[1], self.member(p[2], x), self.member(p[3], x))
            else:
                raise Unsupported("membership")
            c = self.simp(c)
            if c is TRUE:
                return TRUE
            out.append(c)
        return tm.bor(*out)

    def mentions(self, v, b):
        if isinstance(v, T):
            return b in v.vars
        if isinstance(v, tuple):
            return any(self.mentions(x, b) for x in v)
        if isinstance(v, IteV):
            return b in v.c.vars or self.mentions(v.a, b) or self.mentions(v.b, b)
        return isinstance(v, Ref) and b in self.stamps and v.id > self.stamps[b]

    def member_g(self, p, x):
        _, b, n, sub = self.bm.ct.apart(self, p, x)
        saved = self.save_pc()
        c = self.member(sub, x)
        self.restore_pc(saved)
        if c is FALSE:
            return FALSE
        w = self.witness(b, n, c)
        if w is TRUE:
            return TRUE
        return self.mk_exists(b, n, c)

    def witness(self, b, n, c):
        """try to prove exists b<n: c by unification"""
        for cand in self.candidates(b, c):
            if b in cand.vars:
                continue
            k = self.simp(tm.subst(c, {b: cand}))
            if k is TRUE and self.in_range(cand, n):
                return TRUE
        return None

    def in_range(self, k, n):
        return self.simp(tm.band(tm.le(ZERO, k), tm.lt(k, n))) is TRUE

    def candidates(self, b, c):
        """values of b suggested by the equations of c"""
        out = []
        atoms = c.a if c.op == "and" else (c,)
        for d in atoms:
            if d.op == "zero":
                out.extend(self._solve(d.a[0], b))
            elif d.op == "not" and d.a[0].op == "and":
                # a disjunction
                for e in d.a[0].a:
                    out.extend(self.candidates(b, tm.bnot(e)))
        return list(dict.fromkeys(out))

    def _solve(self, d, b):
        """solutions of d == 0 for b: linear, or congruence of equal applications"""
        r = tm.solve_eq(d, ZERO, b)
        if isinstance(r, T):
            return [r] if r.isint else []
        if d.op != "+":
            return []
        apps = [(m, k) for m, k in d.a[1] if m.op == "f"]
        out = []
        for m, k in apps:
            if b not in m.vars:
                continue
            for m2, k2 in apps:
                if m2 is m or b in m2.vars or k != -k2 or m.a[0] != m2.a[0]:
                    continue
                f1, f2 = tm._flat(m.a[1]), tm._flat(m2.a[1])
                if len(f1) != len(f2):
                    continue
                for x, y in zip(f1, f2):
                    if b in x.vars:
                        s = tm.solve_eq(x, y, b)
                        if isinstance(s, T):
                            out.append(s)
                        else:
                            out.extend(self._solve(tm.sub(x, y), b))
        return out

    def mk_exists(self, b, n, c):
        if c.op == "and":
            ins = [d for d in c.a if b in d.vars]
            outs = [d for d in c.a if b not in d.vars]
            if outs and ins:
                return tm.band(*outs, tm.exists(b, n, tm.band(*ins)))
        return tm.exists(b, n, c)

    def e_Call(self, e, scope):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.getvar(scope, "super")
            if isinstance(f, BuiltinV) and f.name == "super":
                return self.make_super(scope)
        f = self.ev(e.func, scope)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items(self.ev(a.value, scope)))
            else:
                args.append(self.ev(a, scope))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.bm.dict_items_concrete(self, self.ev(k.value, scope)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, scope)
        self.node = e
        if isinstance(f, BuiltinV) and f.name in ("locals", "vars", "globals", "eval", "exec"):
            raise Unsupported(f.name)
        return self.call(f, args, kw)

    def make_super(self, scope):
        ref = scope
        fscope = None
        while ref is not None:
            s = self.get(ref)
            if s.kind == "function" and fscope is None and s.extra and s.extra[3] is not None:
                fscope = s
            if s.kind == "class":
                cls = self.class_scopes.get(ref)
                if cls is not None and fscope is not None:
                    return SuperV(cls, fscope.vars[fscope.extra[3]])
            ref = s.parent
        raise Unsupported("super()")

    def e_Subscript(self, e, scope):
        return self.getitem(self.ev(e.value, scope), self.ev(e.slice, scope))

    def e_Slice(self, e, scope):
        return SliceV(*[self.ev(x, scope) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, scope):
        raise Unsupported("starred")

    def e_JoinedStr(self, e, scope):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, scope))
        return self.bm.str_join(parts)

    def e_FormattedValue(self, e, scope):
        v = self.ev(e.value, scope)
        if e.format_spec is not None:
            spec = self.ev(e.format_spec, scope)
            return StrV(("fmt", v, spec))
        return self.bm.to_str(self, v, conv=e.conversion)

    def e_NamedExpr(self, e, scope):
        v = self.ev(e.value, scope)
        ref = scope
        while self.get(ref).kind == "comp":
            ref = self.get(ref).parent
        self.setvar(ref, e.target.id, v)
        return v

    def e_Yield(self, e, scope):
        v = self.ev(e.value, scope) if e.value is not None else None
        out = self.gen_out(scope)
        self.append(out, v)
        return None

    def e_YieldFrom(self, e, scope):
        it = self.ev(e.value, scope)
        out = self.gen_out(scope)
        c = self.get(out)
        self.put(out, Lst(c.segs + tuple(self.iter(it))))
        return None

    def gen_out(self, scope):
        ref = scope
        while ref is not None:
            s = self.get(ref)
            if "<yield>" in s.vars:
                return s.vars["<yield>"]
            ref = s.parent
        raise Unsupported("yield outside a generator")

    def append(self, ref, v):
        c = self.get(ref)
        self.put(ref, Lst(c.segs + (("i", v),)))

    def comp(self, gens, scope, emit):
        """run comprehension generators, calling emit(scope) innermost"""
        def level(k, sc):
            if k == len(gens):
                emit(sc)
                return []
            g = gens[k]
            it = self.iter(self.ev(g.iter, sc))

            def body(elem):
                self.assign(g.target, elem, sc)

                def conds(j):
                    if j == len(g.ifs):
                        level(k + 1, sc)
                        return []
                    c = self.truth(self.ev(g.ifs[j], sc))
                    self.branch2(c, lambda: conds(j + 1), lambda: None)
                    return []
                return conds(0)
            self.run_loop(it, body)
            return []
        sc = self.new(Scp({}, scope, "comp"))
        level(0, sc)

    def e_ListComp(self, e, scope):
        out = self.new(Lst(()))
        self.comp(e.generators, scope, lambda sc: self.append(out, self.ev(e.elt, sc)))
        return out

    def e_GeneratorExp(self, e, scope):
        out = self.new(Lst(()))
        self.comp(e.generators, scope, lambda sc: self.append(out, self.ev(e.elt, sc)))
        return self.new(Itr(self.get(out).segs))

    def e_SetComp(self, e, scope):
        out = self.new(St(()))
        self.comp(e.generators, scope, lambda sc: self.bm.set_add(self, out, self.ev(e.elt, sc)))
        return out

    def e_DictComp(self, e, scope):
        out = self.new(Dct(()))

        def emit(sc):
            k = self.ev(e.key, sc)
            self.setitem(out, k, self.ev(e.value, sc))
        self.comp(e.generators, scope, emit)
        return out

    # ------------------------------------------------------------ truth, types
    def truth(self, v) -> T:
        v = self.vsimp(v)
        if isinstance(v, T):
            if v.isbool:
                return v
            return tm.bnot(tm.zero(v))
        if v is None:
            return FALSE
        if isinstance(v, str):
            return tm.cbool(bool(v))
        if isinstance(v, tuple):
            return tm.cbool(len(v) > 0)
        if isinstance(v, IteV):
            return tm.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, Obj):
                f = self.find(c.cls, "__bool__")
                if f is not None:
                    return self.truth(self.call_method(f, v, [], {}))
                f = self.find(c.cls, "__len__")
                if f is not None:
                    return tm.pos(self.call_method(f, v, [], {}))
                return TRUE
            if isinstance(c, (Lst, Dct, St)):
                return tm.pos(self.len(v))
            if isinstance(c, Arr):
                return self.bm.arr_truth(self, v)
            return TRUE
        if isinstance(v, StrV):
            if any(isinstance(p, str) and p for p in v.parts):
                return TRUE
            return tm.app("strtruth", (self.bm.str_key(v),), isbool=True)
        if isinstance(v, ExtV):
            return tm.app("exttruth", (v.key,), isbool=True)
        if isinstance(v, RangeV):
            return tm.pos(self.len(v))
        if isinstance(v, PhiV):
            raise Unsupported("loop-carried condition")
        return TRUE

    def isinstance(self, v, cls):
        v = self.vsimp(v)
        if isinstance(cls, tuple):
            return tm.bor(*[self.isinstance(v, c) for c in cls])
        if isinstance(v, IteV):
            return tm.ite(v.c, self.isinstance(v.a, cls), self.isinstance(v.b, cls))
        return self.bm.isinstance_model(self, v, cls)

    # ------------------------------------------------------------ attributes
    def find(self, cls, name):
        for k in cls.mro:
            if isinstance(k.attrs, Ref):
                d = self.get(k.attrs).vars
                if name in d:
                    self.note_read(k.attrs, name)
                    return self.vsimp(d[name])
            elif name in k.attrs:
                return k.attrs[name]
        return None

    def find_after(self, cls, owner, name):
        i = cls.mro.index(owner) + 1
        for k in cls.mro[i:]:
            d = self.get(k.attrs).vars if isinstance(k.attrs, Ref) else k.attrs
            if name in d:
                return d[name]
        return None

    def bind(self, f, obj, cls):
        if isinstance(f, FuncV) or isinstance(f, BuiltinV):
            return BoundV(f, obj)
        if isinstance(f, StaticV):
            return BoundV(f.fn, cls) if f.cls else f.fn
        if isinstance(f, PropertyV):
            return self.call_method(f.fget, obj, [], {})
        return f

    def getattr(self, o, name):
        o = self.vsimp(o)
        if isinstance(o, IteV):
            return self.cond(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Obj):
                f = self.find(c.cls, name)
                if isinstance(f, PropertyV):
                    if f.cached and name in c.attrs:
                        return c.attrs[name]
                    v = self.call_method(f.fget, o, [], {})
                    if f.cached:
                        c = self.get(o)
                        self.put(o, Obj(c.cls, {**c.attrs, name: v}))
                    return v
                if name in c.attrs:
                    self.note_read(o, name)
                    v = self.vsimp(c.attrs[name])
                    if v is UNDEF or (isinstance(v, IteV) and self._maybe(v, UNDEF)):
                        if f is not None:
                            return self.mk_ite(self._when(v, UNDEF), self.bind(f, o, c.cls), self._without(v, UNDEF))
                        v = self.strip(v, UNDEF, "AttributeError", name)
                    return v
                if f is not None:
                    return self.bind(f, o, c.cls)
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    raise Unsupported("__dict__")
                if c.cls.builtin and name in ("args",):
                    return ()
                g = self.find(c.cls, "__getattr__")
                if g is not None:
                    return self.call_method(g, o, [name], {})
                self.raise_("AttributeError", name)
            return self.bm.lib_getattr(self, o, c, name)
        if isinstance(o, ModuleV):
            if o.scope is not None:
                s = self.get(o.scope)
                if name in s.vars:
                    self.note_read(o.scope, name)
                    return self.vsimp(s.vars[name])
                self.raise_("AttributeError", name)
            sub = o.name + "." + name
            if o.lib == "package":
                return self.module(sub)
            return self.bm.lib_attr(self, o, name)
        if isinstance(o, ClassV):
            f = self.find(o, name)
            if f is not None:
                if isinstance(f, StaticV):
                    return BoundV(f.fn, o) if f.cls else f.fn
                return f
            return self.bm.class_attr(self, o, name)
        if isinstance(o, SuperV):
            obj = self.vsimp(o.self)
            cls = obj if isinstance(obj, ClassV) else self.get(obj).cls
            f = self.find_after(cls, o.owner, name)
            if f is None:
                return self.bm.super_attr(self, o, cls, name)
            return self.bind(f, obj, cls)
        return self.bm.value_attr(self, o, name)

    def setattr(self, o, name, v):
        o = self.vsimp(o)
        if isinstance(o, IteV):
            self.branch2(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Obj):
                f = self.find(c.cls, name)
                if isinstance(f, PropertyV) and not f.cached:
                    if f.fset is None:
                        self.raise_("AttributeError", name)
                    self.call_method(f.fset, o, [v], {})
                    return
                if self.bm.nt_fields(c) is not None and name in self.bm.nt_fields(c):
                    self.raise_("AttributeError", "can't set attribute")
                if any(k.frozen for k in c.cls.mro) and not getattr(self, "_unfrozen", 0):
                    self.raise_("AttributeError", "frozen instance")
                g = self.find(c.cls, "__setattr__")
                if g is not None:
                    self.call_method(g, o, [name, v], {})
                    return
                self.raw_setattr(o, name, v)
                return
            self.bm.lib_setattr(self, o, c, name, v)
            return
        if isinstance(o, ClassV):
            s = self.get(o.attrs)
            self.note_write(o.attrs, name)
            self.put(o.attrs, Scp({**s.vars, name: v}, None, s.kind, s.extra))
            return
        if isinstance(o, ModuleV) and o.scope is not None:
            self.setvar(o.scope, name, v)
            return
        self.bm.value_setattr(self, o, name, v)

    def raw_setattr(self, o, name, v):
        c = self.get(o)
        self.note_write(o, name)
        self.put(o, Obj(c.cls, {**c.attrs, name: v}))

    def delattr(self, o, name):
        o = self.vsimp(o)
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Obj):
                a = dict(c.attrs)
                if name not in a:
                    self.raise_("AttributeError", name)
                a[name] = UNDEF
                self.note_write(o, name)
                self.put(o, Obj(c.cls, a))
                return
            if self.bm.lib_delattr(self, o, c, name):
                return
        raise Unsupported("del attribute")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.vsimp(f)
        if isinstance(f, IteV):
            return self.cond(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, BuiltinV):
            self.calls_seen += 1
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, PartialV):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kw})
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kw)
        if isinstance(f, Ref):
            c = self.get(f)
            if isinstance(c, Obj):
                g = self.find(c.cls, "__call__")
                if g is not None:
                    return self.call_method(g, f, args, kw)
                self.raise_("TypeError", "object is not callable")
            return self.bm.lib_call(self, f, c, args, kw)
        if isinstance(f, ExtV):
            return self.bm.ext_call(self, f, args, kw)
        if isinstance(f, T):
            return self.bm.term_call(self, f, args, kw)
        if isinstance(f, ModuleV):
            self.raise_("TypeError", "module is not callable")
        if isinstance(f, Sentinel) and f is UNDEF:
            raise Unsupported("call of undefined")
        self.raise_("TypeError", f"{f!r} is not callable")

    def call_method(self, f, obj, args, kw):
        if isinstance(f, (FuncV, BuiltinV)):
            return self.call(f, [obj] + list(args), kw)
        if isinstance(f, StaticV):
            return self.call(f.fn, ([self.get(obj).cls] if f.cls else []) + list(args), kw)
        return self.call(f, args, kw)

    def instantiate(self, cls, args, kw):
        if cls.builtin:
            return self.bm.construct_builtin(self, cls, args, kw)
        new = self.find(cls, "__new__")
        if new is not None:
            o = self.call(new.fn if isinstance(new, StaticV) else new, [cls] + list(args), kw)
            if not (isinstance(o, Ref) and isinstance(self.get(o), Obj) and cls in self.get(o).cls.mro):
                return o
        else:
            if self.bm.is_abstract(self, cls):
                self.raise_("TypeError", "abstract class")
            o = self.new(Obj(cls, {}))
        init = self.find(cls, "__init__")
        if init is not None:
            self.call_method(init, o, args, kw)
        elif self.bm.is_exception(cls):
            self.put(o, Obj(cls, {"args": tuple(args)}))
        elif args or kw:
            if new is None:
                self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        out = {}
        args = list(args)
        for p, v in zip(params, args):
            out[p] = v
        extra = args[len(params):]
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_("TypeError", f"{f.name}() takes {len(params)} positional arguments but {len(args)} were given")
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in params[npos:] or k in kwonly:
                if k in out:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument {k}")
                out[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument {k}")
        if a.kwarg:
            d = self.new(Dct(()))
            for k, v in rest.items():
                self.setitem(d, k, v)
            out[a.kwarg.arg] = d
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in out:
                j = i - (len(params) - nd)
                if j < 0:
                    self.raise_("TypeError", f"{f.name}() missing argument {p}")
                out[p] = f.defaults[j]
        for p, d in zip(kwonly, f.kwdefaults):
            if p not in out:
                if d is UNDEF:
                    self.raise_("TypeError", f"{f.name}() missing keyword argument {p}")
                out[p] = d
        return out

    def call_func(self, f, args, kw):
        ov = self.overrides.get(f.node)
        if ov is not None:
            r = ov(self, f, args, kw)
            if r is not NOTIMPL:
                return r
        if len(self.frames) > 90:
            raise Unsupported("recursion")
        self.calls_seen += 1
        self.functions_seen[(f.module, f.qual)] = getattr(f.node, "lineno", 0)
        vars_ = self.bind_args(f, args, kw)
        loc = locals_of(f.node)
        a = f.node.args
        first = (a.posonlyargs + a.args)
        scope = self.new(Scp(vars_, f.scope, "function", (loc[0], loc[1], loc[2], first[0].arg if first else None)))
        self.frames.append((f.module, f.qual))
        prev = self.node
        depth = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, scope)
            if loc[3]:
                out = self.new(Lst(()))
                self.setvar(scope, "<yield>", out)
                self.block(f.node.body, scope)
                return self.new(Itr(self.get(out).segs))
            fl = self.block(f.node.body, scope)
        finally:
            del self.frames[depth - 1:]
            self.node = prev
        return self.fold(fl)

    def fold(self, fl):
        rets = [f for f in fl or () if f[1] == "ret"]
        if not rets:
            return None
        total = self.simp(tm.bor(*[f[0] for f in rets]))
        if total is TRUE:
            v = rets[-1][2]
            rest = rets[:-1]
        else:
            v = None
            rest = rets
        for c, _, x in reversed(rest):
            c = self.simp(c)
            v = self.mk_ite(c, x, v)
        return v

    # ------------------------------------------------------------ sequences
    def iter(self, v):
        return self.bm.iterate(self, v)

    def concrete(self, pieces):
        """list of values when every piece is a single item (choosing decided branches)"""
        out = []
        for p in pieces:
            if p[0] == "i":
                out.append(p[1])
            elif p[0] == "c":
                c = self.simp(p[1])
                if c is TRUE:
                    r = self.concrete(p[2])
                elif c is FALSE:
                    r = self.concrete(p[3])
                else:
                    x, y = self.concrete(p[2]), self.concrete(p[3])
                    if x is None or y is None or len(x) != len(y):
                        return None
                    r = [self.mk_ite(c, s, t) for s, t in zip(x, y)]
                if r is None:
                    return None
                out.extend(r)
            elif p[0] == "g":
                n = p[2]
                if n.op == "c" and n.a[0] <= 64:
                    for k in range(int(n.a[0])):
                        r = self.concrete(self.psubst(p[3], {p[1]: tm.const(k)}))
                        if r is None:
                            return None
                        out.extend(r)
                else:
                    return None
            else:
                return None
        return out

    def items(self, v):
        r = self.concrete(self.iter(v))
        if r is None:
            raise Unsupported("sequence of unknown length used where its items are needed")
        return r

    def plen(self, pieces):
        n = ZERO
        for p in pieces:
            if p[0] == "i":
                n = tm.add(n, ONE)
            elif p[0] == "g":
                n = tm.add(n, tm.summ(p[1], p[2], self.plen(p[3])))
            elif p[0] == "c":
                n = tm.add(n, tm.ite(p[1], self.plen(p[2]), self.plen(p[3])))
            else:
                raise Unsupported("length")
        return n

    def len(self, v):
        return self.bm.length(self, v)

    def at(self, pieces, k):
        """element k (0 <= k < len is the caller's duty)"""
        if k.op == "c" and k.a[0] >= 0 and all(p[0] == "i" for p in pieces):
            i = int(k.a[0])
            if i < len(pieces):
                return pieces[i][1]
        off = ZERO
        alts = []
        for p in self.decided(pieces):
            ln = self.plen((p,))
            end = tm.add(off, ln)
            inside = self.simp(tm.lt(k, end))
            if inside is FALSE:
                off = end
                continue
            v = self.at_piece(p, tm.sub(k, off))
            alts.append((inside, v))
            off = end
            if inside is TRUE:
                break
        if not alts:
            # the caller has checked the index, so this path is taken by no run
            self.raise_("IndexError", "index out of range of the sequence")
        v = alts[-1][1]
        for c, x in reversed(alts[:-1]):
            v = self.mk_ite(c, x, v)
        return v

    def decided(self, pieces):
        """the pieces with the conditional ones replaced where their condition is known"""
        out = []
        for p in pieces:
            if p[0] == "c":
                c = self.simp(p[1])
                if c is TRUE or c is FALSE:
                    out.extend(self.decided(p[2] if c is TRUE else p[3]))
                    continue
            out.append(p)
        return out

    def at_piece(self, p, k):
        if p[0] == "i":
            return p[1]
        if p[0] == "c":
            c = self.simp(p[1])
            if c is TRUE:
                return self.at(p[2], k)
            if c is FALSE:
                return self.at(p[3], k)
            if not p[2]:
                return self.at(p[3], k)
            if not p[3]:
                return self.at(p[2], k)
            return self.mk_ite(c, self.at(p[2], k), self.at(p[3], k))
        _, b, n, sub = p
        if len(sub) == 1 and sub[0][0] == "i":
            return self.vsubst(sub[0][1], {b: k})
        ln = self.plen(sub)
        if b in ln.vars or ln is ZERO:
            raise Unsupported("random access into a ragged sequence")
        q, r = tm.floordiv(k, ln), tm.mod(k, ln)
        return self.at(self.psubst(sub, {b: q}), r)

    def getitem(self, o, k):
        return self.bm.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.bm.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.bm.delitem(self, o, k)

    # ------------------------------------------------------------ substitution
    def vsubst(self, v, mp):
        if isinstance(v, T):
            return tm.subst(v, mp)
        if v is None or isinstance(v, (str, Sentinel, ClassV, ModuleV, BuiltinV, ExtV)):
            return v
        if isinstance(v, tuple):
            r = tuple(self.vsubst(x, mp) for x in v)
            return v if all(x is y for x, y in zip(r, v)) else r
        if isinstance(v, Ref):
            return self.clone(v, mp)
        if isinstance(v, IteV):
            c = tm.subst(v.c, mp)
            if c is TRUE:
                return self.vsubst(v.a, mp)
            if c is FALSE:
                return self.vsubst(v.b, mp)
            return self.mk_ite(c, self.vsubst(v.a, mp), self.vsubst(v.b, mp))
        if isinstance(v, RangeV):
            return RangeV(*[self.vsubst(x, mp) for x in (v.start, v.stop, v.step)])
        if isinstance(v, SliceV):
            return SliceV(*[self.vsubst(x, mp) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, StrV):
            return self.bm.str_join([self.vsubst(x, mp) for x in v.parts])
        if isinstance(v, FuncV):
            s = self.vsubst(v.scope, mp)
            d = [self.vsubst(x, mp) for x in v.defaults]
            if s is v.scope and all(x is y for x, y in zip(d, v.defaults)):
                return v
            f = FuncV(v.node, s, v.module, v.name, d, v.kwdefaults, v.owner, v.is_gen, v.qual)
            return f
        if isinstance(v, BoundV):
            f, s = self.vsubst(v.fn, mp), self.vsubst(v.self, mp)
            return v if f is v.fn and s is v.self else BoundV(f, s)
        if isinstance(v, PartialV):
            return PartialV(self.vsubst(v.fn, mp), [self.vsubst(x, mp) for x in v.args],
                            {k: self.vsubst(x, mp) for k, x in v.kwargs.items()})
        if isinstance(v, SubstV):
            return self.vsubst(self.vsubst(v.v, v.mp), mp)
        if isinstance(v, (PropertyV, StaticV, SuperV)):
            return v
        if isinstance(v, dict):
            return {k: self.vsubst(x, mp) for k, x in v.items()}
        if isinstance(v, (list,)):
            return [self.vsubst(x, mp) for x in v]
        if isinstance(v, (Lst, Obj, Dct, St, Arr, Comp, Scp, Model, Box, Itr, Sym)):
            return self.csubst(v, mp)
        if isinstance(v, (int, float, frozenset, bool, Fraction)):
            return v
        raise Unsupported(f"substitution in {type(v).__name__}")

    def psubst(self, pieces, mp):
        out = []
        for p in pieces:
            if p[0] == "g":
                b, sub, inner = p[1], p[3], {k: v for k, v in mp.items() if k is not p[1]}
                if any(b in v.vars for v in inner.values()):
                    b2 = tm.fresh("b", True, tm.ZERO, tm.sub(p[2], tm.ONE))
                    if b in self.stamps:
                        self.stamps[b2] = self.stamps[b]
                    sub = self.psubst(sub, {b: b2})
                    b = b2
                out.append(("g", b, tm.subst(p[2], mp), self.psubst(sub, inner)))
            elif p[0] == "c":
                c = tm.subst(p[1], mp)
                if c is TRUE:
                    out.extend(self.psubst(p[2], mp))
                elif c is FALSE:
                    out.extend(self.psubst(p[3], mp))
                else:
                    out.append(("c", c, self.psubst(p[2], mp), self.psubst(p[3], mp)))
            else:
                out.append((p[0],) + tuple(self.vsubst(x, mp) for x in p[1:]))
        return tuple(out)

    def clone(self, ref, mp):
        mp = {b: k for b, k in mp.items() if ref.id > self.stamps.get(b, -1)}
        if not mp:
            return ref
        key = (ref, tuple(sorted((b.fp, k.fp) for b, k in mp.items())))
        r = self.clones.get(key)
        if r is not None:
            return r
        # reserve (cycles), then decide whether anything depends on the symbols
        content = self.get(ref)
        r = Ref()
        self.clones[key] = r
        self.layers[0][r] = content
        new = self.csubst(content, mp)
        if new is content:
            self.clones[key] = ref
            del self.layers[0][r]
            return ref
        self.layers[0][r] = new
        self.clone_refs[r] = (ref, mp)
        return r

    def csubst(self, c, mp):
        t = type(c)
        if t in LOGS:
            attr = LOGS[t]
            log = getattr(c, attr)
            nl = self.psubst(log, mp)
            same = len(nl) == len(log) and all(self._entry_is(x, y) for x, y in zip(nl, log))
            if t is Arr:
                tree = self.bm.arr_subst(self, c.tree, mp)
                if same and tree is c.tree:
                    return c
                return Arr(tree, nl)
            if same:
                return c
            return self.with_log(c, nl)
        if t is Obj:
            d = {k: self.vsubst(v, mp) for k, v in c.attrs.items()}
            return c if all(d[k] is c.attrs[k] for k in d) else Obj(c.cls, d)
        if t is Scp:
            d = {k: self.vsubst(v, mp) for k, v in c.vars.items()}
            p = self.vsubst(c.parent, mp) if c.parent is not None else None
            if p is c.parent and all(d[k] is c.vars[k] for k in d):
                return c
            return Scp(d, p, c.kind, c.extra)
        if t is Box:
            v = self.vsubst(c.v, mp)
            return c if v is c.v else Box(v)
        if t is Sym:
            d = self.vsubst(c.data, mp)
            return c if d is c.data else Sym(c.kind, d, c.shape)
        if t is Model:
            d = {k: self.vsubst(v, mp) for k, v in c.attrs.items()}
            return c if all(d[k] is c.attrs[k] for k in d) else Model(d)
        raise Unsupported(f"substitution in {t.__name__}")

    def _entry_is(self, x, y):
        if x is y:
            return True
        if x[0] != y[0] or len(x) != len(y):
            return False
        for u, v in zip(x[1:], y[1:]):
            if u is v:
                continue
            if isinstance(u, tuple) and isinstance(v, tuple) and len(u) == len(v):
                if x[0] in ("g", "c") and all(isinstance(w, tuple) for w in u + v):
                    if all(self._entry_is(a, b) for a, b in zip(u, v)):
                        continue
                    return False
                if all(a is b for a, b in zip(u, v)):
                    continue
            return False
        return True

    # ------------------------------------------------------------ loops
    def run_loop(self, pieces, body):
        """run body over the pieces; returns brk/ret flows"""
        out = []
        pieces = list(pieces)
        for idx, p in enumerate(pieces):
            if p[0] == "i":
                fl = body(p[1])
            elif p[0] == "c":
                c = self.simp(p[1])
                if c is TRUE or c is FALSE:
                    fl = self.run_loop(p[2] if c is TRUE else p[3], body)
                else:
                    ra, rb = self.branch2(c, lambda: self.run_loop(p[2], body), lambda: self.run_loop(p[3], body))
                    fl = self._join_flows(c, ra, rb)
            elif p[0] == "g":
                n = p[2]
                if n.op == "c" and n.a[0] <= 64:
                    sub = []
                    for k in range(int(n.a[0])):
                        sub.extend(self.psubst(p[3], {p[1]: tm.const(k)}))
                    fl = self.run_loop(sub, body)
                else:
                    fl = self.loop_generic(p[1], n, p[3], body)
            else:
                raise Unsupported(f"iteration over {p[0]}")
            fl = [f for f in fl or () if f[1] != "cont"]
            if fl:
                out.extend(fl)
                c = self.simp(tm.bor(*[f[0] for f in fl]))
                if c is TRUE:
                    return out
                rest = pieces[idx + 1:]
                if not rest:
                    return out
                nc = tm.bnot(c)
                ra, _ = self.branch2(nc, lambda: self.run_loop(rest, body), lambda: None)
                if ra is not DEAD and ra:
                    out.extend((tm.band(nc, g[0]), g[1], g[2]) for g in ra)
                return out
        return out

    def loop_generic(self, b, n, sub, body):
        from .loops import run_generic
        if self.simp(tm.pos(n)) is FALSE:
            return []
        return run_generic(self, b, n, sub, body)
