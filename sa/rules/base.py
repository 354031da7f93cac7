"""Obligations, reports and the laboratory in which the abstract interpreter is driven."""
from __future__ import annotations
import ast
import contextlib
import json
import os
import pathlib
import sys
import time
import traceback
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from ..engine import Interp
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parents[2]
PKG = "tvemoves_rufbad"


def sources():
    """all modules of the package, read from the working tree on every run"""
    root = REPO / "src"
    src = {}
    for p in sorted(root.rglob("*.py")):
        rel = p.relative_to(root).with_suffix("")
        parts = list(rel.parts)
        if parts[-1] == "__init__":
            parts.pop()
        if parts:
            src[".".join(parts)] = (str(p), p.read_text())
    return src


class Violated(Exception):
    pass


class Rep:
    """collects the obligations of one property"""

    def __init__(self, pid, tier, title=""):
        self.pid, self.tier, self.title = pid, tier, title
        self.obs = []
        self.functions = {}
        self.calls = 0
        self.loops = 0
        self.paths = 0
        self.labs = 0
        self.cur = None
        self.notes = []
        self.given = ()     # conditions all comparisons are made under
        self.t0 = time.time()

    # an obligation block: everything inside must be decided
    @contextlib.contextmanager
    def ob(self, name, where=None):
        outer = self.cur
        o = {"name": name, "status": "holds", "facts": 0, "where": where, "detail": []}
        self.cur = o
        try:
            yield o
        except Violated:
            pass
        except AbsRaise as e:
            self._viol(o, f"the analysed code raises {e} here", where)
        except Unsupported as e:
            o["status"] = "undecided" if o["status"] == "holds" else o["status"]
            o["detail"].append(f"outside the analysed fragment: {e} ({_trace()})")
        except RecursionError:
            o["status"] = "undecided" if o["status"] == "holds" else o["status"]
            o["detail"].append("recursion limit of the analysis")
        except tm.ZeroDiv:
            o["status"] = "undecided" if o["status"] == "holds" else o["status"]
            o["detail"].append("division by zero in the abstract domain " + _trace())
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
            o["status"] = "undecided" if o["status"] == "holds" else o["status"]
            o["detail"].append(f"analysis error {type(e).__name__}: {e} ({_trace()})")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc(limit=-8)
        finally:
            self.cur = outer
            self.obs.append(o)

    def attempt(self, name, *alternatives):
        """alternatives: analyses of the same obligation in order of preference (most general
        first); the first one that decides counts"""
        saved = self.obs
        alternatives = alternatives[int(os.environ.get("VERIF_ALT", "0")) and len(alternatives) - 1:]
        for i, alt in enumerate(alternatives):
            self.obs = []
            try:
                with self.ob(name):
                    alt()
            finally:
                got = self.obs
                self.obs = saved
            if all(o["status"] != "undecided" for o in got) or i == len(alternatives) - 1:
                self.obs = saved + got
                return
            self.notes.append(f"{name}: alternative {i + 1} undecided: "
                              + "; ".join(d for o in got for d in o["detail"])[:300])

    def _viol(self, o, msg, where):
        o["status"] = "violated"
        o["detail"].append(f"{msg}" + (f" [{where}]" if where else ""))

    def fail(self, msg, where=None):
        o = self.cur
        if o is None:
            o = {"name": "preparing the analysed configuration", "status": "holds", "facts": 0, "where": where, "detail": []}
            self.obs.append(o)
        self._viol(o, msg, where or o["where"])

    def fact(self, n=1):
        if self.cur is not None:
            self.cur["facts"] += n

    def true(self, c, msg, where=None, assume=()):
        """c: python bool or boolean term that must hold under the assumptions"""
        if isinstance(c, T):
            if c is tm.TRUE:
                c = True
            elif c is tm.FALSE:
                c = False
            else:
                assume = tuple(assume) + self.given
                w = numeval.witness(tm.bnot(c), assume)
                if w is not None:
                    self.fail(f"{msg} (counterexample to {tm.show(c)[:160]} at sample point {w.seed})", where)
                    return False
                if numeval.witness(c, assume, 20) is None:
                    raise Unsupported(f"cannot decide {tm.show(c)[:200]}")
                c = True
        if not c:
            self.fail(msg, where)
            return False
        self.cur["facts"] += 1
        return True

    def eq(self, a, b, msg, where=None, assume=(), tol=1e-7, precise=False):
        """the value numbers a and b must agree (precise: relative to their size, however small)"""
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))) or not (
                    isinstance(a, T) or isinstance(b, T)):
                return self.true(a == b, f"{msg}: got {show(a)}, expected {show(b)}", where)
            self.fail(f"{msg}: got {show(a)}, expected {show(b)}", where)
            return False
        r = numeval.differ(a, b, tuple(assume) + self.given, tol=tol, precise=precise)
        if r == "same":
            self.cur["facts"] += 1
            return True
        if r is None:
            raise Unsupported(f"cannot compare {tm.show(a)[:120]} with {tm.show(b)[:120]}")
        self.fail(f"{msg}: the code computes {tm.show(a)[:200]}, the property requires {tm.show(b)[:200]}"
                  f" (e.g. {r[1]:.6g} against {r[2]:.6g})", where)
        return False

    @property
    def violated(self):
        return [o for o in self.obs if o["status"] == "violated"]

    @property
    def undecided(self):
        return [o for o in self.obs if o["status"] == "undecided"]


def _trace():
    e = sys.exc_info()[2]
    fr = traceback.extract_tb(e)[-3:]
    return " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(fr))


def show(x):
    if isinstance(x, T):
        return tm.show(x)[:200]
    return repr(x)[:200]


STUBS = """
class Interp:
    def __init__(self, grid, value, gradient=None, hessian=None, edge=None):
        self.grid = grid
        self._v, self._g, self._h, self._e = value, gradient, hessian, edge
    def __call__(self, triangle, barycentric_coordinates):
        return self._v(triangle, barycentric_coordinates)
    def gradient(self, triangle, barycentric_coordinates):
        return self._g(triangle, barycentric_coordinates)
    def hessian(self, triangle, barycentric_coordinates):
        return self._h(triangle, barycentric_coordinates)
    def on_edge(self, edge, t):
        return self._e(edge, t)

class Locator:
    def __init__(self, locate):
        self._locate = locate
    def to_barycentric_point(self, p):
        return self._locate(p)

class Domain:
    def __init__(self, grid, refined, curves=None):
        self._grid, self._refined, self._curves = grid, refined, curves
    def grid(self, scale):
        return self._grid(scale)
    def refine(self, grid, refinement_factor):
        return self._refined(grid, refinement_factor)
    def curves(self, num_points_per_curve, num_horizontal_curves=0, num_vertical_curves=None):
        return self._curves(num_points_per_curve, num_horizontal_curves, num_vertical_curves)

class StepStub:
    # stands for a minimisation step whose solver always answers, with a new arbitrary state
    def __init__(self, kind, make, log, prev_y, y, theta, load):
        self._kind, self._make, self._log, self._load = kind, make, log, load
        self._prev_y, self._y, self._prev_theta, self._theta = prev_y.copy(), y.copy(), theta.copy(), theta.copy()
        self._number = 0
        self._time = 0
    def solve(self):
        self._number += 1
        self._log.append((self._kind, self._number, self._prev_y, self._y, self._prev_theta, self._time))
        if self._kind == "mech":
            self._y = self._make(True, self._number)
        else:
            self._theta = self._make(False, self._number)
    def prev_y(self):
        return self._prev_y.copy()
    def y(self):
        return self._y.copy()
    def prev_theta(self):
        return self._prev_theta.copy()
    def update_prev_y(self, new_prev_y):
        self._prev_y = new_prev_y.copy()
        if self._kind == "mech":
            self._y = new_prev_y.copy()
    def update_prev_theta(self, new_prev_theta):
        self._prev_theta = new_prev_theta.copy()
        self._theta = new_prev_theta.copy()

class MechStub(StepStub):
    def update_boundary_traction(self, current_time):
        self._time = current_time

class ThermStub(StepStub):
    def theta(self):
        return self._theta.copy()
    def update_y(self, new_y):
        self._y = new_y.copy()
    def update_external_temperature(self, current_time):
        self._time = current_time
"""


class Lab:
    """one abstract interpreter instance over the current sources"""

    def __init__(self, rep: Rep, **stubs):
        tm.set_facts([])
        self.rep = rep
        src = sources()
        src["verif_stub"] = ("<stub>", STUBS)
        self.ip = Interp(src)
        rep.labs += 1

    # ---- access
    def module(self, name):
        return self.ip.module(f"{PKG}.{name}")

    def get(self, path):
        """'module.name.attr'"""
        mod, *rest = path.split(".")
        o = self.module(mod)
        for r in rest:
            o = self.ip.getattr(o, r)
        return o

    def where(self, path):
        """file:line of a definition (by following the module's own import structure)"""
        try:
            o = self.get(path)
        except (Unsupported, AbsRaise):
            return path
        for _ in range(3):
            if isinstance(o, va.BoundV):
                o = o.fn
            n = getattr(o, "node", None)
            if n is not None and hasattr(n, "lineno"):
                m = getattr(o, "module", None)
                f = self.ip.sources.get(m, (m,))[0] if m else ""
                return f"{f}:{n.lineno} ({path})"
        return path

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.ip.call(f, [self.lift(a) for a in args], {k: self.lift(x) for k, x in kw.items()})

    def meth(self, o, name, *args, **kw):
        return self.call(self.ip.getattr(o, name), *args, **kw)

    def attr(self, o, *names):
        for n in names:
            o = self.ip.getattr(o, n)
        return o

    def item(self, o, *k):
        k = [self.lift(x) for x in k]
        return self.ip.getitem(o, k[0] if len(k) == 1 else tuple(k))

    # ---- conversions
    def lift(self, x):
        if isinstance(x, bool):
            return tm.cbool(x)
        if isinstance(x, (int, Fraction)):
            return tm.const(x)
        if isinstance(x, float):
            return self.ip.bm.float_const(x)
        if isinstance(x, list):
            return self.lst(x)
        if isinstance(x, tuple):
            return tuple(self.lift(y) for y in x)
        return x

    def lst(self, xs):
        return self.ip.new(va.Lst(tuple(("i", self.lift(x)) for x in xs)))

    def fam(self, *pieces):
        return self.ip.new(va.Lst(tuple(pieces)))

    def vec(self, xs):
        return self.call("tensors.Vector", list(xs))

    def mat(self, rows):
        return self.call("tensors.Matrix", [list(r) for r in rows])

    def tens(self, d):
        return self.call("tensors.Tensor3D", [[list(r) for r in m] for m in d])

    def bary(self, l1, l2):
        return self.call("tensors.BarycentricCoordinates", l1, l2)

    def items(self, v):
        """python list of the elements of an abstract sequence of known length"""
        r = self.ip.concrete(self.ip.iter(v))
        if r is None:
            raise Unsupported("sequence of unknown structure")
        return r

    def py(self, v, depth=6):
        """python view: nested lists of terms"""
        if isinstance(v, (T, str, type(None))) or depth == 0:
            return v
        if isinstance(v, tuple):
            return tuple(self.py(x, depth - 1) for x in v)
        if isinstance(v, Ref):
            c = self.ip.get(v)
            if isinstance(c, va.Obj):
                return v
        return [self.py(x, depth - 1) for x in self.items(v)]

    def num(self, v):
        """the integer value of a constant term"""
        if isinstance(v, T) and v.op == "c" and v.a[0].denominator == 1:
            return int(v.a[0])
        raise Unsupported(f"expected a known integer, got {show(v)}")

    def ints(self, v):
        if isinstance(v, T):
            return self.num(v)
        if isinstance(v, tuple):
            return tuple(self.ints(x) for x in v)
        return [self.ints(x) for x in self.items(v)]

    def stub(self, name, *args, **kw):
        return self.call(self.ip.getattr(self.ip.module("verif_stub"), name), *args, **kw)

    def cases(self, v, c=None):
        """[(condition, value)] of a gated value"""
        c = tm.TRUE if c is None else c
        v = self.ip.vsimp(v)
        if isinstance(v, va.IteV):
            return self.cases(v.a, tm.band(c, v.c)) + self.cases(v.b, tm.band(c, tm.bnot(v.c)))
        if c is tm.FALSE:
            return []
        return [(c, v)]

    def opq(self, name, isint=False):
        """an arbitrary function: its value is an opaque application to the flattened arguments"""
        def f(ip, a, k):
            return tm.app(name, self.flat(list(a) + [k[x] for x in sorted(k)]), isint)
        return va.BuiltinV(name, f)

    def flat(self, args):
        out = []
        for x in args:
            x = self.ip.vsimp(x)
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, (str, type(None))):
                out.append(x)
            else:
                out.extend(self.flat(self.items(x)))
        return tuple(out)

    def new_grid(self, vertices, edges, triangles, boundary, dirichlet, neumann, points, extra=None):
        """a Grid (or RefinedGrid) through the public constructor; boundaries are (vertices, edges)"""
        bd = [self.call("domain.Boundary", self.lift(b[0]), self.lift(b[1])) for b in (boundary, dirichlet, neumann)]
        args = [self.lift(vertices), self.lift(edges), self.lift(triangles)] + bd + [self.lift(points)]
        if extra is None:
            return self.call("domain.Grid", *args)
        return self.call("domain.RefinedGrid", *args, *extra)

    def small_grid(self, n, triangles, points=None, name="p"):
        """a grid of n symbolic points with the given triangles"""
        if points is None:
            points = [(tm.sym(f"{name}x{i}"), tm.sym(f"{name}y{i}")) for i in range(n)]
        edges = []
        for t in triangles:
            for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
                if e not in edges and e[::-1] not in edges:
                    edges.append(e)
        g = self.new_grid(list(range(n)), edges, list(triangles), ([], []), ([], []), ([], []),
                          [self.vec(list(p)) for p in points])
        return g, points

    # ---- executing with exceptions under control
    def mark(self):
        return len(self.ip.raises)

    def good(self, fn, what, assume=(), where=None):
        """run fn; any exception on a feasible path is a violation of the current obligation"""
        m = self.mark()
        try:
            r = fn()
        except AbsRaise:
            rec = self.ip.raises[-1] if len(self.ip.raises) > m else None
            self.check_raises(m, what, assume, where)
            if not (self.rep.cur and self.rep.cur["status"] == "violated"):
                if rec is not None:
                    self.rep.fail(f"{what}: raises {rec.exc} at {site(rec.site)}", where)
                else:
                    raise Unsupported(f"{what}: unexplained exception")
            raise Violated
        self.check_raises(m, what, assume, where)
        return r

    def check_raises(self, m, what, assume=(), where=None):
        for rec in self.ip.raises[m:]:
            if rec.cond is tm.FALSE:
                continue
            if rec.cond is tm.TRUE:
                self.rep.fail(f"{what}: raises {rec.exc} at {site(rec.site)}", where)
                continue
            w = numeval.witness(rec.cond, tuple(assume) + self.rep.given, facts=())
            if w is not None:
                self.rep.fail(f"{what}: raises {rec.exc} at {site(rec.site)} when"
                              f" {tm.show(rec.cond)[:200]} (sample point {w.seed})", where)
            elif not tm.atoms(rec.cond, lambda t: t.op == "f" and t.a[0] == "optimal"):
                self.rep.notes.append(f"{what}: possible {rec.exc} at {site(rec.site)} not realised at any"
                                      f" sample point: {tm.show(rec.cond)[:120]}")

    def bad(self, fn, exc, what, assume=(), where=None):
        """run fn; it must raise exc (or a subclass) on every path"""
        m = self.mark()
        try:
            fn()
        except AbsRaise:
            done = True
        else:
            done = False
        recs = self.ip.raises[m:]
        for rec in recs:
            if exc not in rec.names and rec.cond is not tm.FALSE:
                if rec.cond is tm.TRUE or numeval.witness(rec.cond, assume, facts=()) is not None:
                    self.rep.fail(f"{what}: raises {rec.exc} at {site(rec.site)} instead of {exc}", where)
                    return
        if not done:
            c = tm.bor(*[r.cond for r in recs if exc in r.names]) if recs else tm.FALSE
            if c is tm.FALSE:
                self.rep.fail(f"{what}: accepted, {exc} expected", where)
                return
            if c is not tm.TRUE:
                w = numeval.witness(tm.bnot(c), assume)
                if w is not None:
                    self.rep.fail(f"{what}: accepted for some values, {exc} expected"
                                  f" (raised only when {tm.show(c)[:160]})", where)
                    return
                if numeval.witness(c, assume) is None:
                    raise Unsupported(f"{what}: cannot decide {tm.show(c)[:160]}")
        self.rep.fact()

    def raise_cond(self, fn, exc):
        """(condition under which fn raises exc, result or None, other exceptions)"""
        m, pc = self.mark(), self.ip.save_pc()
        res = None
        try:
            res = fn()
        except AbsRaise:
            pass
        self.ip.restore_pc(pc)
        recs = self.ip.raises[m:]
        c = tm.bor(*([r.cond for r in recs if exc in r.names] or [tm.FALSE]))
        return c, res, [r for r in recs if exc not in r.names]

    def done(self):
        r = self.rep
        for k, v in self.ip.functions_seen.items():
            r.functions[str(k)] = r.functions.get(str(k), 0) + 1
        r.calls += self.ip.calls_seen
        r.loops += self.ip.loop_summaries
        r.paths += self.ip.merges


def site(s):
    if not s:
        return "?"
    f, line, fn = (list(s) + ["?", "?", "?"])[:3]
    return f"{f}:{line} in {fn}"
