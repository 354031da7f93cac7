"""Whole simulations over arbitrary meshes, driven in the abstract interpreter.

A scene is one simulation object built through the public constructor with
  * an arbitrary ("generic") mesh: N vertices at symbolic positions, M triangles over them, Dirichlet,
    Neumann and interior edges, all of symbolic number - or a small mesh with known connectivity and
    symbolic positions (the fallback when the code leaves the fragment for arbitrary meshes);
  * symbolic parameters and loads (arbitrary functions of their arguments);
  * a solver that assigns an unknown value to every free variable at every call.
Every solve is recorded together with the state of the heap at that moment.
"""
from __future__ import annotations
import contextlib
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from .. import containers as ct
from .. import lib_pyomo as lp
from .. import lib_numpy
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref, BuiltinV
from .base import Lab, Rep, Violated, show, site
from .tensors import freeze, changed, reach

Z, O, TWO = tm.ZERO, tm.ONE, tm.TWO
C = tm.const


def bound_var(lab, n):
    b = tm.fresh("k", True, Z, tm.sub(n, O))
    lab.ip.stamps[b] = Ref._n
    return b


def family(lab, name, n, N, width, of=None):
    """list pieces of n pairwise different `width`-tuples of numbers below N"""
    b = bound_var(lab, n)
    tm.RANGES[name] = lambda args, N=N: (Z, tm.sub(N, O), False)
    v = tuple(tm.rapp(name, (C(j), b), True) for j in range(width)) if width > 1 else tm.rapp(name, (b,), True)
    lab.ip.injective[name] = (name, width)
    numeval.distinct(name, width, N, name)
    if of:
        v = tuple(tm.rapp(of, (x,), True) for x in v)
    return ("g", b, n, (("i", v),))


class Mesh:
    """a grid together with what is known about it"""

    def coords(self, i):
        """reference coordinates of vertex i (a term)"""
        if self.pts is not None:
            k = self.lab.num(i) if not isinstance(i, int) else i
            return self.pts[k]
        i = C(i) if isinstance(i, int) else i
        return (tm.rapp(self.pre + "px", (i,)), tm.rapp(self.pre + "py", (i,)))

    def over_tris(self, f):
        """sum of f((i1, i2, i3)) over all triangles"""
        if self.tris is not None:
            return tm.add(*[f(tuple(C(i) for i in t)) for t in self.tris])
        b = bound_var(self.lab, self.M)
        return tm.summ(b, self.M, f(tuple(tm.rapp(self.pre + "tri", (C(j), b), True) for j in range(3))))

    def over_edges(self, f, kinds):
        """sum of f((i, j)) over the Dirichlet ('d') and/or Neumann ('n') edges"""
        out = []
        for k in kinds:
            if self.tris is not None:
                out += [f(tuple(C(i) for i in e)) for e in self.edges[k]]
            else:
                n = self.NE[k]
                b = bound_var(self.lab, n)
                out.append(tm.summ(b, n, f(self.edge(k, b))))
        return tm.add(*out) if out else Z

    def edge(self, k, b):
        return tuple(tm.rapp(self.pre + k + "v", (tm.rapp(self.pre + k + "ei", (C(j), b), True),), True) for j in (0, 1))

    def is_dirichlet(self, i):
        """condition: vertex i is an end point of the fixed boundary"""
        if self.tris is not None:
            return tm.bor(*([tm.eq(i, C(x)) for x in self.bverts["d"]] or [tm.FALSE]))
        b = bound_var(self.lab, self.NV["d"])
        return self.lab.ip.simp(self.lab.ip.mk_exists(b, self.NV["d"], tm.eq(tm.rapp(self.pre + "dv", (b,), True), i)))

    def representatives(self, name="v"):
        """vertex numbers standing for all vertices"""
        if self.tris is not None:
            return [C(i) for i in range(len(self.pts))]
        return [tm.sym(self.pre + name, True, lo=Z, hi=tm.sub(self.N, O))]

    def size(self):
        return C(len(self.pts)) if self.tris is not None else self.N


def generic_mesh(lab, pre="", coarse=None):
    g = Mesh()
    g.lab, g.pre, g.pts, g.tris = lab, pre, None, None
    N = g.N = tm.sym(pre + "N", True, lo=5)
    M = g.M = tm.sym(pre + "M", True, lo=1)
    g.NE, g.NV = {}, {}
    for k in "dn":
        g.NV[k] = tm.sym(f"{pre}V{k.upper()}", True, lo=2, hi=N)
        g.NE[k] = tm.sym(f"{pre}N{k.upper()}", True, lo=1)
        numeval.SIZES[f"{pre}V{k.upper()}"] = (3, 4)
        numeval.SIZES[f"{pre}N{k.upper()}"] = (1, 2)
    NI = tm.sym(pre + "NI", True, lo=1)
    numeval.SIZES[pre + "N"] = (5, 7)
    numeval.SIZES[pre + "M"] = (1, 3)
    numeval.SIZES[pre + "NI"] = (1, 2)
    b = bound_var(lab, N)
    vertices = lab.fam(("g", b, N, (("i", b),)))
    b2 = bound_var(lab, N)
    pv = lab.vec([tm.app(pre + "px", (b2,)), tm.app(pre + "py", (b2,))])
    points = lab.fam(("g", b2, N, (("i", pv),)))
    tris = lab.fam(family(lab, pre + "tri", M, N, 3))
    dv, nv = family(lab, pre + "dv", g.NV["d"], N, 1), family(lab, pre + "nv", g.NV["n"], N, 1)
    de, ne = (family(lab, f"{pre}{k}ei", g.NE[k], g.NV[k], 2, f"{pre}{k}v") for k in "dn")
    ie = family(lab, pre + "ie", NI, N, 2)
    edges = lab.fam(de, ne, ie)
    bv = ct.dedupe(lab.ip, (dv, nv), ())
    bd, dd, nn = (lab.call("domain.Boundary", v, e) for v, e in (
        (lab.fam(*bv), lab.fam(de, ne)), (lab.fam(dv), lab.fam(de)), (lab.fam(nv), lab.fam(ne))))
    if coarse is None:
        g.grid = lab.call("domain.Grid", vertices, edges, tris, bd, dd, nn, points)
        return g
    tm.RANGES[pre + "ct"] = lambda args: (Z, tm.sub(coarse.M, O), False)
    for n in ("b1", "b2"):
        tm.RANGES[pre + n] = lambda args: (C(Fraction(1, 50)), C(Fraction(12, 25)), False)

    def table(fn):
        b = bound_var(lab, M)
        key = tuple(tm.rapp(pre + "tri", (C(j), b), True) for j in range(3))
        return lab.ip.new(va.Dct((("g", b, M, (("put", key, fn(b)),)),)))
    cmap = table(lambda b: tuple(tm.rapp(coarse.pre + "tri", (C(j), tm.rapp(pre + "ct", (b,), True)), True) for j in range(3)))
    bary = table(lambda b: tuple(lab.bary(tm.app(pre + "b1", (C(j), b)), tm.app(pre + "b2", (C(j), b))) for j in range(3)))
    e1, e2 = lab.ip.new(va.Dct(())), lab.ip.new(va.Dct(()))
    g.grid = lab.call("domain.RefinedGrid", vertices, edges, tris, bd, dd, nn, points, coarse.grid, cmap, bary, e1, e2)
    return g


SMALL = dict(tris=[(0, 1, 2), (1, 3, 2)], d=[(0, 1)], n=[(1, 3), (3, 2), (2, 0)], inner=[(1, 2)], dv=[0, 1], nv=[1, 3, 2, 0])
ONE_TRI = dict(tris=[(0, 1, 2)], d=[(0, 1), (2, 1)], n=[(2, 0)], inner=[], dv=[0, 1, 2], nv=[2, 0])


def small_mesh(lab, pre="", coarse=None, shape=SMALL, points=None):
    """known connectivity, symbolic positions near those of a nice mesh"""
    g = Mesh()
    g.lab, g.pre = lab, pre
    n = 1 + max(max(t) for t in shape["tris"])
    if coarse is not None:
        g.pts = coarse.pts
    else:
        base = [(0, 0), (1, 0), (0, 1), (1, 1)]
        g.pts = points or [tuple(tm.sym(f"{pre}p{c}{i}", lo=Fraction(base[i][k] * 4 - 1, 4),
                                        hi=Fraction(base[i][k] * 4 + 1, 4)) for k, c in enumerate("xy")) for i in range(n)]
    g.tris = shape["tris"]
    g.edges = {"d": shape["d"], "n": shape["n"]}
    g.bverts = {"d": shape["dv"], "n": shape["nv"]}
    bd = list(dict.fromkeys(shape["dv"] + shape["nv"]))
    args = (list(range(n)), shape["d"] + shape["n"] + shape["inner"], list(g.tris), (bd, shape["d"] + shape["n"]),
            (shape["dv"], list(shape["d"])), (shape["nv"], list(shape["n"])), [lab.vec(list(p)) for p in g.pts])
    if coarse is None:
        g.grid = lab.new_grid(*args)
        return g
    d = lambda kv: lab.call(lab.ip.builtins["dict"], kv)
    corners = lambda: tuple(lab.bary(*x) for x in ((O, Z), (Z, O), (Z, Z)))
    g.grid = lab.new_grid(*args, extra=(coarse.grid, d([(t, t) for t in g.tris]), d([(t, corners()) for t in g.tris]),
                                        d([]), d([])))
    return g


class Solve:
    """one recorded solver call"""

    def __init__(self, rec, kind, obj, index):
        self.rec, self.kind, self.obj, self.index = rec, kind, obj, index
        self.no, self.model, self.heap = rec["no"], rec["model"], rec["heap"]


class Scene:
    def __init__(self, rep: Rep, reg=False, mesh="generic", run=True, light=False, eps=None, stubbed=False):
        self.rep, self.reg = rep, reg
        numeval.reset()
        numeval.FORCE.update({"optimal": True, "ok": True, "tc_*": False})
        lab = self.lab = Lab(rep)
        ip = self.ip = lab.ip
        self.meshkind = mesh
        self.integrals = [0]
        if mesh == "generic":
            self.g = generic_mesh(lab)
            self.r = generic_mesh(lab, "f", self.g) if reg else None
            self.q = generic_mesh(lab, "q", self.g) if reg else None
        else:
            shape = ONE_TRI if mesh == "one" else SMALL
            self.g = small_mesh(lab, shape=shape)
            self.r = small_mesh(lab, "f", self.g, shape=shape) if reg else None
            self.q = small_mesh(lab, "q", self.g, shape=shape) if reg else None
        # grid carrying the temperature
        self.tg = self.r if reg else self.g
        pos = lambda n: tm.sym(n, lo=0, pos=True)
        self.R, self.fps, self.scale = (pos(n) for n in ("R", "fps", "scale"))
        self.T0 = tm.sym("T0", lo=0)
        self.eps = (pos("eps") if eps is None else eps) if reg else None
        if light:
            self.lighten()
        self.factor = C(2) if reg else None
        self.domain_calls = []

        def named(a, k, names):
            """positional form of a call that may use keywords"""
            rest = dict(k or {})
            out = list(a) + [rest.pop(n) for n in names[len(a):] if n in rest]
            if rest or len(out) != len(names):
                raise Unsupported("arguments of a domain method")
            return tuple(out)

        def grid(ip, a, k):
            self.domain_calls.append(("grid", named(a, k, ("scale",))))
            return self.g.grid

        def refine(ip, a, k):
            a = named(a, k, ("grid", "refinement_factor"))
            self.domain_calls.append(("refine", a))
            first = ip.vsimp(a[0]) is self.g.grid
            if self.r is None:
                raise Unsupported("refinement in the plain setting")
            return self.r.grid if first else self.q.grid
        self.domain = lab.stub("Domain", BuiltinV("grid", grid), BuiltinV("refine", refine), None)
        self.trac = BuiltinV("trac", lambda ip, a, k: tuple(tm.app(f"trac{i}", lab.flat(a)) for i in range(2)))
        self.ext = lab.opq("ext")
        tm.RANGES["ext"] = lambda args: (Z, C(2), False)
        self.made = []   # (kind, object, arguments)
        self.stubbed, self.stubs = stubbed, set()
        self.log = lab.lst([]) if stubbed else None
        self.patch()
        self.cid_of = {}
        self.hints()
        self.sim = None
        if run:
            self.construct()

    # ---- set up
    def lighten(self):
        """integrals are opaque numbers: for rules that do not look at the objectives"""
        n = self.integrals

        def ov(ip, f, args, kw):
            n[0] += 1
            return tm.app("integral", (C(n[0]),))
        for c in ("Integrator", "BoundaryIntegrator"):
            try:
                f = self.lab.get(f"integrators.{c}.__call__")
                self.ip.overrides[f.node] = ov
            except (Unsupported, AbsRaise, AttributeError):
                pass

    def patch(self):
        """record the objects made by the two factories"""
        ip = self.ip
        for mod, name, kind in (("mechanical_step", "mechanical_step", "mech"), ("thermal_step", "thermal_step", "therm")):
            m = self.lab.module(mod)
            orig = ip.getattr(m, name)

            if self.stubbed:
                wrapped = self.stub_factory(kind)
                sc = ip.get(m.scope)
                ip.put(m.scope, va.Scp({**sc.vars, name: BuiltinV(name, wrapped)}, sc.parent, sc.kind, sc.extra))
                continue

            def wrapped(ip, a, k, orig=orig, kind=kind):
                o = ip.call(orig, a, k)
                self.made.append((kind, ip.vsimp(o), tuple(a), dict(k)))
                return o
            sc = ip.get(m.scope)
            ip.put(m.scope, va.Scp({**sc.vars, name: BuiltinV(name, wrapped)}, sc.parent, sc.kind, sc.extra))

    def stub_factory(self, kind):
        """factory of stand-ins that answer every solve with a new arbitrary state and record what they were given"""
        lab, ip = self.lab, self.ip

        def make(ip, a, k):
            n = lab.num(ip.vsimp(a[1]))
            if self.stubbed == "rest":
                return self.rest_y() if ip.vsimp(a[0]) is tm.TRUE else self.rest_theta()
            return self.y_array(f"ly{n}_") if ip.vsimp(a[0]) is tm.TRUE else self.th_array(f"lt{n}_")

        def factory(ip, a, k):
            if kind == "mech":
                args = (self.rest_y(), self.rest_y(), self.rest_theta())
            else:
                args = tuple(a[2:5])
                if len(args) != 3:
                    raise Unsupported("the factory of the thermal step is called in another way")
            self.stubs.add(kind)
            return lab.stub("MechStub" if kind == "mech" else "ThermStub", kind, BuiltinV("make", make), self.log, *args, None)
        return factory

    def rest_y(self):
        return self.make_array((lambda i, c, d: self.initial((i, C(c), C(d)))) if self.reg else
                               (lambda i, c: self.initial((i, C(c)))), self.g, (2, 6) if self.reg else (2,))

    def rest_theta(self):
        return self.make_array(lambda i: self.T0, self.tg)

    def params(self):
        a = [self.T0, self.R, self.fps, self.scale] + ([self.eps, self.factor] if self.reg else [])
        return self.lab.call("simulation.SimulationParams", *a)

    def construct(self):
        self.sim = self.lab.good(lambda: self.lab.call("simulation.Simulation", self.domain, self.params(), self.ext,
                                                       self.trac), "construction of a simulation",
                                 where=self.lab.where("simulation.Simulation"))
        self.learn()
        return self.sim

    def run(self, *n):
        return self.lab.good(lambda: self.lab.meth(self.sim, "run", *n), f"run({', '.join(map(str, n))})",
                             where=self.lab.where("simulation.Simulation.run"))

    def steps(self):
        return self.lab.items(self.lab.attr(self.sim, "steps"))

    # ---- solves
    def object_of(self, kind):
        for k, o, a, kw in self.made:
            if k == kind:
                return o
        raise Unsupported(f"the {kind} step object was not created by its factory")

    def models_of(self, obj):
        out = set()
        for r in reach(self.lab, obj):
            if isinstance(self.ip.get(r), va.Model):
                out.add(r)
        return out

    def solves(self):
        objs = {k: o for k, o, _, _ in self.made}
        out, count = [], {}
        models = {k: self.models_of(o) for k, o in objs.items()}
        for rec in getattr(self.ip, "solves", []):
            kind = next((k for k in objs if rec["model"] in models[k]), None)
            count[kind] = count.get(kind, 0) + 1
            out.append(Solve(rec, kind, objs.get(kind), count[kind]))
        return out

    # ---- looking at recorded states
    @contextlib.contextmanager
    def at(self, s: Solve, mode="before"):
        """look at the heap as it was when the solver was called ('before'), directly after the solve
        ('after'), or with every variable of the model free ('all')"""
        ip = self.ip
        saved = ip.layers
        h = dict(s.heap)
        if mode != "before":
            for n, v in h[s.model].attrs.items():
                c = h.get(v) if isinstance(v, Ref) else None
                if isinstance(c, va.Comp) and c.kind == "Var":
                    old = c.log if mode == "after" else ()
                    h[v] = va.Comp(c.kind, c.index, old + (("solve", s.no, old),) if mode == "after"
                                   else (("solve", s.no, ()),), c.info)
        ip.layers = [h]
        try:
            yield
        finally:
            ip.layers = saved

    def comps(self, s, kind):
        """components of the model at the solve: [(name, ref, content)]"""
        out = []
        for n, v in s.heap[s.model].attrs.items():
            c = s.heap.get(v) if isinstance(v, Ref) else None
            if isinstance(c, va.Comp) and c.kind == kind:
                out.append((n, v, c))
        return out

    def array(self, obj, getter):
        """content of the array a getter returns now"""
        r = self.ip.vsimp(self.lab.meth(obj, getter))
        if not isinstance(r, Ref) or not isinstance(self.ip.get(r), va.Arr):
            raise Unsupported(f"{getter} returns {show(r)}")
        return self.content(r)

    def content(self, r):
        """content of an array, independent of the object it may be a view of"""
        c = self.ip.get(r)
        if isinstance(c.tree, tuple) and c.tree and c.tree[0] == "view":
            return self.ip.get(lib_numpy.copy_arr(self.ip, r))
        return c

    def entry(self, arr, *k):
        """entry of an array content"""
        r = self.ip.new(arr) if isinstance(arr, va.Arr) else arr
        v = self.lab.item(r, *k)
        return v

    def make_array(self, fn, mesh, dims=()):
        """array whose entry (i, *k) is fn(i, *k): i a vertex of the mesh, dims the further dimensions"""
        def inner(i, ks, ds):
            if not ds:
                return fn(i, *ks)
            return ("const", tuple(inner(i, ks + (j,), ds[1:]) for j in range(ds[0])))
        if mesh.tris is not None:
            t = ("const", tuple(inner(C(i), (), dims) for i in range(len(mesh.pts))))
        else:
            b = bound_var(self.lab, mesh.N)
            t = ("sym", mesh.N, b, inner(b, (), dims))
        return self.ip.new(va.Arr(t))

    def y_array(self, name):
        """arbitrary deformation array"""
        self.near_name(name)
        if self.reg:
            return self.make_array(lambda i, c, d: tm.rapp(f"{name}{c}{d}", (i,)), self.g, (2, 6))
        return self.make_array(lambda i, c: tm.rapp(f"{name}{c}0", (i,)), self.g, (2,))

    def y_sym(self, name, k):
        d = self.lab.num(k[2]) if self.reg else 0
        return tm.rapp(f"{name}{self.lab.num(k[1])}{d}", (k[0],))

    def th_array(self, name, mesh=None):
        """arbitrary non-negative temperature array"""
        tm.RANGES[name] = lambda args: (Z, C(2), False)
        return self.make_array(lambda i: tm.rapp(name, (i,)), mesh or self.tg)

    def near_name(self, name):
        for c in (0, 1):
            for d in range(6 if self.reg else 1):
                numeval.HINTS[f"{name}{c}{d}"] = lambda p, k, r, c=c, d=d: self.near(p, r, k[0], c, d, name)

    def dofs(self, mesh=None, y=True):
        """index tuples standing for all entries of a deformation (y) or temperature array"""
        if not y:
            return [(i,) for i in self.tg.representatives("w")]
        vs = self.g.representatives("v")
        if self.reg:
            return [(i, C(c), C(d)) for i in vs for c in (0, 1) for d in range(6)]
        return [(i, C(c)) for i in vs for c in (0, 1)]

    def initial(self, k):
        """initial value of the deformation degree of freedom k"""
        p = self.g.coords(k[0])
        c = self.lab.num(k[1])
        if not self.reg:
            return p[c]
        d = self.lab.num(k[2])
        return p[c] if d == 0 else O if d == c + 1 else Z

    def objective(self, s, mode="all"):
        """(term, sense) of the objective at the solve, parameters replaced by their values and
        variables by the unknowns"""
        with self.at(s, mode):
            act = []
            for n, v, c in self.comps(s, "Objective"):
                a = self.ip.vsimp(self.ip.getattr(v, "active"))
                if a is not tm.FALSE:
                    act.append((v, a))
            if len(act) != 1 or act[0][1] is not tm.TRUE:
                self.rep.fail(f"the model has {len(act)} active objectives at solve {s.no}", site(s.rec["site"]))
                raise Violated
            v = act[0][0]
            e = lp.to_expr(self.ip, lp.read_attr(self.ip, v, "expr", ()))
            if e is None:
                self.rep.fail(f"the objective is empty at solve {s.no}", site(s.rec["site"]))
                raise Violated
            sense = lp.read_attr(self.ip, v, "sense", (), O)
            return lp.value_of(self.ip, e), sense

    # ---- sampling conventions
    def learn(self):
        """which unknown belongs to which degree of freedom"""
        for s in self.solves():
            if s.kind is None or (s.kind, "ok") in self.cid_of:
                continue
            self.cid_of[(s.kind, "ok")] = True
            try:
                with self.at(s, "all"):
                    if s.kind == "mech":
                        a = self.array(s.obj, "y")
                        for k in self.dofs():
                            t = self.entry(a, *k)
                            if isinstance(t, T) and t.op == "f" and t.a[0] == "sol":
                                c = self.lab.num(k[1])
                                args = t.a[1]
                                if self.reg and len(args) == 4:
                                    self.cid_of[(args[1], args[3])] = ("y", c, self.lab.num(k[2]))
                                elif not self.reg:
                                    self.cid_of[(args[1], None)] = ("y", c, 0)
                    else:
                        a = self.array(s.obj, "theta")
                        for k in self.dofs(y=False):
                            t = self.entry(a, *k)
                            if isinstance(t, T) and t.op == "f" and t.a[0] == "sol":
                                self.cid_of[(t.a[1][1], None)] = ("theta",)
            except (Unsupported, AbsRaise):
                pass

    def near(self, p, r, i, c, d=0, group=None):
        """a sample value for a deformation degree of freedom: near the identity"""
        amp = p.factor("deformation", group)
        if self.reg and d:
            return (1.0 if d == c + 1 else 0.0) + r.uniform(-0.08, 0.08) * amp
        if self.g.pts is not None:
            base = p.value(self.g.pts[i][c])
        else:
            base = p.value(tm.app(("px", "py")[c], (C(i),)))
        return float(base) + r.uniform(-0.05, 0.05) * amp

    def hints(self):
        def sol(p, k, r):
            no, cid, *ix = k
            off = 1 if self.reg else 0
            w = self.cid_of.get((cid, None))
            if w is None and len(ix) == 2:
                w = self.cid_of.get((cid, C(ix[1])))
            if w is None:
                return None
            if w[0] == "theta":
                return r.uniform(0.1, 2.0) * p.factor("temperature", no)
            if ix[0] < off or ix[0] - off >= p.value(self.g.size()):
                raise numeval.NoValue
            return self.near(p, r, ix[0] - off, w[1], w[2], (no, w[1]))
        numeval.HINTS["sol"] = sol
        # points of a mesh in general position, away from each other
        if self.meshkind == "generic":
            for pre in ("",) + (("f", "q") if self.reg else ()):
                for j, n in enumerate(("px", "py")):
                    numeval.HINTS[pre + n] = lambda p, k, r, j=j, pre=pre: lattice(p, pre, k[0], j)


def lattice(p, pre, i, j):
    """well separated points in general position"""
    if not isinstance(i, int) or i < 0 or i > 400:
        raise numeval.NoValue
    side = 5 if i < 25 else 21
    slots = [(x, y) for x in range(side) for y in range(side)]
    p.rnd("pts", pre, side).shuffle(slots)
    r = p.rnd("jit", pre, i, j)
    return slots[i][j] + r.uniform(0.05, 0.7)


def scenes(rep, reg, fn, name, **kw):
    """fn(scene) on arbitrary meshes, on a small mesh if that is outside the fragment"""
    def go(mesh):
        def run():
            S = Scene(rep, reg, mesh, **kw)
            fn(S)
            S.lab.done()
        return run
    rep.attempt(name, go("generic"), go("one" if reg else "small"))
