"""A drive through the public operations of the package (abstractly), including the error and plotting
paths.  Used by the rules that look at side effects (C35) and at accidental errors (C36) everywhere."""
from __future__ import annotations
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from ..values import Unsupported, AbsRaise, Ref, BuiltinV, ExtV
from .base import Lab, Rep, Violated
from .scene import Scene, small_mesh, SMALL
from .plots import mark

C = tm.const
F = Fraction


class Drive:
    """runs operations one by one; errors are part of the behaviour, not of the drive"""

    def __init__(self, rep: Rep, start=None, after=None):
        self.rep, self.start, self.after = rep, start, after
        self.skipped, self.ran = [], 0

    def begin(self, lab):
        if self.start:
            self.start(lab)
        return lab

    def use(self, lab, what, fn):
        ip = lab.ip
        m = len(ip.raises)
        saved = ip.save_pc()
        frames, node = len(ip.frames), ip.node
        r = None
        try:
            r = fn()
        except AbsRaise:
            pass
        except Unsupported as e:
            self.skipped.append(f"{what}: {e}")
        except (tm.ZeroDiv, RecursionError) as e:
            self.skipped.append(f"{what}: {type(e).__name__}")
        del ip.frames[frames:]
        ip.node = node
        ip.restore_pc(saved)
        self.ran += 1
        if self.after:
            self.after(lab, what, ip.raises[m:])
        return r


def sims(reg, light=True):
    """a simulation from construction to plotting"""
    def go(d: Drive):
        S = Scene(d.rep, reg, "one", run=False, light=light)
        lab, ip = d.begin(S.lab), S.lab.ip
        w = "simulation" if light else "simulation with full objectives"
        d.use(lab, f"{w}: construction", lambda: S.construct())
        if S.sim is None:
            return lab
        d.use(lab, f"{w}: run()", lambda: lab.meth(S.sim, "run"))
        if not light:
            return lab
        d.use(lab, f"{w}: run(2)", lambda: lab.meth(S.sim, "run", 2))
        for n in (0, -1):
            d.use(lab, f"{w}: run({n})", lambda: lab.meth(S.sim, "run", n))
        d.use(lab, "max_temp", lambda: lab.meth(S.sim, "max_temp"))
        for i in (-1, 0, 1, 7, -9):
            d.use(lab, f"plot_step({i})", lambda: lab.meth(S.sim, "plot_step", C(i)))
            d.use(lab, f"save_step({i})", lambda: lab.meth(S.sim, "save_step", C(i)))
        d.use(lab, "save_step with a path", lambda: lab.meth(S.sim, "save_step", C(0), "p"))
        n0 = mark(ip)
        d.use(lab, "save_animation", lambda: lab.meth(S.sim, "save_animation"))
        d.use(lab, "save_animation with a name", lambda: lab.meth(S.sim, "save_animation", "film"))
        for seg in list(ip.get(ip.trace_ref).segs[n0:]):
            if seg[0] == "i" and seg[1][0] == "ext":
                for f in list(seg[1][2]) + [x for _, x in seg[1][3]]:
                    if isinstance(f, (va.FuncV, va.BoundV, va.PartialV)):
                        for i in (0, 1):
                            d.use(lab, f"animation frame {i}", lambda: lab.call(f, C(i)))
        steps = d.use(lab, "steps", lambda: S.steps()) or []
        for k, st in enumerate(steps[:3]):
            d.use(lab, "repr of a step", lambda: lab.call(ip.builtins["repr"], st))
            d.use(lab, "str of a step", lambda: lab.call(ip.builtins["str"], st))
            d.use(lab, "plot of a step", lambda: lab.meth(st, "plot", ExtV("ax"), C(2)))
            x = [tm.div(tm.add(*[S.g.pts[i][c] for i in (0, 1, 2)]), C(3)) for c in (0, 1)]
            for f in ("y", "theta"):
                o = lab.attr(st, f)
                d.use(lab, f"{f} of a step", lambda: lab.call(o, *x))
                d.use(lab, f"{f} outside", lambda: lab.call(o, C(50), C(50)))
            y = lab.attr(st, "y")
            d.use(lab, "strain of a step", lambda: lab.meth(y, "strain", *x))
            d.use(lab, "hyper strain of a step", lambda: lab.meth(y, "hyper_strain", *x))
            d.use(lab, "component of a step", lambda: lab.call(lab.item(y, 0), *x))
            d.use(lab, "gradient of the temperature", lambda: lab.meth(lab.attr(st, "theta"), "gradient", *x))
            d.use(lab, "hessian of a component", lambda: lab.meth(lab.item(y, 1), "hessian", *x))
            curve = lab.lst([lab.vec(list(x)), lab.vec(list(x))])
            ip.raw_setattr(S.domain, "_curves", BuiltinV("curves", lambda ip, a, k: lab.lst([curve])))
            for a in ((5,), (5, 1), (5, 1, 2)):
                d.use(lab, "deformation curves", lambda: lab.meth(st, "_plot_deformation_curves", *[C(i) for i in a])
                      if has(lab, st, "_plot_deformation_curves") else None)
        return lab
    return go


def has(lab, o, name):
    try:
        lab.attr(o, name)
        return True
    except (AbsRaise, Unsupported):
        return False


def failing(reg):
    def go(d: Drive):
        """solvers that fail"""
        S = Scene(d.rep, reg, "one" if reg else "small", run=False, light=True)
        lab = d.begin(S.lab)
        S.construct()
        for n in (1, 2):
            d.use(lab, "run with failures", lambda: lab.meth(S.sim, "run", n))
        return lab
    return go


def arrays(reg):
    def go(d: Drive):
        """well and badly shaped arrays"""
        from .steps import objects, shaped
        S = Scene(d.rep, reg, "one" if reg else "small", run=False, light=True)
        lab = d.begin(S.lab)
        m, t = objects(S)
        N, NT = S.g.size(), S.tg.size()
        good = {True: (N, 2, 6) if reg else (N, 2), False: (NT,)}
        bad = {True: [(N, 3), (N,), (C(7), 2), (N, 2, 5)], False: [(NT, 1), (C(9),)]}
        for y in (True, False):
            for sh in [good[y]] + bad[y]:
                for o, names in ((m, ("update_prev_y",) if y else ("update_prev_theta",)),
                                 (t, ("update_prev_y", "update_y") if y else ("update_prev_theta",))):
                    for n in names:
                        d.use(lab, f"{n} given {len(sh)} dimensions", lambda: lab.meth(o, n, shaped(S, sh)))
                g = dict(py=shaped(S, good[True]), cy=shaped(S, good[True]), pt=shaped(S, good[False]))
                tp = lab.meth(S.params(), "thermal_step_params")
                for n in (("py", "cy") if y else ("pt",)):
                    a = {**g, n: shaped(S, sh)}
                    d.use(lab, "thermal_step", lambda: lab.call(
                        "thermal_step.thermal_step", None, S.g.grid, a["py"], a["cy"], a["pt"], tp, S.ext, S.r.grid if reg else None))
                    if n != "cy":
                        d.use(lab, "recorded step", lambda: lab.call(
                            "simulation.RegularizedStep" if reg else "simulation.Step", a["py"], a["pt"], S.domain, S.g.grid,
                            *([S.r.grid] if reg else [])))
        for o, n in ((m, "update_boundary_traction"), (t, "update_external_temperature")):
            d.use(lab, n, lambda: lab.meth(o, n, tm.sym("time", lo=0)))
        for o, ns in ((m, ("y", "prev_y", "prev_theta")), (t, ("y", "theta", "prev_y", "prev_theta"))):
            for n in ns:
                d.use(lab, n, lambda: lab.meth(o, n))
        if reg:
            # the settings that need a refined grid without one
            g = dict(py=shaped(S, good[True]), pt=shaped(S, good[False]))
            d.use(lab, "regularized step without refined grid",
                  lambda: lab.call("simulation.RegularizedStep", g["py"], g["pt"], S.domain, S.g.grid, None))
            d.use(lab, "regularized mechanical step without refined grid", lambda: lab.call(
                "mechanical_step.mechanical_step", None, S.g.grid, lab.meth(S.params(), "mechanical_step_params"), None, S.trac))
            d.use(lab, "regularized thermal step without refined grid", lambda: lab.call(
                "thermal_step.thermal_step", None, S.g.grid, g["py"], g["py"], g["pt"],
                lab.meth(S.params(), "thermal_step_params"), S.ext, None))
        return lab
    return go


def domains(d: Drive):
    lab = d.begin(Lab(d.rep))
    ip = lab.ip
    ax = lambda: ExtV("ax")
    grids = []
    for fix in (None, "lower", "right", "upper", "left", lab.lst(["lower", "right"]), lab.lst(["left", "upper"]), "all", "diagonal"):
        a = (2, 1) if fix is None else (2, 1, fix)
        D = d.use(lab, "rectangle", lambda: lab.call("domain.RectangleDomain", *a))
        if D is None:
            continue
        g = d.use(lab, "grid", lambda: lab.meth(D, "grid", 1))
        grids.append((D, g))
    D, g = grids[1]
    d.use(lab, "domain plot", lambda: lab.meth(D, "plot"))
    d.use(lab, "domain plot on an axis", lambda: lab.meth(D, "plot", ax()))
    for a in ((3,), (3, 1), (3, 1, 2), (3, 0, 0)):
        d.use(lab, "curves", lambda: lab.meth(D, "curves", *a))
    rs = [d.use(lab, f"refine({k})", lambda: lab.meth(D, "refine", g, k)) for k in (1, 2, 3)]
    for k in (0, -1):
        d.use(lab, f"refine({k})", lambda: lab.meth(D, "refine", g, k))
    for D2, g2 in grids:
        if g2 is not None:
            d.use(lab, "refine", lambda: lab.meth(D2, "refine", g2, 2))
    r = rs[1]
    for m in (g, r):
        if m is None:
            continue
        d.use(lab, "grid plot", lambda: lab.meth(m, "plot", None))
        d.use(lab, "grid plot on an axis", lambda: lab.meth(m, "plot", ax()))
        for p in ((F(1, 2), F(1, 3)), (F(3, 2), F(1, 4)), (0, 0), (2, 1), (7, 7), (-1, 0)):
            d.use(lab, "point location", lambda: lab.meth(m, "to_barycentric_point", lab.vec(list(p))))
            d.use(lab, "vertex location", lambda: lab.meth(m, "point_to_vertex", lab.vec(list(p))))
        for n, ok, bad in (("triangle_vertices", "triangles", (0, 0, 1)), ("edge_vertices", "edges", (0, 0))):
            d.use(lab, n, lambda: lab.meth(m, n, lab.item(lab.attr(m, ok), 0)))
            d.use(lab, n + " of nothing", lambda: lab.meth(m, n, bad))
    for x, y in ((g, g), (g, r), (r, r), (g, grids[0][1]), (g, grids[2][1]), (g, C(3)), (g, "x"), (r, rs[2])):
        d.use(lab, "==", lambda: ip.eq_op(x, y))
    if r is not None:
        d.use(lab, "coarse", lambda: lab.meth(r, "coarse"))
        t = lab.ints(lab.item(lab.attr(r, "triangles"), 0))
        b = lambda: lab.bary(F(1, 3), F(1, 4))
        for tri in (t, t[1:] + t[:1], t[2:] + t[:2], (0, 0, 0)):
            p = lab.call("domain.BarycentricPoint", tuple(tri), b())
            d.use(lab, "to_coarse_barycentric_point", lambda: lab.meth(r, "to_coarse_barycentric_point", p))
        for e in [lab.ints(x) for x in lab.items(lab.attr(r, "edges"))][:6]:
            d.use(lab, "to_coarse_edge_point", lambda: lab.meth(r, "to_coarse_edge_point", tuple(e), F(1, 4)))
        d.use(lab, "to_coarse_edge_point of nothing", lambda: lab.meth(r, "to_coarse_edge_point", (0, 0), F(1, 4)))
    g2 = d.use(lab, "second grid", lambda: lab.meth(D, "grid", 1))
    if g2 is not None:
        for e in ((0, 1), (1, 0), (0, 5)):
            d.use(lab, "append_edge", lambda: lab.meth(g2, "append_edge", e))
    bd = lambda: lab.call("domain.Boundary", lab.lst([]), lab.lst([]))
    eg = d.use(lab, "empty grid", lambda: lab.call("domain.Grid", lab.lst([0, 1]), lab.lst([]), lab.lst([]), bd(), bd(), bd(),
                                                  lab.lst([lab.vec([0, 0]), lab.vec([1, 0])])))
    if eg is not None:
        d.use(lab, "point_to_vertex without edges", lambda: lab.meth(eg, "point_to_vertex", lab.vec([1, 0])))
        d.use(lab, "append_edge to nothing", lambda: lab.meth(eg, "append_edge", (0, 1)))
        d.use(lab, "point location in nothing", lambda: lab.meth(eg, "to_barycentric_point", lab.vec([1, 0])))
    return lab


def fields(d: Drive):
    """interpolations and integrators"""
    S = Scene(d.rep, True, "small", run=False)
    lab = d.begin(S.lab)
    vals = lambda n=4: lab.lst([tm.sym(f"v{i}") for i in range(n)])
    dofs = lambda n=4, k=6: lab.lst([lab.lst([tm.sym(f"v{i}_{j}") for j in range(k)]) for i in range(n)])
    b = lab.bary(F(1, 3), F(1, 4))
    g, r = S.g.grid, S.r.grid
    bnd = lab.attr(g, "boundary")
    make = lambda n, *a: d.use(lab, n, lambda: lab.call("interpolation." + n, *a))
    p1 = make("P1Interpolation", g, vals())
    make("P1Interpolation", g, vals(3))
    c1 = make("C1Interpolation", g, dofs())
    make("C1Interpolation", g, dofs(3))
    make("C1Interpolation", g, dofs(4, 5))
    pb = make("P1BoundaryInterpolation", bnd, vals())
    make("P1BoundaryInterpolation", bnd, vals(2))
    re = make("RefinedInterpolation", c1, r)
    x = [tm.div(tm.add(*[S.g.pts[i][c] for i in (0, 1, 2)]), C(3)) for c in (0, 1)]
    for f, gg in ((p1, g), (c1, g), (re, r)):
        if f is None:
            continue
        t = lab.item(lab.attr(gg, "triangles"), 0)
        e = lab.item(lab.attr(gg, "edges"), 0)
        d.use(lab, "interpolation", lambda: lab.call(f, t, b))
        for n in ("gradient", "hessian"):
            d.use(lab, n, lambda: lab.meth(f, n, t, b))
        d.use(lab, "on_edge", lambda: lab.meth(f, "on_edge", e, F(1, 3)))
        eu = make("EuclideanInterpolation", f)
        for p in (x, [C(40), C(40)]):
            d.use(lab, "EuclideanInterpolation()", lambda: lab.call(eu, *p))
            for n in ("gradient", "hessian"):
                d.use(lab, "Euclidean " + n, lambda: lab.meth(eu, n, *p))
        for cls, args in (("Deformation", (t, b)), ("EuclideanDeformation", x)):
            de = make(cls, f, f)
            if de is None:
                continue
            d.use(lab, cls + "()", lambda: lab.call(de, *args))
            for n in ("strain", "hyper_strain"):
                d.use(lab, n, lambda: lab.meth(de, n, *args))
            for i in (0, 1, 2):
                d.use(lab, "component", lambda: lab.item(de, i))
            if cls == "Deformation":
                d.use(lab, "on_edge", lambda: lab.meth(de, "on_edge", e, F(1, 3)))
    if pb is not None:
        d.use(lab, "boundary interpolation", lambda: lab.call(pb, lab.item(lab.attr(bnd, "edges"), 0), F(1, 3)))
    f = lab.opq("phi")
    for Q in ("CENTROID", "VERTEX", "DUNAVANT2", "DUNAVANT3", "DUNAVANT4", "DUNAVANT5"):
        I = d.use(lab, "Integrator", lambda: lab.call("integrators.Integrator", lab.get("quadrature_rules." + Q),
                                                      lab.attr(g, "triangles"), lab.attr(g, "points")))
        if I is not None:
            d.use(lab, "Integrator()", lambda: lab.call(I, f))
    for k in (0, 1, 2, 3):
        B = d.use(lab, "BoundaryIntegrator", lambda: lab.call("integrators.BoundaryIntegrator", k, lab.attr(bnd, "edges"),
                                                              lab.attr(g, "points")))
        if B is not None:
            d.use(lab, "BoundaryIntegrator()", lambda: lab.call(B, f))
    T = "quadrature_rules.TriangleQuadratureRule"
    for w, p in (([1], [(F(1, 3), F(1, 3))]), ([1], []), ([F(1, 2)], [(0, 0)]), ([1], [(2, 0)]), ([1], [(-1, 0)]), ([], [])):
        q = d.use(lab, "TriangleQuadratureRule", lambda: lab.call(T, lab.lst(w), lab.lst([tuple(C(c) for c in x) for x in p])))
        if q is not None:
            d.use(lab, "its nodes", lambda: lab.items(q))
    for k in (-1, 0, 1, 2, 3):
        q = d.use(lab, "GaussQuadratureRule", lambda: lab.call("quadrature_rules.GaussQuadratureRule", k))
        if q is not None:
            d.use(lab, "its nodes", lambda: lab.items(q))
    return lab


def algebra(d: Drive):
    lab = d.begin(Lab(d.rep))
    ip = lab.ip
    s = lambda n: tm.sym(n, lo=F(1, 2), hi=2)
    vec = lambda n, p="a": lab.vec([s(f"{p}{i}") for i in range(n)])
    mat = lambda n, m, p="m": lab.mat([[s(f"{p}{i}{j}") for j in range(m)] for i in range(n)])
    ten = lambda n, m, k, p="t": lab.tens([[[s(f"{p}{i}{j}{l}") for l in range(k)] for j in range(m)] for i in range(n)])
    k = s("k")
    u = lambda n, fn: d.use(lab, n, fn)
    bi = ip.builtins
    V, M, T3 = (vec(2), vec(2, "b"), vec(3)), (mat(2, 2), mat(2, 2, "n"), mat(2, 3), mat(3, 2)), (ten(2, 2, 2), ten(2, 2, 2, "q"), ten(2, 3, 2))
    for xs in (V, M, T3):
        for x in xs:
            u("neg", lambda: ip.unary("neg", x))
            u("*", lambda: ip.binop("mul", x, k))
            u("r*", lambda: ip.binop("mul", k, x))
            if xs is not T3:
                u("/", lambda: ip.binop("truediv", x, k))
                u("r/", lambda: ip.binop("truediv", k, x))
            u("repr", lambda: lab.call(bi["repr"], x))
            u("str", lambda: lab.call(bi["str"], x))
            for n in ("normsqr", "norm", "numpy", "transpose", "trace", "det", "flatten"):
                u(n, lambda: lab.meth(x, n) if has(lab, x, n) else None)
            u("map", lambda: lab.meth(x, "map", lab.opq("phi")))
            for y in xs:
                for op in ("add", "sub"):
                    u(op, lambda: ip.binop(op, x, y))
                u("==", lambda: ip.eq_op(x, y))
                for n in ("dot", "stack", "extend", "scalar_product"):
                    if xs is V or n in ("stack", "scalar_product"):
                        u(n, lambda: lab.meth(x, n, y) if has(lab, x, n) else None)
            u("== other", lambda: ip.eq_op(x, C(1)))
    for x in V:
        u("len", lambda: lab.call(bi["len"], x))
        u("iter", lambda: lab.items(x))
        for i in (0, -1, 5):
            u("[]", lambda: lab.item(x, i))
        for a in ((1, 2), (2, 1), (2, 2), (3, 1)):
            u("reshape", lambda: lab.meth(x, "reshape", *a))
    for x in M:
        for i in ((0, 0), (1, 1), (5, 0), (0, 5), (-1, 0)):
            u("[,]", lambda: lab.item(x, *i))
        for y in M:
            u("@", lambda: ip.binop("matmul", x, y))
        for y in V:
            u("dot", lambda: lab.meth(x, "dot", y))
        u("inverse", lambda: lab.call("tensors.inverse_2x2", x))
    for x in T3:
        for i in ((0, 0, 0), (1, 1, 1), (5, 0, 0), (0, 5, 0), (0, 0, 5)):
            u("[,,]", lambda: lab.item(x, *i))
    for bad in ([[]], [[s("a")], [s("a"), s("b")]], []):
        u("Matrix of rows", lambda: lab.mat(bad))
    u("Vector of nothing", lambda: lab.vec([]))
    u("ragged tensor", lambda: lab.tens([[[s("a")], [s("b")]], [[s("a")]]]))
    for a in ((F(1, 3), F(1, 3)), (2, 0), (-1, F(1, 2)), (F(1, 2), F(2, 3))):
        b = u("BarycentricCoordinates", lambda: lab.bary(*a))
        if b is None:
            continue
        for n in ("l1", "l2", "l3"):
            u(n, lambda: lab.attr(b, n))
        u("assert_bounds", lambda: lab.meth(b, "assert_bounds"))
        u("assert_bounds", lambda: lab.meth(b, "assert_bounds", F(-1, 10), F(11, 10)))
        for n in ("repr", "str", "len"):
            u(n, lambda: lab.call(bi[n], b))
        u("iter", lambda: lab.items(b))
        for i in (0, 1, 2, 3, -1):
            u("[]", lambda: lab.item(b, i))
    for p in ((0, 1, 2), (1, 0, 2), (0,)):
        u("sign", lambda: lab.call("tensors.sign", tuple(C(i) for i in p)))
    return lab


def laws(d: Drive):
    lab = d.begin(Lab(d.rep))
    ip = lab.ip
    mat = lambda p: lab.mat([[tm.sym(f"{p}{i}{j}", lo=F(3 if i == j else 0, 4), hi=F(5 if i == j else 1, 4)) for j in (0, 1)] for i in (0, 1)])
    A, B = mat("A"), mat("B")
    H = lab.tens([[[tm.sym(f"H{i}{j}{k}") for k in (0, 1)] for j in (0, 1)] for i in (0, 1)])
    th = tm.sym("th", lo=F(1, 10), hi=2)
    fps = tm.sym("fps", lo=1, hi=9)
    u = lambda n, *a: d.use(lab, n, lambda: lab.call("helpers." + n, *a))
    for n in ("austenite_percentage", "internal_energy_weight", "antider_internal_energy_weight"):
        u(n, th)
    for n in ("austenite_potential", "derivative_austenite_potential", "martensite_potential", "derivative_martensite_potential",
              "heat_conductivity_reference"):
        u(n, A)
    for n in ("total_elastic_potential", "strain_derivative_coupling_potential", "internal_energy_no_entropy", "internal_energy",
              "temp_antrider_internal_energy_no_entropy"):
        u(n, A, th)
    u("hyper_elastic_potential", H)
    for n in ("dissipation_potential", "symmetrized_strain_delta"):
        u(n, A, B)
    u("dissipation_rate", A, B, fps)
    lims = ((C(-1), C(1)), (C(0), C(2)))
    u("fig_axis", *lims)
    u("setup_axis", ExtV("ax"), *lims)
    f = u("compose_to_integrand", lab.opq("outer"), lab.opq("f"), lab.opq("g"))
    if f is not None:
        d.use(lab, "integrand", lambda: lab.call(f, tm.sym("x")))
    return lab


def settings(d: Drive):
    lab = d.begin(Lab(d.rep))
    good = dict(initial_temperature=F(1, 2), search_radius=2, fps=3, scale=1)
    for ch in ({}, {"initial_temperature": -1}, {"search_radius": 0}, {"fps": 0}, {"scale": 0}, {"regularization": -1, "refinement_factor": 2},
               {"regularization": 1}, {"regularization": 1, "refinement_factor": 0}, {"regularization": 1, "refinement_factor": 2},
               {"refinement_factor": 2}):
        p = d.use(lab, "SimulationParams", lambda: lab.call("simulation.SimulationParams", **{**good, **ch}))
        if p is not None:
            for n in ("mechanical_step_params", "thermal_step_params"):
                d.use(lab, n, lambda: lab.meth(p, n))
            d.use(lab, "repr", lambda: lab.call(lab.ip.builtins["repr"], p))
            d.use(lab, "==", lambda: lab.ip.eq_op(p, p))
    return lab


SCENARIOS = [("unregularized simulation", sims(False)), ("regularized simulation", sims(True)),
             ("unregularized simulation, full objectives", sims(False, False)),
             ("regularized simulation, full objectives", sims(True, False)),
             ("failing solver (unregularized)", failing(False)), ("failing solver (regularized)", failing(True)),
             ("state arrays (unregularized)", arrays(False)), ("state arrays (regularized)", arrays(True)),
             ("domains and grids", domains), ("interpolations, integrators and quadrature", fields),
             ("tensor algebra", algebra), ("material laws and plotting helpers", laws), ("parameters", settings)]
