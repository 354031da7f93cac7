"""C09, C10: the minimised functionals are the documented energies, at every solve."""
from __future__ import annotations
import itertools
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref, BuiltinV
from .base import Lab, Rep, Violated, show, site
from .scene import Scene, scenes, bound_var
from . import steps
from .steps import among, kinds_of, traction_work, heat_exchange, is_load, SETTINGS

Z, O = tm.ZERO, tm.ONE
C = tm.const
HALF = C(Fraction(1, 2))


# ------------------------------------------------------------------ quadrature

def rules(lab, degree):
    """[(name, [(l1, l2)], [weight])]: the package's triangle rules exact to the degree"""
    m = lab.module("quadrature_rules")
    sc = lab.ip.get(m.scope)
    out = []
    for n, v in sc.vars.items():
        if not isinstance(v, Ref) or not isinstance(lab.ip.get(v), va.Obj):
            continue
        try:
            pts = [tuple(lab.attr(p, k) for k in ("l1", "l2")) for p in lab.items(lab.attr(v, "points"))]
            ws = lab.items(lab.attr(v, "weights"))
        except (Unsupported, AbsRaise):
            continue
        if exact(pts, ws, degree):
            out.append((n, pts, ws))
    # fewest nodes first
    return sorted(out, key=lambda r: len(r[1]))


def exact(pts, ws, degree):
    import math
    p = next(iter(numeval.points(1)))
    val = lambda t: float(p.value(t))
    P = [(val(a), val(b)) for a, b in pts]
    W = [val(w) for w in ws]
    for i in range(degree + 1):
        for j in range(degree + 1 - i):
            want = 2 * math.factorial(i) * math.factorial(j) / math.factorial(i + j + 2)
            if abs(sum(w * a ** i * b ** j for (a, b), w in zip(P, W)) - want) > 1e-9:
                return False
    return True


def integrate(mesh, rule, f):
    """integral over all triangles of f(triangle, l1, l2)"""
    _, pts, ws = rule

    def tri(t):
        return tm.mul(area(mesh, t), tm.add(*[tm.mul(w, f(t, a, b)) for (a, b), w in zip(pts, ws)]))
    return mesh.over_tris(tri)


def cross(mesh, t):
    a, b, c = (mesh.coords(i) for i in t)
    return tm.sub(tm.mul(tm.sub(b[0], a[0]), tm.sub(c[1], a[1])), tm.mul(tm.sub(c[0], a[0]), tm.sub(b[1], a[1])))


def area(mesh, t):
    return tm.mul(HALF, tm.absv(cross(mesh, t)))


# ------------------------------------------------------------------ fields

def p1(f, t, l1, l2):
    return tm.add(tm.mul(l1, f(t[0])), tm.mul(l2, f(t[1])), tm.mul(tm.sub(tm.sub(O, l1), l2), f(t[2])))


def p1_gradient(mesh, f, t):
    a, b, c = (mesh.coords(i) for i in t)
    u, v = tm.sub(f(t[1]), f(t[0])), tm.sub(f(t[2]), f(t[0]))
    d = cross(mesh, t)
    gx = tm.sub(tm.mul(u, tm.sub(c[1], a[1])), tm.mul(v, tm.sub(b[1], a[1])))
    gy = tm.sub(tm.mul(v, tm.sub(b[0], a[0])), tm.mul(u, tm.sub(c[0], a[0])))
    return tm.div(gx, d), tm.div(gy, d)


class P1Body:
    """strain of a piecewise affine deformation: y(vertex, component)"""

    def __init__(self, S, y):
        self.S, self.y = S, y

    def strain(self, t, l1, l2):
        return [list(p1_gradient(self.S.g, lambda i, c=c: self.y(i, c), t)) for c in (0, 1)]


class C1Body:
    """strain and second gradient of the C1 interpolation on the refined triangles: y(vertex, component, dof)"""

    def __init__(self, S, y):
        self.S = S
        lab = S.lab
        ints = []
        for c in (0, 1):
            if S.g.tris is not None:
                par = lab.lst([lab.lst([y(C(i), c, d) for d in range(6)]) for i in range(len(S.g.pts))])
            else:
                b = bound_var(lab, S.g.N)
                par = lab.fam(("g", b, S.g.N, (("i", lab.lst([y(b, c, d) for d in range(6)])),)))
            ints.append(lab.call("interpolation.RefinedInterpolation", lab.call("interpolation.C1Interpolation", S.g.grid, par),
                                 S.r.grid))
        self.deform = lab.call("interpolation.Deformation", *ints)

    def at(self, name, t, l1, l2):
        lab = self.S.lab
        return lab.py(lab.meth(self.deform, name, t, lab.bary(l1, l2)))

    def strain(self, t, l1, l2):
        lab = self.S.lab
        m = lab.meth(self.deform, "strain", t, lab.bary(l1, l2))
        return [[lab.item(m, i, j) for j in (0, 1)] for i in (0, 1)]

    def second(self, t, l1, l2):
        lab = self.S.lab
        m = lab.meth(self.deform, "hyper_strain", t, lab.bary(l1, l2))
        return [lab.item(m, i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]


def body(S, y):
    return C1Body(S, y) if S.reg else P1Body(S, y)


def previous(S, s):
    """previous deformation, current deformation, previous temperature: functions of the vertex"""
    with S.at(s):
        py = S.array(s.obj, "prev_y")
        cy = S.array(s.obj, "y") if s.kind == "therm" else None
        pt = S.array(s.obj, "prev_theta")
    y = lambda a: (lambda i, *k: S.entry(a, i, *[C(x) for x in k]))
    return y(py), y(cy) if cy is not None else None, lambda i: S.entry(pt, i)


# ------------------------------------------------------------------ material laws

class Law:
    """energies assembled from the two potentials and the temperature weights of the package"""

    def __init__(self, S):
        self.lab = S.lab

    def h(self, name, *a):
        return self.lab.call("helpers." + name, *a)

    def austenite(self, F):
        return self.h("austenite_potential", self.lab.mat(F))

    def martensite(self, F):
        return self.h("martensite_potential", self.lab.mat(F))

    def elastic(self, F, th):
        a = self.h("austenite_percentage", th)
        return tm.add(tm.mul(a, self.austenite(F)), tm.mul(tm.sub(O, a), self.martensite(F)))

    def coupling_stress(self, F, th):
        a = self.h("austenite_percentage", th)
        A, M = (self.h(f"derivative_{n}_potential", self.lab.mat(F)) for n in ("austenite", "martensite"))
        return [[tm.mul(a, tm.sub(self.lab.item(A, i, j), self.lab.item(M, i, j))) for j in (0, 1)] for i in (0, 1)]

    def internal(self, F, th):
        return tm.mul(self.h("internal_energy_weight", th), tm.sub(self.austenite(F), self.martensite(F)))

    def internal_antiderivative(self, F, th):
        return tm.mul(self.h("antider_internal_energy_weight", th), tm.sub(self.austenite(F), self.martensite(F)))

    def const(self, name):
        return self.lab.get("helpers." + name)

    def conductivity(self, F, g):
        """g . (det F) F^-1 K F^-T g"""
        K = self.const("HEAT_CONDUCTIVITY")
        d = tm.sub(tm.mul(F[0][0], F[1][1]), tm.mul(F[0][1], F[1][0]))
        # F^-T g times det
        w = (tm.sub(tm.mul(F[1][1], g[0]), tm.mul(F[1][0], g[1])), tm.sub(tm.mul(F[0][0], g[1]), tm.mul(F[0][1], g[0])))
        q = tm.add(*[tm.mul(w[i], self.lab.item(K, i, j), w[j]) for i in (0, 1) for j in (0, 1)])
        return tm.div(q, d)


def dissipation(P, F):
    """half the squared norm of (F-P)^T P + P^T (F-P)"""
    D = [[tm.sub(F[i][j], P[i][j]) for j in (0, 1)] for i in (0, 1)]
    out = []
    for i, j in itertools.product((0, 1), repeat=2):
        out.append(tm.power(tm.add(*[tm.add(tm.mul(D[k][i], P[k][j]), tm.mul(P[k][i], D[k][j])) for k in (0, 1)]), 2))
    return tm.mul(HALF, tm.add(*out))


def load_time(rep, o, names, where):
    ts = {a.a[1][0] for a in tm.atoms(o, is_load(*names))}
    if len(ts) > 1:
        rep.fail(f"{names[0]} is used at {len(ts)} different times in one functional", where)
        raise Violated
    return ts.pop() if ts else None


def candidates(S, degree):
    rs = rules(S.lab, degree)
    if not rs:
        S.rep.fail(f"the package has no triangle rule exact to degree {degree}", S.lab.where("quadrature_rules.DUNAVANT2"))
        raise Violated
    return rs


def mechanical(S, s):
    """candidates for the functional of a mechanical solve (one per admissible quadrature), loads included"""
    lab = S.lab
    law = Law(S)
    prev, _, th = previous(S, s)
    new = steps.free_y(S, s)
    P, F = body(S, prev), body(S, new)
    mesh = S.r if S.reg else S.g

    def terms(rule):
        def density(t, a, b):
            f, p = F.strain(t, a, b), P.strain(t, a, b)
            e = [law.elastic(f, p1(th, t, a, b)), tm.mul(S.fps, dissipation(p, f))]
            if S.reg:
                h = F.second(t, a, b)
                e.append(tm.mul(S.eps, tm.power(tm.sqrt(tm.add(*[tm.power(x, 2) for x in h])), 3)))
            return tm.add(*e)
        return integrate(mesh, rule, density)
    return lambda rule: terms(rule)


def thermal(S, s):
    law = Law(S)
    prev, cur, th0 = previous(S, s)
    th = steps.free_theta(S, s)
    P, F = body(S, prev), body(S, cur)
    mesh = S.r if S.reg else S.g
    cap = law.const("ENTROPY_CONSTANT")

    def density(t, a, b):
        f, p = F.strain(t, a, b), P.strain(t, a, b)
        g = p1_gradient(mesh, th, t)
        T1, T0 = p1(th, t, a, b), p1(th0, t, a, b)
        rate = tm.mul(C(2), S.fps, S.fps, dissipation(p, f))
        stress = law.coupling_stress(p, T0)
        power = tm.add(*[tm.mul(stress[i][j], tm.sub(f[i][j], p[i][j]), S.fps) for i in (0, 1) for j in (0, 1)])
        energy = tm.sub(law.conductivity(p, g), tm.mul(tm.add(rate, power), T1))
        diss = tm.add(tm.mul(HALF, cap, tm.power(tm.sub(T1, T0), 2)), law.internal_antiderivative(f, T1),
                      tm.neg(tm.mul(law.internal(p, T0), T1)))
        return energy, tm.mul(S.fps, diss)
    return density, mesh


def compare(S, s):
    rep, lab = S.rep, S.lab
    mech = s.kind == "mech"
    mod = "mechanical_step" if mech else "thermal_step"
    w = lab.where(f"{mod}._model{'_regularized' if S.reg else ''}")
    what = f"functional of {'mechanical' if mech else 'thermal'} solve {s.index} ({'regularized' if S.reg else 'unregularized'})"
    o, sense = S.objective(s)
    rep.eq(sense, O, f"{what}: sense (1 = minimise)", w)
    deg = 5 if S.reg else 2
    rs = candidates(S, deg)
    loads = ("trac0", "trac1") if mech else ("ext",)
    time = load_time(rep, o, loads, w)
    bulk, load = o, None
    if not S.reg:
        if time is None:
            rep.fail(f"{what}: the {'boundary traction' if mech else 'external temperature'} does not occur", w)
            raise Violated
        if mech:
            y = steps.free_y(S, s)
            load = [tm.neg(traction_work(S, s, time, n, y)) for n in (1, 2, 3)]
        else:
            # by its dependence on the external temperature
            th = steps.free_theta(S, s)
            load = [heat_exchange(S, s, tm.rapp("ext", (time,)), n, th) for n in (1, 2, 3)]
    else:
        load = [Z]
        if time is not None:
            # the regularized setting documents no load terms: those that occur must be the work and exchange terms
            y = steps.free_y(S, s) if mech else None
            load = [tm.neg(traction_work(S, s, time, n, y)) for n in (1, 2, 3)] if mech else [
                heat_exchange(S, s, tm.rapp("ext", (time,)), n, steps.free_theta(S, s)) for n in (1, 2, 3)]
    if mech:
        f = mechanical(S, s)
        wants = (tm.add(f(r), l) for r in rs for l in load)
    else:
        d, mesh = thermal(S, s)

        def both():
            parts = {}
            def part(i, r):
                if (i, r[0]) not in parts:
                    parts[i, r[0]] = integrate(mesh, r, lambda t, a, b: d(t, a, b)[i])
                return parts[i, r[0]]
            pairs = sorted(itertools.product(rs, repeat=2), key=lambda p: p[0] is not p[1])
            for r1, r2 in pairs:
                for l in load:
                    yield tm.add(part(0, r1), part(1, r2), l)
        wants = both()
    among(rep, o, wants, what, w)


def compare_regularization(S, s):
    """the part of a mechanical functional which depends on the regularization parameter, however small"""
    w = S.lab.where("mechanical_step._model_regularized")
    part = lambda t: tm.sub(t, tm.subst(t, {S.eps: Z}))
    o, _ = S.objective(s)
    f = mechanical(S, s)
    among(S.rep, part(o), (part(f(r)) for r in candidates(S, 5)), f"regularization term of mechanical solve {s.index}", w,
          precise=True)


def functional(kind):
    def rule(rep: Rep):
        def check(S):
            plan = [1, 2]
            if rep.tier == "thorough":
                plan = [1, 2, 1, 3] if not S.reg else [1, 2, 1]
            for n in plan:
                S.run(n)
            sv = [s for s in kinds_of(S, 1 + sum(plan)) if s.kind == kind]
            if rep.tier == "quick":
                sv = sv[:3] if S.reg else sv
            for s in sv:
                compare(S, s)
        for reg, name in SETTINGS:
            scenes(rep, reg, check, f"{'mechanical' if kind == 'mech' else 'thermal'} functional ({name})")
    return rule


RULES = {"C09": functional("mech"), "C10": functional("therm")}
