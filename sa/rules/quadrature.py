"""C16 (integrators) and C17 (quadrature tables)."""
from __future__ import annotations
import ast
import math
from fractions import Fraction
from .. import terms as tm
from ..values import Unsupported, BuiltinV, Ref, Lst
from ..terms import T
from .base import Lab, Rep, Violated, sources

Z, O, TWO = tm.ZERO, tm.ONE, tm.TWO


def phi(name="phi"):
    """an arbitrary integrand: an opaque function of the element and the coordinates"""
    def f(ip, a, k):
        el, pt = a
        el = ip.vsimp(el)
        if not isinstance(el, tuple):
            el = tuple(ip.concrete(ip.iter(el)))
        pt = ip.vsimp(pt)
        if isinstance(pt, T):
            co = (pt,)
        else:
            co = tuple(ip.concrete(ip.iter(pt)))
        return tm.app(name, tuple(el) + co)
    return BuiltinV(name, f)


def grid_points(n, name="p"):
    return [(tm.sym(f"{name}x{i}"), tm.sym(f"{name}y{i}")) for i in range(n)]


def area(a, b, c):
    d = tm.sub(tm.mul(tm.sub(b[0], a[0]), tm.sub(c[1], a[1])), tm.mul(tm.sub(c[0], a[0]), tm.sub(b[1], a[1])))
    return tm.div(tm.absv(d), TWO)


def dist(a, b):
    return tm.sqrt(tm.add(tm.power(tm.sub(a[0], b[0]), TWO), tm.power(tm.sub(a[1], b[1]), TWO)))


def generic_points(lab, N, name="gp"):
    """points[i] = (gpx(i), gpy(i)) for i < N"""
    b = tm.fresh("k", True, Z, tm.sub(N, O))
    lab.ip.stamps[b] = Ref._n
    v = lab.vec([tm.app(name + "x", (b,)), tm.app(name + "y", (b,))])
    return lab.fam(("g", b, N, (("i", v),)))


def generic_elements(lab, M, N, k, name):
    """pairwise different elements e = (name(0, e), ..) with vertices below N"""
    from .scene import family
    return lab.fam(family(lab, name, M, N, k))


def vertices(b, k, name):
    return [tm.rapp(name, (tm.const(j), b), True) for j in range(k)]


def numbers(rep, modules, lo, hi, most):
    """numbers written in the source of these modules: instances are examined on both sides of each"""
    xs = set()
    for name, (_, text) in sources().items():
        if name.split(".")[-1] in modules:
            xs |= {n.value for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Constant) and type(n.value) in (int, float)}
    return sorted({int(x) + d for x in xs if lo <= x <= hi for d in (0, 1)})[:most]


def rule(lab, n):
    """an arbitrary triangle rule with n nodes in the triangle and weights adding to 1"""
    ws = [tm.sym(f"w{q}", lo=-1, hi=1) if n > 1 else O for q in range(n - 1)]
    ws.append(tm.sub(O, tm.add(*ws)) if ws else O)
    pts = [(tm.sym(f"a{q}", lo=Fraction(1, 100), hi=Fraction(49, 100)), tm.sym(f"b{q}", lo=Fraction(1, 100), hi=Fraction(1, 2)))
           for q in range(n)]
    r = lab.good(lambda: lab.call("quadrature_rules.TriangleQuadratureRule", ws, [p for p in pts]), "TriangleQuadratureRule")
    return r, ws, pts


def c16(rep: Rep):
    lab = Lab(rep)
    wt = lab.where("integrators.Integrator")
    we = lab.where("integrators.BoundaryIntegrator")
    F = phi()

    def tri_sum(n, tris, pts):
        r, ws, nodes = rule(lab, n)
        P = lab.lst([lab.vec(list(p)) for p in pts])
        I = lab.good(lambda: lab.call("integrators.Integrator", r, list(tris), P), "Integrator")
        got = [lab.good(lambda: lab.call(I, F), "Integrator.__call__") for _ in range(2)]
        want = tm.add(*[tm.mul(area(*[pts[i] for i in t]), w,
                               tm.app("phi", tuple(tm.const(i) for i in t) + (x, y, tm.sub(O, tm.add(x, y)))))
                        for t in tris for w, (x, y) in zip(ws, nodes)]) if tris else Z
        for g, s in zip(got, ("", " (second call)")):
            rep.eq(g, want, precise=True, msg=f"triangle integral over {len(tris)} triangle(s) with {n} node(s){s}", where=wt)

    P5 = grid_points(5)
    degrees = sorted({6, 7, 8, 12, *numbers(rep, ("integrators", "quadrature_rules"), 5, 40, 6)} | ({16, 24} if rep.tier == "thorough" else set()))
    for n, tris in ((1, [(0, 1, 2)]), (3, [(0, 1, 2), (2, 1, 3)]), (2, [(4, 0, 3), (1, 3, 0), (0, 2, 4)]), (1, []),
                    (7, [(3, 1, 2), (1, 4, 2)]), *((d, [(0, 1, 2)]) for d in degrees if d > 7)):
        with rep.ob(f"Integrator: {len(tris)} triangles, {n} nodes", wt):
            tri_sum(n, tris, P5)

    with rep.ob("Integrator: any mesh, any number of triangles", wt):
        r, ws, nodes = rule(lab, 3)
        N, M = tm.sym("N", True, lo=3), tm.sym("M", True, lo=1)
        pts = generic_points(lab, N)
        tris = generic_elements(lab, M, N, 3, "tri")
        I = lab.good(lambda: lab.call("integrators.Integrator", r, tris, pts), "Integrator")
        got = lab.good(lambda: lab.call(I, F), "Integrator.__call__")
        b = tm.fresh("e", True, Z, tm.sub(M, O))
        t = vertices(b, 3, "tri")
        P = [(tm.app("gpx", (i,)), tm.app("gpy", (i,))) for i in t]
        want = tm.summ(b, M, tm.add(*[tm.mul(area(*P), w, tm.app("phi", tuple(t) + (x, y, tm.sub(O, tm.add(x, y)))))
                                      for w, (x, y) in zip(ws, nodes)]))
        rep.eq(got, want, "triangle integral over any number of triangles", wt)

    def edge_sum(deg, edges, pts):
        P = lab.lst([lab.vec(list(p)) for p in pts])
        I = lab.good(lambda: lab.call("integrators.BoundaryIntegrator", deg, list(edges), P), "BoundaryIntegrator")
        got = [lab.good(lambda: lab.call(I, F), "BoundaryIntegrator.__call__") for _ in range(2)]
        ws, ts = gauss(lab, deg)
        want = tm.add(*[tm.mul(dist(pts[i], pts[j]), w, tm.app("phi", (tm.const(i), tm.const(j), t)))
                        for i, j in edges for w, t in zip(ws, ts)]) if edges else Z
        for g, s in zip(got, ("", " (second call)")):
            rep.eq(g, want, f"edge integral over {len(edges)} edge(s), degree {deg}{s}", we, precise=True)

    for deg, edges in ((1, [(0, 1)]), (2, [(0, 1), (1, 2)]), (3, [(4, 3), (3, 1), (0, 1)]), (1, []), (5, [(2, 0)]),
                       *((d, [(2, 0), (0, 1)]) for d in degrees)):
        with rep.ob(f"BoundaryIntegrator: {len(edges)} edges, degree {deg}", we):
            edge_sum(deg, edges, P5)
    with rep.ob("BoundaryIntegrator: any mesh, any number of edges", we):
        N, M = tm.sym("N", True, lo=3), tm.sym("M", True, lo=1)
        pts = generic_points(lab, N)
        edges = generic_elements(lab, M, N, 2, "edg")
        I = lab.good(lambda: lab.call("integrators.BoundaryIntegrator", 2, edges, pts), "BoundaryIntegrator")
        got = lab.good(lambda: lab.call(I, F), "BoundaryIntegrator.__call__")
        ws, ts = gauss(lab, 2)
        b = tm.fresh("e", True, Z, tm.sub(M, O))
        t = vertices(b, 2, "edg")
        P = [(tm.app("gpx", (i,)), tm.app("gpy", (i,))) for i in t]
        want = tm.summ(b, M, tm.add(*[tm.mul(dist(*P), w, tm.app("phi", tuple(t) + (x,))) for w, x in zip(ws, ts)]))
        rep.eq(got, want, "edge integral over any number of edges", we)
    lab.done()


def gauss(lab, n):
    """weights and nodes of the affine image on [0,1] of the n point Gauss-Legendre rule; gp(n,i) and
    gw(n,i) stand for the tabulated nodes and weights on [-1,1]"""
    k = tm.const(n)
    return ([tm.div(tm.app("gw", (k, tm.const(i))), TWO) for i in range(n)],
            [tm.div(tm.add(O, tm.app("gp", (k, tm.const(i)))), TWO) for i in range(n)])


def frac(lab, t, what):
    if isinstance(t, T) and t.op == "c":
        return t.a[0]
    raise Unsupported(f"{what} is not a known number: {t}")


def c17(rep: Rep):
    lab = Lab(rep)
    tol = Fraction(1, 10 ** 12)

    def table(r, what, where):
        ws = [frac(lab, w, "weight") for w in lab.items(lab.attr(r, "weights"))]
        ps = [[frac(lab, x, "node") for x in lab.items(p)] for p in lab.items(lab.attr(r, "points"))]
        if len(ws) != len(ps):
            rep.fail(f"{what}: {len(ws)} weights for {len(ps)} nodes", where)
            raise Violated
        it = [lab.items(x) for x in lab.items(r)]
        for q, x in enumerate(it):
            rep.true(len(x) == 2 and x[0] is tm.const(ws[q]) and [y for y in lab.items(x[1])] == [tm.const(y) for y in ps[q]],
                     f"{what}: iteration does not yield (weight, node) pair {q}", where)
        rep.true(len(it) == len(ws), f"{what}: iteration yields {len(it)} of {len(ws)} pairs", where)
        return ws, ps

    def check(r, what, where, deg):
        ws, ps = table(r, what, where)
        for p in ps:
            rep.true(len(p) == 3 and all(-tol <= x <= 1 + tol for x in p) and abs(sum(p) - 1) <= tol,
                     f"{what}: node {[float(x) for x in p]} outside the triangle", where)
        for d in range(deg + 1):
            for i in range(d + 1):
                for j in range(d + 1 - i):
                    k = d - i - j
                    exact = Fraction(2 * math.factorial(i) * math.factorial(j) * math.factorial(k), math.factorial(d + 2))
                    got = sum(w * p[0] ** i * p[1] ** j * p[2] ** k for w, p in zip(ws, ps))
                    rep.true(abs(got - exact) <= tol, f"{what}: L1^{i} L2^{j} L3^{k} integrates to {float(got):.16g}"
                             f" instead of {float(exact):.16g}", where)

    for nm, deg in (("CENTROID", 1), ("VERTEX", 1), ("DUNAVANT2", 2), ("DUNAVANT3", 3), ("DUNAVANT4", 4), ("DUNAVANT5", 5)):
        w = f"quadrature_rules.{nm}"
        with rep.ob(f"{nm} is exact to degree {deg}", w):
            check(lab.get(w), nm, w, deg)
    w = "quadrature_rules.DUNAVANT_QUADRATURE_RULES"
    with rep.ob("indexed list of rules", w):
        rs = lab.items(lab.get(w))
        rep.true(len(rs) == 5, f"the list has {len(rs)} rules", w)
        for d, r in enumerate(rs):
            check(r, f"DUNAVANT_QUADRATURE_RULES[{d}]", w, d + 1)
    w = lab.where("quadrature_rules.GaussQuadratureRule")
    for n in range(1, 13 if rep.tier == "quick" else 33):
        with rep.ob(f"edge rule with {n} node(s)", w):
            r = lab.good(lambda: lab.call("quadrature_rules.GaussQuadratureRule", n), "GaussQuadratureRule")
            ws, ts = gauss(lab, n)
            gw, gt = lab.items(lab.attr(r, "weights")), lab.items(lab.attr(r, "points"))
            rep.true(len(gw) == n and len(gt) == n, f"edge rule {n} has {len(gt)} nodes and {len(gw)} weights", w)
            for q in range(min(n, len(gw), len(gt))):
                rep.eq(gw[q], ws[q], f"edge rule {n}: weight {q} is not half the Gauss-Legendre weight", w)
                rep.eq(gt[q], ts[q], f"edge rule {n}: node {q} is not the image of the Gauss-Legendre node", w)
            it = [lab.items(x) for x in lab.items(r)]
            rep.true(len(it) == n, f"edge rule {n}: iteration yields {len(it)} pairs", w)
            for q, x in enumerate(it):
                rep.eq(x[0], gw[q], f"edge rule {n}: iteration pairs", w)
                rep.eq(x[1], gt[q], f"edge rule {n}: iteration pairs", w)
    w = lab.where("quadrature_rules.TriangleQuadratureRule")
    third = Fraction(1, 3)
    H = Fraction(1, 2)
    x = tm.sym("x*")
    y = tm.sym("y*")
    mk = lambda ws, ps: (lambda: lab.call("quadrature_rules.TriangleQuadratureRule", list(ws), list(ps)))
    for nm, ws, ps in (("x < 0", [1], [(-H, H)]), ("y < 0", [1], [(H, -H)]), ("x + y > 1", [1], [(H, Fraction(2, 3))]),
                       ("second node outside", [H, H], [(third, third), (Fraction(-1, 100), H)]),
                       ("second node beyond the diagonal", [H, H], [(third, third), (H, Fraction(6, 10))]),
                       ("surplus node outside", [O], [(third, third), (H, Fraction(6, 10))]),
                       ("surplus node with x < 0", [O], [(third, third), (-H, H)]),
                       ("weights sum to 1/2", [H], [(third, third)]), ("weights sum to 2", [1, 1], [(third, third), (H, H)]),
                       ("weights sum to 0.999", [H, Fraction(499, 1000)], [(third, third), (H, H)]),
                       ("no weights", [], [])):
        with rep.ob(f"malformed rule rejected: {nm}", w):
            lab.bad(mk(ws, ps), "ValueError", f"rule with {nm}", where=w)
    with rep.ob("rule accepted exactly when the nodes lie in the triangle", w):
        bad = tm.bor(tm.lt(x, Z), tm.lt(y, Z), tm.lt(O, tm.add(x, y)))
        c, r, other = lab.raise_cond(mk([H, H], [(third, third), (x, y)]), "ValueError")
        rep.eq(c, bad, "condition for rejecting a node", w)
        rep.true(not other, "other exception", w)
    with rep.ob("rule accepted when weights sum to 1", w):
        r, ws, nodes = rule(lab, 4)
        got = lab.items(lab.attr(r, "weights"))
        rep.true(len(got) == 4, "weights kept", w)
        for a, b in zip(got, ws):
            rep.eq(a, b, "weights are kept in order", w)
        for p, (a, b) in zip(lab.items(lab.attr(r, "points")), nodes):
            q = lab.items(p)
            rep.eq(q[0], a, "first weight of the node", w)
            rep.eq(q[1], b, "second weight of the node", w)
    with rep.ob("weight sum is checked", w):
        v = tm.sym("v", lo=Fraction(1, 10), hi=Fraction(3, 10))
        lab.bad(mk([v, v], [(third, third), (H, H)]), "ValueError", "rule whose weights sum to less than 1", where=w)
    lab.done()


RULES = {"C16": c16, "C17": c17}
