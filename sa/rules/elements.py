"""C23-C28: finite elements and interpolation wrappers, as identities in the nodal data, the point and
the triangle's vertices."""
from __future__ import annotations
import itertools
from fractions import Fraction
from .. import terms as tm
from .. import numeval
from ..values import Unsupported, BuiltinV, Ref
from ..terms import T
from .base import Lab, Rep, Violated

Z, O, TWO = tm.ZERO, tm.ONE, tm.TWO
PERMS = list(itertools.permutations(range(3)))
L1, L2 = tm.sym("l1", lo=Fraction(1, 10**5), hi=Fraction(12, 25)), tm.sym("l2", lo=Fraction(1, 10**5), hi=Fraction(1, 2))
L3 = tm.sub(O, tm.add(L1, L2))
TT = tm.sym("t", lo=0, hi=1)
MODP = "interpolation."


def dofs(n):
    return [[tm.sym(f"u{i}_{d}") for d in range(6)] for i in range(n)]


def p1(lab, grid, vals):
    return lab.good(lambda: lab.call(MODP + "P1Interpolation", grid, list(vals)), "P1Interpolation")


def c1(lab, grid, ps):
    return lab.good(lambda: lab.call(MODP + "C1Interpolation", grid, [list(r) for r in ps]), "C1Interpolation")


def triples(rep):
    return PERMS if rep.tier == "thorough" else [(0, 1, 2), (2, 0, 1), (1, 0, 2)]


def vecof(lab, v, n, what, rep):
    x = lab.items(v)
    if len(x) != n:
        rep.fail(f"{what} has {len(x)} components, expected {n}")
        raise Violated
    return x


M1 = tm.add(L1, tm.sym("e1", lo=Fraction(-1, 400), hi=Fraction(1, 400)))
M2 = tm.add(L2, tm.sym("e2", lo=Fraction(-1, 400), hi=Fraction(1, 400)))


def flat(lab, v):
    """the numbers a value consists of"""
    v = lab.ip.vsimp(v)
    if isinstance(v, T):
        return [v]
    n = lab.ip.vsimp(lab.attr(v, "shape"))
    dims = tuple(lab.ints(n)) if not isinstance(n, T) else (lab.num(n),)
    return [lab.item(v, *k) for k in itertools.product(*[range(d) for d in dims])]


def bary_points(lab, tris):
    """evaluations in given triangles: a point, a point close to it, and the same coordinates in other triangles"""
    pts = [(tris[0], (L1, L2)), (tris[0], (M1, M2))] + [(t, (L1, L2)) for t in tris[1:]]
    return [(f"{'close to it, ' * (i == 1)}triangle {t}", (t, (lambda b=b: lab.bary(*b)))) for i, (t, b) in enumerate(pts)]


def repeated(rep, lab, what, mk, method, points, w):
    """what an object answers at a point does not depend on what it has been asked before"""
    ask = lambda o, a: lab.good(lambda: lab.call(o, *args(a)) if method is None else lab.meth(o, method, *args(a)), what)
    args = lambda a: [x() if callable(x) and not isinstance(x, BuiltinV) else x for x in a]
    with rep.ob(f"{what}: independent of earlier evaluations", w):
        want = [flat(lab, ask(mk(), a)) for _, a in points]
        for i, j in itertools.permutations(range(len(points)), 2):
            if i and j and rep.tier == "quick":
                continue
            o = mk()
            ask(o, points[i][1])
            got = flat(lab, ask(o, points[j][1]))
            rep.true(len(got) == len(want[j]), f"{what}: another shape after an evaluation elsewhere", w)
            for k, (x, y) in enumerate(zip(got, want[j])):
                rep.eq(x, y, f"{what}{f' (entry {k})' if len(got) > 1 else ''} at {points[j][0]} after an evaluation at {points[i][0]}", w)


def c23(rep: Rep):
    lab = Lab(rep)
    g, P = lab.small_grid(3, PERMS)
    vals = [tm.sym(f"v{i}") for i in range(3)]
    for kind, f in (("P1", p1(lab, g, vals)), ("C1", c1(lab, g, dofs(3)))):
        w = lab.where(MODP + kind + "Interpolation.on_edge")
        for tri in triples(rep):
            with rep.ob(f"{kind} on the edges of triangle {tri}", w):
                for a, b in itertools.permutations(range(3), 2):
                    lam = {a: TT, b: tm.sub(O, TT)}
                    co = [lam.get(q, Z) for q in range(3)]
                    edge = (tri[a], tri[b])
                    e = lab.good(lambda: lab.meth(f, "on_edge", edge, TT), f"{kind} on_edge")
                    v = lab.good(lambda: lab.call(f, tri, lab.bary(co[0], co[1])), f"{kind} value")
                    rep.eq(e, v, f"{kind}: value on edge {edge} differs from the value in triangle {tri}", w)
                    r = lab.good(lambda: lab.meth(f, "on_edge", edge[::-1], tm.sub(O, TT)), f"{kind} on_edge")
                    rep.eq(r, e, f"{kind}: value on the reversed edge {edge[::-1]} at 1-t", w)
        with rep.ob(f"{kind}: end points of an edge", w):
            want = vals if kind == "P1" else [d[0] for d in dofs(3)]
            for edge in itertools.permutations(range(3), 2):
                for t, i in ((O, 0), (Z, 1)):
                    e = lab.good(lambda: lab.meth(f, "on_edge", edge, t), f"{kind} on_edge")
                    rep.eq(e, want[edge[i]], f"{kind}: edge {edge} at t={tm.show(t)}", w)
    T2 = tm.add(TT, tm.sym("e1", lo=Fraction(-1, 400), hi=Fraction(1, 400)))
    for kind, mk in (("P1", lambda: p1(lab, g, vals)), ("C1", lambda: c1(lab, g, dofs(3)))):
        repeated(rep, lab, f"{kind} on_edge", mk, "on_edge",
                 [("(0, 1) t", ((0, 1), TT)), ("(0, 1) close to t", ((0, 1), T2)), ("(1, 0)", ((1, 0), TT)), ("(1, 2)", ((1, 2), TT))],
                 lab.where(MODP + kind + "Interpolation.on_edge"))
    w = lab.where(MODP + "P1Interpolation")
    with rep.ob("P1 takes its nodal values", w):
        f = p1(lab, g, vals)
        for tri in PERMS:
            v = lab.good(lambda: lab.call(f, tri, lab.bary(L1, L2)), "P1 value")
            rep.eq(v, tm.add(*[tm.mul(l, vals[i]) for l, i in zip((L1, L2, L3), tri)]), f"P1 value in {tri}", w)
    w = lab.where(MODP + "P1BoundaryInterpolation")
    with rep.ob("boundary interpolation agrees with P1", w):
        bd = lab.call("domain.Boundary", [0, 2, 1], [(0, 2), (2, 1)])
        d = lab.call(lab.ip.builtins["dict"], [(i, v) for i, v in enumerate(vals)])
        bi = lab.good(lambda: lab.call(MODP + "P1BoundaryInterpolation", bd, d), "P1BoundaryInterpolation")
        f = p1(lab, g, vals)
        for edge in itertools.permutations(range(3), 2):
            a = lab.good(lambda: lab.call(bi, edge, TT), "boundary value")
            b = lab.good(lambda: lab.meth(f, "on_edge", edge, TT), "P1 on_edge")
            rep.eq(a, b, f"boundary interpolation on {edge}", w)
        d2 = lab.call(lab.ip.builtins["dict"], [(i, v) for i, v in enumerate(vals[:2])])
        lab.bad(lambda: lab.call(MODP + "P1BoundaryInterpolation", bd, d2), "ValueError", "wrong number of boundary values", where=w)
    lab.done()


def directional(rep, lab, f, kind, tri, P, w):
    """gradient/Hessian against the derivatives of the value along the triangle's sides"""
    V = lab.good(lambda: lab.call(f, tri, lab.bary(L1, L2)), f"{kind} value")
    G = vecof(lab, lab.good(lambda: lab.meth(f, "gradient", tri, lab.bary(L1, L2)), f"{kind} gradient"), 2, "gradient", rep)
    p = [P[i] for i in tri]
    sides = [[tm.sub(p[q][c], p[2][c]) for c in (0, 1)] for q in (0, 1)]
    D = [tm.diff(V, L1), tm.diff(V, L2)]
    for q in (0, 1):
        rep.eq(tm.add(tm.mul(G[0], sides[q][0]), tm.mul(G[1], sides[q][1])), D[q],
               f"{kind}: gradient along side {q + 1} of {tri} is not the derivative of the value", w)
    return V, G, D, sides


def c24(rep: Rep):
    lab = Lab(rep)
    g, P = lab.small_grid(3, PERMS)
    vals = [tm.sym(f"v{i}") for i in range(3)]
    f = p1(lab, g, vals)
    w = lab.where(MODP + "P1Interpolation.gradient")
    for tri in PERMS:
        with rep.ob(f"P1 gradient in {tri}", w):
            directional(rep, lab, f, "P1", tri, P, w)
    wh = lab.where(MODP + "P1Interpolation.hessian")
    with rep.ob("P1 Hessian is not implemented", wh):
        lab.bad(lambda: lab.meth(f, "hessian", (0, 1, 2), lab.bary(L1, L2)), "NotImplementedError", "P1 Hessian", where=wh)
    f = c1(lab, g, dofs(3))
    w = lab.where("bell_finite_element.bell_interpolation_gradient")
    wh = lab.where("bell_finite_element.bell_interpolation_hessian")
    for tri in triples(rep):
        with rep.ob(f"C1 gradient and Hessian in {tri}", w):
            V, G, D, sides = directional(rep, lab, f, "C1", tri, P, w)
            Hm = lab.good(lambda: lab.meth(f, "hessian", tri, lab.bary(L1, L2)), "C1 Hessian")
            sh = tuple(lab.ints(lab.attr(Hm, "shape")))
            if sh != (2, 2):
                rep.fail(f"Hessian has shape {sh}", wh)
                raise Violated
            H = [[lab.item(Hm, i, j) for j in (0, 1)] for i in (0, 1)]
            rep.eq(H[0][1], H[1][0], "Hessian is not symmetric", wh)
            for a, b in ((0, 0), (0, 1), (1, 1)):
                got = tm.add(*[tm.mul(sides[a][i], H[i][j], sides[b][j]) for i in (0, 1) for j in (0, 1)])
                rep.eq(got, tm.diff(D[a], (L1, L2)[b]),
                       f"Hessian in directions {a + 1},{b + 1} of {tri} is not the second derivative", wh)
    at = bary_points(lab, PERMS[:2] if rep.tier == "quick" else PERMS)
    repeated(rep, lab, "P1 gradient", lambda: p1(lab, g, vals), "gradient", at, lab.where(MODP + "P1Interpolation.gradient"))
    repeated(rep, lab, "C1 gradient", lambda: c1(lab, g, dofs(3)), "gradient", at, w)
    repeated(rep, lab, "C1 Hessian", lambda: c1(lab, g, dofs(3)), "hessian", at, wh)
    with rep.ob("transform_gradient and transform_hessian on any barycentric data", lab.where("bell_finite_element.transform_hessian")):
        gb = [tm.sym(f"gb{i}") for i in range(3)]
        hb = {(i, j): tm.sym(f"hb{i}{j}") for i in range(3) for j in range(i, 3)}
        pv = tuple(lab.vec(list(p)) for p in P)
        G = vecof(lab, lab.good(lambda: lab.call("bell_finite_element.transform_gradient", pv, lab.vec(gb)), "transform_gradient"), 2, "gradient", rep)
        order = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
        Hm = lab.good(lambda: lab.call("bell_finite_element.transform_hessian", pv, lab.vec([hb[o] for o in order])), "transform_hessian")
        for q in (0, 1):
            s = [tm.sub(P[q][c], P[2][c]) for c in (0, 1)]
            rep.eq(tm.add(*[tm.mul(G[c], s[c]) for c in (0, 1)]), tm.sub(gb[q], gb[2]), "transform_gradient")
        h = lambda i, j: hb[(min(i, j), max(i, j))]
        for a, b in ((0, 0), (0, 1), (1, 1)):
            sa = [tm.sub(P[a][c], P[2][c]) for c in (0, 1)]
            sb = [tm.sub(P[b][c], P[2][c]) for c in (0, 1)]
            got = tm.add(*[tm.mul(sa[i], lab.item(Hm, i, j), sb[j]) for i in (0, 1) for j in (0, 1)])
            rep.eq(got, tm.add(h(a, b), tm.neg(h(a, 2)), tm.neg(h(2, b)), h(2, 2)), "transform_hessian")
    lab.done()


def c25(rep: Rep):
    lab = Lab(rep)
    g, P = lab.small_grid(3, PERMS)
    u = dofs(3)
    f = c1(lab, g, u)
    w = lab.where("bell_finite_element.bell_interpolation")
    for tri in triples(rep):
        with rep.ob(f"nodal data in triangle {tri}", w):
            for q in range(3):
                co = [O if r == q else Z for r in range(3)]
                b = lambda: lab.bary(co[0], co[1])
                d = u[tri[q]]
                rep.eq(lab.good(lambda: lab.call(f, tri, b()), "value"), d[0], f"value at vertex {q + 1} of {tri}", w)
                G = vecof(lab, lab.good(lambda: lab.meth(f, "gradient", tri, b()), "gradient"), 2, "gradient", rep)
                rep.eq(G[0], d[1], f"x-derivative at vertex {q + 1} of {tri}", w)
                rep.eq(G[1], d[2], f"y-derivative at vertex {q + 1} of {tri}", w)
                H = lab.good(lambda: lab.meth(f, "hessian", tri, b()), "Hessian")
                for (i, j), k in (((0, 0), 3), ((0, 1), 4), ((1, 0), 4), ((1, 1), 5)):
                    rep.eq(lab.item(H, i, j), d[k], f"second derivative {i}{j} at vertex {q + 1} of {tri}", w)
    repeated(rep, lab, "C1 value", lambda: c1(lab, g, u), None, bary_points(lab, PERMS[:2]), w)
    X, Y = tm.sym("X"), tm.sym("Y")
    monos = [(a, d - a) for d in range(5) for a in range(d + 1)]
    for tri in ([(0, 1, 2)] if rep.tier == "quick" else PERMS):
        p = [P[i] for i in tri]
        pt = [tm.add(*[tm.mul(l, q[c]) for l, q in zip((L1, L2, L3), p)]) for c in (0, 1)]
        for a, b in monos:
            with rep.ob(f"x^{a} y^{b} is reproduced in {tri}", w):
                m = tm.mul(tm.power(X, tm.const(a)), tm.power(Y, tm.const(b)))
                mx, my = tm.diff(m, X), tm.diff(m, Y)
                six = [m, mx, my, tm.diff(mx, X), tm.diff(mx, Y), tm.diff(my, Y)]
                fp = c1(lab, g, [[tm.subst(t, {X: P[i][0], Y: P[i][1]}) for t in six] for i in range(3)])
                v = lab.good(lambda: lab.call(fp, tri, lab.bary(L1, L2)), "value")
                rep.eq(v, tm.subst(m, {X: pt[0], Y: pt[1]}), f"interpolation of x^{a} y^{b} in {tri}", w)
    pv = tuple(lab.vec(list(q)) for q in P)
    for name in ("bell_interpolation", "bell_interpolation_gradient", "bell_interpolation_hessian"):
        wn = lab.where("bell_finite_element." + name)
        for n in (0, 6, 12, 17, 19, 24):
            with rep.ob(f"{name} rejects {n} parameters", wn):
                lab.bad(lambda: lab.call("bell_finite_element." + name, pv, lab.bary(L1, L2),
                                         lab.vec([tm.sym(f"q{i}") for i in range(n)])), "ValueError", f"{name} with {n} parameters", where=wn)
    wn = lab.where("bell_finite_element.bell_interpolation_on_edge")
    for n in (6, 11, 13, 18):
        with rep.ob(f"bell_interpolation_on_edge rejects {n} parameters", wn):
            lab.bad(lambda: lab.call("bell_finite_element.bell_interpolation_on_edge", pv[:2], TT,
                                     lab.vec([tm.sym(f"q{i}") for i in range(n)])), "ValueError", f"{n} edge parameters", where=wn)
    wn = lab.where(MODP + "C1Interpolation")
    for nm, ps in (("5 values", [r[:5] for r in u]), ("one vertex with 7 values", [u[0], u[1] , u[2] + u[0][:1]]),
                   ("one vertex with 5 values", [u[0], u[1][:5], u[2]]), ("2 rows", u[:2]), ("4 rows", u + u[:1])):
        with rep.ob(f"C1Interpolation rejects parameters with {nm}", wn):
            lab.bad(lambda: lab.call(MODP + "C1Interpolation", g, [list(r) for r in ps]), "ValueError", f"parameters with {nm}", where=wn)
    wn = lab.where(MODP + "P1Interpolation")
    for n in (0, 2, 4):
        with rep.ob(f"P1Interpolation rejects {n} values for 3 vertices", wn):
            lab.bad(lambda: lab.call(MODP + "P1Interpolation", g, [tm.sym(f"q{i}") for i in range(n)]), "ValueError", f"{n} values", where=wn)
    lab.done()


def c26(rep: Rep):
    lab = Lab(rep)
    pairs = [((0, 1, 2), (1, 0, 3)), ((0, 1, 2), (3, 0, 1)), ((2, 0, 1), (1, 3, 0)), ((1, 0, 2), (0, 1, 3))]
    if rep.tier == "thorough":
        pairs = [(a, b) for a in itertools.permutations((0, 1, 2)) for b in itertools.permutations((0, 1, 3))]
    tris = sorted({t for p in pairs for t in p})
    g, P = lab.small_grid(4, tris)
    u = dofs(4)
    f = c1(lab, g, u)
    w = lab.where("bell_finite_element.bell_interpolation_gradient")
    at = {}

    def edge_data(tri):
        if tri not in at:
            co = [TT if i == 0 else tm.sub(O, TT) if i == 1 else Z for i in tri]
            v = lab.good(lambda: lab.call(f, tri, lab.bary(co[0], co[1])), "C1 value")
            G = vecof(lab, lab.good(lambda: lab.meth(f, "gradient", tri, lab.bary(co[0], co[1])), "C1 gradient"), 2, "gradient", rep)
            at[tri] = [v] + G
        return at[tri]

    for a, b in pairs:
        with rep.ob(f"C1 across the edge (0, 1) of {a} and {b}", w):
            x, y = edge_data(a), edge_data(b)
            for k, nm in enumerate(("value", "x-derivative", "y-derivative")):
                rep.eq(x[k], y[k], f"{nm} jumps across the edge shared by {a} and {b}", w)
            e = lab.good(lambda: lab.meth(f, "on_edge", (0, 1), TT), "on_edge")
            rep.eq(e, x[0], f"edge value differs from the value in {a}", w)
            other = [s for d in (2, 3) for s in u[d]]
            for s in other:
                for k, nm in enumerate(("value", "x-derivative", "y-derivative")):
                    rep.eq(tm.diff(x[k], s), Z, f"{nm} on the edge depends on {tm.show(s)} of the opposite vertex", w)
    lab.done()


def opaque_interp(lab, grid, name):
    def mk(n, k):
        def fn(ip, a, kw):
            key = lab.flat(list(a))
            if k == "s":
                return tm.app(n, key)
            if k == "v":
                return lab.vec([tm.app(n + str(i), key) for i in (0, 1)])
            return lab.mat([[tm.app(f"{n}{i}{j}", key) for j in (0, 1)] for i in (0, 1)])
        return BuiltinV(n, fn)
    return lab.stub("Interp", grid, mk(name, "s"), mk(name + "g", "v"), mk(name + "h", "m"), mk(name + "e", "s"))


def refined_square(lab, r, cells=(1, 1)):
    try:
        return refined_rectangle(lab, r, cells, tm.sym("s", lo=Fraction(1, 1000), pos=True))
    except Unsupported:
        return refined_rectangle(lab, r, cells, tm.const(Fraction(3, 4)))


def refined_rectangle(lab, r, cells, s):
    dom = lab.call("domain.RectangleDomain", tm.mul(tm.const(cells[0]), s), tm.mul(tm.const(cells[1]), s), "left")
    g = lab.good(lambda: lab.meth(dom, "grid", s), "grid")
    rg = lab.good(lambda: lab.meth(dom, "refine", g, r), "refine")
    return dom, g, rg, s


def pts_of(lab, grid):
    return [lab.items(p) for p in lab.items(lab.attr(grid, "points"))]


def combo(ws, ps):
    return [tm.add(*[tm.mul(w, p[c]) for w, p in zip(ws, ps)]) for c in (0, 1)]


def c27(rep: Rep):
    lab = Lab(rep)
    wr = lab.where(MODP + "RefinedInterpolation")
    dom, g, rg, s = refined_square(lab, 2)
    fine = [lab.ints(t) for t in lab.items(lab.attr(rg, "triangles"))]
    coarse = [lab.ints(t) for t in lab.items(lab.attr(g, "triangles"))]
    P, Q = pts_of(lab, rg), pts_of(lab, g)
    # value of the field at a Euclidean point of a given coarse triangle, through an opaque interpolation
    I = opaque_interp(lab, g, "f")
    R = lab.good(lambda: lab.call(MODP + "RefinedInterpolation", I, rg), "RefinedInterpolation")

    def bary_in(ct, p):
        a, b, c = [Q[i] for i in ct]
        det = lambda u, v: tm.sub(tm.mul(u[0], v[1]), tm.mul(u[1], v[0]))
        d = lambda x, y: [tm.sub(x[0], y[0]), tm.sub(x[1], y[1])]
        A = det(d(b, a), d(c, a))
        l1 = tm.div(det(d(b, p), d(c, p)), A)
        l2 = tm.div(det(d(c, p), d(a, p)), A)
        return [l1, l2, tm.sub(O, tm.add(l1, l2))]

    def home(ft):
        """the coarse triangle containing a fine one (by exact containment of its corners)"""
        for ct in coarse:
            bs = [bary_in(ct, P[i]) for i in ft]
            if all(isinstance(x, T) and x.op == "c" and 0 <= x.a[0] <= 1 for b in bs for x in b):
                return ct
        raise Unsupported(f"no coarse triangle contains {ft}")

    def args(ct, b):
        return tuple(tm.const(i) for i in ct) + tuple(b)

    for ft in fine:
        for rot in range(3):
            tri = ft[rot:] + ft[:rot]
            with rep.ob(f"refined interpolation in triangle {tri}", wr):
                ct = home(ft)
                b = bary_in(ct, combo((L1, L2, L3), [P[i] for i in tri]))
                bc = lambda: lab.bary(L1, L2)
                rep.eq(lab.good(lambda: lab.call(R, tri, bc()), "value"), tm.app("f", args(ct, b)), f"value in {tri}", wr)
                G = vecof(lab, lab.good(lambda: lab.meth(R, "gradient", tri, bc()), "gradient"), 2, "gradient", rep)
                H = lab.good(lambda: lab.meth(R, "hessian", tri, bc()), "Hessian")
                for i in (0, 1):
                    rep.eq(G[i], tm.app(f"fg{i}", args(ct, b)), f"gradient in {tri}", wr)
                    for j in (0, 1):
                        rep.eq(lab.item(H, i, j), tm.app(f"fh{i}{j}", args(ct, b)), f"Hessian in {tri}", wr)
    mk = lambda: lab.good(lambda: lab.call(MODP + "RefinedInterpolation", opaque_interp(lab, g, "f"), rg), "RefinedInterpolation")
    for name, m in (("value", None), ("gradient", "gradient"), ("Hessian", "hessian")):
        repeated(rep, lab, f"refined {name}", mk, m, bary_points(lab, [fine[0], fine[0][1:] + fine[0][:1], fine[1], fine[-1]]), wr)
    # edges, with a real C1 field
    # (the value at the point of the coarse edge: P1 in exact arithmetic)
    vals = [tm.sym(f"v{i}") for i in range(len(Q))]
    ps = [tm.sym(f"d{i}_{k}") for i in range(len(Q)) for k in range(6)]
    fields = (("P1", p1(lab, g, vals)), ("C1", c1(lab, g, [ps[6 * i:6 * i + 6] for i in range(len(Q))])))
    cedges = [lab.ints(e) for e in lab.items(lab.attr(g, "edges"))]

    def coarse_edge(fe):
        for ce in cedges:
            ok = []
            a, b = Q[ce[0]], Q[ce[1]]
            for i in fe:
                d = [tm.sub(b[c], a[c]) for c in (0, 1)]
                e = [tm.sub(P[i][c], a[c]) for c in (0, 1)]
                cr = tm.sub(tm.mul(d[0], e[1]), tm.mul(d[1], e[0]))
                tt = tm.div(tm.add(*[tm.mul(x, y) for x, y in zip(d, e)]), tm.add(*[tm.mul(x, x) for x in d]))
                if cr is not Z or tt.op != "c" or not 0 <= tt.a[0] <= 1:
                    break
                ok.append(tm.sub(O, tt))
            else:
                return ce, ok
        return None

    for kind, F in fields:
        RF = lab.good(lambda: lab.call(MODP + "RefinedInterpolation", F, rg), "RefinedInterpolation")
        with rep.ob(f"refined {kind} interpolation on fine edges", wr):
            n = 0
            for fe in [lab.ints(e) for e in lab.items(lab.attr(rg, "edges"))]:
                ce = coarse_edge(fe)
                if ce is None:
                    if kind == "P1":
                        lab.bad(lambda: lab.meth(RF, "on_edge", fe, TT), "ValueError", f"interior fine edge {fe}", where=wr)
                    continue
                (edge, (t1, t2)) = ce
                t = tm.add(tm.mul(TT, t1), tm.mul(tm.sub(O, TT), t2))
                want = lab.good(lambda: lab.meth(F, "on_edge", edge, t), "coarse on_edge")
                rep.eq(lab.good(lambda: lab.meth(RF, "on_edge", fe, TT), "refined on_edge"), want,
                       f"{kind} value on fine edge {fe} of coarse edge {edge}", wr)
                n += 1
            rep.true(n >= 10, f"only {n} fine edges lie on coarse edges", wr)
    euclid(rep, lab)
    deform(rep, lab)
    lab.done()


def euclid(rep, lab):
    w = lab.where(MODP + "EuclideanInterpolation")
    X, Y = tm.sym("X"), tm.sym("Y")

    def locate(ip, a, k):
        x, y = lab.items(a[0])
        tri = tuple(tm.app(f"loc{i}", (x, y), True) for i in range(3))
        return lab.call("domain.BarycentricPoint", tri, lab.bary(tm.app("lam1", (x, y)), tm.app("lam2", (x, y))))
    loc = lab.stub("Locator", BuiltinV("locate", locate))
    none = lab.stub("Locator", BuiltinV("none", lambda ip, a, k: None))

    def key(x, y):
        l1, l2 = tm.app("lam1", (x, y)), tm.app("lam2", (x, y))
        return tuple(tm.app(f"loc{i}", (x, y), True) for i in range(3)) + (l1, l2, tm.sub(O, tm.add(l1, l2)))
    E = lab.good(lambda: lab.call(MODP + "EuclideanInterpolation", opaque_interp(lab, loc, "f")), "EuclideanInterpolation")
    N = lab.good(lambda: lab.call(MODP + "EuclideanInterpolation", opaque_interp(lab, none, "f")), "EuclideanInterpolation")
    with rep.ob("Euclidean wrapper: value, gradient and Hessian at the located point", w):
        rep.eq(lab.good(lambda: lab.call(E, X, Y), "value"), tm.app("f", key(X, Y)), "Euclidean value", w)
        G = vecof(lab, lab.good(lambda: lab.meth(E, "gradient", X, Y), "gradient"), 2, "gradient", rep)
        H = lab.good(lambda: lab.meth(E, "hessian", X, Y), "hessian")
        for i in (0, 1):
            rep.eq(G[i], tm.app(f"fg{i}", key(X, Y)), "Euclidean gradient", w)
            for j in (0, 1):
                rep.eq(lab.item(H, i, j), tm.app(f"fh{i}{j}", key(X, Y)), "Euclidean Hessian", w)
    near = tuple(tm.add(v, tm.sym(n, lo=Fraction(-1, 400), hi=Fraction(1, 400))) for v, n in ((X, "e1"), (Y, "e2")))
    mk = lambda: lab.good(lambda: lab.call(MODP + "EuclideanInterpolation", opaque_interp(lab, loc, "f")), "EuclideanInterpolation")
    for nm, m in (("value", None), ("gradient", "gradient"), ("Hessian", "hessian")):
        repeated(rep, lab, f"Euclidean {nm}", mk, m, [("a point", (X, Y)), ("a point close to it", near), ("the point mirrored", (Y, X))], w)
    seen = [True]
    half = lab.stub("Locator", BuiltinV("half", lambda ip, a, k: locate(ip, a, k) if seen[0] else None))
    for nm, m in (("value", None), ("gradient", "gradient"), ("hessian", "hessian")):
        with rep.ob(f"Euclidean wrapper: {nm} outside the grid after a point inside raises ValueError", w):
            seen[0] = True
            H = lab.good(lambda: lab.call(MODP + "EuclideanInterpolation", opaque_interp(lab, half, "f")), "EuclideanInterpolation")
            ask = lambda p: lab.call(H, *p) if m is None else lab.meth(H, m, *p)
            lab.good(lambda: ask((X, Y)), nm)
            seen[0] = False
            lab.bad(lambda: ask(near), "ValueError", f"{nm} outside the grid", where=w)
    for nm, fn in (("value", lambda: lab.call(N, X, Y)), ("gradient", lambda: lab.meth(N, "gradient", X, Y)),
                   ("hessian", lambda: lab.meth(N, "hessian", X, Y))):
        with rep.ob(f"Euclidean wrapper: {nm} outside the grid raises ValueError", w):
            lab.bad(fn, "ValueError", f"{nm} outside the grid", where=w)
    w = lab.where(MODP + "EuclideanDeformation")
    with rep.ob("Euclidean deformation stacks its components", w):
        D = lab.good(lambda: lab.call(MODP + "EuclideanDeformation", opaque_interp(lab, loc, "f"), opaque_interp(lab, loc, "h")), "EuclideanDeformation")
        stacked(rep, lab, D, lambda m: (lambda *a: lab.meth(D, m, X, Y)) if m else (lambda *a: lab.call(D, X, Y)), key(X, Y), w)
        for i, n in ((0, "f"), (1, "h")):
            rep.eq(lab.good(lambda: lab.call(lab.item(D, i), X, Y), "component"), tm.app(n, key(X, Y)), f"component {i}", w)


def stacked(rep, lab, D, m, key, w):
    v = vecof(lab, lab.good(m(None), "value"), 2, "value", rep)
    S = lab.good(m("strain"), "strain")
    T3 = lab.good(m("hyper_strain"), "hyper_strain")
    rep.true(tuple(lab.ints(lab.attr(S, "shape"))) == (2, 2), "shape of the strain", w)
    rep.true(tuple(lab.ints(lab.attr(T3, "shape"))) == (2, 2, 2), "shape of the hyper strain", w)
    for i, n in ((0, "f"), (1, "h")):
        rep.eq(v[i], tm.app(n, key), f"component {i + 1} of the deformation", w)
        for j in (0, 1):
            rep.eq(lab.item(S, i, j), tm.app(f"{n}g{j}", key), f"strain entry ({i + 1},{j + 1})", w)
            for k in (0, 1):
                rep.eq(lab.item(T3, i, j, k), tm.app(f"{n}h{j}{k}", key), f"hyper strain entry ({i + 1},{j + 1},{k + 1})", w)


def deform(rep, lab):
    w = lab.where(MODP + "Deformation")
    tri = tuple(tm.sym(f"i{q}", True, lo=0) for q in range(3))
    D = lab.good(lambda: lab.call(MODP + "Deformation", opaque_interp(lab, None, "f"), opaque_interp(lab, None, "h")), "Deformation")
    key = tri + (L1, L2, L3)
    bc = lambda: lab.bary(L1, L2)
    with rep.ob("Deformation stacks its components", w):
        stacked(rep, lab, D, lambda m: (lambda: lab.meth(D, m, tri, bc())) if m else (lambda: lab.call(D, tri, bc())), key, w)
        e = vecof(lab, lab.good(lambda: lab.meth(D, "on_edge", tri[:2], TT), "on_edge"), 2, "edge value", rep)
        for i, n in ((0, "f"), (1, "h")):
            rep.eq(e[i], tm.app(n + "e", tri[:2] + (TT,)), f"edge value {i + 1}", w)
            rep.eq(lab.good(lambda: lab.call(lab.item(D, i), tri, bc()), "component"), tm.app(n, key), f"component {i}", w)


def c28(rep: Rep):
    w = None
    # 1. any single triangle, any orientation
    for tri in PERMS:
        lab = Lab(rep)
        w = w or lab.where("domain.Grid.to_barycentric_point")
        g, P = lab.small_grid(3, [tri])
        X, Y = tm.sym("X"), tm.sym("Y")
        with rep.ob(f"coordinates in triangle {tri} reproduce the point", w):
            r = lab.good(lambda: lab.meth(g, "to_barycentric_point", lab.vec([X, Y])), "to_barycentric_point")
            cs = lab.cases(r)
            found = [(c, v) for c, v in cs if v is not None]
            rep.true(len(found) >= 1, "the point is never located", w)
            for c, v in found:
                t = tuple(lab.items(lab.attr(v, "triangle")))
                rep.true(t == tuple(tm.const(i) for i in tri), f"located in {t} instead of {tri}", w)
                co = lab.items(lab.attr(v, "coordinates"))
                rep.true(len(co) == 3, "three weights", w)
                rep.eq(tm.add(*co), O, "weights do not sum to 1", w)
                q = combo(co, [P[i] for i in tri])
                rep.eq(q[0], X, "x coordinate is not reproduced", w)
                rep.eq(q[1], Y, "y coordinate is not reproduced", w)
        lab.done()
    # 2. containment, both orientations: interior, side, corner, outside
    cases = {"interior": (L1, L2), "side 1": (Z, L2), "side 2": (L1, Z), "side 3": (L1, tm.sub(O, L1)), "corner 1": (O, Z),
             "corner 2": (Z, O), "corner 3": (Z, Z)}
    far = tm.sym("far", lo=Fraction(1, 5), hi=3)
    outside = {"beyond side 1": (tm.neg(far), L2), "beyond side 2": (L1, tm.neg(far)),
               "beyond side 3": (tm.add(L1, far), tm.sub(O, L1)), "beyond corner 1": (tm.add(O, far, far), tm.neg(far)),
               "beyond corner 2": (tm.neg(far), tm.add(O, far, far)), "beyond corner 3": (tm.neg(far), tm.neg(far))}

    near = tm.sym("near", lo=Fraction(1, 2000), hi=Fraction(1, 5))
    outside |= {"just beyond side 1": (tm.neg(near), L2), "just beyond side 2": (L1, tm.neg(near)),
                "just beyond side 3": (tm.add(L1, near), tm.sub(O, L1))}

    def locate(lab, g, pt):
        r = lab.good(lambda: lab.meth(g, "to_barycentric_point", lab.vec(pt)), "to_barycentric_point")
        return lab.cases(r)
    sx = [tm.sym(n, lo=a, hi=b) for n, a, b in (("ax", -1, 0), ("ay", -1, 0), ("bx", 1, 2), ("by", -1, 0), ("cx", -1, 1), ("cy", 1, 2))]
    pts = [(sx[0], sx[1]), (sx[2], sx[3]), (sx[4], sx[5])]
    area2 = lambda p: tm.sub(tm.mul(tm.sub(p[1][0], p[0][0]), tm.sub(p[2][1], p[0][1])), tm.mul(tm.sub(p[2][0], p[0][0]), tm.sub(p[1][1], p[0][1])))
    for tri in PERMS:
        with rep.ob(f"containment in triangle {tri}", w):
            lab = Lab(rep)
            g, P = lab.small_grid(3, [tri], pts)
            p = [P[i] for i in tri]
            for nm, (a, b) in list(cases.items()) + list(outside.items()):
                cs = locate(lab, g, combo((a, b, tm.sub(O, tm.add(a, b))), p))
                hit = tm.bor(*([c for c, v in cs if v is not None] or [tm.FALSE]))
                want = nm in cases
                rep.true(hit if want else tm.bnot(hit), f"point at {nm} of {tri} is "
                         + ("not attributed to the triangle" if want else "attributed to the triangle"), w,
                         assume=[tm.lt(tm.const(Fraction(1, 10)), area2(pts))])
            lab.done()
    # 3. several triangles: the triangle found contains the point
    with rep.ob("grid of several triangles", w):
        lab = Lab(rep)
        c = lambda x: tm.const(Fraction(x))
        pts = [(c(0), c(0)), (c(1), c(0)), (c(2), c(0)), (c(0), c(1)), (c(1), c(1)), (c(2), c(1))]
        tris = [(0, 1, 4), (1, 2, 5), (4, 3, 0), (1, 4, 5)]
        g, P = lab.small_grid(6, tris, pts)
        for tri in tris:
            cs = locate(lab, g, combo((L1, L2, L3), [P[i] for i in tri]))
            for cc, v in cs:
                t = None if v is None else tuple(lab.items(lab.attr(v, "triangle")))
                ok = t == tuple(c(i) for i in tri)
                if ok:
                    co = lab.items(lab.attr(v, "coordinates"))
                    q = combo(co, [P[i] for i in tri])
                    want = combo((L1, L2, L3), [P[i] for i in tri])
                    rep.eq(q[0], want[0], "x", w)
                    rep.eq(q[1], want[1], "y", w)
                else:
                    rep.true(tm.bnot(cc), f"interior point of {tri} is located in {t}", w)
        for x, y in ((-1, Fraction(1, 2)), (Fraction(1, 2), 2), (3, Fraction(1, 2)), (Fraction(3, 2), -1), (5, 5)):
            cs = locate(lab, g, [c(x), c(y)])
            rep.true(all(v is None for _, v in cs), f"the point ({x}, {y}) outside the grid is located", w)
    # 4. one grid asked several times
    with rep.ob("points located one after the other", w):
        for first, then in itertools.permutations([tris[0], tris[2], tris[3], None], 2):
            g, P = lab.small_grid(6, tris, pts)
            at = lambda t: [c(5), c(5)] if t is None else combo((L1, L2, L3), [P[i] for i in t])
            locate(lab, g, at(first))
            for cc, v in locate(lab, g, at(then)):
                t = None if v is None else tuple(lab.ints(lab.attr(v, "triangle")))
                if t != then:
                    rep.true(tm.bnot(cc), f"interior point of {then} is located in {t} after a point of {first}", w)
                elif t is not None:
                    for x, y in zip(combo(lab.items(lab.attr(v, "coordinates")), [P[i] for i in t]), at(then)):
                        rep.eq(x, y, f"point located after a point of {first}", w)
        lab.done()
        lab.done()


RULES = {"C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28}
