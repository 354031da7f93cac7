"""C44 (equality of grids) and C45 (looking up vertices, triangles and edges; appending edges)."""
from __future__ import annotations
import ast
import itertools
from fractions import Fraction
from .. import terms as tm
from ..values import BuiltinV
from ..terms import T
from .base import Lab, Rep, Violated
from .grids import content, unchanged, und, G
from .quadrature import numbers

Z, O = tm.ZERO, tm.ONE
H = Fraction(1, 2)

LAYOUTS = {
    # vertices on the left (0, 3) are fixed, the rest of the boundary is free
    "two cells": dict(points=[(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)],
                      tris=[(0, 1, 4), (0, 4, 3), (1, 2, 5), (1, 5, 4)], fixed=[(0, 3)]),
    "irregular": dict(points=[(0, 0), (Fraction(7, 3), Fraction(1, 5)), (Fraction(9, 4), 2), (Fraction(-1, 6), Fraction(5, 3)),
                              (1, Fraction(4, 5))],
                      tris=[(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)], fixed=[(3, 0), (0, 1)]),
    "one triangle": dict(points=[(0, 0), (3, 0), (1, 2)], tris=[(0, 1, 2)], fixed=[(2, 0)]),
}


class Layout:
    """a grid as data, to be varied: all lists are in terms of vertex numbers"""

    def __init__(self, points, tris, fixed):
        self.points = [tuple(Fraction(x) for x in p) for p in points]
        self.tris = list(tris)
        sides = [e for t in tris for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))]
        self.edges = []
        for e in sides:
            if und(e) not in map(und, self.edges):
                self.edges.append(e)
        out = [e for e in self.edges if sum(und(e) == und(s) for s in sides) == 1]
        fx = [e for e in out if und(e) in map(und, fixed)]
        fr = [e for e in out if e not in fx]
        vs = lambda es: list(dict.fromkeys(v for e in es for v in e))
        self.parts = [[vs(out), out], [vs(fx), fx], [vs(fr), fr]]
        self.vertices = list(range(len(self.points)))

    def copy(self):
        c = object.__new__(Layout)
        c.points, c.tris, c.edges, c.vertices = list(self.points), list(self.tris), list(self.edges), list(self.vertices)
        c.parts = [[list(v), list(e)] for v, e in self.parts]
        return c

    def renumbered(self, perm):
        """vertex i becomes perm[i]"""
        c = self.copy()
        f = lambda xs: [tuple(perm[i] for i in x) for x in xs]
        c.points = [self.points[perm.index(i)] for i in range(len(perm))]
        c.tris, c.edges = f(self.tris), f(self.edges)
        c.parts = [[[perm[i] for i in v], f(e)] for v, e in self.parts]
        return c

    def shuffled(self, k=1):
        """the same grid with other list orders, edge directions and starting corners"""
        c = self.copy()
        rot = lambda x: x[k:] + x[:k]
        flip = lambda e, i: e[::-1] if (i + k) % 2 == 0 else e
        c.tris = rot([t[(i + k) % 3:] + t[:(i + k) % 3] for i, t in enumerate(self.tris)])
        c.edges = rot([flip(e, i) for i, e in enumerate(self.edges)])[::-1]
        c.parts = [[rot(v)[::-1], rot([flip(e, i + 1) for i, e in enumerate(es)])] for v, es in self.parts]
        return c

    def moved(self, i, dx, dy):
        c = self.copy()
        c.points[i] = (c.points[i][0] + Fraction(dx), c.points[i][1] + Fraction(dy))
        return c

    def each(self, f):
        c = self.copy()
        c.points = [tuple(Fraction(x) for x in f(*p)) for p in self.points]
        return c

    def grid(self, lab, s):
        pts = [lab.vec([tm.mul(tm.const(x), s), tm.mul(tm.const(y), s)]) for x, y in self.points]
        return lab.new_grid(list(self.vertices), list(self.edges), list(self.tris),
                            *[(list(v), list(e)) for v, e in self.parts], pts)


def same_grids(L):
    """(description, another writing of the grid L)"""
    n = len(L.points)
    yield "an identical grid", L.copy()
    yield "other list orders and edge directions", L.shuffled()
    yield "other list orders and starting corners", L.shuffled(2)
    perms = [tuple(range(n))[::-1], tuple(range(1, n)) + (0,), (1, 0) + tuple(range(2, n)),
             tuple(range(0, n, 2)) + tuple(range(1, n, 2))]
    for p in perms:
        yield f"vertices renumbered by {p}", L.renumbered(p)
        yield f"vertices renumbered by {p} and lists reordered", L.renumbered(p).shuffled()
    c = L.copy()
    c.vertices = c.vertices[::-1]
    yield "vertex list reversed", c
    e = Fraction(1, 10 ** 11)
    yield "positions that differ by rounding", L.each(lambda x, y: (x + e, y - e / 2)).renumbered(perms[1])


def other_grids(L):
    """(description, a grid that differs from L)"""
    n = len(L.points)
    for k in (0, 1, 2, 3, 4, 5):
        i = k % n
        d = Fraction(1, 10 ** k)
        yield f"vertex {i} moved by 1e-{k} to the right", L.moved(i, d, 0)
        yield f"vertex {n - 1 - i} moved by 1e-{k} downwards", L.moved(n - 1 - i, 0, -d)
    for name, f in (("doubled", lambda x, y: (2 * x, 2 * y)), ("mirrored", lambda x, y: (-x, y)),
                    ("shifted", lambda x, y: (x + 3, y)), ("shifted by 1e-4", lambda x, y: (x, y + Fraction(1, 10 ** 4))),
                    ("transposed", lambda x, y: (y, x)), ("sheared", lambda x, y: (x + y / 3, y)),
                    ("scaled by 1.0001", lambda x, y: (x * Fraction(10001, 10000), y * Fraction(10001, 10000)))):
        yield f"all positions {name}", L.each(f)
    for i in range(len(L.edges)):
        c = L.copy()
        del c.edges[i]
        yield f"without edge {L.edges[i]}", c
    missing = [e for e in itertools.combinations(range(n), 2) if und(e) not in map(und, L.edges)]
    for e in missing[:1]:
        for i in range(len(L.edges)):
            c = L.copy()
            c.edges[i] = e
            yield f"edge {L.edges[i]} exchanged for {e}", c
    for i, t in enumerate(L.tris):
        c = L.copy()
        del c.tris[i]
        yield f"without triangle {t}", c
        for s in ((t[0], t[2], t[1]), (t[1], t[0], t[2])):
            c = L.copy()
            c.tris[i] = s
            yield f"triangle {t} turned into {s}", c
        other = [v for v in range(n) if v not in t]
        if other:
            c = L.copy()
            c.tris[i] = (t[0], t[1], other[-1])
            if {frozenset(x) for x in c.tris} != {frozenset(x) for x in L.tris} and len({frozenset(x) for x in c.tris}) == len(c.tris):
                yield f"triangle {t} exchanged for {c.tris[i]}", c
    for k, part in enumerate(("outer boundary", "fixed part", "free part")):
        vs, es = L.parts[k]
        for i in range(len(vs)):
            c = L.copy()
            del c.parts[k][0][i]
            yield f"vertex {vs[i]} missing from the {part}", c
            rest = [v for v in range(n) if v not in vs]
            if rest:
                c = L.copy()
                c.parts[k][0][i] = rest[0]
                yield f"vertex {vs[i]} of the {part} exchanged for {rest[0]}", c
        for i in range(len(es)):
            c = L.copy()
            del c.parts[k][1][i]
            yield f"edge {es[i]} missing from the {part}", c
            rest = [e for e in L.edges if und(e) not in map(und, es)]
            if rest:
                c = L.copy()
                c.parts[k][1][i] = rest[0]
                yield f"edge {es[i]} of the {part} exchanged for {rest[0]}", c
    if L.parts[1] != L.parts[2]:
        c = L.copy()
        c.parts[1], c.parts[2] = c.parts[2], c.parts[1]
        yield "fixed and free part exchanged", c
    c = L.copy()
    c.points.append((Fraction(-5), Fraction(-5)))
    c.vertices.append(n)
    yield "one more vertex", c
    # positions exchanged while all lists stay
    for i, j in ((0, 1), (0, n - 1), (1, n - 1)):
        c = L.copy()
        c.points[i], c.points[j] = c.points[j], c.points[i]
        if not same_as(c, L):
            yield f"the positions of vertices {i} and {j} exchanged", c


def same_as(A, B):
    """by definition: renumber A by position and compare the sets"""
    m = {i: B.points.index(p) for i, p in enumerate(A.points) if p in B.points}
    if len(m) != len(B.points):
        return False
    f = lambda xs: {frozenset(m[i] for i in x) for x in xs}
    cyc = lambda t: min(t[i:] + t[:i] for i in range(3))
    return (f(A.edges) == f(B.edges)
            and {cyc(tuple(m[i] for i in t)) for t in A.tris} == {cyc(t) for t in B.tris}
            and all({m[i] for i in a[0]} == set(b[0]) and f(a[1]) == f(b[1]) for a, b in zip(A.parts, B.parts)))


def scales(rep):
    out = [("1", O), ("3/7", tm.const(Fraction(3, 7))), ("1e6", tm.const(10 ** 6)), ("1e-6", tm.const(Fraction(1, 10 ** 6)))]
    return out if rep.tier == "thorough" else out[1:]


def c44(rep: Rep):
    w = Lab(rep).where("domain.Grid.__eq__")
    for name, d in LAYOUTS.items():
        L = Layout(**d)
        for k, (sn, s) in enumerate(scales(rep)):
            full = k == 0 or rep.tier == "thorough"
            lab = Lab(rep)
            eq = lambda a, b: lab.good(lambda: lab.ip.truth(lab.ip.eq_op(a, b)), "==")
            A = L.grid(lab, s)
            for kind, some, want in (("same", same_grids(L), tm.TRUE), ("other", other_grids(L), tm.FALSE)):
                for i, (what, M) in enumerate(some):
                    if not full and i % 3 != k % 3 and "rounding" not in what:
                        continue
                    with rep.ob(f"{name} of size {sn} against {what}", w):
                        B = M.grid(lab, s)
                        before = content(lab, A), content(lab, B)
                        says = "unequal" if want is tm.TRUE else "equal"
                        rep.eq(eq(A, B), want, f"the grid '{name}' (size {sn}) and {what} compare {says}", w)
                        rep.eq(eq(B, A), want, f"{what} and the grid '{name}' (size {sn}) compare {says}", w)
                        for g, b in zip((A, B), before):
                            unchanged(rep, lab, g, b, "comparing grids", w)
            if full:
                with rep.ob(f"{name} of size {sn}: itself, other objects, after other comparisons", w):
                    rep.eq(eq(A, A), tm.TRUE, f"the grid '{name}' differs from itself", w)
                    B = L.shuffled().grid(lab, s)
                    rep.eq(eq(A, B), tm.TRUE, f"the grid '{name}' differs from itself after other comparisons", w)
                    ne = lambda a, b: lab.good(lambda: lab.ip.truth(lab.ip.compare(ast.NotEq(), a, b)), "!=")
                    rep.eq(ne(A, B), tm.FALSE, "!= of equal grids", w)
                    rep.eq(ne(A, L.moved(0, -1, 0).grid(lab, s)), tm.TRUE, "!= of different grids", w)
                    for what, o in (("None", None), ("a number", O), ("a string", "grid"), ("a list", lab.lst([])),
                                    ("its points", lab.attr(A, "points")), ("a vector", lab.vec([O, O]))):
                        rep.eq(eq(A, o), tm.FALSE, f"the grid '{name}' equals {what}", w)
            lab.done()
    # grids as the package makes them
    for sn, s in scales(rep):
        with rep.ob(f"rectangle grids of size {sn}", w):
            lab = Lab(rep)
            eq = lambda a, b: lab.good(lambda: lab.ip.truth(lab.ip.eq_op(a, b)), "==")

            def make(nx, ny, fix=None, factor=None):
                dom = lab.call("domain.RectangleDomain", tm.mul(tm.const(nx + H / 2), s), tm.mul(tm.const(ny + H / 2), s),
                               *([fix] if fix is not None else []))
                g = lab.meth(dom, "grid", s)
                return g if factor is None else lab.meth(dom, "refine", g, factor)
            g = [make(2, 1), make(2, 1), make(1, 2), make(2, 2), make(2, 1, ["left"]), make(2, 1, factor=2)]
            rep.eq(eq(g[0], g[1]), tm.TRUE, "two grids made alike differ", w)
            for i, j in itertools.combinations((0, 2, 3, 4, 5), 2):
                for a, b in ((i, j), (j, i)):
                    rep.eq(eq(g[a], g[b]), tm.FALSE, f"rectangle grids {a} and {b} (2x1, -, 1x2, 2x2, 2x1 with a fixed side, 2x1 refined) compare equal", w)
            rep.eq(eq(g[5], make(2, 1, factor=2)), tm.TRUE, "two refined grids made alike differ", w)
            lab.done()


# ------------------------------------------------------------------ C45

def lookups(rep, lab, g, what, w, edge=1):
    """the three lookups on every vertex, triangle and edge of a grid (edge: a length of its order of size)"""
    g = g if isinstance(g, G) else G(lab, g)
    near = tm.mul(tm.const(Fraction(1, 10 ** 10)), edge)
    far, close = (tm.mul(tm.const(Fraction(1, 10 ** k)), edge) for k in (3, 5))
    ask = lambda p: lab.good(lambda: lab.meth(g.ref, "point_to_vertex", lab.vec(list(p))), "point_to_vertex")
    wp = lab.where("domain.Grid.point_to_vertex")
    for i, p in enumerate(g.points):
        rep.eq(ask(p), tm.const(i), f"{what}: vertex at the position of vertex {i}", wp)
        if i < 6 or i == len(g.points) - 1:
            rep.eq(ask((tm.add(p[0], near), tm.sub(p[1], near))), tm.const(i), f"{what}: vertex at the position of vertex {i} up to rounding", wp)
            for d in ((far, Z), (Z, far), (tm.neg(far), far), (close, Z), (Z, tm.neg(close))):
                r = ask((tm.add(p[0], d[0]), tm.add(p[1], d[1])))
                rep.true(r is None, f"{what}: a point beside vertex {i} is taken for vertex {r}", wp)
    mids = [tm.div(tm.add(*[g.points[v][c] for v in e]), tm.const(len(e))) for e in [*g.edges[:4], *g.triangles[:3]] for c in (0, 1)]
    for p in zip(mids[::2], mids[1::2]):
        r = ask(p)
        rep.true(r is None, f"{what}: a point between the vertices is taken for vertex {r}", wp)
    big = tm.mul(tm.const(1000), edge)
    rep.true(ask((big, big)) is None, f"{what}: a point far outside is taken for a vertex", wp)
    for kind, meth, xs, n in (("triangle", "triangle_vertices", g.triangles, 3), ("edge", "edge_vertices", g.edges, 2)):
        wk = lab.where("domain.Grid." + meth)
        for x in xs:
            got = lab.items(lab.good(lambda: lab.meth(g.ref, meth, tuple(x)), meth))
            if not rep.true(len(got) == n, f"{what}: {len(got)} corners of {kind} {x}", wk):
                continue
            for q, v in zip(got, x):
                for c in (0, 1):
                    rep.eq(lab.item(q, c), g.points[v][c], f"{what}: corner {v} of {kind} {x}, coordinate {c + 1}", wk)
        listed = set(map(tuple, xs))
        n0 = len(g.points)
        wrong = [p for x in xs[:3] for p in itertools.permutations(x) if p not in listed]
        wrong += [p for p in itertools.combinations(range(min(n0, 6)), n) if not any(frozenset(p) == frozenset(x) for x in listed)][:4]
        wrong += [tuple(range(n0, n0 + n)), tuple(-1 - v for v in xs[0]) if xs else (-1, -2, -3)[:n]]
        for p in wrong:
            lab.bad(lambda: lab.meth(g.ref, meth, p), "ValueError", f"{what}: {kind} {p}, which is not listed", where=wk)


def c45(rep: Rep):
    w = Lab(rep).where("domain.Grid")
    for name, d in LAYOUTS.items():
        L = Layout(**d)
        for sn, s in scales(rep):
            for what, M in (("", L), (", renumbered", L.renumbered(tuple(range(len(L.points)))[::-1]).shuffled())):
                with rep.ob(f"lookups in the grid '{name}' of size {sn}{what}", w):
                    lab = Lab(rep)
                    g = M.grid(lab, s)
                    before = content(lab, g)
                    lookups(rep, lab, g, f"grid '{name}' of size {sn}{what}", w, s)
                    unchanged(rep, lab, g, before, "looking up", w)
                    lab.done()
    sizes = [(1, 1), (2, 3), (4, 4)] if rep.tier == "quick" else [(1, 1), (2, 3), (4, 4), (9, 2), (6, 7)]
    sizes += [(k, 1) for k in numbers(rep, ("domain",), 5, 60, 4)]
    for nx, ny in sizes:
        for fac in (None, 2):
            if fac and nx > 4:
                continue
            with rep.ob(f"lookups in the rectangle grid with {nx} x {ny} cells{' refined' if fac else ''}", w):
                lab = Lab(rep)
                s = tm.const(Fraction(3, 8))
                dom = lab.call("domain.RectangleDomain", tm.mul(tm.const(nx + H / 2), s), tm.mul(tm.const(ny + H / 2), s))
                g = lab.meth(dom, "grid", s)
                if fac:
                    g = lab.meth(dom, "refine", g, fac)
                lookups(rep, lab, g, f"{nx} x {ny} cells{' refined' if fac else ''}", w, s)
                lab.done()
    wa = lab.where("domain.Grid.append_edge")
    for name, d in LAYOUTS.items():
        L = Layout(**d)
        for sn, s in scales(rep):
            for start in ("all", "half", "none"):
                with rep.ob(f"appending edges to the grid '{name}' of size {sn} with {start} of its edges", wa):
                    lab = Lab(rep)
                    M = L.copy()
                    have = M.edges = {"all": L.edges, "half": L.edges[::2], "none": []}[start]
                    have = list(have)
                    g = M.grid(lab, s)
                    todo = [e for x in L.edges for e in (x, x[::-1], x)] + [e[::-1] for e in L.edges]
                    rest = content(lab, g)
                    for e in todo:
                        lab.good(lambda: lab.meth(g, "append_edge", e), "append_edge")
                        if und(e) not in map(und, have):
                            have.append(e)
                            if len(have) < 5:
                                for i, (x, y) in enumerate(M.points):
                                    for d, want in ((0, tm.const(i)), (Fraction(1, 10 ** 10), tm.const(i)), (Fraction(1, 10 ** 4), None)):
                                        p = lab.vec([tm.mul(tm.const(x + d), s), tm.mul(tm.const(y - d), s)])
                                        r = lab.good(lambda: lab.meth(g, "point_to_vertex", p), "point_to_vertex")
                                        rep.eq(r, want, f"grid '{name}' with edges {have}: vertex at a distance of {float(d)} from vertex {i}", wa)
                        got = [lab.ints(x) for x in lab.items(lab.attr(g, "edges"))]
                        if not rep.true(got == have, f"grid '{name}' with {start} of its edges: after appending {e} the edges are {got}, expected {have}", wa):
                            raise Violated
                    now = content(lab, g)
                    for k in rest:
                        if "edges" != k and rest[k] != now[k]:
                            rep.fail(f"appending edges changes {k}", wa)
                    lookups(rep, lab, g, f"grid '{name}' after appending edges", wa, s)
                    lab.done()


RULES = {"C44": c44, "C45": c45}
