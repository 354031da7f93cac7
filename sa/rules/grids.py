"""C18-C22: rectangle grids, their boundary parts, refinement, and the grids' immutability."""
from __future__ import annotations
import ast
import itertools
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from .. import numeval
from ..terms import T
from ..values import Unsupported, AbsRaise, Ref, BuiltinV, ExtV
from .base import Lab, sources, Rep, Violated, show, site
from .tensors import freeze, changed, reach, snap, eqsnap
from .elements import pts_of, combo

Z, O = tm.ZERO, tm.ONE
C = tm.const
SIDES = ("lower", "right", "upper", "left")


def scale(lab):
    return tm.sym("s", lo=0, pos=True)


def thresholds(rep, lo, hi, most=6):
    """numbers written in the source of the domain module: instances are examined on both sides of each"""
    src = next(text for name, (_, text) in sources().items() if name.split(".")[-1] == "domain")
    xs = {n.value for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Constant) and type(n.value) in (int, float)}
    return sorted({int(x) + d for x in xs if lo <= x <= hi for d in (0, 1)})[:most]


def fractions(hi, most=3):
    """the numbers of parts whose fractions k / n pass a number between 0 and 1 written in the source"""
    xs = set()
    for name, (_, text) in sources().items():
        if name.split(".")[-1] in ("domain", "tensors"):
            xs |= {n.value for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Constant) and type(n.value) is float and 0 < n.value < 1}
    out = set()
    for x in xs:
        for y in (1 / Fraction(repr(x)), 1 / (1 - Fraction(repr(x)))):
            out |= {int(y), int(y) + 1}
    return sorted(k for k in out if k <= hi)[-most:]


def counts(rep):
    more = [c for k in thresholds(rep, 4, 400) for c in ((k, 1), (1, k))]
    if rep.tier == "quick":
        return [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 4)] + more
    return [(a, b) for a in range(1, 6) for b in range(1, 6)] + [(8, 1), (1, 8), (7, 6)] + more


def build(lab, nx, ny, fix=None, dx=Z, dy=Z, s=None):
    s = s or scale(lab)
    dom = lab.call("domain.RectangleDomain", tm.mul(tm.add(C(nx), dx), s), tm.mul(tm.add(C(ny), dy), s), *([fix] if fix is not None else []))
    return dom, lab.meth(dom, "grid", s), s


class G:
    """a grid as python data: vertex numbers are ints, coordinates are terms"""

    def __init__(self, lab, g):
        self.ref = g
        ints = lambda v: [lab.ints(t) for t in lab.items(v)]
        self.vertices, self.edges, self.triangles = (ints(lab.attr(g, n)) for n in ("vertices", "edges", "triangles"))
        self.points = pts_of(lab, g)
        for n in ("boundary", "dirichlet_boundary", "neumann_boundary"):
            b = lab.attr(g, n)
            setattr(self, n, (ints(lab.attr(b, "vertices")), ints(lab.attr(b, "edges"))))


def und(e):
    return frozenset(e)


def same_points(rep, got, want, what, w):
    for c in (0, 1):
        rep.eq(got[c], want[c], f"{what}, coordinate {c + 1}", w)


def orient(p):
    """twice the signed area"""
    a, b, c = p
    return tm.sub(tm.mul(tm.sub(b[0], a[0]), tm.sub(c[1], a[1])), tm.mul(tm.sub(c[0], a[0]), tm.sub(b[1], a[1])))


def nodup(rep, xs, what, w):
    seen = set()
    for x in xs:
        if x in seen:
            rep.fail(f"{what}: {x} appears twice", w)
            raise Violated
        seen.add(x)
    rep.fact()
    return seen


def sameset(rep, got, want, what, w):
    got = nodup(rep, got, what, w)
    if got != set(want):
        miss, extra = set(want) - got, got - set(want)
        rep.fail(f"{what}: missing {sorted(map(tuple_, miss))[:6]}, superfluous {sorted(map(tuple_, extra))[:6]}", w)
        raise Violated
    rep.fact()


def tuple_(x):
    return tuple(sorted(x)) if isinstance(x, frozenset) else x


# ------------------------------------------------------------------ C18

def c18(rep: Rep):
    w = Lab(rep).where("domain.RectangleDomain.grid")
    d = lambda n: tm.sym(n, lo=0, hi=Fraction(99, 100))
    for nx, ny in counts(rep):
        for name, dx, dy in (("exact", Z, Z), ("with remainders", d("dx"), d("dy")), ("with a wide remainder", d("dx"), Z),
                             ("with remainders 3/4, 1/2", C(Fraction(3, 4)), C(Fraction(1, 2))), ("with remainders 1/4, 99/100", C(Fraction(1, 4)), C(Fraction(99, 100))),
                             ("almost one more cell", C(1 - Fraction(1, 10**6)), C(1 - Fraction(1, 10**6)))):
            if name != "exact" and nx * ny > 40 or name == "with a wide remainder" and nx * ny > 6:
                continue
            lab = Lab(rep)
            with rep.ob(f"{nx} x {ny} cells, {name}", w):
                dom, g, s = lab.good(lambda: build(lab, nx, ny, None, dx, dy), "grid", where=w)
                rectangle(rep, lab, G(lab, g), nx, ny, s, w)
                if name == "exact" and nx * ny < 7:
                    # the same domain is asked again
                    half = tm.mul(C(Fraction(1, 2)), s)
                    g = lab.good(lambda: lab.meth(dom, "grid", half), "finer grid", where=w)
                    rectangle(rep, lab, G(lab, g), 2 * nx, 2 * ny, half, w)
                    g = lab.good(lambda: lab.meth(dom, "grid", s), "second grid", where=w)
                    rectangle(rep, lab, G(lab, g), nx, ny, s, w)
            lab.done()


def rectangle(rep, lab, g, nx, ny, s, w):
    n = (nx + 1) * (ny + 1)
    rep.true(g.vertices == list(range(n)), f"vertices are {g.vertices[:12]}, expected 0..{n - 1}", w)
    rep.true(len(g.points) == n, f"{len(g.points)} points for {n} vertices", w)
    no = lambda i, j: j * (nx + 1) + i
    for j in range(ny + 1):
        for i in range(nx + 1):
            same_points(rep, g.points[no(i, j)], (tm.mul(C(i), s), tm.mul(C(j), s)), f"vertex in column {i}, row {j}", w)
    cells = {}
    for t in nodup(rep, g.triangles, "triangles", w):
        xs = [(v % (nx + 1), v // (nx + 1)) for v in t]
        i, j = min(x for x, _ in xs), min(y for _, y in xs)
        lower, upper = [(i, j), (i + 1, j), (i + 1, j + 1)], [(i + 1, j + 1), (i, j + 1), (i, j)]
        if xs == lower:
            cells.setdefault((i, j), []).append("lower")
        elif xs == upper:
            cells.setdefault((i, j), []).append("upper")
        else:
            rep.fail(f"triangle {t} with corners {xs} is not a half cell listed counter-clockwise from its horizontal edge", w)
            raise Violated
        rep.true(tm.pos(orient([g.points[v] for v in t])), f"triangle {t} is not counter-clockwise", w)
    want = {(i, j) for i in range(nx) for j in range(ny)}
    if set(cells) != want or any(sorted(v) != ["lower", "upper"] for v in cells.values()):
        rep.fail(f"the triangles do not cover every cell by two halves: {cells}", w)
        raise Violated
    sides = {und((t[k], t[(k + 1) % 3])) for t in g.triangles for k in range(3)}
    sameset(rep, [und(e) for e in g.edges], sides, "edges", w)
    bd = [und((no(i, j), no(i + 1, j))) for j in (0, ny) for i in range(nx)] + [und((no(i, j), no(i, j + 1))) for i in (0, nx) for j in range(ny)]
    sameset(rep, [und(e) for e in g.boundary[1]], bd, "boundary edges", w)
    sameset(rep, g.boundary[0], {v for e in bd for v in e}, "boundary vertices", w)
    for e in g.boundary[1]:
        rep.true(e in g.edges, f"boundary edge {e} is not stored among the edges in this orientation", w)


# ------------------------------------------------------------------ C19

def side_edges(nx, ny):
    no = lambda i, j: j * (nx + 1) + i
    return {"lower": {und((no(i, 0), no(i + 1, 0))) for i in range(nx)},
            "upper": {und((no(i, ny), no(i + 1, ny))) for i in range(nx)},
            "left": {und((no(0, j), no(0, j + 1))) for j in range(ny)},
            "right": {und((no(nx, j), no(nx, j + 1))) for j in range(ny)}}


def parts(rep, lab, g, nx, ny, fixed, w):
    E = side_edges(nx, ny)
    dir_ = set().union(*[E[x] for x in fixed]) if fixed else set()
    neu = set().union(*E.values()) - dir_
    for n, part, want in (("Dirichlet", g.dirichlet_boundary, dir_), ("Neumann", g.neumann_boundary, neu)):
        sameset(rep, [und(e) for e in part[1]], want, f"{n} edges of the {nx} x {ny} grid", w)
        sameset(rep, part[0], {v for e in want for v in e}, f"{n} vertices of the {nx} x {ny} grid", w)
        for e in part[1]:
            rep.true(e in g.edges, f"{n} edge {e} is not stored among the edges in this orientation", w)


def c19(rep: Rep):
    w = Lab(rep).where("domain.RectangleDomain.grid")
    opts = [None] + list(SIDES) + [[]]
    for k in range(1, 5):
        for c in itertools.combinations(SIDES, k):
            opts.append(list(c))
            if k > 1:
                opts.append(list(reversed(c)))
    opts += [["left", "left"], ["upper", "left", "upper"], ["right", "lower", "right", "lower"], list(SIDES) * 2,
             ["lower", "upper", "left", "left", "right"]]
    if rep.tier == "thorough":
        opts += [list(p) for p in itertools.permutations(SIDES)] + [list(p) for p in itertools.product(SIDES, repeat=3)]
    sizes = [(1, 1), (2, 1), (1, 3), (3, 2)] if rep.tier == "quick" else [(a, b) for a in (1, 2, 3) for b in (1, 2, 4)]
    big = [c for k in thresholds(rep, 4, 100) for c in ((k, 1), (1, k))]
    for o in opts:
        lab = Lab(rep)
        with rep.ob(f"fix = {o!r}", w):
            fixed = [] if o is None else [o] if isinstance(o, str) else o
            for nx, ny in sizes + (big if o in (None, "left", ["lower", "right"]) else []):
                given = lab.lst(list(o)) if isinstance(o, list) else o
                dom, g, s = lab.good(lambda: build(lab, nx, ny, given), f"grid with fix={o!r}", where=w)
                parts(rep, lab, G(lab, g), nx, ny, fixed, w)
                if (nx, ny) == sizes[-1]:
                    # the same domain is asked again
                    half = tm.mul(C(Fraction(1, 2)), s)
                    g = lab.good(lambda: lab.meth(dom, "grid", half), f"finer grid with fix={o!r}", where=w)
                    parts(rep, lab, G(lab, g), 2 * nx, 2 * ny, fixed, w)
                    g = lab.good(lambda: lab.meth(dom, "grid", s), f"second grid with fix={o!r}", where=w)
                    parts(rep, lab, G(lab, g), nx, ny, fixed, w)
                    if isinstance(o, list):
                        rep.true(lab.items(given) == o, f"the list {o!r} given as fix option is {lab.items(given)!r} afterwards", w)
        lab.done()
    for o in ("top", "", "Left", "lowe", "leftright", ["left", "up"], ["bottom"], [""], ["left", "lower", "upper", "right", "none"], "lower,left"):
        with rep.ob(f"unknown side: fix = {o!r}", w):
            lab = Lab(rep)
            lab.bad(lambda: build(lab, 2, 1, o), "ValueError", f"fix={o!r}", where=w)
            lab.done()


# ------------------------------------------------------------------ C20, C21

def reversed_some(lab, g0, which):
    """the same grid with some edges stored in the opposite direction (consistently in all lists)"""
    g = G(lab, g0)
    flip = {und(e) for i, e in enumerate(g.edges) if which(i)}
    f = lambda es: [e[::-1] if und(e) in flip else e for e in es]
    b = lambda n: (getattr(g, n)[0], f(getattr(g, n)[1]))
    return lab.new_grid(g.vertices, f(g.edges), g.triangles, b("boundary"), b("dirichlet_boundary"), b("neumann_boundary"),
                        [lab.vec(p) for p in g.points])


def refinements(rep):
    """(name, cells, fix, edge reversal, factors)"""
    out = []
    fs = [1, 2, 3, 4, 5, 6] if rep.tier == "quick" else list(range(1, 11))
    for r in sorted({*fs, *thresholds(rep, fs[-1], 12, 3), *fractions(12)}):
        out.append((f"1 x 1 cells, factor {r}", (1, 1), "left", None, [r]))
    out.append(("2 x 1 cells, factor 2", (2, 1), ["left", "upper"], None, [2]))
    out.append(("1 x 2 cells, factor 3", (1, 2), "lower", None, [3]))
    out.append(("2 x 2 cells, factor 3", (2, 2), None, None, [3]))
    out.append(("2 x 2 cells, factor 2, all sides fixed", (2, 2), list(SIDES), None, [2]))
    for n, f in (("every edge", lambda i: True), ("even edges", lambda i: i % 2 == 0), ("odd edges", lambda i: i % 2 == 1),
                 ("every third edge", lambda i: i % 3 == 1)):
        out.append((f"1 x 1 cells, factor 3, {n} reversed", (1, 1), ["left", "lower"], f, [3]))
        out.append((f"2 x 1 cells, factor 2, {n} reversed", (2, 1), "right", f, [2]))
    out.append(("1 x 1 cells, refined by 2, then by 2", (1, 1), "right", None, [2, 2]))
    out.append(("1 x 1 cells, refined by 2, then by 3, odd edges reversed", (1, 1), "left", lambda i: i % 2 == 1, [2, 3]))
    if rep.tier == "thorough":
        out.append(("3 x 2 cells, factor 4", (3, 2), ["upper", "right"], None, [4]))
        out.append(("2 x 3 cells, factor 3, odd edges reversed", (2, 3), ["upper"], lambda i: i % 2 == 1, [3]))
        out.append(("2 x 1 cells, refined by 3, then by 2", (2, 1), "right", None, [3, 2]))
    return out


def barys(P, t, p):
    a, b, c = (P[i] for i in t)
    d = lambda u, v: tm.sub(tm.mul(u[0], v[1]), tm.mul(u[1], v[0]))
    m = lambda u, v: [tm.sub(u[0], v[0]), tm.sub(u[1], v[1])]
    A = d(m(b, a), m(c, a))
    l1, l2 = tm.div(d(m(b, p), m(c, p)), A), tm.div(d(m(c, p), m(a, p)), A)
    return l1, l2, tm.sub(tm.sub(O, l1), l2)


def rational(ts):
    out = []
    for t in ts:
        if not (isinstance(t, T) and t.op == "c"):
            raise Unsupported(f"coordinate {show(t)} is not a known rational")
        out.append(t.a[0])
    return out


class Case:
    def __init__(self, rep, cells, fix, rev, factors):
        lab = self.lab = Lab(rep)
        # coordinates are exact numbers here: all statements are invariant under scaling
        s = C(Fraction(3, 4))
        self.dom, g0, _ = build(lab, *cells, fix, s=s)
        g = reversed_some(lab, g0, rev) if rev else g0
        for r in factors[:-1]:
            g = lab.meth(self.dom, "refine", g, r)
        self.r = factors[-1]
        self.coarse = G(lab, g)
        self.fine = None

    def refine(self, where):
        lab = self.lab
        self.fine = G(lab, lab.good(lambda: lab.meth(self.dom, "refine", self.coarse.ref, self.r), "refine", where=where))
        return self.fine


def c20(rep: Rep):
    lab0 = Lab(rep)
    w, wt = lab0.where("domain.RectangleDomain.refine"), lab0.where("domain.RefinedGrid.to_coarse_barycentric_point")
    for name, cells, fix, rev, factors in refinements(rep):
        with rep.ob(name, w):
            K = Case(rep, cells, fix, rev, factors)
            lab, g, r = K.lab, K.coarse, K.r
            f = K.refine(w)
            n = len(g.points)
            rep.true(f.vertices == list(range(len(f.points))), f"vertices of the refined grid are {f.vertices[:20]}", w)
            rep.true(len(f.points) >= n, "points have been lost", w)
            for i in range(n):
                same_points(rep, f.points[i], g.points[i], f"coarse vertex {i}", w)
            nodup(rep, [tuple(rational(p)) for p in f.points], "positions of the refined grid", w)
            used = {v for t in f.triangles for v in t}
            rep.true(used == set(f.vertices), "some vertices belong to no triangle", w)
            rep.true(len(f.triangles) == r * r * len(g.triangles), f"{len(f.triangles)} triangles, expected {r * r * len(g.triangles)}", w)
            nodup(rep, [und(t) for t in f.triangles], "triangles", w)
            # lattice of every coarse triangle
            home = {}
            for ct in g.triangles:
                want = set()
                for k in range(r):
                    for l in range(r - k):
                        want.add(frozenset([(k, l), (k + 1, l), (k, l + 1)]))
                        if k + l < r - 1:
                            want.add(frozenset([(k + 1, l), (k, l + 1), (k + 1, l + 1)]))
                got = []
                for ft in f.triangles:
                    bs = [rational(barys(g.points, ct, f.points[v])) for v in ft]
                    if all(x >= 0 for b in bs for x in b):
                        lat = [(b[0] * r, b[1] * r) for b in bs]
                        if any(x.denominator != 1 for p in lat for x in p):
                            rep.fail(f"triangle {ft} is not a cell of the regular subdivision of {ct}", w)
                            raise Violated
                        got.append(frozenset((int(x), int(y)) for x, y in lat))
                        home[ft] = ct
                        a, b = rational([orient([g.points[v] for v in ct]), orient([f.points[v] for v in ft])])
                        rep.true(a == b * r * r, f"area or orientation of {ft} inside {ct}", w)
                if set(got) != want or len(got) != len(want):
                    rep.fail(f"coarse triangle {ct} is subdivided into {len(got)} triangles which do not tile it", w)
                    raise Violated
                rep.fact()
            co = lab.good(lambda: lab.meth(f.ref, "coarse"), "coarse()", where=w)
            if lab.ip.vsimp(co) is not lab.ip.vsimp(g.ref):
                c = G(lab, co)
                same = (c.vertices, c.edges, c.triangles, c.points, c.boundary, c.dirichlet_boundary, c.neumann_boundary) == (
                    g.vertices, g.edges, g.triangles, g.points, g.boundary, g.dirichlet_boundary, g.neumann_boundary)
                rep.true(same, "coarse() is not the refined grid's origin", w)
            l1, l2 = tm.sym("l1", lo=0, hi=1), tm.sym("l2", lo=0, hi=1)
            l = (l1, l2, tm.sub(tm.sub(O, l1), l2))
            for ft in f.triangles:
                for k in range(3):
                    t = ft[k:] + ft[:k]
                    p = lab.call("domain.BarycentricPoint", t, lab.bary(l1, l2))
                    q = lab.good(lambda: lab.meth(f.ref, "to_coarse_barycentric_point", p), "to_coarse_barycentric_point", where=wt)
                    ct = lab.ints(lab.attr(q, "triangle"))
                    co = lab.attr(q, "coordinates")
                    b = [lab.attr(co, f"l{i}") for i in (1, 2, 3)]
                    rep.true(set(ct) == set(home[ft]) and ct in [x[i:] + x[:i] for x in g.triangles for i in range(3)],
                             f"triangle {t} is assigned to {ct}, but lies in {home[ft]}", wt)
                    same_points(rep, combo(b, [g.points[i] for i in ct]), combo(l, [f.points[i] for i in t]),
                                f"point of triangle {t} converted to the coarse grid", wt)
            coarse_only = [t for t in g.triangles if und(t) not in {und(x) for x in f.triangles}]
            nf = len(f.points)
            odd = f.triangles[0][::-1]
            for t in coarse_only[:2] + [(0, 0, 0), (nf, nf + 1, nf + 2), odd]:
                p = lab.call("domain.BarycentricPoint", t, lab.bary(Fraction(1, 3), Fraction(1, 3)))
                lab.bad(lambda: lab.meth(f.ref, "to_coarse_barycentric_point", p), "ValueError", f"conversion of the foreign triangle {t}", where=wt)
            lab.done()
    for r in (0, -1, -5, "any"):
        with rep.ob(f"refinement factor {r}", w):
            lab = Lab(rep)
            dom, g, s = build(lab, 1, 1)
            k = tm.sym("r", True, hi=0) if r == "any" else C(r)
            lab.bad(lambda: lab.meth(dom, "refine", g, k), "ValueError", f"refinement factor {r}", where=w)
            lab.done()


def c21(rep: Rep):
    lab0 = Lab(rep)
    w, wt = lab0.where("domain.RectangleDomain.refine"), lab0.where("domain.RefinedGrid.to_coarse_edge_point")
    for name, cells, fix, rev, factors in refinements(rep):
        with rep.ob(name, w):
            K = Case(rep, cells, fix, rev, factors)
            lab, g, r = K.lab, K.coarse, K.r
            f = K.refine(w)
            sides = {und((t[k], t[(k + 1) % 3])) for t in f.triangles for k in range(3)}
            sameset(rep, [und(e) for e in f.edges], sides, "edges of the refined grid", w)
            stored = {und(e): e for e in f.edges}
            P, Q = f.points, g.points
            pos = {tuple(rational(p)): i for i, p in enumerate(P)}
            on = {}
            t = tm.sym("t", lo=0, hi=1)
            for ce in g.edges:
                a, b = (rational(Q[i]) for i in ce)
                vs = []
                for k in range(r + 1):
                    p = tuple(x + (y - x) * Fraction(k, r) for x, y in zip(a, b))
                    if p not in pos:
                        rep.fail(f"no refined vertex at fraction {k}/{r} of the coarse edge {ce}", w)
                        raise Violated
                    vs.append(pos[p])
                for e in zip(vs, vs[1:]):
                    on[e] = ce
                    if stored.get(und(e)) != e:
                        rep.fail(f"the sub-edge {e} of the coarse edge {ce} is stored as {stored.get(und(e))}", w)
                        raise Violated
                    q = lab.good(lambda: lab.meth(f.ref, "to_coarse_edge_point", e, t), f"to_coarse_edge_point({e}, t)", where=wt)
                    qe, qt = lab.items(q)
                    qe = lab.ints(qe)
                    rep.true(qe == ce, f"fine edge {e} is recorded with {qe}, but lies on {ce}", wt)
                    same_points(rep, combo((qt, tm.sub(O, qt)), [Q[i] for i in ce]), combo((t, tm.sub(O, t)), [P[i] for i in e]),
                                f"point of the fine edge {e} converted to the coarse edge", wt)
            inner = [e for e in f.edges if e not in on]
            for e in inner:
                lab.bad(lambda: lab.meth(f.ref, "to_coarse_edge_point", e, Fraction(1, 2)), "ValueError", f"fine edge {e} on no coarse edge", where=wt)
            subs = {}
            for e, ce in on.items():
                subs.setdefault(ce, []).append(e)
            for n in ("boundary", "dirichlet_boundary", "neumann_boundary"):
                cv, ce = getattr(g, n)
                fv, fe = getattr(f, n)
                want = {x for e in ce for x in subs[e]}
                sameset(rep, fe, want, f"edges of the refined {n}", w)
                sameset(rep, fv, {v for e in want for v in e}, f"vertices of the refined {n}", w)
            lab.done()


# ------------------------------------------------------------------ C22

LISTS = ("vertices", "edges", "triangles", "points", "boundary.vertices", "boundary.edges", "dirichlet_boundary.vertices",
         "dirichlet_boundary.edges", "neumann_boundary.vertices", "neumann_boundary.edges")


def content(lab, g):
    """the public content of a grid as python data"""
    return {n: lab.py(lab.attr(g, *n.split(".")), 8) if n != "points" else [lab.items(p) for p in lab.items(lab.attr(g, n))] for n in LISTS}


def unchanged(rep, lab, g, before, what, w):
    now = content(lab, g)
    for n in LISTS:
        rep.true(now[n] == before[n], f"{what} changes {n} of the grid", w)


def c22(rep: Rep):
    lab0 = Lab(rep)
    wr = lab0.where("domain.RectangleDomain.refine")
    for name, cells, fix, rev, factors in refinements(rep):
        if factors[-1] > 4:
            continue
        with rep.ob(f"refinement: {name}", wr):
            K = Case(rep, cells, fix, rev, factors)
            lab, g = K.lab, K.coarse
            before = content(lab, g.ref)
            f = K.refine(wr)
            unchanged(rep, lab, g.ref, before, "refining", wr)
            mine = {lab.ip.vsimp(lab.attr(g.ref, *n.split("."))): n for n in LISTS}
            for n in LISTS:
                r = lab.ip.vsimp(lab.attr(f.ref, *n.split(".")))
                rep.true(not isinstance(r, Ref) or r not in mine, f"{n} of the refined grid is the list {mine.get(r)} of the given grid", wr)
            own = {}
            for n in LISTS:
                for gr, nm in ((g.ref, "given"), (f.ref, "refined")):
                    r = lab.ip.vsimp(lab.attr(gr, *n.split(".")))
                    if isinstance(r, Ref):
                        other = own.setdefault(r, (nm, n))
                        if other[0] != nm:
                            rep.fail(f"{n} of the {nm} grid is the same list as {other[1]} of the {other[0]} grid", wr)
            # using the refined grid leaves both unchanged
            bf = content(lab, f.ref)
            for t in f.triangles[:4]:
                p = lab.call("domain.BarycentricPoint", t, lab.bary(Fraction(1, 3), Fraction(1, 4)))
                lab.meth(f.ref, "to_coarse_barycentric_point", p)
            for e in g.edges[:1]:
                pass
            for fr in ((Fraction(1, 3), Fraction(1, 5)), (Fraction(1, 7), Fraction(2, 3))):
                p = lab.vec([C(x) for x in fr])
                for gr in (g.ref, f.ref):
                    lab.meth(gr, "to_barycentric_point", p)
            for gr, nm in ((g.ref, "given"), (f.ref, "refined")):
                ip = lab.ip
                lab.ip.eq_op(gr, gr)
                lab.meth(gr, "plot", ExtV("ax"))
                lab.meth(gr, "point_to_vertex", lab.item(lab.attr(gr, "points"), 0))
                lab.meth(gr, "triangle_vertices", lab.item(lab.attr(gr, "triangles"), 0))
                lab.meth(gr, "edge_vertices", lab.item(lab.attr(gr, "edges"), 0))
            unchanged(rep, lab, g.ref, before, "using the refined grid", wr)
            unchanged(rep, lab, f.ref, bf, "using the refined grid", wr)
            lab.done()
    users(rep)


def users(rep):
    """integrators, interpolations, problems, recorded steps, on arbitrary grids"""
    from .scene import Scene, scenes
    from .steps import evaluate, SETTINGS
    from .plots import locate, mark

    def grids(S):
        return [(n, m.grid) for n, m in (("grid", S.g), ("refined grid", S.r), ("plotting grid", S.q)) if m is not None]

    def check(S, before, what, w):
        lab = S.lab
        for n, g in grids(S):
            ch = [r for r in changed(lab, before[n])]
            real = [r for r in ch if not eq_views(lab, before[n][r], r)]
            if real:
                rep.fail(f"{what} changes the {n}: {kind(lab, g, real[0])}", w)
            else:
                rep.fact()

    def eq_views(lab, old, r):
        return False

    def kind(lab, g, r):
        for n in LISTS:
            if lab.ip.vsimp(lab.attr(g, *n.split("."))) is r:
                return n
        return "a part of it"

    def simulation(S):
        lab = S.lab
        if S.g.tris is None:
            locate(S)
        before = {n: freeze(lab, g) for n, g in grids(S)}
        S.construct()
        check(S, before, "constructing a simulation", lab.where("simulation.Simulation"))
        S.run()
        S.run(2)
        check(S, before, "running a simulation", lab.where("simulation.Simulation.run"))
        for st in S.steps():
            evaluate(S, st)
        check(S, before, "evaluating a recorded step", lab.where("simulation.AbstractStep"))
        lab.meth(S.sim, "plot_step", C(-1))
        check(S, before, "plotting a recorded step", lab.where("simulation.Simulation.plot_step"))
        lab.meth(S.sim, "save_step", C(0))
        lab.meth(S.sim, "save_animation")
        check(S, before, "saving a recorded step", lab.where("simulation.Simulation.save_step"))

    for reg, name in SETTINGS:
        scenes(rep, reg, simulation, f"simulation and recorded steps ({name})", light=True, run=False)

    def elements(S):
        lab = S.lab
        before = {n: freeze(lab, g) for n, g in grids(S)}
        Q = "quadrature_rules.DUNAVANT2"
        tri = tuple(tm.sym(f"i{q}", True, lo=0, hi=2) for q in range(3)) if S.g.tris is None else (0, 1, 2)
        f = lab.opq("phi")
        for n, g in grids(S):
            I = lab.call("integrators.Integrator", lab.get(Q), lab.attr(g, "triangles"), lab.attr(g, "points"))
            lab.call(I, f)
            for b in ("boundary", "dirichlet_boundary", "neumann_boundary"):
                B = lab.call("integrators.BoundaryIntegrator", 2, lab.attr(g, b, "edges"), lab.attr(g, "points"))
                lab.call(B, f)
        check(S, before, "integrating", lab.where("integrators.Integrator"))
    for mesh in ("generic", "small"):
        with rep.ob(f"integrators on {mesh} grids"):
            S = Scene(rep, True, mesh, run=False)
            elements(S)
            S.lab.done()
    with rep.ob("interpolations on a small grid"):
        S = Scene(rep, True, "small", run=False)
        lab = S.lab
        before = {n: freeze(lab, g) for n, g in grids(S)}
        vals = lab.lst([tm.sym(f"v{i}") for i in range(4)])
        dofs = lab.lst([lab.lst([tm.sym(f"v{i}_{j}") for j in range(6)]) for i in range(4)])
        b = lab.bary(Fraction(1, 3), Fraction(1, 4))
        t = (0, 1, 2)
        p1 = lab.call("interpolation.P1Interpolation", S.g.grid, vals)
        c1 = lab.call("interpolation.C1Interpolation", S.g.grid, dofs)
        ref = lab.call("interpolation.RefinedInterpolation", c1, S.r.grid)
        pb = lab.call("interpolation.P1BoundaryInterpolation", lab.attr(S.g.grid, "boundary"), vals)
        def use(fn, *args):
            """errors are not the subject here, only what is written on the way"""
            try:
                fn(*args)
            except va.AbsRaise:
                pass

        for f, g in ((p1, S.g), (c1, S.g), (ref, S.r)):
            t = lab.item(lab.attr(g.grid, "triangles"), 0)
            use(lab.call, f, t, b)
            for m in ("gradient", "hessian"):
                use(lab.meth, f, m, t, b)
            use(lab.meth, f, "on_edge", lab.item(lab.attr(g.grid, "edges"), 0), Fraction(1, 3))
        use(lab.call, pb, lab.item(lab.attr(S.g.grid, "boundary", "edges"), 0), Fraction(1, 3))
        e = lab.call("interpolation.EuclideanDeformation", c1, p1)
        x = [tm.div(tm.add(*[S.g.pts[i][c] for i in (0, 1, 2)]), C(3)) for c in (0, 1)]
        use(lab.call, e, *x)
        use(lab.meth, e, "strain", *x)
        check(S, before, "interpolating", lab.where("interpolation.C1Interpolation"))
        lab.done()


RULES = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22}
