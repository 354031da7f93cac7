"""C29 (tensor algebra) and C30 (value semantics)."""
from __future__ import annotations
import itertools
from fractions import Fraction
from .. import terms as tm
from .. import values as va
from ..values import Unsupported, BuiltinV, Ref
from ..terms import T
from .base import Lab, Rep, Violated
from .quadrature import numbers

Z, O, TWO = tm.ZERO, tm.ONE, tm.TWO
K = tm.sym("lam", lo=Fraction(1, 4), hi=3)


def V(n, name="a"):
    return [tm.sym(f"{name}{i}") for i in range(n)]


def M(r, c, name="m"):
    return [[tm.sym(f"{name}{i}{j}") for j in range(c)] for i in range(r)]


def T3(s, name="t"):
    return [[[tm.sym(f"{name}{i}{j}{k}") for k in range(s[2])] for j in range(s[1])] for i in range(s[0])]


def shape(lab, x):
    return tuple(lab.ints(lab.attr(x, "shape")))


def entries(lab, x, sh):
    """nested entries read through indexing"""
    if len(sh) == 0:
        return x
    if len(sh) == 1:
        return [lab.item(x, i) for i in range(sh[0])]
    if len(sh) == 2:
        return [[lab.item(x, i, j) for j in range(sh[1])] for i in range(sh[0])]
    return [[[lab.item(x, i, j, k) for k in range(sh[2])] for j in range(sh[1])] for i in range(sh[0])]


def shp(x):
    return (len(x),) + shp(x[0]) if isinstance(x, list) and x else (0,) if isinstance(x, list) else ()


def same(rep, lab, got, want, what, w):
    s = shp(want)
    if s == ():
        rep.eq(got, want, what, w)
        return
    kind = {1: "Vector", 2: "Matrix", 3: "Tensor3D"}[len(s)]
    c = lab.ip.get(got) if isinstance(got, Ref) else None
    rep.true(isinstance(c, va.Obj) and c.cls.name == kind, f"{what}: result is not a {kind}", w)
    g = shape(lab, got)
    if not rep.true(g == s, f"{what}: shape {g}, expected {s}", w):
        return
    for a, b, ix in zip(flat(entries(lab, got, s)), flat(want), flat_ix(s)):
        rep.eq(a, b, f"{what}: entry {ix}", w)


def flat(x):
    return [y for z in x for y in flat(z)] if isinstance(x, list) else [x]


def flat_ix(s):
    return list(itertools.product(*[range(k) for k in s]))


def add(x, y):
    return [add(a, b) for a, b in zip(x, y)] if isinstance(x, list) else tm.add(x, y)


def sub(x, y):
    return [sub(a, b) for a, b in zip(x, y)] if isinstance(x, list) else tm.sub(x, y)


def smap(x, f):
    return [smap(a, f) for a in x] if isinstance(x, list) else f(x)


def sq(x):
    return tm.add(*[tm.mul(a, a) for a in flat(x)]) if flat(x) else Z


def det(m):
    if not m:
        return O
    return tm.add(*[tm.mul(O if j % 2 == 0 else tm.const(-1), m[0][j], det([r[:j] + r[j + 1:] for r in m[1:]]))
                    for j in range(len(m))])


def sparse(n):
    """an n x n matrix in which every entry position is symbolic in one of few nonzero diagonals, so that its
    determinant stays readable: the diagonal, its upper neighbour and the lower left corner"""
    return [[tm.sym(f"m{i}{j}") if j in (i, (i + 1) % n, (i + 2) % n) else Z for j in range(n)] for i in range(n)]


def fmap():
    return BuiltinV("f", lambda ip, a, k: tm.app("f", (a[0],)))


def c29(rep: Rep):
    lab = Lab(rep)
    ip = lab.ip
    big = rep.tier == "thorough"
    bop = lambda op, a, b: ip.binop(op, lab.lift(a), lab.lift(b))

    def run(what, w, got, want):
        with rep.ob(what, w):
            same(rep, lab, lab.good(got, what), want, what, w)

    def bad(what, w, fn, exc="ValueError"):
        with rep.ob(what, w):
            lab.bad(fn, exc, what, where=w)

    # ---- vectors
    w = lab.where("tensors.Vector")
    for n in range(0, 6 if big else 4):
        a, b = V(n, "a"), V(n, "b")
        v, u = lab.vec(a), lab.vec(b)
        run(f"Vector[{n}] entries", w, lambda: v, a)
        if n:
            run(f"-Vector[{n}]", w, lambda: ip.unary("neg", v), smap(a, tm.neg))
            run(f"Vector[{n}] + Vector", w, lambda: bop("add", v, u), add(a, b))
            run(f"Vector[{n}] - Vector", w, lambda: bop("sub", v, u), sub(a, b))
            run(f"Vector[{n}] * k", w, lambda: bop("mul", v, K), smap(a, lambda x: tm.mul(x, K)))
            run(f"k * Vector[{n}]", w, lambda: bop("mul", K, v), smap(a, lambda x: tm.mul(x, K)))
            run(f"2 * Vector[{n}]", w, lambda: bop("mul", 2, v), smap(a, lambda x: tm.mul(x, TWO)))
            run(f"Vector[{n}] / k", w, lambda: bop("truediv", v, K), smap(a, lambda x: tm.div(x, K)))
            run(f"Vector[{n}].map", w, lambda: lab.meth(v, "map", fmap()), smap(a, lambda x: tm.app("f", (x,))))
            run(f"Vector[{n}].stack", w, lambda: lab.meth(v, "stack", u), [a, b])
            run(f"Vector[{n}].transpose", w, lambda: lab.meth(v, "transpose"), [a])
            run(f"Vector[{n}].norm", w, lambda: lab.meth(v, "norm"), tm.sqrt(sq(a)))
        run(f"Vector[{n}].normsqr", w, lambda: lab.meth(v, "normsqr"), sq(a))
        run(f"Vector[{n}].dot", w, lambda: lab.meth(v, "dot", u), tm.add(*[tm.mul(x, y) for x, y in zip(a, b)]) if n else Z)
        for k in range(0, 3):
            run(f"Vector[{n}].extend(Vector[{k}])", w, lambda: lab.meth(v, "extend", lab.vec(V(k, "c"))), a + V(k, "c"))
        with rep.ob(f"len and iteration of Vector[{n}]", w):
            rep.true(lab.num(lab.good(lambda: lab.call(ip.builtins["len"], v), "len")) == n, f"len of Vector[{n}]", w)
            it = lab.items(v)
            rep.true(len(it) == n, f"iteration over Vector[{n}] yields {len(it)} entries", w)
            for x, y in zip(it, a):
                rep.eq(x, y, "iteration over a vector", w)
            rep.true(lab.num(lab.attr(v, "size")) == n, "size", w)
        with rep.ob(f"slices of Vector[{n}]", w):
            for lo, hi in ((None, None), (1, None), (0, 2), (None, -1), (1, 2)):
                s = slice(lo, hi)
                cv = lambda x: None if x is None else tm.const(x)
                got = lab.good(lambda: ip.getitem(v, va.SliceV(cv(lo), cv(hi), None)), "slice")
                same(rep, lab, got, a[s], f"slice {lo}:{hi}", w)
        for m in range(0, 4):
            if m != n:
                u2 = lab.vec(V(m, "c"))
                bad(f"Vector[{n}] + Vector[{m}]", w, lambda: bop("add", v, u2))
                bad(f"Vector[{n}] - Vector[{m}]", w, lambda: bop("sub", v, u2))
                bad(f"Vector[{n}].dot(Vector[{m}])", w, lambda: lab.meth(v, "dot", u2))
                bad(f"Vector[{n}].stack(Vector[{m}])", w, lambda: lab.meth(v, "stack", u2))
        for i in (-1, -n - 1, n, n + 2):
            bad(f"Vector[{n}][{i}]", w, lambda: lab.item(v, i), "IndexError")
    for n, r, c in ((6, 2, 3), (6, 3, 2), (4, 2, 2), (4, 1, 4), (18, 3, 6)):
        a = V(n)
        run(f"Vector[{n}].reshape({r},{c})", w, lambda: lab.meth(lab.vec(a), "reshape", r, c),
            [[a[i * c + j] for j in range(c)] for i in range(r)])
    for n, r, c in ((6, 2, 2), (4, 2, 3), (5, 2, 3), (7, 2, 3)):
        bad(f"Vector[{n}].reshape({r},{c})", w, lambda: lab.meth(lab.vec(V(n)), "reshape", r, c))
    with rep.ob("Vector indexing accepts exactly 0..size-1", w):
        lab2 = Lab(rep)
        i = tm.sym("i", True, lo=-9, hi=9)
        want = tm.bor(tm.lt(i, Z), tm.le(tm.const(4), i))
        c, r, other = lab2.raise_cond(lambda: lab2.item(lab2.vec(V(4)), i), "IndexError")
        rep.eq(c, want, "condition for IndexError", w)
        rep.true(not other, "other exceptions", w)
    with rep.ob("vectors of any length", w):
        generic_vectors(rep, w)

    # ---- matrices
    w = lab.where("tensors.Matrix")
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(1, 3), (3, 1), (4, 2), (2, 4)] if big else [])
    for s in shapes:
        a, b = M(*s, "a"), M(*s, "b")
        m, q = lab.mat(a), lab.mat(b)
        r, c = s
        nm = f"Matrix{s}"
        run(f"{nm} entries", w, lambda: m, a)
        run(f"-{nm}", w, lambda: ip.unary("neg", m), smap(a, tm.neg))
        run(f"{nm} + Matrix", w, lambda: bop("add", m, q), add(a, b))
        run(f"{nm} - Matrix", w, lambda: bop("sub", m, q), sub(a, b))
        run(f"{nm} * k", w, lambda: bop("mul", m, K), smap(a, lambda x: tm.mul(x, K)))
        run(f"k * {nm}", w, lambda: bop("mul", K, m), smap(a, lambda x: tm.mul(x, K)))
        run(f"{nm} / k", w, lambda: bop("truediv", m, K), smap(a, lambda x: tm.div(x, K)))
        run(f"{nm}.transpose", w, lambda: lab.meth(m, "transpose"), [list(x) for x in zip(*a)])
        run(f"{nm}.trace", w, lambda: lab.meth(m, "trace"), tm.add(*[a[i][i] for i in range(min(s))]))
        run(f"{nm}.normsqr", w, lambda: lab.meth(m, "normsqr"), sq(a))
        run(f"{nm}.norm", w, lambda: lab.meth(m, "norm"), tm.sqrt(sq(a)))
        run(f"{nm}.scalar_product", w, lambda: lab.meth(m, "scalar_product", q),
            tm.add(*[tm.mul(x, y) for x, y in zip(flat(a), flat(b))]))
        run(f"{nm}.flatten", w, lambda: lab.meth(m, "flatten"), flat(a))
        run(f"{nm}.map", w, lambda: lab.meth(m, "map", fmap()), smap(a, lambda x: tm.app("f", (x,))))
        run(f"{nm}.stack", w, lambda: lab.meth(m, "stack", q), [a, b])
        x = V(c, "x")
        run(f"{nm}.dot", w, lambda: lab.meth(m, "dot", lab.vec(x)), [tm.add(*[tm.mul(p, y) for p, y in zip(row, x)]) for row in a])
        for k in (1, 2, 3):
            d = M(c, k, "d")
            run(f"{nm} @ Matrix{(c, k)}", w, lambda: bop("matmul", m, lab.mat(d)),
                [[tm.add(*[tm.mul(a[i][l], d[l][j]) for l in range(c)]) for j in range(k)] for i in range(r)])
        if r == c:
            run(f"{nm}.det", w, lambda: lab.meth(m, "det"), det(a))
        else:
            bad(f"{nm}.det", w, lambda: lab.meth(m, "det"))
        for k in range(1, 5):
            if k != c:
                bad(f"{nm}.dot(Vector[{k}])", w, lambda: lab.meth(m, "dot", lab.vec(V(k))))
                bad(f"{nm} @ Matrix{(k, 2)}", w, lambda: bop("matmul", m, lab.mat(M(k, 2))))
        for s2 in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 2), (2, 1)):
            if s2 != s:
                o = lab.mat(M(*s2, "o"))
                bad(f"{nm} + Matrix{s2}", w, lambda: bop("add", m, o))
                bad(f"{nm} - Matrix{s2}", w, lambda: bop("sub", m, o))
                bad(f"{nm}.scalar_product(Matrix{s2})", w, lambda: lab.meth(m, "scalar_product", o))
                bad(f"{nm}.stack(Matrix{s2})", w, lambda: lab.meth(m, "stack", o))
        for i, j in ((-1, 0), (r, 0), (0, -1), (0, c), (r + 1, c + 1), (-r, -c)):
            bad(f"{nm}[{i},{j}]", w, lambda: lab.item(m, i, j), "IndexError")
    for n in range(1, 6):
        a = M(n, n) if n < 5 or big else sparse(n)
        run(f"determinant of a {n}x{n} matrix", w, lambda: lab.meth(lab.mat(a), "det"), det(a))
    for n in (5, 6) if big else (5,):
        a = sparse(n)[::-1]
        run(f"determinant of a {n}x{n} matrix along its other diagonals", w, lambda: lab.meth(lab.mat(a), "det"), det(a))
    with rep.ob("determinants of permutation matrices", w):
        for p in itertools.permutations(range(5 if big else 4)):
            a = [[O if j == k else Z for j in range(len(p))] for k in p]
            rep.eq(lab.good(lambda: lab.meth(lab.mat(a), "det"), "det"), det(a), f"determinant of the permutation {p}", w)
    sizes = sorted({5, 6, *numbers(rep, ("tensors",), 4, 12, 6)})
    for n in sizes:
        a, b, x, y = M(n, 2, "a"), M(2, n, "b"), V(n, "x"), V(n, "y")
        q = M(n, n, "q")
        ma, mb = lab.mat(a), lab.mat(b)
        prod = lambda p, q: [[tm.add(*[tm.mul(r[l], q[l][j]) for l in range(len(q))]) for j in range(len(q[0]))] for r in p]
        run(f"Matrix{(2, n)} @ Matrix{(n, 2)}", w, lambda: bop("matmul", mb, ma), prod(b, a))
        run(f"Matrix{(n, 2)} @ Matrix{(2, n)}", w, lambda: bop("matmul", ma, mb), prod(a, b))
        run(f"Matrix{(2, n)}.dot", w, lambda: lab.meth(mb, "dot", lab.vec(x)), [tm.add(*[tm.mul(p, z) for p, z in zip(r, x)]) for r in b])
        for nm, m, d in ((f"Matrix{(n, 2)}", ma, a), (f"Matrix{(2, n)}", mb, b), (f"Matrix{(n, n)}", lab.mat(q), q)):
            run(f"{nm}.trace", w, lambda: lab.meth(m, "trace"), tm.add(*[d[i][i] for i in range(min(shp(d)))]))
            run(f"{nm}.normsqr", w, lambda: lab.meth(m, "normsqr"), sq(d))
            run(f"{nm}.norm", w, lambda: lab.meth(m, "norm"), tm.sqrt(sq(d)))
            run(f"{nm}.flatten", w, lambda: lab.meth(m, "flatten"), flat(d))
            run(f"{nm}.transpose", w, lambda: lab.meth(m, "transpose"), [list(z) for z in zip(*d)])
            run(f"{nm} + itself", w, lambda: bop("add", m, m), add(d, d))
            run(f"-{nm}", w, lambda: ip.unary("neg", m), smap(d, tm.neg))
            run(f"{nm} * k", w, lambda: bop("mul", m, K), smap(d, lambda z: tm.mul(z, K)))
            run(f"{nm}.scalar_product", w, lambda: lab.meth(m, "scalar_product", m), sq(d))
            run(f"{nm}.stack", w, lambda: lab.meth(m, "stack", m), [d, d])
        ww = lab.where("tensors.Vector")
        vx, vy = lab.vec(x), lab.vec(y)
        run(f"Vector[{n}].dot", ww, lambda: lab.meth(vx, "dot", vy), tm.add(*[tm.mul(p, z) for p, z in zip(x, y)]))
        run(f"Vector[{n}].normsqr", ww, lambda: lab.meth(vx, "normsqr"), sq(x))
        run(f"Vector[{n}].stack", ww, lambda: lab.meth(vx, "stack", vy), [x, y])
        run(f"Vector[{n}].extend", ww, lambda: lab.meth(vx, "extend", vy), x + y)
        run(f"Vector[{n}] - Vector", ww, lambda: bop("sub", vx, vy), sub(x, y))
        t = T3((2, n, 2), "t")
        run(f"Tensor3D{(2, n, 2)}.normsqr", lab.where("tensors.Tensor3D"), lambda: lab.meth(lab.tens(t), "normsqr"), sq(t))
    with rep.ob("Matrix indexing accepts exactly its shape", w):
        lab2 = Lab(rep)
        i, j = tm.sym("i", True, lo=-9, hi=9), tm.sym("j", True, lo=-9, hi=9)
        want = tm.bor(tm.lt(i, Z), tm.le(TWO, i), tm.lt(j, Z), tm.le(tm.const(3), j))
        c, r, other = lab2.raise_cond(lambda: lab2.item(lab2.mat(M(2, 3)), i, j), "IndexError")
        rep.eq(c, want, "condition for IndexError", w)
    for nm, rows in (("shorter second row", [V(2), V(1, "b")]), ("longer second row", [V(2), V(3, "b")]),
                     ("shorter third row", [V(2), V(2, "b"), V(1, "c")])):
        bad(f"Matrix with {nm}", w, lambda: lab.call("tensors.Matrix", [list(r) for r in rows]))

    # ---- 3-tensors
    w = lab.where("tensors.Tensor3D")
    for s in [(2, 2, 2), (1, 2, 3), (2, 3, 1)] + ([(3, 2, 2), (2, 1, 3), (1, 1, 1)] if big else []):
        a, b = T3(s, "a"), T3(s, "b")
        t, q = lab.tens(a), lab.tens(b)
        nm = f"Tensor3D{s}"
        run(f"{nm} entries", w, lambda: t, a)
        run(f"-{nm}", w, lambda: ip.unary("neg", t), smap(a, tm.neg))
        run(f"{nm} + Tensor3D", w, lambda: bop("add", t, q), add(a, b))
        run(f"{nm} - Tensor3D", w, lambda: bop("sub", t, q), sub(a, b))
        run(f"{nm}.normsqr", w, lambda: lab.meth(t, "normsqr"), sq(a))
        run(f"{nm}.norm", w, lambda: lab.meth(t, "norm"), tm.sqrt(sq(a)))
        run(f"{nm}.map", w, lambda: lab.meth(t, "map", fmap()), smap(a, lambda x: tm.app("f", (x,))))
        for s2 in ((2, 2, 2), (1, 2, 3), (2, 2, 3), (2, 3, 2), (3, 2, 2)):
            if s2 != s:
                o = lab.tens(T3(s2, "o"))
                bad(f"{nm} + Tensor3D{s2}", w, lambda: bop("add", t, o))
                bad(f"{nm} - Tensor3D{s2}", w, lambda: bop("sub", t, o))
        for ix in ((-1, 0, 0), (0, -1, 0), (0, 0, -1), (s[0], 0, 0), (0, s[1], 0), (0, 0, s[2])):
            bad(f"{nm}[{ix}]", w, lambda: lab.item(t, *ix), "IndexError")
    with rep.ob("Tensor3D indexing accepts exactly its shape", w):
        lab2 = Lab(rep)
        ix = [tm.sym(n, True, lo=-9, hi=9) for n in "ijk"]
        want = tm.bor(*[x for i, n in zip(ix, (2, 3, 4)) for x in (tm.lt(i, Z), tm.le(tm.const(n), i))])
        c, r, other = lab2.raise_cond(lambda: lab2.item(lab2.tens(T3((2, 3, 4))), *ix), "IndexError")
        rep.eq(c, want, "condition for IndexError", w)
    A = [[V(2), V(2)], [V(2), V(2)]]
    for nm, d in (("ragged second matrix", [[V(2), V(2)], [V(2)]]), ("ragged row", [[V(2), V(2)], [V(2), V(1)]]),
                  ("ragged row in the first matrix", [[V(2), V(3)], [V(2), V(2)]]), ("extra row", [[V(2)], [V(2), V(2)]])):
        bad(f"Tensor3D with {nm}", w, lambda: lab.call("tensors.Tensor3D", d))

    # ---- numpy, scalars that are model expressions
    for nm, x, data in (("Vector", lab.vec(V(3)), V(3)), ("Matrix", lab.mat(M(2, 3)), M(2, 3)), ("Tensor3D", lab.tens(T3((2, 1, 2))), T3((2, 1, 2)))):
        w = lab.where("tensors." + nm + ".numpy")
        with rep.ob(f"{nm}.numpy", w):
            r = lab.good(lambda: lab.meth(x, "numpy"), "numpy")
            s = tuple(lab.ints(lab.attr(r, "shape")))
            if rep.true(s == shp(data), f"{nm}.numpy has shape {s}, expected {shp(data)}", w):
                for ix, e in zip(flat_ix(s), flat(data)):
                    rep.eq(lab.item(r, *ix), e, f"{nm}.numpy entry {ix}", w)
    w = lab.where("tensors.inverse_2x2")
    with rep.ob("2x2 inverse", w):
        a = M(2, 2)
        d = det(a)
        same(rep, lab, lab.good(lambda: lab.call("tensors.inverse_2x2", lab.mat(a)), "inverse"),
             [[tm.div(a[1][1], d), tm.div(tm.neg(a[0][1]), d)], [tm.div(tm.neg(a[1][0]), d), tm.div(a[0][0], d)]], "inverse", w)
    with rep.ob("entries that are model expressions", lab.where("tensors.Vector")):
        pyo = ip.import_name("pyomo.environ")
        pg = lambda n: ip.getattr(pyo, n)
        m = lab.call(pg("ConcreteModel"))
        ip.setattr(m, "I", lab.call(pg("RangeSet"), 4))
        ip.setattr(m, "x", lab.call(pg("Var"), ip.getattr(m, "I")))
        xs = [lab.item(lab.attr(m, "x"), i) for i in range(1, 5)]
        a = [ip.scalar(x) if hasattr(ip, "scalar") else x for x in xs]
        mv = lab.vec(xs)
        c = V(4, "c")
        cell = [lab.item(mv, i) for i in range(4)]
        ex = [ip.binop("mul", x, O) for x in cell]
        s = lab.good(lambda: bop("add", mv, lab.vec(c)), "sum")
        for i in range(4):
            rep.eq(lab.item(s, i), tm.add(ex[i], c[i]), "vector of model variables plus constants")
        d = lab.good(lambda: lab.meth(lab.vec(c), "dot", mv), "dot")
        rep.eq(d, tm.add(*[tm.mul(x, y) for x, y in zip(ex, c)]), "product with a vector of model variables")
        s = lab.good(lambda: bop("mul", xs[0], lab.vec(c)), "scaled")
        for i in range(4):
            rep.eq(lab.item(s, i), tm.mul(ex[0], c[i]), "vector scaled by a model variable from the left")
        D = lab.good(lambda: lab.meth(lab.mat([xs[:2], xs[2:]]), "det"), "det")
        rep.eq(D, tm.sub(tm.mul(ex[0], ex[3]), tm.mul(ex[1], ex[2])), "determinant of model variables")
    lab.done()


def generic_vectors(rep, w):
    lab = Lab(rep)
    N = tm.sym("n", True, lo=1)

    def gv(name):
        b = tm.fresh("k", True, Z, tm.sub(N, O))
        lab.ip.stamps[b] = Ref._n
        return lab.call("tensors.Vector", lab.fam(("g", b, N, (("i", tm.app(name, (b,))),))))
    a, c = gv("va"), gv("vb")
    j = tm.sym("j", True, lo=0, hi=tm.sub(N, O))
    A, B = tm.app("va", (j,)), tm.app("vb", (j,))
    for op, want in (("add", tm.add(A, B)), ("sub", tm.sub(A, B))):
        r = lab.good(lambda: lab.ip.binop(op, a, c), op)
        rep.eq(lab.item(lab.attr(r, "data"), j), want, f"{op} of vectors of any length", w)
    r = lab.good(lambda: lab.ip.binop("mul", a, K), "mul")
    rep.eq(lab.item(lab.attr(r, "data"), j), tm.mul(A, K), "scaling of a vector of any length", w)
    b = tm.fresh("k", True, Z, tm.sub(N, O))
    d = lab.good(lambda: lab.meth(a, "dot", c), "dot")
    rep.eq(d, tm.summ(b, N, tm.mul(tm.app("va", (b,)), tm.app("vb", (b,)))), "dot of vectors of any length", w)
    d = lab.good(lambda: lab.meth(a, "normsqr"), "normsqr")
    rep.eq(d, tm.summ(b, N, tm.power(tm.app("va", (b,)), TWO)), "normsqr of a vector of any length", w)
    lab.done()


# ------------------------------------------------------------------ C30

def reach(lab, v, out=None):
    """heap objects reachable from v (instances, lists, dictionaries, arrays)"""
    out = set() if out is None else out
    v = lab.ip.vsimp(v)
    if isinstance(v, va.IteV):
        reach(lab, v.a, out), reach(lab, v.b, out)
    elif isinstance(v, tuple):
        for x in v:
            reach(lab, x, out)
    elif isinstance(v, Ref) and v not in out:
        out.add(v)
        c = lab.ip.get(v)
        if isinstance(c, va.Obj):
            for x in c.attrs.values():
                reach(lab, x, out)
        elif isinstance(c, (va.Lst, va.Itr)):
            _pieces(lab, c.segs, out)
        elif isinstance(c, (va.Dct, va.St)):
            _pieces(lab, c.log, out)
    return out


def _pieces(lab, ps, out):
    for p in ps:
        for x in p[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str):
                _pieces(lab, x, out)
            elif isinstance(x, (Ref, tuple, va.IteV)):
                reach(lab, x, out)


def freeze(lab, v):
    """structural value of everything reachable"""
    return {r: _frozen(lab.ip.get(r)) for r in reach(lab, v)}


def _frozen(c):
    if isinstance(c, va.Obj):
        return (c.cls, tuple(sorted(c.attrs.items(), key=lambda x: x[0])))
    if isinstance(c, (va.Lst, va.Itr)):
        return c.segs
    if isinstance(c, (va.Dct, va.St)):
        return c.log
    if isinstance(c, va.Arr):
        return (c.tree, c.log)
    return c


def changed(lab, before):
    """objects whose content differs from the snapshot"""
    out = []
    for r, c in before.items():
        if _frozen(lab.ip.get(r)) != c:
            out.append(r)
    return out


def c30(rep: Rep):
    lab = Lab(rep)
    ip = lab.ip

    def check(kind, name, mk, fn, fresh):
        w = lab.where("tensors." + kind)
        with rep.ob(f"{kind}: {name}", w):
            ops = mk()
            before = [freeze(lab, o) for o in ops]
            views = [snap(lab, o) for o in ops]
            taint = len(ip.taint)
            res = lab.good(lambda: fn(*ops), f"{kind} {name}")
            for o, b, vw in zip(ops, before, views):
                if changed(lab, b):
                    now = snap(lab, o)
                    rep.true(eqsnap(now, vw), f"{kind} {name} modifies its operand", w)
                else:
                    rep.fact()
            if len(ip.taint) > taint:
                raise Unsupported("modification through an abstracted element")
            if fresh:
                mine = set().union(*[reach(lab, o) for o in ops]) if ops else set()
                both = [r for r in reach(lab, res) if r in mine]
                rep.true(not both, f"the result of {kind} {name} shares {len(both)} mutable object(s) with its operands", w)

    v2 = lambda: [lab.vec(V(3, "a")), lab.vec(V(3, "b"))]
    v1 = lambda: [lab.vec(V(6, "a"))]
    cv = tm.const
    for name, mk, fn, fresh in (
            ("+", v2, lambda a, b: ip.binop("add", a, b), True),
            ("-", v2, lambda a, b: ip.binop("sub", a, b), True),
            ("unary -", v1, lambda a: ip.unary("neg", a), True),
            ("* k", v1, lambda a: ip.binop("mul", a, K), True),
            ("k *", v1, lambda a: ip.binop("mul", K, a), True),
            ("* 1", v1, lambda a: ip.binop("mul", a, O), True),
            ("/ k", v1, lambda a: ip.binop("truediv", a, K), True),
            ("/ 1", v1, lambda a: ip.binop("truediv", a, O), True),
            ("map", v1, lambda a: lab.meth(a, "map", fmap()), True),
            ("extend", v2, lambda a, b: lab.meth(a, "extend", b), True),
            ("extend by nothing", lambda: [lab.vec(V(3)), lab.vec([])], lambda a, b: lab.meth(a, "extend", b), True),
            ("extend of nothing", lambda: [lab.vec([]), lab.vec(V(3))], lambda a, b: lab.meth(a, "extend", b), True),
            ("extend by itself", v1, lambda a: lab.meth(a, "extend", a), True),
            ("reshape", v1, lambda a: lab.meth(a, "reshape", 2, 3), True),
            ("reshape to one row", v1, lambda a: lab.meth(a, "reshape", 1, 6), True),
            ("numpy", v1, lambda a: lab.meth(a, "numpy"), True),
            ("slice", v1, lambda a: ip.getitem(a, va.SliceV(None, None, None)), True),
            ("dot", v2, lambda a, b: lab.meth(a, "dot", b), False),
            ("norm", v1, lambda a: lab.meth(a, "norm"), False),
            ("normsqr", v1, lambda a: lab.meth(a, "normsqr"), False),
            ("stack", v2, lambda a, b: lab.meth(a, "stack", b), False),
            ("transpose", v1, lambda a: lab.meth(a, "transpose"), False),
            ("==", v2, lambda a, b: ip.eq_op(a, b), False),
            ("iteration", v1, lambda a: lab.lst(lab.items(a)), True),
            ("str", v1, lambda a: lab.call(ip.builtins["str"], a), False),
            ("repr", v1, lambda a: lab.call(ip.builtins["repr"], a), False)):
        check("Vector", name, mk, fn, fresh)
    m2 = lambda: [lab.mat(M(2, 2, "a")), lab.mat(M(2, 2, "b"))]
    m1 = lambda: [lab.mat(M(2, 2, "a"))]
    for name, mk, fn, fresh in (
            ("+", m2, lambda a, b: ip.binop("add", a, b), True),
            ("-", m2, lambda a, b: ip.binop("sub", a, b), True),
            ("@", m2, lambda a, b: ip.binop("matmul", a, b), True),
            ("unary -", m1, lambda a: ip.unary("neg", a), True),
            ("* k", m1, lambda a: ip.binop("mul", a, K), True),
            ("k *", m1, lambda a: ip.binop("mul", K, a), True),
            ("* 1", m1, lambda a: ip.binop("mul", a, O), True),
            ("/ k", m1, lambda a: ip.binop("truediv", a, K), True),
            ("map", m1, lambda a: lab.meth(a, "map", fmap()), True),
            ("flatten", m1, lambda a: lab.meth(a, "flatten"), True),
            ("flatten of one row", lambda: [lab.mat(M(1, 3))], lambda a: lab.meth(a, "flatten"), True),
            ("numpy", m1, lambda a: lab.meth(a, "numpy"), True),
            ("transpose", m1, lambda a: lab.meth(a, "transpose"), False),
            ("dot", lambda: m1() + [lab.vec(V(2))], lambda a, b: lab.meth(a, "dot", b), True),
            ("det", m1, lambda a: lab.meth(a, "det"), False),
            ("trace", m1, lambda a: lab.meth(a, "trace"), False),
            ("norm", m1, lambda a: lab.meth(a, "norm"), False),
            ("normsqr", m1, lambda a: lab.meth(a, "normsqr"), False),
            ("scalar_product", m2, lambda a, b: lab.meth(a, "scalar_product", b), False),
            ("stack", m2, lambda a, b: lab.meth(a, "stack", b), False),
            ("inverse", m1, lambda a: lab.call("tensors.inverse_2x2", a), True),
            ("==", m2, lambda a, b: ip.eq_op(a, b), False),
            ("str", m1, lambda a: lab.call(ip.builtins["str"], a), False),
            ("repr", m1, lambda a: lab.call(ip.builtins["repr"], a), False)):
        check("Matrix", name, mk, fn, fresh)
    t2 = lambda: [lab.tens(T3((2, 2, 2), "a")), lab.tens(T3((2, 2, 2), "b"))]
    t1 = lambda: [lab.tens(T3((2, 2, 2), "a"))]
    for name, mk, fn, fresh in (
            ("+", t2, lambda a, b: ip.binop("add", a, b), True),
            ("-", t2, lambda a, b: ip.binop("sub", a, b), True),
            ("unary -", t1, lambda a: ip.unary("neg", a), True),
            ("map", t1, lambda a: lab.meth(a, "map", fmap()), True),
            ("numpy", t1, lambda a: lab.meth(a, "numpy"), True),
            ("norm", t1, lambda a: lab.meth(a, "norm"), False),
            ("normsqr", t1, lambda a: lab.meth(a, "normsqr"), False),
            ("==", t2, lambda a, b: ip.eq_op(a, b), False),
            ("str", t1, lambda a: lab.call(ip.builtins["str"], a), False),
            ("repr", t1, lambda a: lab.call(ip.builtins["repr"], a), False)):
        check("Tensor3D", name, mk, fn, fresh)
    for name, fn in (("iteration", lambda b: lab.lst(lab.items(b))), ("str", lambda b: lab.call(ip.builtins["str"], b)),
                     ("repr", lambda b: lab.call(ip.builtins["repr"], b)), ("indexing", lambda b: lab.item(b, 2)),
                     ("weights", lambda b: (lab.attr(b, "l1"), lab.attr(b, "l2"), lab.attr(b, "l3")))):
        check("BarycentricCoordinates", name, lambda: [lab.bary(tm.sym("b1"), tm.sym("b2"))], fn, False)

    # equality
    for kind, mk, n in (("Vector", lambda nm, s: (lab.vec(V(s, nm)), V(s, nm)), (3, 2)),
                        ("Matrix", lambda nm, s: (lab.mat(M(*s, nm)), flat(M(*s, nm))), ((2, 2), (2, 3))),
                        ("Tensor3D", lambda nm, s: (lab.tens(T3(s, nm)), flat(T3(s, nm))), ((2, 2, 2), (2, 2, 1)))):
        w = lab.where(f"tensors.{kind}.__eq__")
        with rep.ob(f"{kind}: equality", w):
            (x, a), (y, b), (z, _), (u, _) = mk("a", n[0]), mk("b", n[0]), mk("a", n[0]), mk("a", n[1])
            e = lab.good(lambda: ip.eq_op(x, y), "==")
            rep.eq(e, tm.band(*[tm.eq(p, q) for p, q in zip(a, b)]), f"equality of {kind}s", w)
            rep.eq(lab.good(lambda: ip.eq_op(x, z), "=="), tm.TRUE, f"equal {kind}s", w)
            rep.eq(lab.good(lambda: ip.eq_op(x, x), "=="), tm.TRUE, f"{kind} equal to itself", w)
            rep.eq(lab.good(lambda: ip.eq_op(x, u), "=="), tm.FALSE, f"{kind}s of different shapes", w)
            for i in range(len(a)):
                q = list(a)
                q[i] = tm.add(a[i], O)
                other = {"Vector": lambda: lab.vec(q), "Matrix": lambda: lab.mat([q[:2], q[2:]]),
                         "Tensor3D": lambda: lab.tens([[q[:2], q[2:4]], [q[4:6], q[6:]]])}[kind]()
                rep.eq(lab.good(lambda: ip.eq_op(x, other), "=="), tm.FALSE, f"{kind}s that differ in entry {i} only", w)
            # entries that nearly agree
            mkc = {"Vector": lambda q: lab.vec(q), "Matrix": lambda q: lab.mat([q[:2], q[2:]]),
                   "Tensor3D": lambda q: lab.tens([[q[:2], q[2:4]], [q[4:6], q[6:]]])}[kind]
            for k in (2, 5, 7, 9, 11, 13, 15):
                for base in (O, Z, tm.const(1000)):
                    i = k % len(a)
                    p, q = [base] * len(a), [base] * len(a)
                    q[i] = tm.add(base, tm.const(Fraction(1, 10 ** k)))
                    if base is not Z and k > 13:
                        continue
                    rep.eq(lab.good(lambda: ip.eq_op(mkc(p), mkc(q)), "=="), tm.FALSE,
                           f"{kind}s that differ by 1e-{k} in entry {i} only", w)
                    rep.eq(lab.good(lambda: ip.eq_op(mkc(p), mkc(list(p))), "=="), tm.TRUE, f"equal {kind}s of numbers", w)
            for o, nm in ((lab.vec(V(3)), "Vector"), (lab.mat(M(2, 2)), "Matrix"), (lab.tens(T3((2, 2, 2))), "Tensor3D"),
                          (lab.lst(V(3)), "list"), (O, "number"), (None, "None")):
                if nm != kind:
                    rep.eq(lab.good(lambda: ip.eq_op(x, o), "=="), tm.FALSE, f"{kind} against {nm}", w)
    w = lab.where("tensors.BarycentricCoordinates")
    with rep.ob("barycentric weights", w):
        b1, b2 = tm.sym("b1"), tm.sym("b2")
        b = lab.good(lambda: lab.bary(b1, b2), "BarycentricCoordinates")
        it = lab.items(b)
        rep.true(len(it) == 3, "three weights", w)
        rep.eq(tm.add(*it), O, "weights sum to 1", w)
        for i, (x, nm) in enumerate(zip((b1, b2, tm.sub(O, tm.add(b1, b2))), ("l1", "l2", "l3"))):
            rep.eq(it[i], x, f"weight {i} when iterating", w)
            rep.eq(lab.item(b, i), x, f"weight {i} by index", w)
            rep.eq(lab.attr(b, nm), x, nm, w)
        rep.true(lab.num(lab.call(ip.builtins["len"], b)) == 3, "length", w)
    for i in (-1, 3, 7):
        with rep.ob(f"barycentric index {i}", w):
            lab.bad(lambda: lab.item(lab.bary(tm.sym("b1"), tm.sym("b2")), i), "IndexError", f"index {i}", where=w)
    lab.done()


def snap(lab, v, seen=()):
    """readable structural value, without object identities"""
    v = lab.ip.vsimp(v)
    if isinstance(v, tuple):
        return tuple(snap(lab, x, seen) for x in v)
    if isinstance(v, Ref):
        if v in seen:
            return "rec"
        c = lab.ip.get(v)
        if isinstance(c, va.Obj):
            return (c.cls.name,) + tuple((k, snap(lab, x, seen + (v,))) for k, x in sorted(c.attrs.items()))
        if isinstance(c, (va.Lst, va.Itr)):
            r = lab.ip.concrete(lab.ip.iter(v))
            if r is not None:
                return ("list",) + tuple(snap(lab, x, seen + (v,)) for x in r)
        return _frozen(c)
    return v


def eqsnap(a, b):
    return a == b


RULES = {"C29": c29, "C30": c30}
