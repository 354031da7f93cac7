"""C31 (validation of the simulation parameters) and C38 (domain curves)."""
from __future__ import annotations
from fractions import Fraction
from .. import terms as tm
from .. import numeval
from ..values import Unsupported
from ..terms import T
from .grids import thresholds
from .base import Lab, Rep, Violated, show

Z, O = tm.ZERO, tm.ONE
NAMES = ("initial_temperature", "search_radius", "fps", "scale", "regularization", "refinement_factor")


def c31(rep: Rep):
    where = Lab(rep).where("simulation.SimulationParams")
    for form in ("keyword", "positional"):
        for reg in (None, "sym"):
            for fac in (None, "sym"):
                lab = Lab(rep)
                with rep.ob(f"SimulationParams ({form}), regularization {'given' if reg else 'absent'},"
                            f" refinement factor {'given' if fac else 'absent'}", where):
                    T0, R, F, S = (tm.sym(n) for n in ("T0", "R", "F", "S"))
                    G = tm.sym("G") if reg else None
                    K = tm.sym("K", True) if fac else None
                    spec = [tm.lt(T0, Z), tm.le(R, Z), tm.le(F, Z), tm.le(S, Z)]
                    if reg:
                        spec.append(tm.lt(G, Z))
                    if fac:
                        spec.append(tm.le(K, Z))
                    spec = tm.bor(*spec) if not (reg and not fac) else tm.TRUE
                    vals = (T0, R, F, S, G, K)
                    m = lab.mark()
                    if form == "keyword":
                        run = lambda: lab.call("simulation.SimulationParams", **dict(zip(NAMES, vals)))
                    else:
                        run = lambda: lab.call("simulation.SimulationParams", *vals)
                    c, res, other = lab.raise_cond(run, "ValueError")
                    for r in other:
                        if r.cond is not tm.FALSE and (r.cond is tm.TRUE or numeval.witness(r.cond, facts=()) is not None):
                            rep.fail(f"raises {r.exc} when {tm.show(r.cond)[:160]}", where)
                    agree(rep, c, spec, where)
                    if res is None:
                        if spec is not tm.TRUE:
                            rep.fail("no parameters are ever accepted", where)
                        else:
                            rep.fact()
                        continue
                    for n, v in zip(NAMES, vals):
                        if n == "refinement_factor" and not reg:
                            v = None
                        got = lab.attr(res, n)
                        ok = [x for cc, x in lab.cases(got) if numeval.witness(tm.band(cc, tm.bnot(spec)), n=600, exact=True, facts=()) is not None]
                        for x in ok or [got]:
                            if v is None or not isinstance(x, T):
                                rep.true(x is v, f"{n} is {show(x)} after construction, given {show(v)}", where)
                            else:
                                rep.eq(x, v, f"{n} after construction", where, assume=(tm.bnot(spec),))
                lab.done()
    with rep.ob("fractional refinement factors are judged by their sign as well", where):
        lab = Lab(rep)
        K = tm.sym("Kreal")
        one = tm.ONE
        spec = tm.le(K, Z)
        c, res, other = lab.raise_cond(lambda: lab.call("simulation.SimulationParams", one, one, one, one, one, K),
                                       "ValueError")
        agree(rep, c, spec, where)
        lab.done()


def agree(rep, got, spec, where):
    """the two conditions describe the same inputs"""
    if got is spec:
        rep.fact()
        return
    syms = sorted({x for t in (got, spec) for x in t.vars if x.op == "s"}, key=tm.show)
    mags = [Fraction(10) ** k for k in range(-15, 16)]
    for x in syms:
        # every value alone, the others valid
        for v in [Fraction(0)] + mags + [-m for m in mags]:
            if x.isint and v.denominator != 1:
                continue
            at = {y: tm.const(v) if y is x else tm.ONE for y in syms}
            a, b = tm.subst(got, at), tm.subst(spec, at)
            if {a, b} == {tm.TRUE, tm.FALSE}:
                rep.fail(f"{'rejected although valid' if a is tm.TRUE else 'accepted although invalid'}:"
                         f" {tm.show(x)} = {float(v):g}, all others 1", where)
                return
    w = numeval.witness(tm.band(spec, tm.bnot(got)), n=600, exact=True, facts=())
    if w is not None:
        rep.fail(f"accepted although the parameters are invalid: raised only when {tm.show(got)[:300]}, required when"
                 f" {tm.show(spec)[:300]} (sample point {w.seed})", where)
        return
    w = numeval.witness(tm.band(got, tm.bnot(spec)), n=600, exact=True, facts=())
    if w is not None:
        rep.fail(f"rejected although the parameters are valid: raised when {tm.show(got)[:300]}, required when"
                 f" {tm.show(spec)[:300]} (sample point {w.seed})", where)
        return
    rep.fact()


def c38(rep: Rep):
    where = Lab(rep).where("domain.RectangleDomain.curves")

    def expect(lab, got, W, H, n, nh, nv, what):
        cs = lab.items(got)
        rep.true(len(cs) == nh + nv + 4, f"{what}: {len(cs)} curves, expected {nh + nv + 4}", where)
        for c, curve in enumerate(cs[:nh + nv + 4]):
            ps = lab.items(curve)
            rep.true(len(ps) == n, f"{what}: curve {c} has {len(ps)} points, expected {n}", where)
            for i, p in enumerate(ps[:n]):
                s = tm.const(Fraction(i, n - 1))
                if c < nh + 2:
                    x, y = tm.mul(W, s), tm.mul(H, tm.const(Fraction(c, nh + 1)))
                else:
                    x, y = tm.mul(W, tm.const(Fraction(c - nh - 2, nv + 1))), tm.mul(H, s)
                rep.true(lab.num(lab.ip.builtins["len"].fn(lab.ip, [p], {})) == 2, f"{what}: point dimension", where)
                rep.eq(lab.item(p, 0), x, f"{what}: first coordinate of point {i} of curve {c}", where)
                rep.eq(lab.item(p, 1), y, f"{what}: second coordinate of point {i} of curve {c}", where)

    def dom(lab):
        W, H = (tm.sym(n, lo=0, pos=True) for n in ("W", "H"))
        return lab.call("domain.RectangleDomain", W, H), W, H

    sizes = [(2, 0, 0), (2, 1, 0), (3, 0, 2), (5, 3, 1), (4, 2, 2)]
    if rep.tier == "thorough":
        sizes += [(n, a, b) for n in (2, 3, 7, 20) for a in (0, 1, 4, 9) for b in (0, 3, 5)]
    for k in thresholds(rep, 6, 200):
        sizes += [(k, 1, 0), (2, k, 1), (3, 0, k)]
    for n, nh, nv in sizes:
        with rep.ob(f"curves({n}, {nh}, {nv})", where):
            lab = Lab(rep)
            d, W, H = dom(lab)
            got = lab.good(lambda: lab.meth(d, "curves", n, nh, nv), "curves", where=where)
            expect(lab, got, W, H, n, nh, nv, "all arguments")
            got = lab.good(lambda: lab.meth(d, "curves", num_points_per_curve=n, num_horizontal_curves=nh,
                                            num_vertical_curves=nv), "curves", where=where)
            expect(lab, got, W, H, n, nh, nv, "keyword arguments")
            lab.done()
    for n, nh in ((2, 0), (4, 3), (3, 1)):
        with rep.ob(f"curves({n}, {nh}) without a number of vertical curves", where):
            lab = Lab(rep)
            d, W, H = dom(lab)
            got = lab.good(lambda: lab.meth(d, "curves", n, nh), "curves", where=where)
            expect(lab, got, W, H, n, nh, nh, "vertical as horizontal")
            if nh == 0:
                got = lab.good(lambda: lab.meth(d, "curves", n), "curves", where=where)
                expect(lab, got, W, H, n, 0, 0, "no internal curves")
            lab.done()

    def generic():
        lab = Lab(rep)
        d, W, H = dom(lab)
        n = tm.sym("n", True, lo=2)
        a = tm.sym("a", True, lo=0)
        b = tm.sym("b", True, lo=0)
        got = lab.good(lambda: lab.meth(d, "curves", n, a, b), "curves", where=where)
        ln = lab.ip.builtins["len"].fn
        rep.eq(ln(lab.ip, [got], {}), tm.add(a, b, tm.const(4)), "number of curves", where)
        i = tm.sym("i", True, lo=0, hi=tm.sub(n, O))
        for first, m, base in ((True, a, Z), (False, b, tm.add(a, tm.TWO))):
            j = tm.sym("j" if first else "l", True, lo=0, hi=tm.add(m, O))
            curve = lab.item(got, tm.add(base, j))
            rep.eq(ln(lab.ip, [curve], {}), n, "number of points", where)
            p = lab.item(curve, i)
            s, t = tm.div(i, tm.sub(n, O)), tm.div(j, tm.add(m, O))
            x, y = (s, t) if first else (t, s)
            rep.eq(lab.item(p, 0), tm.mul(x, W), "first coordinate", where)
            rep.eq(lab.item(p, 1), tm.mul(y, H), "second coordinate", where)
        lab.done()

    with rep.ob("any number of points and curves", where):
        try:
            generic()
        except Unsupported as e:
            rep.notes.append(f"symbolic numbers of curves and points not decided: {e}")
            rep.fact(0)


RULES = {"C31": c31, "C38": c38}
