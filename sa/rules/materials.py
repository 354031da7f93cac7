"""C11-C15: identities between the material laws, decided as identities of value numbers."""
from __future__ import annotations
from fractions import Fraction
from .. import terms as tm
from ..values import Unsupported
from .base import Lab, Rep

Z, O = tm.ZERO, tm.ONE


def strain(name="F"):
    """a 2x2 strain with positive determinant (the admissible set of all laws)"""
    return [[tm.sym(f"{name}{i}{j}") for j in (1, 2)] for i in (1, 2)]


def admissible(rep, *Fs):
    """the comparisons that follow are made for strains with positive determinant"""
    rep.given = tuple(tm.pos(det(F)) for F in Fs)


def free(name="F"):
    """any 2x2 matrix"""
    return [[tm.sym(f"{name}{i}{j}*") for j in (1, 2)] for i in (1, 2)]


def rotation():
    """all rotations except the half turn, parametrised rationally; the half turn is the limit and all
    laws are continuous"""
    u = tm.sym("rot")
    n = tm.add(O, tm.power(u, 2))
    c = tm.div(tm.sub(O, tm.power(u, 2)), n)
    s = tm.div(tm.mul(tm.TWO, u), n)
    return [[c, tm.neg(s)], [s, c]]


def mm(a, b):
    return [[tm.add(*[tm.mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))]
            for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def det(a):
    return tm.sub(tm.mul(a[0][0], a[1][1]), tm.mul(a[0][1], a[1][0]))


def inv(a):
    d = det(a)
    return [[tm.div(a[1][1], d), tm.div(tm.neg(a[0][1]), d)], [tm.div(tm.neg(a[1][0]), d), tm.div(a[0][0], d)]]


def sub(a, b):
    return [[tm.sub(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)]


def madd(a, b):
    return [[tm.add(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)]


def frob(a):
    return tm.add(*[tm.power(x, 2) for r in a for x in r])


def const(rows):
    return [[tm.const(Fraction(x)) for x in r] for r in rows]


ID = const([[1, 0], [0, 1]])
H = Fraction(1, 2)
WELLS = (const([[1, H], [0, 1]]), const([[1, -H], [0, 1]]))
THETA = tm.sym("theta", lo=0)
FPS = tm.sym("fps", pos=True)


def ent(lab, m, what, rep, shape=(2, 2)):
    """the entries of a matrix-like result"""
    sh = tuple(lab.ints(lab.attr(m, "shape")))
    if sh != shape:
        rep.fail(f"{what} has shape {sh}, expected {shape}")
        from .base import Violated
        raise Violated
    return [[lab.item(m, i, j) for j in range(shape[1])] for i in range(shape[0])]


def scalar_laws(lab):
    return {
        "austenite_potential": lambda F, t: lab.call("helpers.austenite_potential", lab.mat(F)),
        "martensite_potential": lambda F, t: lab.call("helpers.martensite_potential", lab.mat(F)),
        "total_elastic_potential": lambda F, t: lab.call("helpers.total_elastic_potential", lab.mat(F), t),
        "internal_energy": lambda F, t: lab.call("helpers.internal_energy", lab.mat(F), t),
    }


def meq(rep, got, want, what, where):
    for i in range(len(want)):
        for j in range(len(want[0])):
            rep.eq(got[i][j], want[i][j], f"{what}: entry ({i + 1},{j + 1})", where)


def c11(rep: Rep):
    lab = Lab(rep)
    F, G, Q = strain("F"), strain("G"), rotation()
    admissible(rep, F, G)
    for name, f in scalar_laws(lab).items():
        if name == "internal_energy":
            continue
        w = lab.where("helpers." + name)
        with rep.ob(f"{name}(QF) = {name}(F)", w):
            a = lab.good(lambda: f(F, THETA), name)
            b = lab.good(lambda: f(mm(Q, F), THETA), name)
            rep.eq(b, a, f"{name} is not frame indifferent", w)
    w = lab.where("helpers.hyper_elastic_potential")
    with rep.ob("hyper_elastic_potential(QG) = hyper_elastic_potential(G)", w):
        T3 = [[[tm.sym(f"T{i}{j}{k}") for k in range(2)] for j in range(2)] for i in range(2)]
        R3 = [[[tm.add(*[tm.mul(Q[i][a], T3[a][j][k]) for a in range(2)]) for k in range(2)]
               for j in range(2)] for i in range(2)]
        a = lab.good(lambda: lab.call("helpers.hyper_elastic_potential", lab.tens(T3)), "hyper_elastic_potential")
        b = lab.good(lambda: lab.call("helpers.hyper_elastic_potential", lab.tens(R3)), "hyper_elastic_potential")
        rep.eq(b, a, "hyper elastic potential is not frame indifferent", w)
        p = lab.get("helpers.HYPER_ELASTIC_POWER")
        n2 = tm.add(*[tm.power(T3[i][j][k], 2) for i in range(2) for j in range(2) for k in range(2)])
        rep.eq(a, tm.power(tm.sqrt(n2), tm.const(3)), "hyper elastic potential is not |G|^3", w)
        rep.eq(p, tm.const(3), "HYPER_ELASTIC_POWER changed", w)
    for name, args in (("dissipation_potential", ()), ("dissipation_rate", (FPS,))):
        w = lab.where("helpers." + name)
        with rep.ob(f"{name} invariant under common rotation", w):
            a = lab.good(lambda: lab.call("helpers." + name, lab.mat(G), lab.mat(F), *args), name)
            b = lab.good(lambda: lab.call("helpers." + name, lab.mat(mm(Q, G)), lab.mat(mm(Q, F)), *args), name)
            rep.eq(b, a, f"{name} is not frame indifferent", w)
    w = lab.where("helpers.heat_conductivity_reference")
    with rep.ob("heat conductivity: frame indifferent and symmetric", w):
        f = lambda X: ent(lab, lab.call("helpers.heat_conductivity_reference", lab.mat(X)), "conductivity", rep)
        a = lab.good(lambda: f(F), "heat_conductivity_reference")
        b = lab.good(lambda: f(mm(Q, F)), "heat_conductivity_reference")
        meq(rep, b, a, "conductivity is not frame indifferent", w)
        rep.eq(a[0][1], a[1][0], "conductivity is not symmetric", w)
    lab.done()


def c12(rep: Rep):
    lab = Lab(rep)
    for pot, der, pts in (("austenite_potential", "derivative_austenite_potential", (("identity", ID),)),
                          ("martensite_potential", "derivative_martensite_potential",
                           (("shear +1/2", WELLS[0]), ("shear -1/2", WELLS[1])))):
        for nm, W in pts:
            for fn in (pot, der):
                w = lab.where("helpers." + fn)
                with rep.ob(f"{fn} vanishes at {nm}", w):
                    r = lab.good(lambda: lab.call("helpers." + fn, lab.mat(W)), fn)
                    if fn == pot:
                        rep.eq(r, Z, f"{fn} at {nm} is not 0", w)
                    else:
                        meq(rep, ent(lab, r, fn, rep), const([[0, 0], [0, 0]]), f"{fn} at {nm} is not 0", w)
    # the wells are not only stationary: the potentials are the documented, non negative expressions
    F = strain("F")
    admissible(rep, F)
    J = det(F)
    I1 = frob(F)
    wa = lab.where("helpers.austenite_potential")
    with rep.ob("austenite well is a rotation-only zero (neo-Hookean form)", wa):
        a = lab.good(lambda: lab.call("helpers.austenite_potential", lab.mat(F)), "austenite_potential")
        rep.eq(a, tm.add(I1, tm.const(-2), tm.mul(tm.const(-2), tm.log(J)), tm.power(tm.sub(J, O), 2)),
               "austenite potential differs from I1 - 2 - 2 log J + (J-1)^2", wa)
    wm = lab.where("helpers.martensite_potential")
    with rep.ob("martensite double well form", wm):
        a = lab.good(lambda: lab.call("helpers.martensite_potential", lab.mat(F)), "martensite_potential")
        rep.eq(a, tm.add(tm.power(tm.sub(tm.div(I1, J), tm.const(Fraction(9, 4))), 2),
                         tm.power(tm.add(tm.power(J, 2), tm.power(J, -2), tm.const(-2)), 2)),
               "martensite potential differs from the double well", wm)
    for nm, W in (("FIRST_MARTENSITE_WELL_INVERSE", WELLS[0]), ("SECOND_MARTENSITE_WELL_INVERSE", WELLS[1])):
        with rep.ob(f"{nm} is the exact inverse", nm):
            I = ent(lab, lab.get("helpers." + nm), nm, rep)
            meq(rep, mm(I, W), ID, f"{nm} times its well is not the identity", "helpers." + nm)
    with rep.ob("well parameter", "helpers.MARTENSITE_POS_SHEAR"):
        rep.eq(lab.get("helpers.MARTENSITE_POS_SHEAR"), tm.const(H), "shear of the wells", "helpers.MARTENSITE_POS_SHEAR")
    w = lab.where("helpers.total_elastic_potential")
    with rep.ob("total elastic potential interpolates the wells", w):
        A = lab.good(lambda: lab.call("helpers.austenite_potential", lab.mat(F)), "austenite_potential")
        M = lab.good(lambda: lab.call("helpers.martensite_potential", lab.mat(F)), "martensite_potential")
        p = lab.good(lambda: lab.call("helpers.austenite_percentage", THETA), "austenite_percentage")
        p0 = lab.good(lambda: lab.call("helpers.austenite_percentage", Z), "austenite_percentage")
        W0 = lab.good(lambda: lab.call("helpers.total_elastic_potential", lab.mat(F), Z), "total_elastic_potential")
        W = lab.good(lambda: lab.call("helpers.total_elastic_potential", lab.mat(F), THETA), "total_elastic_potential")
        rep.eq(W0, M, "total elastic potential at temperature 0 is not the martensite potential", w)
        rep.eq(W, tm.add(M, tm.mul(p, tm.sub(A, M))), "total elastic potential is not the convex combination", w)
        rep.eq(p0, Z, "austenite percentage at 0", lab.where("helpers.austenite_percentage"))
        rep.eq(p, tm.sub(O, tm.exp(tm.mul(tm.const(-5), THETA))), "austenite percentage is not 1 - exp(-5 theta)",
               lab.where("helpers.austenite_percentage"))
    lab.done()


def c13(rep: Rep):
    lab = Lab(rep)
    F = strain("F")
    admissible(rep, F)
    flat = [(i, j) for i in range(2) for j in range(2)]
    A = M = None
    pots = {}
    for pot, der in (("austenite_potential", "derivative_austenite_potential"),
                     ("martensite_potential", "derivative_martensite_potential")):
        w = lab.where("helpers." + der)
        with rep.ob(f"{der} is the gradient of {pot}", w):
            P = lab.good(lambda: lab.call("helpers." + pot, lab.mat(F)), pot)
            D = ent(lab, lab.good(lambda: lab.call("helpers." + der, lab.mat(F)), der), der, rep)
            pots[pot] = P
            for i, j in flat:
                rep.eq(D[i][j], tm.diff(P, F[i][j]), f"{der}: entry ({i + 1},{j + 1}) is not d{pot}/dF{i + 1}{j + 1}", w)
    w = lab.where("helpers.strain_derivative_coupling_potential")
    with rep.ob("coupling stress is the gradient of the coupling energy", w):
        a = lab.good(lambda: lab.call("helpers.austenite_percentage", THETA), "austenite_percentage")
        A = lab.good(lambda: lab.call("helpers.austenite_potential", lab.mat(F)), "austenite_potential")
        M = lab.good(lambda: lab.call("helpers.martensite_potential", lab.mat(F)), "martensite_potential")
        coup = tm.mul(a, tm.sub(A, M))
        S = ent(lab, lab.good(lambda: lab.call("helpers.strain_derivative_coupling_potential", lab.mat(F), THETA),
                              "strain_derivative_coupling_potential"), "coupling stress", rep)
        for i, j in flat:
            rep.eq(S[i][j], tm.diff(coup, F[i][j]), f"coupling stress entry ({i + 1},{j + 1})", w)
        W = lab.good(lambda: lab.call("helpers.total_elastic_potential", lab.mat(F), THETA), "total_elastic_potential")
        rep.eq(W, tm.add(M, coup), "total elastic potential is not martensite energy plus coupling energy",
               lab.where("helpers.total_elastic_potential"))
    w = lab.where("helpers.internal_energy_no_entropy")
    with rep.ob("internal energy = psi - theta dpsi/dtheta (+ c theta)", w):
        a = lab.good(lambda: lab.call("helpers.austenite_percentage", THETA), "austenite_percentage")
        A = lab.good(lambda: lab.call("helpers.austenite_potential", lab.mat(F)), "austenite_potential")
        M = lab.good(lambda: lab.call("helpers.martensite_potential", lab.mat(F)), "martensite_potential")
        E0 = lab.good(lambda: lab.call("helpers.internal_energy_no_entropy", lab.mat(F), THETA), "internal_energy_no_entropy")
        E = lab.good(lambda: lab.call("helpers.internal_energy", lab.mat(F), THETA), "internal_energy")
        wt = lab.good(lambda: lab.call("helpers.internal_energy_weight", THETA), "internal_energy_weight")
        coup = tm.mul(a, tm.sub(A, M))
        want = tm.sub(coup, tm.mul(THETA, tm.diff(coup, THETA)))
        rep.eq(E0, want, "internal energy without entropy", w)
        rep.eq(wt, tm.sub(a, tm.mul(THETA, tm.diff(a, THETA))), "internal energy weight", lab.where("helpers.internal_energy_weight"))
        c = lab.get("helpers.ENTROPY_CONSTANT")
        rep.eq(E, tm.add(want, tm.mul(c, THETA)), "internal energy", lab.where("helpers.internal_energy"))
        rep.eq(c, tm.const(10), "heat capacity constant", "helpers.ENTROPY_CONSTANT")
    w = lab.where("helpers.temp_antrider_internal_energy_no_entropy")
    with rep.ob("temperature antiderivative", w):
        E0 = lab.good(lambda: lab.call("helpers.internal_energy_no_entropy", lab.mat(F), THETA), "internal_energy_no_entropy")
        P = lab.good(lambda: lab.call("helpers.temp_antrider_internal_energy_no_entropy", lab.mat(F), THETA), "antiderivative")
        P0 = lab.good(lambda: lab.call("helpers.temp_antrider_internal_energy_no_entropy", lab.mat(F), Z), "antiderivative")
        rep.eq(tm.diff(P, THETA), E0, "derivative of the antiderivative is not the internal energy", w)
        rep.eq(P0, Z, "antiderivative at temperature 0 is not 0", w)
    lab.done()


def sdelta(G, F):
    d = sub(F, G)
    return madd(mm(tr(d), G), mm(tr(G), d))


def c14(rep: Rep):
    lab = Lab(rep)
    F, G = free("F"), free("G")
    w = lab.where("helpers.symmetrized_strain_delta")
    with rep.ob("symmetrized strain delta", w):
        S = ent(lab, lab.good(lambda: lab.call("helpers.symmetrized_strain_delta", lab.mat(G), lab.mat(F)),
                              "symmetrized_strain_delta"), "strain delta", rep)
        meq(rep, S, sdelta(G, F), "symmetrized strain delta", w)
        rep.eq(S[0][1], S[1][0], "strain delta is not symmetric", w)
    w = lab.where("helpers.dissipation_potential")
    with rep.ob("dissipation potential", w):
        P = lab.good(lambda: lab.call("helpers.dissipation_potential", lab.mat(G), lab.mat(F)), "dissipation_potential")
        rep.eq(P, tm.div(frob(sdelta(G, F)), tm.TWO), "dissipation potential is not half the squared norm", w)
        P0 = lab.good(lambda: lab.call("helpers.dissipation_potential", lab.mat(G), lab.mat(G)), "dissipation_potential")
        rep.eq(P0, Z, "dissipation potential without motion", w)
    w = lab.where("helpers.dissipation_rate")
    with rep.ob("dissipation rate", w):
        R = lab.good(lambda: lab.call("helpers.dissipation_rate", lab.mat(G), lab.mat(F), FPS), "dissipation_rate")
        rep.eq(R, tm.mul(frob(sdelta(G, F)), tm.power(FPS, 2)), "dissipation rate is not twice the potential times fps^2", w)
        R2 = lab.good(lambda: lab.call("helpers.dissipation_rate", prev_strain=lab.mat(G), strain=lab.mat(F), fps=FPS), "dissipation_rate")
        rep.eq(R2, R, "dissipation rate with keyword arguments", w)
    lab.done()


def c15(rep: Rep):
    lab = Lab(rep)
    F = free("F")
    rep.given = (tm.bnot(tm.zero(det(F))),)
    w = lab.where("helpers.heat_conductivity_reference")
    with rep.ob("pull-back det(F) F^-1 K F^-T", w):
        K = ent(lab, lab.get("helpers.HEAT_CONDUCTIVITY"), "HEAT_CONDUCTIVITY", rep)
        C = ent(lab, lab.good(lambda: lab.call("helpers.heat_conductivity_reference", lab.mat(F)),
                              "heat_conductivity_reference"), "conductivity", rep)
        Fi = inv(F)
        want = mm(mm(Fi, K), tr(Fi))
        want = [[tm.mul(det(F), x) for x in r] for r in want]
        meq(rep, C, want, "conductivity", w)
        C1 = ent(lab, lab.good(lambda: lab.call("helpers.heat_conductivity_reference", lab.mat(ID)),
                               "heat_conductivity_reference"), "conductivity", rep)
        meq(rep, C1, K, "conductivity at the identity", w)
    with rep.ob("pull-back for a general conductivity", w):
        # the published matrix is the identity; the law has to be right for the matrix, not for its value
        lab2 = Lab(rep)
        K = [[tm.sym("K11"), tm.sym("K12")], [tm.sym("K21"), tm.sym("K22")]]
        lab2.ip.setattr(lab2.module("helpers"), "HEAT_CONDUCTIVITY", lab2.mat(K))
        C = ent(lab2, lab2.good(lambda: lab2.call("helpers.heat_conductivity_reference", lab2.mat(F)),
                                "heat_conductivity_reference"), "conductivity", rep)
        Fi = inv(F)
        want = [[tm.mul(det(F), x) for x in r] for r in mm(mm(Fi, K), tr(Fi))]
        if not all(tm.sub(C[i][j], want[i][j]) is Z for i in range(2) for j in range(2)):
            # a module level re-binding the law does not look up again is no defect in itself
            kid = ent(lab2, lab2.get("helpers.HEAT_CONDUCTIVITY"), "K", rep)
            uses = any(x in tm.atoms(C[i][j]) for i in range(2) for j in range(2) for r in kid for x in r)
            if uses:
                meq(rep, C, want, "conductivity for a general matrix K", w)
        lab2.done()
    rep.given = ()
    w = lab.where("tensors.inverse_2x2")
    with rep.ob("2x2 inverse", w):
        X = free("X")
        R = ent(lab, lab.good(lambda: lab.call("tensors.inverse_2x2", lab.mat(X)), "inverse_2x2",
                              assume=(tm.bnot(tm.zero(det(X))),)), "inverse", rep)
        meq(rep, mm(X, R), ID, "X times inverse_2x2(X)", w)
        meq(rep, mm(R, X), ID, "inverse_2x2(X) times X", w)
        for sh in ((1, 1), (2, 3), (3, 2), (3, 3), (1, 2), (2, 1)):
            Y = [[tm.sym(f"Y{i}{j}") for j in range(sh[1])] for i in range(sh[0])]
            lab.bad(lambda: lab.call("tensors.inverse_2x2", lab.mat(Y)), "ValueError", f"inverse_2x2 of shape {sh}", where=w)
    lab.done()


RULES = {"C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
