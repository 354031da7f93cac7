"""self test of the term algebra (not a check): random terms are built twice, as terms and as exact /
60 digit numbers; a constructor that changes a value is reported.  usage: test_terms.py [seeds] [steps]"""
import os
import random
import sys
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import terms as tm, numeval  # noqa: E402

POINTS = [numeval.Point(s, dec=True) for s in (1, 2)]


def vals(t):
    out = []
    for p in POINTS:
        try:
            out.append(p.value(t))
        except numeval.NoValue:
            out.append(None)
    return out


def close(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    a, b = numeval.Decimal(str(a)) if isinstance(a, float) else numeval.Decimal(a.numerator) / a.denominator if isinstance(a, (Fraction, int)) else a, \
        numeval.Decimal(str(b)) if isinstance(b, float) else numeval.Decimal(b.numerator) / b.denominator if isinstance(b, (Fraction, int)) else b
    return abs(a - b) <= numeval.Decimal("1e-12") * (1 + abs(a) + abs(b))


def run(seed, steps):
    r = random.Random(seed)
    pool = [(tm.sym(n, lo=Fraction(1, 10)), None) for n in "abc"] + [(tm.sym(n), None) for n in "xy"]
    pool = [(t, vals(t)) for t, _ in pool]
    D = numeval.Decimal
    with numeval.decimal.localcontext(numeval.CTX):
        for _ in range(steps):
            (t, u), (s, v) = r.choice(pool), r.choice(pool)
            k = Fraction(r.choice([1, -1, 2, 3, -2, 4, 5]), r.choice([1, 1, 2, 4, 3]))
            kd = D(k.numerator) / k.denominator
            op = r.choice(["add", "sub", "mul", "div", "scale", "pow", "sqrt", "abs", "shift", "exp", "log", "ite", "min", "max", "diff0", "subst", "undo", "dist", "dist", "factor", "factor"])
            f = None
            try:
                if op == "add":
                    q, f = tm.add(t, s), lambda a, b: a + b
                elif op == "sub":
                    q, f = tm.sub(t, s), lambda a, b: a - b
                elif op == "mul":
                    q, f = tm.mul(t, s), lambda a, b: a * b
                elif op == "div":
                    q, f = tm.div(t, s), lambda a, b: D(a) / D(b)
                elif op == "scale":
                    q, f = tm.lin([(t, k)]), lambda a, b: a * kd
                elif op == "shift":
                    q, f = tm.lin([(t, Fraction(1)), (s, k)], k), lambda a, b: a + kd * b + kd
                elif op == "pow":
                    n = r.choice([2, 3, -1, -2, 4])
                    q, f = tm.power(t, n), lambda a, b: D(a) ** n
                elif op == "sqrt":
                    q, f = tm.sqrt(tm.mul(t, t)), lambda a, b: abs(a)
                elif op == "abs":
                    q, f = tm.absv(t), lambda a, b: abs(a)
                elif op == "exp":
                    if any(w is None or abs(w) > 20 for w in u):
                        continue
                    q, f = tm.exp(t), lambda a, b: D(a).exp()
                elif op == "log":
                    if any(w is None or w <= 0 for w in u):
                        continue
                    q, f = tm.log(t), lambda a, b: D(a).ln()
                elif op == "ite":
                    q, f = tm.ite(tm.pos(t), s, t), lambda a, b: b if a > 0 else a
                elif op == "min":
                    q, f = tm.minmax("min", [t, s]), min
                elif op == "max":
                    q, f = tm.minmax("max", [t, s]), max
                elif op == "diff0":
                    q, f = tm.add(tm.mul(tm.sub(t, s), tm.add(t, s)), tm.mul(s, s)), lambda a, b: a * a
                elif op == "dist":
                    c, l = t.a if t.op == "+" else (0, [(t, 1)])
                    q, f = tm.lin([(tm.mul(m, s), w * k) for m, w in l] + [(s, c * k)]), lambda a, b: a * b * kd
                elif op == "factor":
                    # (k t + s) (t + k s) == k t^2 + (k^2 + 1) t s + k s^2
                    q = tm.mul(tm.lin([(t, k), (s, Fraction(1))]), tm.lin([(t, Fraction(1)), (s, k)]))
                    q2 = tm.lin([(tm.mul(t, t), k), (tm.mul(t, s), k * k + 1), (tm.mul(s, s), k)])
                    q, f = r.choice([q, q2]), lambda a, b: (kd * a + b) * (a + kd * b)
                elif op == "subst":
                    q, f = tm.subst(t, {tm.sym("x"): tm.sym("x")}), lambda a, b: a
                else:
                    q, f = tm.mul(tm.div(t, s), s), lambda a, b: a
            except (tm.ZeroDiv, ZeroDivisionError):
                continue
            want = []
            for a, b in zip(u, v):
                try:
                    want.append(None if a is None or b is None else f(a, b))
                except (ArithmeticError, numeval.decimal.DecimalException):
                    want.append(None)
            got = vals(q)
            if not all(close(g, w) for g, w in zip(got, want)):
                print("MISMATCH", seed, op, tm.show(t), "|", tm.show(s), k, got, want)
                return False
            if all(w is not None and abs(w) < 10 ** 8 and (w == 0 or abs(w) > D("1e-8")) for w in want) and len(tm.show(q, 9)) < 4000:
                pool.append((q, got))
    return True


if __name__ == "__main__":
    n, m = (int(x) for x in (sys.argv[1:] + ["30", "300"][len(sys.argv) - 1:])[:2])
    bad = sum(not run(s, m) for s in range(n))
    print(f"{n} runs, {bad} with a mismatch")
    sys.exit(bool(bad))
