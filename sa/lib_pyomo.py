"""Model of the parts of Pyomo a scripting user touches: components as finite maps of cells.

A cell (one Var or mutable Param entry) is the term cell(component, key...).  Component state is a
write log; a solve writes every free variable with an unknown sol(no, component, key...).
"""
from __future__ import annotations
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *  # noqa: F403
from . import containers as ct
from .engine import MISS

NONE = Sentinel("<no value>")


def fn(name, f):
    return BuiltinV(name, f)


# ------------------------------------------------------------------ cells

def cell(cid, key):
    return tm.app("cell", (cid,) + tuple(key))


def is_cell(t):
    return isinstance(t, T) and t.op == "f" and t.a[0] == "cell"


_HAS = {}


def has_cell(t):
    if not isinstance(t, T):
        return False
    r = _HAS.get(t)
    if r is None:
        _HAS[t] = False
        r = is_cell(t) or any(has_cell(c) for c in tm.children(t))
        _HAS[t] = r
    return r


def comps(ip):
    d = getattr(ip, "pyomo", None)
    if d is None:
        d = ip.pyomo = {}
        ip.solves = []
    return d


def comp_ref(ip, t):
    return comps(ip)[t.a[1][0]]


def cell_key(t):
    return t.a[1][1:]


def key_val(key):
    """key of a log entry"""
    return tuple(key)


def read_attr(ip, ref, attr, key, rest=NONE, c=None):
    c = ip.get(ref) if c is None else c
    ip.note_log(ref)
    cid = c.info.get("cid")

    def special(e, k, low):
        if e[0] == "solve":
            if k[0] != "value":
                return ct.HOLE
            fx = ct.read(ip, e[2], ("fixed", k[1]), lambda: FALSE, special)
            sol = tm.app("sol", (e[1], cid) + tuple(k[1]))
            fx = ip.simp(ip.truth(fx))
            if fx is FALSE:
                return sol
            if fx is TRUE:
                return low()
            return ip.mk_ite(fx, low(), sol)
        if e[0] == "havoc":
            # arbitrary values for the listed attributes, everything else as before
            if k[0] not in e[2]:
                return ct.HOLE
            return tm.app("havoc_" + k[0], (e[1], cid) + tuple(k[1]))
        raise Unsupported(f"component log {e[0]}")
    return ip.vsimp(ct.read(ip, c.log, (attr, key_val(key)), lambda: rest, special))


def put_attr(ip, ref, attr, key, v):
    c = ip.get(ref)
    ip.put(ref, Comp(c.kind, c.index, c.log + (("put", (attr, key_val(key)), v),), c.info))


def cell_value(ip, t):
    """current value of a cell (None when never set)"""
    ref = comp_ref(ip, t)
    c = ip.get(ref)
    v = read_attr(ip, ref, "value", cell_key(t), NONE)
    if c.kind == "Param" or True:
        d = c.info.get("default", None)
        if d is not None and (v is NONE or ip._maybe(v, NONE)):
            dv = init_value(ip, d, c.info["model"], cell_key(t))
            v = dv if v is NONE else ip.mk_ite(ip._when(v, NONE), dv, ip._without(v, NONE))
    if v is NONE:
        return None
    if isinstance(v, IteV) and ip._maybe(v, NONE):
        return ip.mk_ite(ip._when(v, NONE), None, ip._without(v, NONE))
    return v


def need_number(ip, v, what="No value for uninitialized object"):
    v = ip.vsimp(v)
    if v is None:
        ip.raise_("ValueError", what)
    if isinstance(v, IteV):
        bad = none_cond(v)
        ip.check(tm.bnot(bad), "ValueError", what)
        v = drop_none(v)
    if not isinstance(v, T):
        v = ct.to_num(ip, v)
    return tm.b2i(v) if v.isbool else v


def none_cond(v):
    if v is None:
        return TRUE
    if isinstance(v, IteV):
        return tm.ite(v.c, none_cond(v.a), none_cond(v.b))
    return FALSE


def drop_none(v):
    if isinstance(v, IteV):
        if v.a is None:
            return drop_none(v.b)
        if v.b is None:
            return drop_none(v.a)
        a, b = drop_none(v.a), drop_none(v.b)
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(v.c, a, b)
        return IteV(v.c, a, b)
    return v


def value_of(ip, t):
    """number an expression evaluates to now"""
    if not isinstance(t, T):
        return t
    if not has_cell(t):
        return t
    for _ in range(8):
        cells = tm.atoms(t, is_cell)
        if not cells:
            return t
        mp = {}
        for c in cells:
            mp[c] = need_number(ip, cell_value(ip, c))
        t = tm.subst(t, mp)
        if not has_cell(t):
            return t
    raise Unsupported("value of a recursive expression")


def as_term(ip, v, c):
    if isinstance(c, Comp) and c.index is None and c.info.get("cid"):
        if c.kind in ("Var",) or c.kind == "Param" and c.info.get("mutable"):
            return cell(c.info["cid"], ())
        if c.kind == "Param":
            return need_number(ip, cell_value(ip, cell(c.info["cid"], ())))
        if c.kind in ("Objective", "Expression"):
            e = read_attr(ip, v, "expr", (), NONE)
            return to_expr(ip, e)
    return None


def to_expr(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, IteV):
        a, b = to_expr(ip, v.a), to_expr(ip, v.b)
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(v.c, a, b)
        raise Unsupported("expression")
    if isinstance(v, T):
        return tm.b2i(v) if v.isbool and not has_cell(v) else v
    if isinstance(v, Ref):
        t = as_term(ip, v, ip.get(v))
        if t is not None:
            return t
        s = ip.bm.lib_scalar(ip, v, ip.get(v))
        if s is not None:
            return s
    if v is NONE or v is None:
        return None
    raise Unsupported("expression of this kind")


# ------------------------------------------------------------------ attributes of a cell

def term_attr(ip, t, name):
    if t.op == "ite" and has_cell(t):
        return ip.cond(t.a[0], lambda: ip.getattr(t.a[1], name), lambda: ip.getattr(t.a[2], name))
    if not is_cell(t):
        if has_cell(t):
            if name in ("is_expression_type", "is_potentially_variable"):
                return fn(name, lambda ip, a, k: TRUE)
        return NOTIMPL
    ref, key = comp_ref(ip, t), cell_key(t)
    c = ip.get(ref)
    if name == "value":
        return cell_value(ip, t)
    if name in ("set_value", "set"):
        return fn(name, lambda ip, a, k: set_value(ip, t, a[0]))
    if name == "name" or name == "local_name":
        return c.info["name"]
    if name == "index":
        return fn(name, lambda ip, a, k: key[0] if len(key) == 1 else tuple(key))
    if name == "is_indexed":
        return fn(name, lambda ip, a, k: FALSE)
    if name == "parent_component":
        return fn(name, lambda ip, a, k: ref)
    if c.kind == "Var":
        if name in ("fix",):
            def fix(ip, a, k):
                v = a[0] if a else k.get("value", NONE)
                if v is not NONE:
                    set_value(ip, t, v)
                put_attr(ip, ref, "fixed", key, TRUE)
                return None
            return fn(name, fix)
        if name in ("unfix", "free"):
            return fn(name, lambda ip, a, k: put_attr(ip, ref, "fixed", key, FALSE))
        if name == "fixed":
            return read_attr(ip, ref, "fixed", key, FALSE)
        if name == "is_fixed":
            return fn(name, lambda ip, a, k: read_attr(ip, ref, "fixed", key, FALSE))
        if name == "setlb":
            return fn(name, lambda ip, a, k: put_attr(ip, ref, "lb", key, a[0]))
        if name == "setub":
            return fn(name, lambda ip, a, k: put_attr(ip, ref, "ub", key, a[0]))
        if name in ("lb", "ub", "lower", "upper"):
            at = {"lower": "lb", "upper": "ub"}.get(name, name)
            v = bound(ip, ref, at, key)
            if name in ("lb", "ub") and isinstance(v, T):
                return value_of(ip, v)
            return v
        if name == "bounds":
            return (value_of(ip, bound(ip, ref, "lb", key)), value_of(ip, bound(ip, ref, "ub", key)))
        if name == "has_lb":
            return fn(name, lambda ip, a, k: tm.bnot(none_cond(bound(ip, ref, "lb", key))))
        if name == "has_ub":
            return fn(name, lambda ip, a, k: tm.bnot(none_cond(bound(ip, ref, "ub", key))))
        if name in ("stale",):
            return FALSE
        if name == "domain":
            return c.info.get("domain")
        if name in ("is_variable_type",):
            return fn(name, lambda ip, a, k: TRUE)
    return NOTIMPL


def bound(ip, ref, attr, key, c=None):
    v = read_attr(ip, ref, attr, key, None, c)
    return v


def set_value(ip, t, v):
    ref, key = comp_ref(ip, t), cell_key(t)
    c = ip.get(ref)
    if c.kind == "Param" and not c.info.get("mutable"):
        ip.raise_("TypeError", "immutable Param")
    v = ip.vsimp(v)
    if v is None and c.kind == "Var":
        put_attr(ip, ref, "value", key, None)
        return None
    v = plain(ip, v)
    check_domain(ip, c, v)
    put_attr(ip, ref, "value", key, v)
    return None


def plain(ip, v):
    """number to be stored"""
    v = ip.vsimp(v)
    if isinstance(v, IteV):
        return ip.mk_ite(v.c, plain(ip, v.a), plain(ip, v.b))
    if v is None:
        return None
    if isinstance(v, T):
        return value_of(ip, tm.b2i(v) if v.isbool else v)
    if isinstance(v, Ref):
        t = as_term(ip, v, ip.get(v))
        if t is not None:
            return value_of(ip, t)
        s = ip.bm.lib_scalar(ip, v, ip.get(v))
        if isinstance(s, T):
            return s
    ip.raise_("ValueError", "not a number")


DOMAINS = {
    "NonNegativeReals": lambda v: tm.le(ZERO, v), "PositiveReals": tm.pos, "NegativeReals": lambda v: tm.lt(v, ZERO),
    "NonPositiveReals": lambda v: tm.le(v, ZERO), "NonNegativeIntegers": lambda v: tm.le(ZERO, v),
    "PositiveIntegers": tm.pos, "UnitInterval": lambda v: tm.band(tm.le(ZERO, v), tm.le(v, ONE)),
    "PercentFraction": lambda v: tm.band(tm.le(ZERO, v), tm.le(v, ONE)),
}
LOWER = {"NonNegativeReals": ZERO, "PositiveReals": ZERO, "NonNegativeIntegers": ZERO, "PositiveIntegers": ONE,
         "UnitInterval": ZERO, "Binary": ZERO, "PercentFraction": ZERO}
UPPER = {"NonPositiveReals": ZERO, "NegativeReals": ZERO, "UnitInterval": ONE, "Binary": ONE, "PercentFraction": ONE}


def domain_name(d):
    return d.name.split(".")[-1] if isinstance(d, ExtV) else None


def check_domain(ip, c, v):
    n = domain_name(c.info.get("domain"))
    if n in DOMAINS and isinstance(v, T) and v.op == "c":
        ip.check(DOMAINS[n](v), "ValueError", f"value not in domain {n}")


def term_setattr(ip, t, name, v):
    if t.op == "ite" and has_cell(t):
        ip.branch2(t.a[0], lambda: ip.setattr(t.a[1], name, v), lambda: ip.setattr(t.a[2], name, v))
        return None
    if not is_cell(t):
        return NOTIMPL
    ref, key = comp_ref(ip, t), cell_key(t)
    if name == "value":
        set_value(ip, t, v)
        return None
    if name == "bounds":
        lo, hi = ip.items(v)
        put_attr(ip, ref, "lb", key, lo)
        put_attr(ip, ref, "ub", key, hi)
        return None
    if name in ("lb", "lower", "ub", "upper"):
        put_attr(ip, ref, {"lower": "lb", "upper": "ub"}.get(name, name), key, v)
        return None
    if name == "fixed":
        put_attr(ip, ref, "fixed", key, v)
        return None
    if name in ("stale",):
        return None
    raise Unsupported(f"assignment to {name} of a model cell")


# ------------------------------------------------------------------ construction

def make_comp(kind):
    def f(ip, a, k):
        return ip.new(Comp(kind, None, (), {"args": tuple(a), "kw": dict(k)}))
    return f


def set_pieces(ip, v):
    v = ip.vsimp(v)
    if isinstance(v, Ref):
        c = ip.get(v)
        if isinstance(c, Comp) and c.kind == "Set":
            if not c.info.get("built"):
                build_set(ip, v, None, None)
                c = ip.get(v)
            ip.note_log(v)
            return c.index
        if isinstance(c, Comp):
            return c.index
    return tuple(ip.iter(v))


def build_set(ip, ref, mref, name):
    c = ip.get(ref)
    k = c.info["kw"]
    init = k.get("initialize", c.info["args"][0] if c.info["args"] else None)
    if "rule" in k:
        init = k["rule"]
    if c.info.get("pieces") is not None:
        ps = c.info["pieces"]
    elif init is None:
        ps = ()
    else:
        if isinstance(init, (FuncV, BoundV, BuiltinV, PartialV)):
            init = ip.call(init, [mref], {})
        ps = ct.dedupe(ip, tuple(ip.iter(init)), ())
    info = dict(c.info)
    info.update(built=True, model=mref, name=name)
    ip.put(ref, Comp("Set", tuple(ps), c.log, info))


def mk_set(ip, pieces):
    return ip.new(Comp("Set", None, (), {"args": (), "kw": {}, "pieces": tuple(pieces)}))


def range_set(ip, a, k):
    a = list(a)
    if len(a) == 1:
        lo, hi, st = ONE, a[0], ONE
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else ONE
    lo, hi, st = (value_of(ip, x) for x in (lo, hi, st))
    stop = tm.add(hi, ONE) if st is ONE else tm.add(hi, st if False else ONE)
    return mk_set(ip, ct.range_pieces(ip, RangeV(lo, stop, st)))


def flat_key(v):
    if isinstance(v, tuple):
        out = ()
        for x in v:
            out += flat_key(x)
        return out
    return (v,)


def finalise(ip, mref, name, ref):
    c = ip.get(ref)
    if c.info.get("model") is not None:
        ip.raise_("RuntimeError", "component already attached to a block")
    if c.kind == "Set":
        build_set(ip, ref, mref, name)
        return
    args, kw = c.info["args"], c.info["kw"]
    cid = f"m{mref.id}.{name}"
    n = 0
    while cid in comps(ip):
        n += 1
        cid = f"m{mref.id}.{name}#{n}"
    comps(ip)[cid] = ref
    index = None
    if args:
        from . import lib_std
        if len(args) == 1:
            index = tuple(set_pieces(ip, args[0]))
        else:
            index = tuple(lib_std.it_product_pieces(ip, [set_pieces(ip, x) for x in args]))
    info = {"cid": cid, "model": mref, "name": name, "domain": kw.get("within", kw.get("domain")),
            "kw": kw, "args": args, "sets": args}
    if c.kind == "Param":
        info["mutable"] = kw.get("mutable", FALSE) is TRUE
        if kw.get("default") is not None:
            info["default"] = kw["default"]
    ip.put(ref, Comp(c.kind, index, (), info))
    if c.kind in ("Param", "Var"):
        init = kw.get("initialize", kw.get("rule"))
        bnds = kw.get("bounds")
        if init is not None or bnds is not None:
            def body(k):
                key = flat_key(k) if index is not None else ()
                if init is not None:
                    v = init_value(ip, init, mref, key)
                    if v is not NONE:
                        set_init(ip, ref, key, v)
                if bnds is not None:
                    b = init_value(ip, bnds, mref, key) if not isinstance(ip.vsimp(bnds), tuple) and \
                        ip.bm.nt_tuple(ip, bnds) is None else bnds
                    if b is not None and b is not NONE:
                        lo, hi = ip.items(b)
                        put_attr(ip, ref, "lb", key, lo)
                        put_attr(ip, ref, "ub", key, hi)
                return []
            over(ip, index, body)
    elif c.kind in ("Objective", "Expression", "Constraint"):
        rule = kw.get("rule", kw.get("expr", kw.get("initialize")))
        if c.kind == "Objective":
            put_attr(ip, ref, "sense", (), kw.get("sense", ONE))
        put_attr(ip, ref, "active", (), TRUE)
        if rule is not None:
            def body(k):
                key = flat_key(k) if index is not None else ()
                e = init_value(ip, rule, mref, key, False)
                if c.kind == "Constraint":
                    e = constraint_expr(ip, e)
                    if e is not None:
                        put_attr(ip, ref, "expr", key, e)
                else:
                    put_attr(ip, ref, "expr", key, to_expr(ip, e))
                return []
            over(ip, index, body)
    elif c.kind == "ConstraintList":
        put_attr(ip, ref, "active", (), TRUE)
    else:
        raise Unsupported(f"component {c.kind}")


def over(ip, index, body):
    if index is None:
        body(None)
        return
    ip.run_loop(tuple(index), body)


def set_init(ip, ref, key, v):
    c = ip.get(ref)
    v = plain(ip, v)
    if v is None:
        return
    check_domain(ip, c, v)
    put_attr(ip, ref, "value", key, v)


def nargs(ip, f):
    if isinstance(f, BoundV):
        n = nargs(ip, f.fn)
        return None if n is None else n - 1
    if isinstance(f, FuncV):
        a = f.node.args
        if a.vararg:
            return None
        return len(a.posonlyargs) + len(a.args)
    return None


def init_value(ip, init, mref, key, mapping=True):
    init = ip.vsimp(init)
    if isinstance(init, IteV):
        return ip.cond(init.c, lambda: init_value(ip, init.a, mref, key, mapping), lambda: init_value(ip, init.b, mref, key, mapping))
    if isinstance(init, (FuncV, BoundV, BuiltinV, PartialV)):
        if nargs(ip, init) == 1:
            return ip.call(init, [mref], {})
        return ip.call(init, [mref] + list(key), {})
    if isinstance(init, Ref):
        c = ip.get(init)
        k = key[0] if len(key) == 1 else tuple(key)
        if isinstance(c, Obj):
            if ip.find(c.cls, "__call__") is not None:
                return ip.call(init, [mref] + list(key), {})
            raise Unsupported("initializer object")
        if isinstance(c, Dct):
            ip.note_log(init)
            if not key:
                k = None
            v = ip.vsimp(ct.read(ip, c.log, k, lambda: MISS))
            if v is MISS:
                return NONE
            if isinstance(v, IteV) and ip._maybe(v, MISS):
                return ip.mk_ite(ip._when(v, MISS), NONE, ip._without(v, MISS))
            return v
        if isinstance(c, (Lst, Arr)):
            if not key:
                s = ip.bm.lib_scalar(ip, init, c) if isinstance(c, Arr) else None
                if s is not None:
                    return s
                if not mapping:
                    return init
                raise Unsupported("sequence initialiser of a scalar component")
            return ip.getitem(init, k)
        if isinstance(c, Comp):
            if c.index is not None:
                return ip.getitem(init, k)
            return as_term(ip, init, c)
    if isinstance(init, tuple) and mapping:
        if not key:
            return init
        return ip.getitem(init, key[0] if len(key) == 1 else tuple(key))
    return init


def constraint_expr(ip, e):
    e = ip.vsimp(e)
    if isinstance(e, IteV):
        a, b = constraint_expr(ip, e.a), constraint_expr(ip, e.b)
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(e.c, a, b)
        if a is None and b is None:
            return None
        return IteV(e.c, a, b)
    if isinstance(e, ExtV) and e.name.split(".")[-1] in ("Skip", "Feasible", "NoConstraint"):
        return None
    if isinstance(e, tuple):
        if len(e) == 2:
            return tm.app("rel_eq", (to_expr(ip, e[0]), to_expr(ip, e[1])), isbool=True)
        if len(e) == 3:
            lo, body, hi = e
            cs = []
            if lo is not None:
                cs.append(tm.app("rel_le", (to_expr(ip, lo), to_expr(ip, body)), isbool=True))
            if hi is not None:
                cs.append(tm.app("rel_le", (to_expr(ip, body), to_expr(ip, hi)), isbool=True))
            return tm.band(*cs)
        ip.raise_("ValueError", "constraint tuple")
    if isinstance(e, T) and e.isbool:
        if e.op == "b":
            ip.raise_("ValueError", "constraint is trivially boolean")
        return e
    ip.raise_("ValueError", "constraint is not a relational expression")


def relation(ip, op, a, b):
    if not has_cell(a) and not has_cell(b):
        return NOTIMPL
    if op == "eq":
        return tm.app("rel_eq", (a, b), isbool=True)
    if op == "le":
        return tm.app("rel_le", (a, b), isbool=True)
    if op == "ge":
        return tm.app("rel_le", (b, a), isbool=True)
    if op == "lt":
        return tm.app("rel_lt", (a, b), isbool=True)
    return tm.app("rel_lt", (b, a), isbool=True)


# ------------------------------------------------------------------ models and components

def concrete_model(ip, a, k):
    if k.get("rule") is not None:
        raise Unsupported("model rule")
    comps(ip)
    return ip.new(Model({}))


def setattr_(ip, ref, c, name, v):
    if isinstance(c, Model):
        vv = ip.vsimp(v)
        old = c.attrs.get(name)
        if isinstance(old, Ref) and isinstance(ip.get(old), Comp):
            oc = ip.get(old)
            if isinstance(vv, Ref) and isinstance(ip.get(vv), Comp) and ip.get(vv).info.get("model") is None:
                pass
            else:
                if oc.index is None and oc.kind in ("Var", "Param"):
                    set_value(ip, cell(oc.info["cid"], ()), vv)
                    return
                if oc.kind in ("Objective", "Expression"):
                    put_attr(ip, old, "expr", (), to_expr(ip, vv))
                    return
                raise Unsupported("reassignment of a component")
        ip.note_write(ref, name)
        ip.put(ref, Model({**c.attrs, name: v}))
        if isinstance(vv, Ref) and isinstance(ip.get(vv), Comp):
            if ip.get(vv).info.get("model") is None or not ip.get(vv).info.get("built", True):
                finalise(ip, ref, name, vv)
        return
    if c.kind in ("Objective", "Expression") and name in ("expr", "value"):
        put_attr(ip, ref, "expr", (), to_expr(ip, v))
        return
    if c.kind == "Objective" and name == "sense":
        put_attr(ip, ref, "sense", (), v)
        return
    raise Unsupported(f"assignment to component attribute {name}")


def delattr_(ip, ref, c, name):
    if name not in c.attrs:
        ip.raise_("AttributeError", name)
    a = dict(c.attrs)
    del a[name]
    ip.note_write(ref, name)
    ip.put(ref, Model(a))
    return True


def getattr_(ip, ref, c, name):
    if isinstance(c, Model):
        if name in c.attrs:
            ip.note_read(ref, name)
            v = ip.vsimp(c.attrs[name])
            if v is UNDEF:
                ip.raise_("AttributeError", name)
            if isinstance(v, Ref):
                cc = ip.get(v)
                if isinstance(cc, Comp) and cc.index is None and cc.kind in ("Var", "Param"):
                    return as_term(ip, v, cc)
            return v
        if name == "name":
            return "model"
        if name == "solutions":
            return ExtV("model.solutions", {"load_from": fn("load_from", lambda ip, a, k: load_from(ip, ref, a[0]))})
        if name == "del_component":
            def dele(ip, a, k):
                x = a[0]
                cc = ip.get(ref)
                for n, v in cc.attrs.items():
                    if v is x or n == x or (is_cell(x) and comp_ref(ip, x) is v):
                        delattr_(ip, ref, cc, n)
                        return None
                return None
            return fn(name, dele)
        if name == "add_component":
            return fn(name, lambda ip, a, k: setattr_(ip, ref, ip.get(ref), a[0], a[1]))
        if name == "find_component" or name == "component":
            def fc(ip, a, k):
                cc = ip.get(ref)
                return ip.getattr(ref, a[0]) if a[0] in cc.attrs else None
            return fn(name, fc)
        if name in ("component_data_objects", "component_objects"):
            def cdo(ip, a, k):
                want = a[0].name.split(".")[-1] if a else None
                out = ()
                for v in ip.get(ref).attrs.values():
                    if isinstance(v, Ref) and isinstance(ip.get(v), Comp) and ip.get(v).kind == want:
                        out += (("i", v),) if name == "component_objects" else data_pieces(ip, v)
                return ip.new(Itr(out))
            return fn(name, cdo)
        if name in ("pprint", "display", "write", "preprocess", "compute_statistics"):
            return fn(name, lambda ip, a, k: ip.bm.event(ip, "ext", ("model." + name, (), (), None)))
        if name in ("construct", "create_instance", "clone", "transfer_attributes_from"):
            raise Unsupported(f"model.{name}")
        ip.bm.no_attr(ip, "model", name)
    # components
    if name in ("expr", "body") and c.kind in ("Objective", "Expression"):
        return read_attr(ip, ref, "expr", (), None)
    if name == "set_value" and c.kind in ("Objective", "Expression"):
        return fn(name, lambda ip, a, k: put_attr(ip, ref, "expr", (), to_expr(ip, a[0])))
    if name == "sense":
        return read_attr(ip, ref, "sense", (), ONE)
    if name in ("activate", "deactivate"):
        return fn(name, lambda ip, a, k: put_attr(ip, ref, "active", (), tm.cbool(name == "activate")))
    if name == "active":
        return read_attr(ip, ref, "active", (), TRUE)
    if name in ("name", "local_name"):
        return c.info.get("name")
    if name == "is_indexed":
        return fn(name, lambda ip, a, k: tm.cbool(c.index is not None and c.kind != "Set"))
    if name == "index_set":
        return fn(name, lambda ip, a, k: mk_built(ip, c.index))
    if name in ("keys", "__iter__"):
        return fn(name, lambda ip, a, k: ip.new(Itr(iterate(ip, ref, ip.get(ref)))))
    if name in ("items", "iteritems"):
        return fn(name, lambda ip, a, k: ip.new(Itr(ct.map_values(ip, iterate(ip, ref, ip.get(ref)), lambda x: (x, getitem(ip, ref, ip.get(ref), x))))))
    if name in ("values", "itervalues"):
        return fn(name, lambda ip, a, k: ip.new(Itr(data_pieces(ip, ref))))
    if c.kind == "Set":
        if name in ("data", "ordered_data", "sorted_data"):
            return fn(name, lambda ip, a, k: ip.bm.c_tuple(ip, [ip.new(Lst(set_pieces(ip, ref)))], {}) if ip.concrete(set_pieces(ip, ref)) is not None else ip.new(Lst(set_pieces(ip, ref))))
        if name in ("first", "last"):
            def fl(ip, a, k):
                ps = set_pieces(ip, ref)
                n = ip.plen(ps)
                return ip.at(ps, ZERO if name == "first" else tm.sub(n, ONE))
            return fn(name, fl)
        if name == "at":
            return fn(name, lambda ip, a, k: ip.at(set_pieces(ip, ref), tm.sub(a[0], ONE)))
        if name == "ord":
            raise Unsupported("Set.ord")
        if name in ("dimen",):
            return ONE
        if name == "cross":
            return fn(name, lambda ip, a, k: product(ip, [ref] + a))
        if name == "add":
            def add(ip, a, k):
                cc = ip.get(ref)
                ps = ct.dedupe(ip, tuple(set_pieces(ip, ref)) + tuple(("i", x) for x in a), [])
                ip.put(ref, Comp("Set", tuple(ps), cc.log, {**ip.get(ref).info, "built": True}))
            return fn(name, add)
    if c.kind == "Var":
        if name in ("fix", "unfix", "setlb", "setub", "free"):
            def each(ip, a, k):
                def body(x):
                    ip.call(term_attr(ip, cell(c.info["cid"], flat_key(x)), name), a, k)
                    return []
                over(ip, c.index, body)
            return fn(name, each)
    if name in ("extract_values", "get_values"):
        def ev(ip, a, k):
            d = ip.new(Dct(()))

            def body(x):
                ip.setitem(d, x, cell_value(ip, cell(c.info["cid"], flat_key(x))))
                return []
            over(ip, c.index, body)
            return d
        return fn(name, ev)
    if name in ("set_values", "store_values"):
        def sv(ip, a, k):
            src = a[0]
            if isinstance(src, T):
                over(ip, c.index, lambda x: (set_value(ip, cell(c.info["cid"], flat_key(x)), src), [])[1])
                return None
            for_pairs(ip, ip.bm.d_items(ip, [src], {}), lambda x, v: setitem(ip, ref, ip.get(ref), x, v))
        return fn(name, sv)
    if name == "add" and c.kind == "ConstraintList":
        def add(ip, a, k):
            if ip.loops:
                raise Unsupported("constraint list filled in a summarised loop")
            cc = ip.get(ref)
            n = sum(1 for e in cc.log if e[0] == "put" and e[1][0] == "expr")
            e = constraint_expr(ip, a[0])
            if e is not None:
                put_attr(ip, ref, "expr", (tm.const(n + 1),), e)
        return fn(name, add)
    if name in ("Skip", "Feasible"):
        return ExtV("pyomo.Constraint." + name)
    if name in ("pprint", "display"):
        return fn(name, lambda ip, a, k: None)
    if name == "domain":
        return c.info.get("domain")
    if name == "dim":
        return fn(name, lambda ip, a, k: ZERO if c.index is None else ONE)
    ip.bm.no_attr(ip, "component", name)


def for_pairs(ip, it, f):
    ip.run_loop(tuple(ip.iter(it)), lambda p: (f(p[0], p[1]), [])[1])


def mk_built(ip, pieces):
    return ip.new(Comp("Set", tuple(pieces), (), {"built": True, "model": None, "args": (), "kw": {}}))


def data_pieces(ip, ref):
    c = ip.get(ref)
    if c.index is None:
        return (("i", as_term(ip, ref, c)),)
    return ct.map_values(ip, tuple(c.index), lambda x: getitem(ip, ref, ip.get(ref), x, False))


def product(ip, sets):
    from . import lib_std
    return mk_set(ip, lib_std.it_product_pieces(ip, [set_pieces(ip, s) for s in sets]))


def call_(ip, ref, c, args, kw):
    if isinstance(c, Comp) and c.index is None:
        t = as_term(ip, ref, c)
        if t is not None:
            return value_of(ip, t)
    if isinstance(c, Comp) and c.kind == "Set":
        return ref
    ip.raise_("TypeError", "object is not callable")


def binop(ip, op, a, ca, b, cb):
    sa = isinstance(ca, Comp) and ca.kind == "Set"
    sb = isinstance(cb, Comp) and cb.kind == "Set"
    if sa or sb:
        if op == "mul":
            return product(ip, [a, b])
        pa, pb = set_pieces(ip, a), set_pieces(ip, b)
        if op == "or":
            return mk_set(ip, ct.dedupe(ip, tuple(pa) + tuple(pb), []))
        if op == "sub":
            return mk_set(ip, filtered(ip, pa, lambda x: tm.bnot(ct.member_soft(ip, pb, x))))
        if op == "and":
            return mk_set(ip, filtered(ip, pa, lambda x: ct.member_soft(ip, pb, x)))
        return NOTIMPL
    ta = as_term(ip, a, ca) if isinstance(ca, Comp) else a
    tb = as_term(ip, b, cb) if isinstance(cb, Comp) else b
    if (ta is None and isinstance(ca, Comp)) or (tb is None and isinstance(cb, Comp)):
        return NOTIMPL
    if isinstance(ca, Model) or isinstance(cb, Model):
        return NOTIMPL
    return ip.binop(op, ta, tb)


def filtered(ip, pieces, cond):
    out = []
    for p in pieces:
        if p[0] == "i":
            c = ip.simp(cond(p[1]))
            if c is TRUE:
                out.append(p)
            elif c is not FALSE:
                out.append(("c", c, (p,), ()))
        elif p[0] == "c":
            out.append(("c", p[1], filtered(ip, p[2], cond), filtered(ip, p[3], cond)))
        else:
            out.append(("g", p[1], p[2], filtered(ip, p[3], cond)))
    return tuple(out)


def contains(ip, ref, c, x):
    ps = set_pieces(ip, ref)
    return ip.simp(ct.member_soft(ip, ps, x))


def iterate(ip, v, c):
    if c.index is None and c.kind != "Set":
        return (("i", None),)
    return tuple(set_pieces(ip, v))


def length(ip, v, c):
    if c.index is None and c.kind != "Set":
        return ONE
    return ip.plen(set_pieces(ip, v))


def key_of(ip, c, k):
    k = ip.vsimp(k)
    t = ip.bm.nt_tuple(ip, k)
    k = k if t is None else t
    key = flat_key(k)
    out = []
    for x in key:
        x = ip.vsimp(x)
        if isinstance(x, IteV):
            x = ct.to_num(ip, x)
        if isinstance(x, T) and has_cell(x):
            x = value_of(ip, x)
        if isinstance(x, SliceV) or x is ELLIPSIS:
            raise Unsupported("component slice")
        out.append(x)
    return tuple(out)


def index_item(key):
    return key[0] if len(key) == 1 else tuple(key)


def check_index(ip, c, key):
    m = ip.simp(member(ip, c.index, index_item(key)))
    ip.check(m, "KeyError", f"index not valid for {c.info.get('name')}")


def member(ip, pieces, x):
    return ct.member_soft(ip, pieces, x)


def getitem(ip, ref, c, k, checked=True):
    if c.kind == "Set":
        # 1-based access
        return ip.at(set_pieces(ip, ref), tm.sub(k, ONE))
    if c.index is None:
        if k is None:
            return as_term(ip, ref, c)
        ip.raise_("KeyError", "scalar component")
    key = key_of(ip, c, k)
    if checked and c.kind != "ConstraintList":
        check_index(ip, c, key)
    if c.kind == "Var" or c.kind == "Param" and c.info.get("mutable"):
        return cell(c.info["cid"], key)
    if c.kind == "Param":
        return need_number(ip, cell_value(ip, cell(c.info["cid"], key)))
    if c.kind == "Expression":
        return to_expr(ip, read_attr(ip, ref, "expr", key, NONE))
    return ExtV("pyomo.data", {"comp": ref, "key": key,
                               "expr": read_attr(ip, ref, "expr", key, None),
                               "deactivate": fn("deactivate", lambda ip, a, kk: put_attr(ip, ref, "inactive", key, TRUE)),
                               "activate": fn("activate", lambda ip, a, kk: put_attr(ip, ref, "inactive", key, FALSE))})


def setitem(ip, ref, c, k, v):
    if c.index is None and k is not None:
        ip.raise_("KeyError", "scalar component")
    key = key_of(ip, c, k) if k is not None else ()
    if k is not None:
        check_index(ip, c, key)
    if c.kind in ("Var", "Param"):
        set_value(ip, cell(c.info["cid"], key), v)
        return
    if c.kind == "Expression":
        put_attr(ip, ref, "expr", key, to_expr(ip, v))
        return
    if c.kind == "Constraint":
        put_attr(ip, ref, "expr", key, constraint_expr(ip, v))
        return
    raise Unsupported("item assignment to a component")


# ------------------------------------------------------------------ solving

def solver_factory(ip, a, k):
    ip.bm.event(ip, "solver", (a[0] if a else None,))
    comps(ip)
    opts = ip.new(Dct(()))
    s = ExtV("solver", {"options": opts, "kind": a[0] if a else None})
    s.data["solve"] = fn("solve", lambda ip, b, kk: solve(ip, s, b, kk))
    s.data["available"] = fn("available", lambda ip, b, kk: TRUE)
    s.data["set_options"] = fn("set_options", lambda ip, b, kk: None)
    s.data["name"] = a[0] if a else ""
    return s


def solve(ip, s, a, k):
    mref = ip.vsimp(a[0] if a else k["model"])
    if not isinstance(mref, Ref) or not isinstance(ip.get(mref), Model):
        raise Unsupported("solve of something else than a model")
    if ip.loops:
        raise Unsupported("solve inside a summarised loop")
    comps(ip)
    no = f"s{len(ip.solves) + 1}"
    m = ip.get(mref)
    snap = {n: (v, ip.get(v)) if isinstance(v, Ref) and isinstance(ip.get(v), Comp) else (v, None) for n, v in m.attrs.items()}
    heap = {}
    for lay in ip.layers:
        heap.update(lay)
    rec = {"no": no, "model": mref, "snap": snap, "pc": ip.pc(), "site": ip.site(), "kw": dict(k), "heap": heap,
           "solver": s}
    ip.solves.append(rec)
    ip.bm.event(ip, "solve", (no, mref))
    res = results(ip, no)
    res.data["model"] = mref
    if k.get("load_solutions", TRUE) is not FALSE:
        load(ip, mref, no)
    return res


def results(ip, no):
    tc = ExtV("termination_condition", {"tc": no})
    st = ExtV("solver_status", {"st": no})
    sv = ExtV("results.solver", {"termination_condition": tc, "status": st, "message": StrV(("message", no)), "no": no})
    return ExtV("results", {"no": no, "solver": sv, "Solver": sv, "termination_condition": tc, "status": st})


def load(ip, mref, no):
    for n, v in ip.get(mref).attrs.items():
        if isinstance(v, Ref):
            c = ip.get(v)
            if isinstance(c, Comp) and c.kind == "Var":
                ip.put(v, Comp(c.kind, c.index, c.log + (("solve", no, c.log),), c.info))
    ip.bm.event(ip, "load", (no, mref))


def load_from(ip, mref, r):
    r = ip.vsimp(r)
    if not isinstance(r, ExtV) or "no" not in r.data:
        raise Unsupported("load_from")
    load(ip, mref, r.data["no"])
    return None


def ext_eq(ip, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, ExtV) and ("tc" in x.data or "st" in x.data):
            no = x.data.get("tc", x.data.get("st"))
            nm = y.name.split(".")[-1] if isinstance(y, ExtV) else y if isinstance(y, str) else None
            if isinstance(y, ExtV) and ("tc" in y.data or "st" in y.data):
                return NOTIMPL
            if nm is None:
                return FALSE
            if nm in ("optimal", "locallyOptimal", "globallyOptimal", "feasible") and "tc" in x.data:
                return tm.app("optimal", (no,), isbool=True) if nm == "optimal" else tm.app("tc_" + nm, (no,), isbool=True)
            if nm == "ok":
                return tm.app("ok", (no,), isbool=True)
            return tm.app("tc_" + nm, (no,), isbool=True)
    return NOTIMPL


def optimal(ip, r):
    r = ip.vsimp(r)
    if not isinstance(r, ExtV) or "no" not in r.data:
        raise Unsupported("termination of an unknown result")
    return tm.app("optimal", (r.data["no"],), isbool=True)


def assert_optimal(ip, a, k):
    ip.check(optimal(ip, a[0]), "RuntimeError", "Solver failed to return an optimal solution")
    return None


# ------------------------------------------------------------------ module

def m1(f):
    def g(ip, a, k):
        return ip.bm.num1(ip, a[0], f)
    return g


def p_value(ip, a, k):
    v = ip.vsimp(a[0])
    if isinstance(v, IteV):
        return ip.cond(v.c, lambda: p_value(ip, [v.a] + a[1:], k), lambda: p_value(ip, [v.b] + a[1:], k))
    exc = k.get("exception", a[1] if len(a) > 1 else TRUE)
    if isinstance(v, T):
        if exc is FALSE and is_cell(v):
            return cell_value(ip, v)
        return value_of(ip, v)
    if isinstance(v, Ref):
        c = ip.get(v)
        t = as_term(ip, v, c)
        if t is not None:
            return value_of(ip, t)
        s = ip.bm.lib_scalar(ip, v, c)
        if s is not None:
            return s
    if v is None or isinstance(v, str):
        return v
    ip.raise_("TypeError", "cannot evaluate the value of this object")


def p_quicksum(ip, a, k):
    return ct.fold_sum(ip, tuple(ip.iter(a[0])), k.get("start", ZERO))


def p_prod(ip, a, k):
    return ct.fold_prod(ip, tuple(ip.iter(a[0])), ONE)


def p_sum_product(ip, a, k):
    xs = a
    idx = k.get("index")
    ps = tuple(ip.iter(idx)) if idx is not None else iterate(ip, xs[0], ip.get(xs[0]))

    def at(i):
        r = None
        for x in xs:
            v = ip.getitem(x, i)
            r = v if r is None else ip.binop("mul", r, v)
        return r
    return ct.fold_sum(ip, ct.map_values(ip, ps, at), ZERO)


def p_inequality(ip, a, k):
    lo, body, hi = (list(a) + [None, None, None])[:3]
    lo, body, hi = k.get("lower", lo), k.get("body", body), k.get("upper", hi)
    return constraint_expr(ip, (lo, body, hi))


def p_expr_if(ip, a, k):
    c, x, y = k.get("IF", k.get("IF_", a[0] if a else None)), k.get("THEN", k.get("THEN_", a[1] if len(a) > 1 else None)), \
        k.get("ELSE", k.get("ELSE_", a[2] if len(a) > 2 else None))
    c = c if isinstance(c, T) else ip.truth(c)
    return tm.ite(unrel(c), x, y)


def unrel(c):
    if c.op == "f" and c.a[0] in ("rel_le", "rel_lt", "rel_eq"):
        x, y = c.a[1]
        return {"rel_le": tm.le, "rel_lt": tm.lt, "rel_eq": tm.eq}[c.a[0]](x, y)
    return c


FUNCS = {
    "ConcreteModel": concrete_model, "RangeSet": range_set, "SolverFactory": solver_factory,
    "assert_optimal_termination": assert_optimal,
    "check_optimal_termination": lambda ip, a, k: optimal(ip, a[0]),
    "value": p_value, "quicksum": p_quicksum, "prod": p_prod, "summation": p_sum_product, "sum_product": p_sum_product,
    "dot_product": p_sum_product, "inequality": p_inequality, "Expr_if": p_expr_if,
    "sqrt": m1(tm.sqrt), "exp": m1(tm.exp), "log": m1(tm.log),
    "log10": m1(lambda t: tm.div(tm.log(t), tm.log(tm.const(10)))),
    **{n: m1(lambda t, n=n: tm.fun(n, t)) for n in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "floor", "ceil")},
    "asin": m1(lambda t: tm.fun("asin", t)), "acos": m1(lambda t: tm.fun("acos", t)), "atan": m1(lambda t: tm.fun("atan", t)),
}
KINDS = ("Set", "Param", "Var", "Objective", "Constraint", "Expression", "ConstraintList")


def module_attr(ip, m, name):
    if name in KINDS:
        return ExtV("pyo." + name, {"call": make_comp(name), "Skip": ExtV("pyomo.Constraint.Skip"),
                                    "Feasible": ExtV("pyomo.Constraint.Feasible")})
    if name in FUNCS:
        return fn(name, FUNCS[name])
    if name in ("minimize",):
        return ONE
    if name == "maximize":
        return tm.NEG1
    if name in ("TerminationCondition", "SolverStatus"):
        return ExtV("pyomo." + name)
    if name in ("environ",):
        return ip.module("pyomo.environ")
    if name in ("AbstractModel", "Block", "Piecewise", "SOSConstraint", "Suffix", "VarList", "BuildAction", "DiscreteSet"):
        def un(ip, a, k):
            raise Unsupported("pyomo." + name)
        return fn(name, un)
    return ExtV("pyomo." + name)
