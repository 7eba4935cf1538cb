"""Distributed block vectors as numbers: the value of a vector term on one
block (at an arbitrary entry), so that vector updates compare as polynomials.
Constraint distribution stays an uninterpreted operator."""
from terms import *
from vg import at


def cname(x):
    return str(x.args[0]).rsplit("::", 1)[-1] if isinstance(x, Term) and x.op in ("call", "after") else None


SEE_THROUGH = set()      # calls taken to leave a field as it was (set by a check)


def bl(i):
    return ("f", "#block"), ("i", i)


def vval(t, b):
    """value of the block vector t on block b"""
    if t.op == "poly":
        a = single_atom(t)
        if a is None:
            return atom(mk("vec", t, b))
        t = a
    if t.op == "call" and cname(t) == "get_distributed_vector_instance":
        return vval(t.args[2], b)
    if t.op == "at" and len(t.args[1]) == 1 and isinstance(t.args[0], Term) and t.args[0].op == "after" and cname(t.args[0]) in SEE_THROUGH:
        S, fld = t.args[0].args[1], t.args[1][0]
        r = at(S, (fld,))
        if S.op == "objst":
            r, part = at(S.args[0], (fld,)), []
            for w in reversed(S.args[1]):
                steps, kind, val, g = w.args[1][1], w.args[1][0], w.args[1][2], w.args[1][3]
                if not steps:
                    r = None
                    break
                if steps[0] == fld:
                    if len(steps) == 1 and kind == "set" and g is ONE:
                        r = val
                        break
                    part.insert(0, mk("bind", w.args[0], (kind, steps[1:]) + tuple(w.args[1][2:])))
            if r is not None and part:
                r = mk("objst", r, tuple(part))
        if r is not None:
            return vval(r, b)
    if t.op == "after":
        n, x, a = cname(t), t.args[1], t.args[2:]
        return lin(n, vval(x, b), a, lambda v: vval(v, b), t, b)
    if t.op == "out" and cname(t.args[1]) == "distribute":
        c = t.args[1]
        v = c.args[2 + t.args[0]]
        return atom(mk("D", c.args[1], vval(v, b), b))
    if t.op == "fill" and isnum(t.args[0]):
        return t.args[0]
    if t.op == "case":
        return add(*[mul(g, vval(v, b)) for g, v in t.args[0]])
    if t.op == "objst":
        r = vval(t.args[0], b)
        for w in t.args[1]:
            vs, (kind, steps, val, g) = w.args[0], w.args[1][:4]
            if len(steps) == 0 and kind == "set":
                r = ite(g, vval(val, b), r)
            elif len(steps) == 2 and steps[0] == ("f", "#block") and steps[1][0] == "i" and kind == "set":
                i = steps[1][1]
                hit = ONE if i is b else ZERO if const(sub(i, b)) not in (None, 0) else eq(i, b)
                r = ite(mul(g, hit), bval(val), r)
            elif len(steps) == 1 and steps[0] == ("f", "#block") and kind == "set":
                r = ite(g, atom(mk("vec", val, b)), r)
            else:
                return atom(mk("vec", t, b))
        return r
    return atom(mk("vec", t, b))


def bval(t):
    """value of a single-block term"""
    if t.op == "poly":
        a = single_atom(t)
        if a is None:
            return t
        t = a
    if t.op == "at" and len(t.args[1]) >= 2 and t.args[1][-2] == ("f", "#block"):
        base = t.args[0] if len(t.args[1]) == 2 else at(t.args[0], t.args[1][:-2])
        return vval(base, t.args[1][-1][1])
    if t.op == "after":
        return lin(cname(t), bval(t.args[1]), t.args[2:], bval, t, None)
    if t.op == "case":
        return add(*[mul(g, bval(v)) for g, v in t.args[0]])
    if t.op == "call" and cname(t) == "block":
        return vval(t.args[1], t.args[2])
    return atom(mk("bvec", t))


def lin(n, x, a, f, t, b):
    if n == "add":
        if len(a) == 1 and not isnum(a[0]):
            return x + f(a[0])
        if len(a) == 2:
            return x + a[0] * f(a[1])
        if len(a) == 4:
            return x + a[0] * f(a[1]) + a[2] * f(a[3])
    if n == "sadd":
        if len(a) == 2:
            return a[0] * x + f(a[1])
        if len(a) == 3:
            return a[0] * x + a[1] * f(a[2])
    if n == "equ" and len(a) == 2:
        return a[0] * f(a[1])
    if n in ("operator*=", "scaled"):
        return a[0] * x
    if n in ("operator/=",):
        return x / a[0]
    if n in ("operator+=",):
        return x + f(a[0])
    if n in ("operator-=",):
        return x - f(a[0])
    if n in ("compress", "update_ghost_values", "zero_out_ghost_values"):
        return x
    if n == "operator=":
        return f(a[0]) if not isnum(a[0]) else a[0]
    return atom(mk("vec", t, b if b is not None else mk("sym", "block")))


def D(c, v, b):
    return atom(mk("D", c, v, b))
