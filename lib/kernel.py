"""Normal form of the per-cell kernels (WorkStream workers): the value a kernel
leaves in its copy data or history, with finite-element handles, field values,
sizes and the constitutive laws in canonical form, so that it does not depend
on scratch members, loop structure or helper functions."""
from fractions import Fraction as Fr

import vg
import terms as T
from terms import *
from vg import Loc, at, ptype, strip_cv

T.OBJ_OPS |= {"lam"}
THIS = mk("sym", "this")
CELL = mk("sym", "cell")
NS, NQ, NFQ, ND = (atom(mk("sym", n)) for n in ("#slips", "#q", "#face q", "#dofs"))
SIZES = {"n_slips": NS, "n_q_points": NQ, "n_quadrature_points": NQ, "n_face_q_points": NFQ,
         "n_face_quadrature_points": NFQ, "dofs_per_cell": ND, "n_dofs_per_cell": ND}
QNAMES = {"n_q_points", "n_quadrature_points", "quadrature_point_indices"}
DNAMES = {"dofs_per_cell", "n_dofs_per_cell", "dof_indices"}
DEFAULTS = ("global:dealii::numbers::invalid_unsigned_int",)


def opaque(q):
    return "ConstitutiveLaws::" in q or "Kinematics::" in q or "InterfaceDataStorage<" in q


def call(name, *args):
    return mk("call", name, *args)


def fe(cell=CELL, face=None):
    return call("fe", cell) if face is None else call("fe", cell, face)


def fld(path, *steps):
    return at(THIS, tuple(("f", x) for x in path.split(".")) + steps)


def crystal(cell=CELL):
    return atom(call("material_id", cell))


def neighbor(f):
    return call("neighbor", CELL, f)


def nface(f):
    return atom(call("neighbor_of_neighbor", CELL, f))


def ext_u(c):
    return fld("fe_field.displacement_extractors", ("i", c))


def ext_s(c, s):
    return fld("fe_field.slips_extractors", ("i", c), ("i", s))


def view(h, ext):
    return call("operator[]", h, ext)


def comps(base, ix):
    return atom(at(base, tuple(("i", k if isinstance(k, Term) else num(k)) for k in ix)))


def shape(kind, h, ext, i, q, *ix):
    b = call(kind, view(h, ext), i, q)
    return comps(b, ix) if ix else atom(b)


def value(kind, h, ext, vec, q, *ix):
    """value of a finite-element field at a quadrature point"""
    return comps(call("field", mk("str", kind), view(h, ext), vec), (q,) + ix)


def jxw(h, q):
    return atom(call("JxW", h, q))


def normal(h, q, *ix):
    return comps(call("normal", h, q), ix)


def COMP(i):
    return mk("call", "component", i)


def lam(n, f):
    vs = [fresh() for _ in range(n)]
    return mk("lam", mkbind(tuple(vs), (f(*[var(v) for v in vs]),)))


def strip_default(args):
    args = list(args)
    while args and isinstance(args[-1], Term) and "invalid_unsigned_int" in show(args[-1], 2):
        args.pop()
    return args


class Canon:
    """rewriting to canonical form"""

    def __init__(self, ev, dim, ranges=None, opaque=opaque):
        self.ev, self.dim = ev, dim
        self.memo = {}
        self.ranges = dict(ranges or {})     # var -> number of values (term)
        self.laws = {}
        for q, fs in ev.prog.by_q.items():
            if opaque(q) and "<%d" % (5 - dim) not in q:
                for f in fs:
                    self.laws.setdefault((q.rsplit("::", 1)[-1], len(f["params"])), []).append(f)

    def __call__(self, t):
        return self.go(t)

    def go(self, x):
        if isinstance(x, tuple):
            return tuple(self.go(y) for y in x)
        if not isinstance(x, Term):
            return x
        r = self.memo.get(x)
        if r is not None:
            return r
        if x.op == "poly":
            parts = []
            for c, m in x.args[0]:
                fs, bs = T._refresh(*m.args)
                bs = tuple((v, self.go(l), self.go(h)) for v, l, h in bs)
                for v, l, h in bs:
                    if l is ZERO:
                        self.ranges[v] = h
                p = num(c)
                for a, e in fs:
                    q = self.go(a)
                    p = T._mul2(p, powr(q if q.op == "poly" else atom(q), e))
                parts.append(sum_binders(p, bs) if bs else p)
            r = add(*parts) if parts else ZERO
        elif x.op == "bind":
            s, nv = {}, []
            for v in x.args[0]:
                w = fresh()
                nv.append(w)
                s[v] = var(w)
            body = tuple(T._sarg(y, s) for y in x.args[1])
            if len(body) == 5 and isinstance(body[4], tuple) and len(body[4]) == len(nv):
                for w, (lo, hi) in zip(nv, body[4]):
                    self.ranges[w] = self.go(hi)
            r = mkbind(tuple(nv), self.go(body))
        elif x.op == "case":
            r = case(list(self.go(x.args[0])))
        else:
            y = self.pre(x)
            if y is not None:
                r = y
            else:
                args = self.go(x.args)
                r = x if args == x.args else rebuild(x, args)
                if isinstance(r, Term) and r.op != "poly":
                    r = self.rule(r)
                elif isinstance(r, Term):
                    a = single_atom(r)
                    if a is not None:
                        r2 = self.rule(a)
                        if r2 is not a:
                            r = r2 if r2.op == "poly" else atom(r2)
        self.memo[x] = r
        return r

    # ---- containers handed to a law: pointwise
    def pre(self, x):
        if x.op == "call" and (x.args[0], len(x.args) - 2) in self.laws:
            fs = self.laws[(x.args[0], len(x.args) - 2)]
            args = []
            for k, a in enumerate(x.args[2:]):
                types = {strip_cv(f["params"][k]["t"]) for f in fs}
                vt = {t for t in types if t.startswith("std::vector<")}
                t = vt.pop() if len(vt) == 1 and isinstance(a, Term) and a.op not in ("poly", "tens") else ""
                args.append(self.container(a, t))
            return self.rule(mk("call", x.args[0], self.go(x.args[1]), *args))
        return None

    def container(self, a, t):
        n = 0
        while t.startswith("std::vector<"):
            t = strip_cv(vg.first_targ(t[len("std::vector<"):]))
            n += 1
        if n and isinstance(a, Term) and a.op in ("objst", "at", "out", "call", "case", "phi", "mu"):
            pt = ptype(t)
            if pt[0] == "obj":
                return self.go(a)
            vs = [fresh() for _ in range(n)]
            lim = [NS, NQ] if n == 2 else [None]
            for v, l in zip(vs, lim):
                self.ranges[v] = l
            try:
                v = self.ev.descend(a, tuple(("i", var(v)) for v in vs), pt)
            except vg.Unsupported:
                return self.go(a)
            return mk("lam", mkbind(tuple(vs), (self.go(v),)))
        return self.go(a)

    def rule(self, x):
        op = x.op
        if op == "at":
            return self.r_at(x)
        if op == "call":
            return self.r_call(x)
        if op == "size":
            c = x.args[0]
            if c in (NQ, NFQ, ND):
                return c             # iota over the points
            if isinstance(c, Term) and c.op == "call":
                if c.args[0] == "face_iterators":
                    return mk("size", mk("call", "face_indices", c.args[1]))
                return self.size_of(c.args[0], c.args[1]) or x
        if op == "lt0":
            return self.bracket(x)
        if op == "b" and x.args[0] == "==":
            r = eq(x.args[1], x.args[2])
            return single_atom(r) if r.op == "poly" and single_atom(r) is not None else r
        if op == "out" and x.args[0] == 1 and x.args[1].op == "call" and str(x.args[1].args[0]).startswith("get_function_"):
            c = x.args[1]
            return mk("call", "field", mk("str", c.args[0]), c.args[1], c.args[2])
        return x

    def size_of(self, name, h):
        if name in QNAMES:
            return (NQ if len(h.args) == 2 else NFQ) if isinstance(h, Term) and h.op == "call" and h.args[0] == "fe" else None
        if name in DNAMES:
            return ND
        return None

    def r_at(self, x):
        base, st = x.args
        if st[-1][0] == "f" and st[-1][1] in SIZES:
            if isinstance(base, Term) and base.op == "call" and base.args[0] == "fe":
                return self.size_of(st[-1][1], base) or x
            return SIZES[st[-1][1]]
        if st[-1] == ("f", "#size") and base.op == "call" and len(st) == 1:
            if base.args[0] in ("get_JxW_values", "get_normal_vectors", "get_quadrature_points"):
                return self.size_of("n_q_points", base.args[1]) or x
        for k, s in enumerate(st):
            if s == ("f", "global_component_mapping") and k + 1 < len(st):
                a = single_atom(st[k + 1][1]) if isnum(st[k + 1][1]) else st[k + 1][1]
                if a is not None and a.op == "at" and a.args[1] == (("f", "first"),) and a.args[0].op == "call" \
                        and a.args[0].args[0] == "system_to_component_index":
                    return mk("call", "component", a.args[0].args[2])
        if base.op == "call" and base.args[0] == "face_iterators" and st[0][0] == "i":
            b = mk("call", "face", base.args[1], st[0][1])
            return at(b, st[1:]) if st[1:] else b
        if base.op == "call" and base.args[0] in ("get_JxW_values", "get_normal_vectors", "get_quadrature_points") and st[0][0] == "i":
            n = {"get_JxW_values": "JxW", "get_normal_vectors": "normal", "get_quadrature_points": "point"}[base.args[0]]
            b = mk("call", n, base.args[1], st[0][1])
            return at(b, st[1:]) if st[1:] else b
        return x

    def r_call(self, x):
        n = x.args[0]
        if n == "get_present_fe_values":
            a = x.args[1]
            if isinstance(a, Term) and a.op == "after" and a.args[0] == "reinit":
                as_ = strip_default(a.args[2:])
                if len(as_) == 2:
                    f = single_atom(as_[1]) if as_[1].op == "poly" else as_[1]
                    if f is not None and f.op == "call" and f.args[0] == "face" and f.args[1] is as_[0]:
                        as_[1] = f.args[2]
                return mk("call", "fe", *as_)
            return x
        if n == "at_boundary" and len(x.args) == 3:
            return mk("call", n, mk("call", "face", *x.args[1:]))
        if n in ("active_fe_index", "active_fe_index ") and len(x.args) == 2:
            return mk("call", "material_id", x.args[1])
        if n == "get_data" and len(x.args) == 4:
            a, b = sorted(x.args[2:4], key=lambda t: t.dig)
            return mk("call", n, x.args[1], a, b)
        if n == "JxW" and len(x.args) == 3:
            return x
        if n == "normal_vector":
            return mk("call", "normal", *x.args[1:])
        if n == "quadrature_point":
            return mk("call", "point", *x.args[1:])
        if n in QNAMES | DNAMES:
            return self.size_of(n, x.args[1]) or x
        return x

    # ---- comparisons decided by the ranges of the indices
    def bound(self, p, lower):
        """p with every ranged index replaced by the end that makes p smallest (lower) or largest"""
        for _ in range(12):
            done = True
            for c, m in p.args[0]:
                if len(m.args[0]) == 1 and not m.args[1] and m.args[0][0][1] == 1:
                    a = m.args[0][0][0]
                    if a.op == "var" and self.ranges.get(a.args[0]) is not None:
                        n = self.ranges[a.args[0]]
                        v = ZERO if (c > 0) == lower else sub(n, ONE)
                        p = subst(p, {a.args[0]: v})
                        done = False
                        break
                    if a.op == "call" and a.args[0] == "component":
                        v = ZERO if (c > 0) == lower else sub(add(num(self.dim), NS), ONE)
                        p = replace(p, a, v)
                        done = False
                        break
            if done:
                break
        return p

    def positive(self, p):
        """p >= 0 for all sizes >= 1"""
        tot = Fr(0)
        for c, m in p.args[0]:
            if not m.args[0]:
                tot += c
                continue
            if len(m.args[0]) != 1 or m.args[1] or m.args[0][0][1] != 1 or m.args[0][0][0].op not in ("sym", "size"):
                return False
            if c < 0:
                return False
            tot += c
        return tot >= 0

    def bracket(self, x):
        p = x.args[0]
        den = 1
        for c, m in p.args[0]:
            den = den * c.denominator // __import__("math").gcd(den, c.denominator)
        p = scale(p, den)
        if self.positive(self.bound(p, True)):
            return ZERO
        if self.positive(self.bound(sub(neg(p), ONE), True)):
            return ONE
        return x

    # ---- assumptions
    def assume(self, t, *pairs):
        """t with atoms replaced, canonicalised again"""
        memos = [{} for _ in pairs]
        cm = {}
        self.memo.clear()

        def full(x):
            for (a, v), m in zip(pairs, memos):
                x = replace(x, a, v, m)
            return self.go(x)

        def factor(a):
            r = cm.get(a)
            if r is None:
                r = full(atom(a))
                cm[a] = r
            return r
        keep = []
        for c, m in t.args[0]:
            fs, bs = m.args
            if bs:
                keep.append(full(mk("poly", ((c, m),))))
                continue
            vals, zero = [], False
            for a, e in sorted(fs, key=lambda ae: not is_bool_atom(ae[0])):
                v = factor(a)
                if v is ZERO and e > 0:
                    zero = True
                    break
                vals.append((v, e))
            if not zero:
                p = num(c)
                for v, e in vals:
                    p = mul(p, powr(v, e) if e != 1 else v)
                keep.append(p)
        return add(*keep) if keep else ZERO

    # ---- integrands
    def integrands(self, t, extra=()):
        """split a sum over quadrature points (and faces) into its summands, as
        functions of the free variables F (face number) and Q (quadrature
        point): {"cell": term, "face": term, "none": term}"""
        parts = {}
        for c, m in t.args[0]:
            fs, bs = m.args
            bs = tuple((v, self.go(lo), self.go(hi)) for v, lo, hi in bs)
            s, rest, kinds = {}, [], []
            for v, lo, hi in bs:
                kind = None
                if lo is ZERO:
                    if hi is NQ and "q" not in kinds:
                        kind = "q"
                    elif hi is NFQ and "fq" not in kinds:
                        kind = "fq"
                    elif hi is NFACES and "f" not in kinds:
                        kind = "f"
                if kind is None:
                    rest.append((v, lo, hi))
                    continue
                kinds.append(kind)
                s[v] = var("F" if kind == "f" else "Q")
            key = {(): "none", ("q",): "cell", ("f", "fq"): "face", ("f",): "per face", ("fq",): "face q"}.get(tuple(sorted(kinds)))
            if key is None:
                raise vg.Unsupported("sum over %s" % kinds)
            p = mk("poly", ((c, mk(m.op, fs, tuple(rest))),))
            parts.setdefault(key, []).append(subst(p, s))
        return {k: self.go(add(*v)) for k, v in parts.items()}


NFACES = atom(mk("size", call("face_indices", CELL)))
