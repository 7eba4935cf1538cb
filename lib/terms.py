"""Terms of the value graph and their normal form.

Numeric terms are polynomials over *atoms* with rational exponents; conditions
are 0/1-valued polynomials (Iverson brackets, idempotent), so if/else, switch
and ternary forms of one case distinction meet in one normal form; loops with
a symbolic trip count become bound sums.  Everything is interned.
"""
import hashlib
import itertools
import math
import random
from fractions import Fraction as Fr

_tab = {}
NOFV = frozenset()


class Term:
    __slots__ = ("op", "args", "dig", "fv", "lvl", "_h", "atoms")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __add__(self, o):
        return add(self, lift(o))

    def __radd__(self, o):
        return add(lift(o), self)

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    def __rmul__(self, o):
        return mul(lift(o), self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)


def lift(x):
    return x if isinstance(x, Term) else num(Fr(x) if isinstance(x, int) else Fr(str(x)))


def _feed(h, a):
    if isinstance(a, Term):
        h.update(b"T" + a.dig)
    elif isinstance(a, tuple):
        h.update(b"(")
        for x in a:
            _feed(h, x)
        h.update(b")")
    else:
        h.update(("%s:%r;" % (type(a).__name__, a)).encode())


def _scan(a, fv, lv):
    if isinstance(a, Term):
        if a.fv:
            fv |= a.fv
        if a.lvl > lv[0]:
            lv[0] = a.lvl
    elif isinstance(a, tuple):
        for x in a:
            _scan(x, fv, lv)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term.__new__(Term)
    t.op = op
    t.args = args
    h = hashlib.blake2b(op.encode(), digest_size=16)
    for a in args:
        _feed(h, a)
    t.dig = h.digest()
    t._h = hash(t.dig)
    fv = set()
    lv = [0]
    for a in args:
        _scan(a, fv, lv)
    if op == "var":
        fv.add(args[0])
        nm = args[0]
        if nm[0] == "\u03b2":
            lv[0] = max(lv[0], int(nm[1:]))
    elif op == "mono":
        for (v, lo, hi) in args[1]:
            fv.discard(v)
            # ranges may mention outer binders only
    elif op == "bind":          # bind(vars, body...)  for quantified stores
        for v in args[0]:
            fv.discard(v)
    t.fv = frozenset(fv) if fv else NOFV
    t.lvl = lv[0]
    t.atoms = None
    _tab[key] = t
    return t


# ---------------------------------------------------------------- polynomials
def _mkpoly(d):
    items = [(c, m) for m, c in d.items() if c != 0]
    items.sort(key=lambda cm: cm[1].dig)
    return mk("poly", tuple(items))


ONE_M = mk("mono", (), ())


def num(x):
    if isinstance(x, float):
        x = Fr(repr(x))
    x = Fr(x)
    if x == 0:
        return mk("poly", ())
    return mk("poly", ((x, ONE_M),))


ZERO = num(0)
ONE = num(1)
TWO = num(2)


def atom(t):
    """numeric value consisting of one atom"""
    return mk("poly", ((Fr(1), mk("mono", ((t, Fr(1)),), ())),))


def var(name):
    return atom(mk("var", name))


def isnum(t):
    return isinstance(t, Term) and t.op == "poly"


def const(t):
    """Fraction if t is a constant polynomial else None"""
    if t.op != "poly":
        return None
    a = t.args[0]
    if not a:
        return Fr(0)
    if len(a) == 1 and a[0][1] is ONE_M:
        return a[0][0]
    return None


def single_atom(t):
    """the atom if t is exactly 1*atom"""
    if t.op == "poly" and len(t.args[0]) == 1:
        c, m = t.args[0][0]
        if c == 1 and not m.args[1] and len(m.args[0]) == 1 and m.args[0][0][1] == 1:
            return m.args[0][0][0]
    return None


def varname(t):
    a = single_atom(t)
    if a is not None and a.op == "var":
        return a.args[0]
    return None


BOOL_OPS = {"lt0", "eq0", "b", "eqc", "isnan", "in"}


def is_bool_atom(a):
    return a.op in BOOL_OPS


def add(*ps):
    d = {}
    for p in ps:
        assert p.op == "poly", show(p)
        for c, m in p.args[0]:
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(p):
    return scale(p, Fr(-1))


def sub(a, b):
    return add(a, neg(b))


def scale(p, c):
    c = Fr(c)
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return mk("poly", tuple((k * c, m) for k, m in p.args[0]))


_mulcache = {}


def mul(*ps):
    r = ps[0]
    for p in ps[1:]:
        r = _mul2(r, p)
    return r


def _mul2(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    ca = const(a)
    if ca is not None:
        return scale(b, ca)
    cb = const(b)
    if cb is not None:
        return scale(a, cb)
    key = (a, b)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    for c1, m1 in a.args[0]:
        for c2, m2 in b.args[0]:
            for c, m in _mulmono(m1, m2):
                d[m] = d.get(m, 0) + c * c1 * c2
    r = _mkpoly(d)
    _mulcache[key] = r
    return r


_fresh = itertools.count(1)


def fresh(p="\u03bd"):
    return "%s#%d" % (p, next(_fresh))


def _mulmono(m1, m2):
    """-> list of (coef, mono)"""
    f1, b1 = m1.args
    f2, b2 = m2.args
    if not b1 and not b2:
        return _norm_factors(f1, f2, ())
    # rename binders of both apart
    f1, b1 = _refresh(f1, b1)
    f2, b2 = _refresh(f2, b2)
    return _norm_factors(f1, f2, b1 + b2)


def _refresh(fs, bs):
    if not bs:
        return fs, bs
    s = {}
    nb = []
    for (v, lo, hi) in bs:
        w = fresh()
        lo2 = subst(lo, s)
        hi2 = subst(hi, s)
        s[v] = var(w)
        nb.append((w, lo2, hi2))
    out = []
    for a, e in fs:
        out.append((a, e))
    p = [(subst_atom(a, s), e) for a, e in out]
    # subst_atom may return poly; binder->var substitution keeps atoms atoms
    fs2 = []
    for q, e in p:
        at = single_atom(q)
        assert at is not None
        fs2.append((at, e))
    return tuple(fs2), tuple(nb)


def _norm_factors(f1, f2, binders):
    """multiply factor lists; returns list of (coef, mono)"""
    d = {}
    for a, e in f1:
        d[a] = d.get(a, 0) + e
    for a, e in f2:
        d[a] = d.get(a, 0) + e
    expand = []
    items = []
    eqs = {}
    coef = Fr(1)
    for a, e in d.items():
        if e == 0:
            continue
        if a.op in BOOL_OPS:
            if e > 0:
                e = Fr(1)
            if a.op == "eqc":
                k = a.args[0]
                if k in eqs and eqs[k] is not a.args[1]:
                    return []
                eqs[k] = a.args[1]
        if a.op == "P" and e.denominator == 1 and e > 0:
            expand.append((a, e))
            continue
        if a.op == "P" and e > 1:
            k = e.numerator // e.denominator
            expand.append((a, Fr(k)))
            e = e - k
        if a.op == "N" and abs(e) >= 1:
            k = int(e)
            coef *= a.args[0] ** k
            e = e - k
            if e == 0:
                continue
        items.append((a, e))
    # lt0(p)*lt0(-p) = 0
    lts = {a.args[0] for a, e in items if a.op == "lt0"}
    for p in lts:
        if len(p.args[0]) and neg(p) in lts:
            return []
    res = _close(items, binders)
    res = [(c * coef, m) for c, m in res]
    for a, e in expand:
        q = a.args[0]
        for _ in range(int(e)):
            nr = []
            for c, m in res:
                for c2, m2 in q.args[0]:
                    for c3, m3 in _mulmono(m, m2):
                        nr.append((c * c2 * c3, m3))
            res = nr
    return res


def _close(items, binders):
    """canonical monomial for factors under binders -> list of (coef, mono)"""
    if not binders:
        items.sort(key=lambda ae: ae[0].dig)
        return [(Fr(1), mk("mono", tuple(items), ()))]
    # concrete small ranges: expand
    for i, (v, lo, hi) in enumerate(binders):
        cl, ch = const(lo), const(hi)
        if cl is not None and ch is not None and ch - cl <= 4:
            rest = binders[:i] + binders[i + 1:]
            out = {}
            for k in range(int(cl), int(ch)):
                s = {v: num(k)}
                p = ONE
                for a, e in items:
                    p = _mul2(p, powr(subst_atom(a, s), e))
                rb = tuple((w, subst(l, s), subst(h, s)) for w, l, h in rest)
                p = sum_binders(p, rb)
                for c, m in p.args[0]:
                    out[m] = out.get(m, 0) + c
            return [(c, m) for m, c in out.items() if c != 0]
    # a binder eliminated by an equality bracket
    for i, (v, lo, hi) in enumerate(binders):
        for a, e in items:
            if a.op == "eq0" and v in a.fv:
                sol = solve_linear(a.args[0], v)
                if sol is not None and v not in sol.fv:
                    rest = binders[:i] + binders[i + 1:]
                    s = {v: sol}
                    p = ONE
                    for a2, e2 in items:
                        if a2 is a:
                            continue
                        p = _mul2(p, powr(subst_atom(a2, s), e2))
                    g = in_range(sol, lo, hi, {w: (l, h) for w, l, h in rest})
                    p = _mul2(p, g)
                    rb = tuple((w, subst(l, s), subst(h, s)) for w, l, h in rest)
                    p = sum_binders(p, rb)
                    return [(c, m) for c, m in p.args[0]]
    # unused binder: multiply with the length of its range
    used = set()
    for a, e in items:
        used |= a.fv
    for (v, lo, hi) in binders:
        used |= lo.fv | hi.fv
    for i, (v, lo, hi) in enumerate(binders):
        if v not in used:
            rest = binders[:i] + binders[i + 1:]
            ln = sub(hi, lo)
            base = _close(items, rest)
            out = []
            for c, m in base:
                for c2, m2 in ln.args[0]:
                    for c3, m3 in _mulmono(m, m2):
                        out.append((c * c2 * c3, m3))
            return out
    # canonical names
    lv = 0
    for a, e in items:
        lv = max(lv, a.lvl)
    names = ["\u03b2%d" % (lv + 1 + k) for k in range(len(binders))]
    best = None
    perms = itertools.permutations(range(len(binders))) if len(binders) <= 5 else [tuple(range(len(binders)))]
    for perm in perms:
        # a binder's range may depend on earlier ones only
        ok = True
        seen = set()
        bnames = {b[0] for b in binders}
        for k in perm:
            need = ((binders[k][1].fv | binders[k][2].fv) & bnames)
            if not need <= seen:
                ok = False
                break
            seen.add(binders[k][0])
        if not ok:
            continue
        s = {}
        nb = []
        for pos, k in enumerate(perm):
            v, lo, hi = binders[k]
            nb.append((names[pos], subst(lo, s), subst(hi, s)))
            s[v] = var(names[pos])
        its = []
        for a, e in items:
            q = single_atom(subst_atom(a, s))
            if q is None:       # normalisation produced a product; give up on canon
                q = mk("P", subst_atom(a, s))
            its.append((q, e))
        its.sort(key=lambda ae: ae[0].dig)
        m = mk("mono", tuple(its), tuple(nb))
        if best is None or m.dig < best.dig:
            best = m
    if best is None:
        its = sorted(items, key=lambda ae: ae[0].dig)
        best = mk("mono", tuple(its), tuple(binders))
    return [(Fr(1), best)]


def sum_binders(p, binders):
    if not binders:
        return p
    d = {}
    bset = {b[0] for b in binders}
    for c, m in p.args[0]:
        f, b = _refresh(*m.args)
        # factors independent of the new binders stay inside the monomial: same thing
        for c2, m2 in _norm_factors(f, (), tuple(binders) + b):
            d[m2] = d.get(m2, 0) + c * c2
    return _mkpoly(d)


def Sum(v, lo, hi, p):
    return sum_binders(p, ((v, lo, hi),))


# ------------------------------------------------------------------ operations
def powr(p, e):
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if p is ZERO:
        return ZERO if e > 0 else atom(mk("inf"))
    a = p.args[0]
    if e.denominator == 1 and e > 0 and len(a) * int(e) <= 64:
        r = ONE
        for _ in range(int(e)):
            r = _mul2(r, p)
        return r
    if len(a) == 1 and not a[0][1].args[1]:
        c, m = a[0]
        items = []
        ok = True
        for at, ex in m.args[0]:
            # (x^2)^(1/2) = |x|
            if e.denominator != 1 and ex.denominator == 1 and ex % 2 == 0:
                items.append((("abs", at), ex * e))
            elif at.op in BOOL_OPS:
                items.append((at, Fr(1) if e > 0 else e))
            else:
                items.append((at, ex * e))
        r = _cpow(c, e)
        for at, ex in items:
            if isinstance(at, tuple):
                if ex.denominator == 1 and ex % 2 == 0:
                    r = _mul2(r, powr(atom(at[1]), ex))
                else:
                    r = _mul2(r, _apow(single_atom(fabs(atom(at[1]))) or at[1], ex))
            else:
                r = _mul2(r, _apow(at, ex))
        return r
    # content-free polynomial atom
    c0 = a[0][0]
    if e.denominator == 1:
        q = scale(p, 1 / c0)
        return _mul2(_cpow(c0, e), _apow(mk("P", q), e))
    q = scale(p, 1 / abs(c0))
    return _mul2(_cpow(abs(c0), e), _apow(mk("P", q), e))


def _apow(at, e):
    if at.op == "P" and e.denominator == 1 and e > 0:
        return powr(at.args[0], e)
    lst = _norm_factors(((at, Fr(e)),), (), ())
    d = {}
    for c, m in lst:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def _cpow(c, e):
    if c == 1:
        return ONE
    if e.denominator == 1:
        return num(c ** int(e))
    if c > 0:
        # exact roots
        n, dd = c.numerator, c.denominator
        r1 = round(n ** (1.0 / e.denominator))
        r2 = round(dd ** (1.0 / e.denominator))
        if r1 ** e.denominator == n and r2 ** e.denominator == dd:
            return num(Fr(r1, r2) ** e.numerator)
    k = math.floor(e)
    r = num(c ** k) if k else ONE
    rest = e - k
    return _mul2(r, atom(mk("N", c)) if rest == 1 else mk("poly", ((Fr(1), mk("mono", ((mk("N", c), rest),), ())),)))


def div(a, b):
    cb = const(b)
    if cb is not None and cb != 0:
        return scale(a, 1 / cb)
    return _mul2(a, powr(b, -1))


def fabs(p):
    c = const(p)
    if c is not None:
        return num(abs(c))
    a = p.args[0]
    if len(a) == 1 and not a[0][1].args[1]:
        c, m = a[0]
        # |c x y| = |c| |x| |y|
        if len(m.args[0]) > 1 or abs(c) != 1 or m.args[0][0][1] != 1:
            r = num(abs(c))
            for at, e in m.args[0]:
                if at.op in BOOL_OPS or at.op in ("abs", "norm", "exp", "cosh") or (e.denominator == 1 and e % 2 == 0):
                    r = _mul2(r, _apow(at, e))
                elif e.denominator == 1:
                    r = _mul2(r, powr(fabs(atom(at)), e))
                else:
                    r = _mul2(r, _apow(at, e))
            return r
        at = m.args[0][0][0]
        if at.op in BOOL_OPS or at.op in ("abs", "norm", "exp", "cosh"):
            return atom(at)
        return atom(mk("abs", atom(at)))
    if a[0][0] < 0:
        p = neg(p)
    return atom(mk("abs", p))


_MATH1 = {"sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "exp", "log", "erf", "asin", "acos",
          "floor", "ceil", "round", "trunc", "isfinite", "log10"}
_ODD = {"sin", "tan", "sinh", "tanh", "atan", "erf", "asin"}
_EVEN = {"cos", "cosh"}


def fn1(name, p):
    if name == "sqrt":
        return powr(p, Fr(1, 2))
    if name in ("abs", "fabs"):
        return fabs(p)
    if name == "cbrt":
        return powr(p, Fr(1, 3))
    c = const(p)
    if c is not None:
        if name in ("sin", "tan", "sinh", "tanh", "atan", "erf", "asin") and c == 0:
            return ZERO
        if name in ("cos", "cosh", "exp") and c == 0:
            return ONE
        if name in ("floor", "trunc", "round", "ceil") and c.denominator == 1:
            return p
    if p.args[0] and p.args[0][0][0] < 0:
        if name in _ODD:
            return neg(atom(mk(name, neg(p))))
        if name in _EVEN:
            return atom(mk(name, neg(p)))
    return atom(mk(name, p))


def pow2(p, e):
    c = const(e)
    if c is not None:
        return powr(p, c)
    return atom(mk("pow", p, e))


def fmax(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return a if ca >= cb else b
    if a is b:
        return a
    xs = sorted([a, b], key=lambda t: t.dig)
    g = lt(xs[0], xs[1])
    return add(_mul2(g, xs[1]), _mul2(sub(ONE, g), xs[0]))


def fmin(a, b):
    return neg(fmax(neg(a), neg(b)))


# ------------------------------------------------------------------ conditions
def _lead(p):
    return p.args[0][0][0]


def lt0(p):
    """[p < 0]"""
    c = const(p)
    if c is not None:
        return ONE if c < 0 else ZERO
    q = scale(p, 1 / abs(_lead(p)))
    return atom(mk("lt0", q))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return sub(ONE, lt0(sub(b, a)))


def eq(a, b):
    if a is b:
        return ONE
    if isnum(a) and isnum(b):
        d = sub(a, b)
        c = const(d)
        if c is not None:
            return ONE if c == 0 else ZERO
        # b - 1 == 0 and the like for a boolean atom
        at = single_atom(a)
        if at is not None and at.op in BOOL_OPS and const(b) is not None:
            return a if const(b) == 1 else (sub(ONE, a) if const(b) == 0 else ZERO)
        at = single_atom(b)
        if at is not None and at.op in BOOL_OPS and const(a) is not None:
            return eq(b, a)
        q = scale(d, 1 / _lead(d))
        return atom(mk("eq0", q))
    # distinct enumerators / literals
    ka, kb = a.op in ("enum", "str"), b.op in ("enum", "str")
    if ka and kb:
        return ONE if a is b else ZERO
    if ka and not kb:
        a, b = b, a
        ka, kb = kb, ka
    if a.op == "case" and kb:
        return add(*[_mul2(g, eq(v, b)) for g, v in a.args[0]])
    if kb:
        return atom(mk("eqc", a, b))
    xs = sorted([a, b], key=lambda t: t.dig)
    return atom(mk("b", "==", xs[0], xs[1]))


def land(a, b):
    return _mul2(a, b)


def lor(a, b):
    return sub(add(a, b), _mul2(a, b))


def lnot(a):
    return sub(ONE, a)


def tobool(p):
    """numeric used as a condition"""
    c = const(p)
    if c is not None:
        return ONE if c != 0 else ZERO
    if is01(p):
        return p
    return lnot(eq(p, ZERO))


def is01(p):
    for c, m in p.args[0]:
        if m.args[1]:
            return False
        for a, e in m.args[0]:
            if a.op not in BOOL_OPS:
                return False
    return True


def case(pairs):
    """non-numeric case distinction; pairs of (guard, value)"""
    d = {}
    order = []
    for g, v in pairs:
        if g is ZERO:
            continue
        if v.op == "case":
            for g2, v2 in v.args[0]:
                k = _mul2(g, g2)
                if v2 not in d:
                    order.append(v2)
                    d[v2] = ZERO
                d[v2] = add(d[v2], k)
        else:
            if v not in d:
                order.append(v)
                d[v] = ZERO
            d[v] = add(d[v], g)
    items = [(g, v) for v, g in d.items() if g is not ZERO]
    if len(items) == 1:
        return items[0][1]
    if not items:
        return mk("undef")
    items.sort(key=lambda gv: gv[1].dig)
    return mk("case", tuple(items))


def ite(g, a, b):
    if g is ONE:
        return a
    if g is ZERO:
        return b
    if a is b:
        return a
    if a.op == "tens" and b.op == "tens" and a.args[:3] == b.args[:3]:
        return mk("tens", a.args[0], a.args[1], a.args[2],
                  tuple(ite(g, x, y) for x, y in zip(a.args[3], b.args[3])))
    if isnum(a) and isnum(b):
        return add(_mul2(g, a), _mul2(lnot(g), b))
    return case([(g, a), (lnot(g), b)])


def solve_linear(p, v):
    """t with p(v=t)=0, if p is linear in v with a constant coefficient"""
    k = Fr(0)
    rest = {}
    for c, m in p.args[0]:
        fs = m.args[0]
        if v in m.fv:
            if m.args[1] or len(fs) != 1 or fs[0][1] != 1 or fs[0][0].op != "var":
                return None
            k += c
        else:
            rest[m] = rest.get(m, 0) + c
    if k == 0:
        return None
    return scale(_mkpoly(rest), -1 / k)


def in_range(t, lo, hi, ranges):
    """bracket for lo <= t < hi; ONE where known"""
    v = varname(t)
    if v is not None and v in ranges:
        l2, h2 = ranges[v]
        gl = ONE if l2 is lo or nonneg(sub(l2, lo)) else le(lo, t)
        gh = ONE if h2 is hi or nonneg(sub(hi, h2)) else lt(t, hi)
        return _mul2(gl, gh)
    c = const(t)
    if c is not None or v is not None:
        return _mul2(le(lo, t), lt(t, hi))
    return ONE


def nonneg(p):
    c = const(p)
    return c is not None and c >= 0


# ---------------------------------------------------------------- substitution
_sc = {}


def subst(t, s):
    if not s or not t.fv:
        return t
    s = {k: v for k, v in s.items() if k in t.fv}
    if not s:
        return t
    key = (t, tuple(sorted((k, v) for k, v in s.items()) if len(s) == 1 else sorted(s.items(), key=lambda kv: kv[0])))
    r = _sc.get(key)
    if r is None:
        r = _subst(t, s)
        _sc[key] = r
    return r


def subst_atom(a, s):
    """atom -> numeric term"""
    if not (a.fv and any(k in a.fv for k in s)):
        return atom(a)
    if a.op == "var":
        return s.get(a.args[0], atom(a))
    r = rebuild(a, tuple(_sarg(x, s) for x in a.args))
    return r if r.op == "poly" else atom(r)


def _sarg(x, s):
    if isinstance(x, Term):
        return subst(x, s)
    if isinstance(x, tuple):
        return tuple(_sarg(y, s) for y in x)
    return x


def _subst(t, s):
    if t.op == "poly":
        out = ZERO
        parts = []
        for c, m in t.args[0]:
            if not any(k in m.fv for k in s):
                parts.append(mk("poly", ((c, m),)))
                continue
            fs, bs = _refresh(*m.args)
            p = num(c)
            for a, e in fs:
                p = _mul2(p, powr(subst_atom(a, s), e))
            nb = tuple((v, subst(l, s), subst(h, s)) for v, l, h in bs)
            parts.append(sum_binders(p, nb))
        return add(*parts) if parts else ZERO
    if t.op == "var":
        return s.get(t.args[0], t)
    if t.op == "bind":
        vs = t.args[0]
        s2 = {}
        nv = []
        for v in vs:
            w = fresh()
            nv.append(w)
            s2[v] = var(w)
        s3 = dict(s)
        s3.update(s2)
        return mkbind(tuple(nv), tuple(_sarg(x, s3) for x in t.args[1]))
    args = tuple(_sarg(x, s) for x in t.args)
    if t.op in ("case",):
        return case(list(args[0]))
    r = rebuild(t, args)
    if isnum(r) and not isnum(t):
        a = single_atom(r)
        if a is not None and a.op == t.op:
            return a
    return r


def mkbind(vs, parts):
    """canonical binder names for a quantified tuple"""
    lv = 0
    l = [0]
    _scan(parts, set(), l)
    lv = l[0]
    s = {}
    names = []
    for k, v in enumerate(vs):
        n = "\u03b2%d" % (lv + 1 + k)
        names.append(n)
        s[v] = var(n)
    return mk("bind", tuple(names), tuple(_sarg(x, s) for x in parts))


# hook: rebuilding atoms after substitution (evaluators may register folding)
REBUILD = {}


def rebuild(a, args):
    op = a.op
    if op == "P":
        return args[0]
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eqc":
        return eq(args[0], args[1])
    if op == "abs":
        return fabs(args[0])
    if op == "pow":
        return pow2(args[0], args[1])
    if op in _MATH1:
        return fn1(op, args[0])
    if op in REBUILD:
        return REBUILD[op](a, args)
    if op == "tens":
        return mk("tens", *args)
    r = mk(op, *args)
    if op in NUMERIC_OPS:
        return atom(r)
    return r if op in OBJ_OPS else atom(r)


NUMERIC_OPS = {"N", "inf"}
OBJ_OPS = {"at", "obj", "sym", "call", "after", "out", "objst", "undef", "tens", "case", "bind",
           "enum", "str", "fill", "lambda", "new", "ctorobj", "ty", "comp", "mu", "ret", "size"}


# ------------------------------------------------------------- differentiation
def diff(p, wrt):
    """d p / d wrt where wrt is a predicate atom -> numeric derivative term
    (None for 'independent')."""
    out = []
    for c, m in p.args[0]:
        fs, bs = m.args
        for i, (a, e) in enumerate(fs):
            da = datom(a, wrt)
            if da is ZERO:
                continue
            q = num(c * e)
            for j, (b, f) in enumerate(fs):
                if j == i:
                    q = _mul2(q, _apow(b, f - 1)) if f != 1 else q
                else:
                    q = _mul2(q, _apow(b, f))
            q = _mul2(q, da)
            out.append(sum_binders(q, bs) if bs else q)
    return add(*out) if out else ZERO


def datom(a, wrt):
    r = wrt(a)
    if r is not None:
        return r
    op = a.op
    if op in BOOL_OPS or op in ("var", "N"):
        return ZERO
    if op == "P":
        return diff(a.args[0], wrt)
    A = a.args
    if op == "abs":
        d = diff(A[0], wrt)
        return _mul2(d, sign(A[0])) if d is not ZERO else ZERO
    if op in _MATH1:
        d = diff(A[0], wrt)
        if d is ZERO:
            return ZERO
        x = A[0]
        if op == "sin":
            k = fn1("cos", x)
        elif op == "cos":
            k = neg(fn1("sin", x))
        elif op == "tan":
            k = powr(fn1("cos", x), -2)
        elif op == "sinh":
            k = fn1("cosh", x)
        elif op == "cosh":
            k = fn1("sinh", x)
        elif op == "tanh":
            k = powr(fn1("cosh", x), -2)
        elif op == "atan":
            k = powr(add(ONE, _mul2(x, x)), -1)
        elif op == "exp":
            k = atom(a)
        elif op == "log":
            k = powr(x, -1)
        elif op == "erf":
            k = _mul2(num(2), _mul2(powr(PI, Fr(-1, 2)), fn1("exp", neg(_mul2(x, x)))))
        else:
            raise ValueError("derivative of " + op)
        return _mul2(k, d)
    if op == "pow":
        d1 = diff(A[0], wrt)
        d2 = diff(A[1], wrt)
        r = ZERO
        if d1 is not ZERO:
            r = add(r, mul(A[1], pow2(A[0], sub(A[1], ONE)), d1))
        if d2 is not ZERO:
            r = add(r, mul(atom(a), fn1("log", A[0]), d2))
        return r
    return ZERO


PI = num(Fr("3.14159265358979323846"))


def sign(p):
    return sub(lt0(neg(p)), lt0(p))


# ------------------------------------------------------- random interpretation
class DomainError(Exception):
    pass


def _rnd(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


INT_HINT = set()


class Interp:
    """Random interpretation of terms: atoms get pseudo-random values that
    depend only on the values of their arguments (congruence)."""

    def __init__(self, seed, signed=True, nmax=3):
        self.seed = seed
        self.signed = signed
        self.nmax = nmax
        self.memo = {}
        self.env = {}

    def key(self, t):
        if not t.fv:
            return (t, ())
        return (t, tuple(sorted((v, self.env.get(v)) for v in t.fv)))

    def num(self, t):
        k = self.key(t)
        if k in self.memo:
            return self.memo[k]
        s = 0.0
        for c, m in t.args[0]:
            s += float(c) * self.mono(m.args[0], m.args[1])
        if s != s or s in (float("inf"), float("-inf")) or abs(s) > 1e60:
            raise DomainError()
        self.memo[k] = s
        return s

    def mono(self, fs, bs):
        if bs:
            v, lo, hi = bs[0]
            a, b = int(round(self.num(lo))), self.intval(hi)
            old = self.env.get(v)
            s = 0.0
            for i in range(a, b):
                self.env[v] = i
                s += self.mono(fs, bs[1:])
            if old is None:
                self.env.pop(v, None)
            else:
                self.env[v] = old
            return s
        r = 1.0
        # brackets first: a zero bracket makes the rest irrelevant
        for a, e in fs:
            if a.op in BOOL_OPS:
                if self.atom(a) == 0.0:
                    return 0.0
        for a, e in fs:
            if a.op in BOOL_OPS:
                continue
            x = self.atom(a)
            if e.denominator == 1:
                if x == 0.0 and e < 0:
                    raise DomainError()
                if abs(x) > 1e150 or (0 < abs(x) < 1e-150):
                    raise DomainError()
                r *= x ** int(e)
            else:
                if x < 0 or (x == 0.0 and e < 0):
                    raise DomainError()
                r *= x ** float(e)
        return r

    def intval(self, t):
        x = self.num(t)
        r = int(round(x))
        if abs(x - r) > 1e-9:
            r = 1 + int(abs(x) * 1000) % self.nmax
        return min(max(r, -3), 9)

    def val(self, t):
        """hashable value of an arbitrary term"""
        if isinstance(t, tuple):
            return tuple(self.val(x) for x in t)
        if not isinstance(t, Term):
            return t
        if t.op == "poly":
            x = self.num(t)
            return float("%.9e" % x) + 0.0
        if t.op == "var":
            return self.env.get(t.args[0], ("free", t.args[0]))
        if t.op == "case":
            for g, v in t.args[0]:
                if self.num(g) > 0.5:
                    return self.val(v)
            return "undef"
        if t.op == "bind":
            s = {v: num(Fr(7919 + i * 31, 17)) for i, v in enumerate(t.args[0])}
            return ("bind", len(t.args[0]), self.val(_sarg(t.args[1], s)))
        k = self.key(t)
        if k in self.memo:
            return self.memo[k]
        r = (t.op,) + tuple(self.val(x) for x in t.args)
        if len(repr(r)) > 400:
            r = ("h", hashlib.blake2b(repr(r).encode(), digest_size=12).hexdigest())
        self.memo[k] = r
        return r

    def atom(self, a):
        op = a.op
        A = a.args
        if op == "var":
            v = A[0]
            if v in self.env:
                return float(self.env[v])
            return float(int(_rnd(self.seed, "var", v) * 3))
        if op == "lt0":
            return 1.0 if self.num(A[0]) < 0 else 0.0
        if op == "eq0":
            return 1.0 if abs(self.num(A[0])) < 1e-9 else 0.0
        if op == "P":
            return self.num(A[0])
        if op == "N":
            return float(A[0])
        if op == "abs":
            return abs(self.num(A[0]))
        if op == "pow":
            x, y = self.num(A[0]), self.num(A[1])
            if x <= 0:
                raise DomainError()
            try:
                return x ** y
            except OverflowError:
                raise DomainError()
        if op in _MATH1 and op != "isfinite":
            x = self.num(A[0])
            try:
                if op in ("floor", "ceil", "trunc"):
                    return float(getattr(math, op)(x))
                if op == "round":
                    return float(math.floor(x + 0.5))
                return getattr(math, op)(x)
            except (ValueError, OverflowError):
                raise DomainError()
        if op in BOOL_OPS:
            if op == "eqc":
                # the enumerator is chosen by hashing the scrutinee
                sc = self.val(A[0])
                dom = ENUM_DOMAIN.get(A[1].args[0].rsplit("::", 1)[0]) if A[1].op == "enum" else None
                if dom:
                    pick = dom[int(_rnd(self.seed, "enum", sc) * len(dom))]
                    return 1.0 if pick == A[1].args[0] else 0.0
            return 1.0 if _rnd(self.seed, op, self.val(A)) < 0.5 else 0.0
        if op == "inf":
            raise DomainError()
        r = _rnd(self.seed, op, self.val(A))
        if op == "size" or (op == "at" and a in INT_HINT):
            return float(1 + int(r * self.nmax))
        x = 0.25 + 1.5 * r
        if self.signed and _rnd(self.seed, "s", op, self.val(A)) < 0.5:
            x = -x
        return x


ENUM_DOMAIN = {}


def equal(a, b, samples=12):
    """Equality of two terms: identical normal forms, or agreement under the
    random interpretation on `samples` usable draws."""
    if a is b:
        return True
    if a.op == "tens" and b.op == "tens":
        if len(a.args[3]) != len(b.args[3]):
            return False
        return all(equal(x, y, samples) for x, y in zip(a.args[3], b.args[3]))
    if isnum(a) != isnum(b):
        return False
    good = 0
    for k in range(samples * 12):
        it = Interp(k, signed=(k % 2 == 1))
        try:
            if isnum(a):
                x, y = it.num(a), it.num(b)
                if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
                    return False
            else:
                if it.val(a) != it.val(b):
                    return False
        except (DomainError, ZeroDivisionError, OverflowError):
            continue
        good += 1
        if good >= samples:
            return True
    return good >= 3


# -------------------------------------------------------------------- printing
def show(t, depth=7):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "\u2026"
    op, A = t.op, t.args
    if op == "poly":
        if not A[0]:
            return "0"
        out = []
        for c, m in A[0][:14]:
            s = show(m, depth)
            if m is ONE_M:
                s = str(float(c)) if c.denominator > 10 ** 6 else str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c if c.denominator < 10 ** 6 else float(c), s)
            out.append(s)
        if len(A[0]) > 14:
            out.append("\u2026(%d terms)" % len(A[0]))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "mono":
        s = "*".join(show(a, depth - 1) + ("" if e == 1 else "^%s" % e) for a, e in A[0]) or "1"
        for v, lo, hi in reversed(A[1]):
            s = "\u03a3{%s=%s..%s}[%s]" % (v, show(lo, 3), show(hi, 3), s)
        return s
    if op == "var":
        return A[0]
    if op == "sym":
        return str(A[0])
    if op == "at":
        s = show(A[0], depth - 1)
        for st in A[1]:
            if st[0] == "f":
                s += "." + str(st[1])
            else:
                s += "[" + show(st[1], depth - 1) + "]"
        return s
    if op == "enum":
        return A[0].rsplit("::", 1)[-1]
    if op == "str":
        return repr(A[0])
    if op == "lt0":
        return "[" + show(A[0], depth - 1) + "<0]"
    if op == "eq0":
        return "[" + show(A[0], depth - 1) + "==0]"
    if op == "eqc":
        return "[" + show(A[0], depth - 1) + "==" + show(A[1], depth - 1) + "]"
    if op == "call":
        return str(A[0]).rsplit("::", 1)[-1] + "(" + ", ".join(show(x, depth - 1) for x in A[1:]) + ")"
    if op == "case":
        return "case{" + "; ".join(show(g, depth - 1) + ": " + show(v, depth - 1) for g, v in A[0]) + "}"
    return op + "(" + ", ".join(show(x, depth - 1) for x in A) + ")"


# ---------------------------------------------------------------------- traverse
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


# ------------------------------------------------------------ boundary values
def replace(t, a, val, memo=None):
    """t with every free occurrence of the atom a replaced by the numeric term val"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x is a:
            return val
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "poly":
            parts = []
            for c, m in x.args[0]:
                fs, bs = _refresh(*m.args)
                p = num(c)
                for at, e in fs:
                    q = go(at)
                    p = _mul2(p, powr(q if q.op == "poly" else atom(q), e))
                nb = tuple((v, go(l), go(h)) for v, l, h in bs)
                parts.append(sum_binders(p, nb) if bs else p)
            r = add(*parts) if parts else ZERO
        elif x.op == "bind":
            r = mk("bind", x.args[0], go(x.args[1]))
        elif x.op == "case":
            r = case(list(go(x.args[0])))
        else:
            args = go(x.args)
            r = x if args == x.args else rebuild(x, args)
        memo[x] = r
        return r
    return go(t)


def boundaries(*ts):
    """(atom, solution) pairs putting a free comparison of ts exactly on its boundary"""
    free = set()
    for t in ts:
        free |= set(t.fv)
    out, seen = [], set()
    for t in ts:
        for x in subterms(t):
            if x.op not in ("lt0", "eq0") or not set(x.fv) <= free:
                continue
            p = x.args[0]
            p = p if p.op == "poly" else None
            if p is None or p in seen:
                continue
            seen.add(p)
            best = None
            for c, m in p.args[0]:
                if m.args[1]:
                    continue
                mono = mk("poly", ((c, m),))
                others = sub(p, mono)
                for a, e in m.args[0]:
                    if e != 1 or a.op not in ("at", "var", "call", "eff"):
                        continue
                    rest = div(mono, atom(a))
                    if any(y is a for y in subterms((others, rest))):
                        continue
                    best = (a, div(neg(others), rest))
                    break
                if best is not None:
                    break
            if best is not None:
                out.append(best)
    return out


def equal_on_boundaries(a, b, samples=8):
    if a is b:
        return True
    for at, sol in boundaries(a, b):
        try:
            x, y = replace(a, at, sol), replace(b, at, sol)
        except (ZeroDivisionError, ValueError):
            continue
        if x is y:
            continue
        good, bad = 0, False
        for k in range(samples * 8):
            it = Interp(k, signed=(k % 2 == 1))
            try:
                if isnum(x):
                    u, v = it.num(x), it.num(y)
                    if abs(u - v) > 1e-7 * max(1.0, abs(u), abs(v)):
                        return False
                elif it.val(x) != it.val(y):
                    return False
            except (DomainError, ZeroDivisionError, OverflowError):
                continue
            good += 1
            if good >= samples:
                break
    return True
