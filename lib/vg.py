"""Value graph: a forward value-numbering analysis of one function (callees
inlined, loops summarised) that maps every location a function writes and the
value it returns to a normal-form term over its inputs.

Nothing is executed and no path is enumerated: branches are joined with
Iverson brackets, loops with a symbolic trip count are summarised into bound
sums / quantified stores, everything else becomes an opaque term."""
import re
from fractions import Fraction as Fr
from terms import *
import terms as T


import os as _os
DEBUG = bool(_os.environ.get("VGDEBUG"))


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
_tcache = {}
_NUM = {"double", "float", "long double", "int", "unsigned int", "long", "unsigned long", "short",
        "unsigned short", "char", "unsigned char", "signed char", "long long", "unsigned long long",
        "dealii::TrilinosWrappers::internal::VectorReference", "const dealii::TrilinosWrappers::internal::VectorReference"}
_INT = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char",
        "signed char", "long long", "unsigned long long"}


def strip_cv(t):
    t = (t or "").strip()
    while True:
        o = t
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
        for s in (" const", "&", "*", " "):
            if t.endswith(s):
                t = t[:-len(s)]
        if o == t:
            return t


def ptype(t):
    r = _tcache.get(t)
    if r is None:
        r = _tcache[t] = _ptype(strip_cv(t))
    return r


def _ptype(t):
    if t == "bool":
        return ("bool",)
    if t in _NUM:
        return ("num", t in _INT)
    m = re.match(r"dealii::(SymmetricTensor|Tensor)<(\d+), (\d+)(?:, [^<>]*)?>$", t)
    if m:
        k, r, d = m.group(1), int(m.group(2)), int(m.group(3))
        if r == 0:
            return ("num", False)
        return ("tens", "S" if k[0] == "S" else "T", r, d)
    m = re.match(r"dealii::Point<(\d+)(?:, [^<>]*)?>$", t)
    if m:
        return ("tens", "T", 1, int(m.group(1)))
    return ("obj", t)


CONTAINERS = ("std::vector<", "std::array<", "dealii::Vector<", "dealii::FullMatrix<", "dealii::Table<",
              "std::map<", "dealii::TableBase<", "dealii::TableBase", "std::unordered_map<", "std::deque<")


def is_vector(t):
    """distributed vectors"""
    return strip_cv(t).startswith(("dealii::TrilinosWrappers::MPI::", "dealii::LinearAlgebraTrilinos::MPI::", "dealii::BlockVectorBase<",
                                   "dealii::TrilinosWrappers::MPI", "dealii::BlockVector<"))


def is_container(t):
    t = strip_cv(t)
    return t.startswith(CONTAINERS)


# ----------------------------------------------------------------- values
class Loc:
    __slots__ = ("root", "steps", "ten")

    def __init__(self, root, steps=(), ten=None):
        self.root = root
        self.steps = steps
        self.ten = ten          # (position, kind, rank) of the tensor being indexed

    def f(self, n):
        return Loc(self.root, self.steps + (("f", n),))

    def i(self, t, ten=None):
        l = Loc(self.root, self.steps + (("i", t),), ten or self.ten)
        if l.ten:
            pos, kind, rank = l.ten
            if kind == "S" and len(l.steps) - pos == rank:
                l.steps = l.steps[:pos] + canon_sym(l.steps[pos:])
        return l

    def __repr__(self):
        return str(self.root) + "".join("." + str(s[1]) if s[0] == "f" else "[%s]" % show(s[1]) for s in self.steps)


def canon_sym(ss):
    out = []
    for k in range(0, len(ss), 2):
        a, b = ss[k], ss[k + 1]
        ca, cb = const(a[1]), const(b[1])
        if ca is not None and cb is not None and ca > cb:
            a, b = b, a
        out += [a, b]
    return tuple(out)


class Lam:
    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class Iota:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def member(s, x):
    """x is an element of the index set or a key of the map"""
    if s.op == "keys":
        return lnot(T.eq(mk("call", "find", s.args[0], x), mk("call", "end", s.args[0])))
    return atom(mk("b", mk("call", "is_element", s, x)))


def vg_first(t):
    return first_targ(t[t.index("<") + 1:])


class MapElem:
    """element of a map reached by iteration"""

    def __init__(self, loc, key):
        self.loc, self.key = loc, key


def keeps_size(v):
    """contents that replace an array's, entry by entry"""
    if isinstance(v, Term) and v.op == "mu" and len(v.args) > 3 and isinstance(v.args[3], Term) and v.args[3].op == "bind":
        return keeps_size(v.args[3].args[1][-1])
    return isinstance(v, Term) and (v.op == "refill" or v.op == "out" and v.args[1].op == "call" and v.args[1].args[0] in PURE_OUT)


class Store:
    __slots__ = ("kind", "steps", "val", "guard", "vars", "line", "ptn")

    def __init__(self, kind, steps, val, guard, vars=(), line=0):
        self.kind, self.steps, self.val, self.guard, self.vars, self.line = kind, steps, val, guard, vars, line

    def mentions(self, pred):
        for x in (self.steps, self.val, self.guard):
            for t in subterms(x):
                if pred(t):
                    return True
        return False


class Phi:
    """marks a loop head in a store log"""
    __slots__ = ("kind", "lid", "pats", "var", "closed", "root")

    def __init__(self, lid, root, pats, var, closed):
        self.kind = "phi"
        self.lid, self.root, self.pats, self.var, self.closed = lid, root, pats, var, closed


T.OBJ_OPS |= {"phi", "objst", "rec", "any", "red", "rng", "lamv", "store", "scaled", "refill", "ilist"}
BOOL_OPS.add("any")


def at(base, steps):
    """object-level access path"""
    if not steps:
        return base
    if base.op == "at":
        return mk("at", base.args[0], base.args[1] + tuple(steps))
    return mk("at", base, tuple(steps))


def _r_elem(a, args):
    """element of an index set by number"""
    p = single_atom(args[1]) if isnum(args[1]) else None
    if p is not None and p.op == "position" and p.args[0] is args[0]:
        return p.args[1]
    return atom(mk("elem", *args))


T.REBUILD["elem"] = _r_elem
T.OBJ_OPS |= {"keys"}


def typed(objterm, pt, facts=None):
    """view of an object-level term at the given type"""
    if objterm.op in ("poly",):
        return objterm
    if objterm.op == "tens":
        return objterm
    if objterm.op == "undef" and pt[0] in ("num", "bool"):
        return ZERO
    if objterm.op == "case" and pt[0] != "obj":
        vs = [(g, typed(v, pt)) for g, v in objterm.args[0]]
        if pt[0] == "tens":
            r = None
            es = []
            for k in range(pt[3] ** pt[2]):
                es.append(add(*[mul(g, v.args[3][k]) for g, v in vs]))
            return mk("tens", pt[1], pt[2], pt[3], tuple(es))
        return add(*[mul(g, v) for g, v in vs])
    if pt[0] == "num":
        return atom(objterm)
    if pt[0] == "bool":
        return atom(mk("b", objterm))
    if pt[0] == "tens":
        return tens_gen(pt[1], pt[2], pt[3], lambda ix: typed(at(objterm, tuple(("i", num(k)) for k in ix)), ("num", False)))
    return objterm


def tens_gen(kind, rank, dim, f):
    es = []
    memo = {}
    for k in range(dim ** rank):
        ix = []
        m = k
        for _ in range(rank):
            ix.append(m % dim)
            m //= dim
        ix.reverse()
        ix = tuple(ix)
        if kind == "S":
            ix = tuple(x for p in range(0, rank, 2) for x in sorted(ix[p:p + 2]))
        if ix not in memo:
            memo[ix] = f(ix)
        es.append(memo[ix])
    return mk("tens", kind, rank, dim, tuple(es))


def tget(t, ix):
    k = 0
    for i in ix:
        k = k * t.args[2] + i
    return t.args[3][k]


def tens_like(kind, rank, dim, f):
    import itertools
    return mk("tens", kind, rank, dim, tuple(f(ix) for ix in itertools.product(range(dim), repeat=rank)))


def tmap(t, f):
    return mk("tens", t.args[0], t.args[1], t.args[2], tuple(f(x) for x in t.args[3]))


def tzip(a, b, f):
    k = "S" if a.args[0] == b.args[0] == "S" else "T"
    if a.args[1:3] != b.args[1:3]:
        raise Unsupported("tensor shapes %s %s" % (a.args[:3], b.args[:3]))
    return mk("tens", k, a.args[1], a.args[2], tuple(f(x, y) for x, y in zip(a.args[3], b.args[3])))


def contract(a, b, n):
    """contract the last n indices of a with the first n of b (in order)"""
    ra, rb, d = a.args[1], b.args[1], a.args[2]
    r = ra + rb - 2 * n
    import itertools
    inner = list(itertools.product(range(d), repeat=n))

    def entry(ix):
        return add(*[mul(tget(a, ix[:ra - n] + c), tget(b, c + ix[ra - n:])) for c in inner])
    if r == 0:
        return entry(())
    memo = {}
    kind = "S" if n == 2 and a.args[0] == "S" and b.args[0] == "S" else "T"
    return tens_like(kind, r, d, entry)


def is_tens(x):
    return isinstance(x, Term) and x.op == "tens"


def zero_tens(pt):
    return mk("tens", pt[1], pt[2], pt[3], (ZERO,) * (pt[3] ** pt[2]))


UNDEF = mk("undef")


def default_value(pt):
    if pt[0] == "tens":
        return zero_tens(pt)
    if pt[0] in ("num", "bool"):
        return ZERO
    return UNDEF


# ----------------------------------------------------------------- evaluator
class Frame:
    def __init__(self, func, this, path):
        self.func = func
        self.env = {}
        self.this = this
        self.dead = ZERO
        self.rets = []
        self.loops = []
        self.cnt = {}
        self.path = path      # string identifying the inline instance


_eff = {}


class LoopCtx:
    def __init__(self):
        self.dead = ZERO
        self.broke = False
        self.brk = ZERO


SIZES = (("f", "#size"), ("f", "#size2"))
SIZED = ("std::vector<", "dealii::Vector<", "dealii::FullMatrix<")
ALGORITHMS = ("fill", "fill_n", "iota", "copy", "for_each", "transform", "accumulate", "any_of", "all_of", "none_of", "distance")
ITERABLE = ("std::vector<", "std::array<", "dealii::Vector<")
IGNORED_T = ("std::basic_ostream", "dealii::ConditionalOStream", "dealii::TimerOutput", "std::basic_ofstream",
             "gCP::Utilities::Logger", "dealii::TableHandler", "dealii::TableHandler")
# external non-const methods that fully re-initialise their object
READERS = {"get_data", "try_get_data", "begin_active", "end", "begin", "active_cell_iterators", "locally_owned_domain_indices"}
RESETTING = {"reinit", "set_time"}
PURE_OUT = {"get_function_values", "get_function_gradients", "get_function_symmetric_gradients",
            "get_dof_indices", "get_function_divergences", "vector_value_list", "value_list"}


class Eval:
    def __init__(self, prog, opaque=None, hooks=None, alias=None, max_unroll=8, depth=40, generic=None):
        self.prog = prog
        self.generic = generic       # loops over ranges with this property: one iteration instead of a summary
        self.opaque = opaque or (lambda q: False)
        self.hooks = hooks or {}
        self.mutations = []          # calls of non-const methods that stay opaque
        self.outs = []               # arguments opaque calls may write: (call, position, location, guard, line, event index)
        self.alias = alias
        self.max_unroll = max_unroll
        self.logs = {}
        self.base = {}
        self.ranges = {}
        self.outer = ONE
        self.path = ONE
        self.frames = []
        self.events = []
        self.n_inst = 0
        self.n_top = 0
        self.maxdepth = depth
        self.loopcache = {}
        self.loopids = {}
        self.declared = None
        self.accesses = False      # events for indexed accesses to containers
        self.covered = set()
        self.evkey = ()
        self.hookctx = []

    def effects(self):
        if self.prog not in _eff:
            import effects
            _eff[self.prog] = effects.Effects(self.prog)
        return _eff[self.prog]

    # -------- roots
    def sym(self, name):
        r = "$" + name
        if r not in self.base:
            self.base[r] = mk("sym", name)
            self.logs[r] = []
        return Loc(r)

    def known_root(self, root):
        """globals and statics first mentioned inside a loop"""
        if root not in self.logs and str(root).startswith("$"):
            self.sym(root[1:])

    def newroot(self, key, base):
        r = key
        self.base[r] = base
        self.logs[r] = []
        if self.declared is not None:
            self.declared.add(r)
        return Loc(r)

    # -------- guards
    def eff(self):
        g = self.path
        fr = self.frames[-1] if self.frames else None
        if fr is not None:
            if fr.dead is not ZERO:
                g = mul(g, lnot(fr.dead))
            for lc in fr.loops:
                if lc.dead is not ZERO:
                    g = mul(g, lnot(lc.dead))
        return g

    def full(self):
        e = self.eff()
        return mul(self.outer, e) if self.outer is not ONE else e

    # -------- stores
    def store(self, kind, loc, val, line=0):
        if isinstance(loc, Term) or loc is None:
            # writing through an opaque reference: record only
            self.events.append(("opaque-write", loc, kind, val, self.full(), line))
            return
        g = self.full()
        if g is ZERO:
            return
        self.logs[loc.root].append(Store(kind, loc.steps, val, g, (), line))

    # -------- matching
    def match(self, st, steps):
        """-> None (no overlap) | (cond, subst, residual, freevars)"""
        ps = st.steps
        if len(ps) > len(steps):
            return "partial" if self._compat(st, steps) else None
        s = {}
        free = {v: (lo, hi) for v, lo, hi in st.vars}
        cond = ONE
        for p, q in zip(ps, steps):
            if p[0] != q[0]:
                return None
            if p[0] == "f":
                if p[1] != q[1]:
                    return None
                continue
            a, b = p[1], q[1]
            if isinstance(a, Term) and a.fv and free:
                a = subst(a, s)
                fr = [v for v in free if v in a.fv and v not in s]
                if fr:
                    if not isnum(a) or not isnum(b):
                        raise Unsupported("quantified object key")
                    sol = None
                    for v in fr:
                        sol = solve_linear(sub(a, b), v)
                        if sol is not None and not any(w in sol.fv for w in fr):
                            break
                        sol = None
                    if sol is None:
                        # elements of an index set are distinct
                        w = single_atom(a)
                        k = single_atom(w.args[1]) if w is not None and w.op == "elem" else None
                        if k is not None and k.op == "var" and k.args[0] in fr:
                            s[k.args[0]] = atom(mk("position", w.args[0], b))
                            cond = mul(cond, member(w.args[0], b))
                            continue
                    if sol is None:
                        raise Unsupported("cannot solve index %s = %s" % (show(a), show(b)))
                    lo, hi = free[v]
                    s[v] = sol
                    cond = mul(cond, in_range(sol, subst(lo, s), subst(hi, s), self.ranges))
                    continue
            e = eq(a, b) if (a.op == "poly") == (b.op == "poly") else eq(self._obj(a), self._obj(b))
            if e is ZERO:
                return None
            cond = mul(cond, e)
        fv = tuple((v, lo, hi) for v, lo, hi in st.vars if v not in s)
        return cond, s, steps[len(ps):], fv

    def _obj(self, t):
        return t

    def _compat(self, st, steps):
        for p, q in zip(st.steps, steps):
            if p[0] != q[0]:
                return False
            if p[0] == "f":
                if p[1] != q[1]:
                    return False
            else:
                a, b = p[1], q[1]
                if not (a.fv & {v for v, _, _ in st.vars}) and eq(a, b) is ZERO:
                    return False
        return True

    # -------- reading
    def read(self, loc, t):
        pt = ptype(t) if isinstance(t, str) else t
        if isinstance(loc, Term):
            return self.coerce(loc, pt)
        if not isinstance(loc, Loc):
            return loc
        base = self.base[loc.root]
        return self.walk(base, self.logs[loc.root], loc.steps, pt, self.full())

    def coerce(self, v, pt):
        if v.op == "poly" or v.op == "tens":
            return v
        return typed(v, pt)

    def walk(self, base, log, steps, pt, g):
        if pt[0] == "tens":
            # one whole store newest and covering?
            r = self._walk_tens(base, log, steps, pt, g)
            if r is not None:
                return r
            rank, dim, kind = pt[2], pt[3], pt[1]

            def comp(ix):
                ss = tuple(("i", num(k)) for k in ix)
                if kind == "S":
                    ss = canon_sym(ss)
                return self.walk(base, log, steps + ss, ("num", False), g)
            return tens_gen(kind, rank, dim, comp)
        pend = []
        result = None
        partial = False
        for st in reversed(log):
            if st.kind == "phi":
                r = self._phi(st, steps, pt)
                if r is not None:
                    result = r
                    break
                continue
            m = self.match(st, steps)
            if m is None:
                continue
            if m == "partial":
                if pt[0] == "obj":
                    partial = True
                    break
                continue
            cond, s, rest, fv = m
            if rest and rest[-1] in SIZES and keeps_size(st.val):
                continue
            gd = subst(st.guard, s) if s else st.guard
            cond = mul(cond, gd)
            if cond is ZERO:
                continue
            if not (cond.fv & {v for v, _, _ in fv}):
                gc = mul(g, cond)
                if gc is ZERO:
                    continue
            else:
                gc = None
            val = subst(st.val, s) if s else st.val
            val = self.descend(val, rest, pt)
            if st.kind == "add":
                if pt[0] == "obj":
                    raise Unsupported("object read of accumulated location")
                q = mul(cond if gc is not g else ONE, val)
                if fv:
                    q = sum_binders(q, fv)
                pend.append(("add", None, q))
                continue
            if fv:
                raise Unsupported("set with free binder")
            if gc is g:
                result = val
                break
            pend.append(("set", cond, val))
        if partial:
            return self.snapshot(base, log, steps, pt)
        if result is None:
            result = self.frombase(base, steps, pt)
        for k, c, v in reversed(pend):
            if k == "add":
                result = add(result, v)
            else:
                result = ite(c, v, result)
        return result

    def _walk_tens(self, base, log, steps, pt, g):
        for st in reversed(log):
            if st.kind == "phi":
                return None
            m = self.match(st, steps)
            if m is None:
                continue
            if m == "partial":
                return None
            cond, s, rest, fv = m
            if st.kind != "set" or fv:
                return None
            gd = subst(st.guard, s) if s else st.guard
            gc = mul(g, mul(cond, gd))
            if gc is ZERO:
                continue
            if gc is not g:
                return None
            val = subst(st.val, s) if s else st.val
            return self.descend(val, rest, pt)
        return typed(self.frombase(base, steps, pt), pt) if base is not UNDEF else zero_tens(pt)

    def snapshot(self, base, log, steps, pt):
        rel = []
        for k, st in enumerate(log):
            if st.kind == "phi":
                if self._overwritten(st, steps, log[k + 1:]):
                    continue
                r = self._phi(st, steps, pt)
                if r is not None:
                    rel = [("phi", (), r, ONE, ())]
                continue
            m = self.match(st, steps)
            if m is None:
                continue
            if m == "partial":
                rest = st.steps[len(steps):]
                rel.append((st.kind, rest, st.val, st.guard, st.vars, st.steps[:len(steps)]))
            else:
                cond, s, rest, fv = m
                if s or fv:
                    val = subst(st.val, s)
                    gd = subst(st.guard, s)
                    if fv:
                        raise Unsupported("snapshot of summed object")
                else:
                    val, gd = st.val, st.guard
                if rest:
                    val = self.descend(val, rest, ("obj", ""))
                if isinstance(val, Term) and val.op == "refill":
                    val = mk("fill", val.args[0], self.walk(base, log[:log.index(st)], steps + (("f", "#size"),), ("num", True), self.full()))
                c = mul(cond, gd)
                if c is ONE or mul(self.full(), c) is self.full():
                    rel = []
                rel.append((st.kind, (), val, c, ()))
        if len(rel) == 1 and rel[0][0] in ("set", "phi") and rel[0][1] == () and rel[0][3] is ONE:
            return rel[0][2]
        if not rel:
            return self.frombase(base, steps, pt)
        b = self.frombase(base, steps, ("obj", ""))
        if rel[0][0] in ("set", "phi") and rel[0][1] == () and (rel[0][3] is ONE or mul(self.full(), rel[0][3]) is self.full()):
            b = rel[0][2]
            rel = rel[1:]
            if not rel:
                return b
        sts = []
        for r in rel:
            kind, rest, val, gd, vs = r[:5]
            vn = tuple(v for v, _, _ in vs)
            if len(r) > 5:
                # prefix matched with binders?
                pre = r[5]
                st = Store("set", pre, ZERO, gd, vs)
                m = self.match(st, steps)
                if m is None:
                    continue
                cond, s, _, fv = m
                if s:
                    rest = tuple((k, subst(x, s)) if k == "i" else (k, x) for k, x in rest)
                    val = subst(val, s)
                    gd = subst(gd, s)
                    vs = tuple((v, subst(lo, s), subst(hi, s)) for v, lo, hi in vs if v not in s)
                gd = mul(gd, cond)
            full = self.full()
            if mul(full, gd) is full:
                gd = ONE
            vn = tuple(v for v, _, _ in vs)
            sts.append(mkbind(vn, (kind, rest, val, gd, tuple((lo, hi) for _, lo, hi in vs))))
        return mk("objst", b, tuple(sts))

    def _overwritten(self, ph, steps, later):
        """has this iteration already overwritten every part of the object that
        the loop writes?  Then the value at the loop head does not matter."""
        full = self.full()
        have = None
        n = len(steps)
        for p in ph.pats:
            a, b = p.steps[:n], steps[:len(p.steps)]
            if any(x[0] != y[0] or (x[0] == "f" and x[1] != y[1]) for x, y in zip(a, b)):
                continue
            if len(p.steps) <= n or a != steps or p.kind == "phi":
                return False
            if ph.var in mk("w", p.steps).fv or any(ph.var in lo.fv | hi.fv for _, lo, hi in p.vars):
                return False
            if have is None:
                have = set()
                for st in later:
                    if st.kind == "set" and mul(full, st.guard) is full:
                        have.add(self._region(st))
            if self._region(p) not in have:
                return False
        return have is not None

    def _region(self, st):
        vs = tuple(v for v, _, _ in st.vars)
        return mkbind(vs, (st.steps, tuple((lo, hi) for _, lo, hi in st.vars)))

    def open_objst(self, t):
        log = []
        for b in t.args[1]:
            vs, (kind, rest, val, gd, rg) = b.args
            ren = {v: var(fresh()) for v in vs}
            rest = tuple((k, subst(x, ren)) if k == "i" else (k, x) for k, x in rest)
            names = [varname(ren[v]) for v in vs]
            log.append(Store(kind if kind != "phi" else "set", rest, subst(val, ren), subst(gd, ren),
                             tuple((n, subst(lo, ren), subst(hi, ren)) for n, (lo, hi) in zip(names, rg))))
        return t.args[0], log

    def frombase(self, base, steps, pt):
        return self.descend(base, steps, pt)

    def descend(self, v, steps, pt):
        k = 0
        while k < len(steps):
            st = steps[k]
            if v.op == "poly":
                return v           # fill value reached early
            if v.op == "undef":
                return default_value(pt)
            if v.op == "tens" and st[0] == "f":
                raise Unsupported("member %s of a tensor" % st[1])
            if v.op == "tens":
                ix = []
                while k < len(steps) and steps[k][0] == "i" and len(ix) < v.args[1]:
                    ix.append(steps[k][1])
                    k += 1
                cs = [const(x) for x in ix]
                if len(ix) == v.args[1]:
                    if all(c is not None for c in cs):
                        return tget(v, tuple(int(c) for c in cs))
                    import itertools
                    out = ZERO
                    for jj in itertools.product(range(v.args[2]), repeat=len(ix)):
                        c = ONE
                        for a, b in zip(ix, jj):
                            c = mul(c, eq(a, num(b)))
                        if c is not ZERO:
                            out = add(out, mul(c, tget(v, jj)))
                    return out
                if any(c is None for c in cs):
                    raise Unsupported("symbolic tensor row")
                pre = tuple(int(c) for c in cs)
                v = tens_like("T" if len(ix) % 2 or v.args[0] == "T" else "S", v.args[1] - len(ix), v.args[2],
                              lambda jx, v=v, pre=pre: tget(v, pre + jx))
                continue
            if v.op == "refill":
                v = v.args[0]
                k += 1
                continue
            if v.op == "scaled":
                if st[0] == "f":
                    v = v.args[0]
                    continue
                r = self.descend(v.args[0], steps[k:], pt)
                if r.op == "poly":
                    return mul(r, v.args[1])
                if r.op == "tens":
                    return tmap(r, lambda x: mul(x, v.args[1]))
                return mk("scaled", r, v.args[1])
            if v.op == "fill":
                if st == ("f", "#size"):
                    return v.args[1]
                if st == ("f", "#size2"):
                    return v.args[2] if len(v.args) > 2 else v.args[1]
                v = v.args[0]
                k += 1
                continue
            if v.op == "case":
                return case_num([(g, self.descend(w, steps[k:], pt)) for g, w in v.args[0]])
            if v.op == "rec":
                d = dict(v.args[0])
                key = st[1] if st[0] == "f" else None
                if key in d:
                    v = d[key]
                    k += 1
                    continue
            if v.op == "ilist":
                if st == ("f", "#size"):
                    return num(len(v.args[0]))
                c = const(st[1]) if st[0] == "i" else None
                if c is not None and 0 <= c < len(v.args[0]):
                    v = v.args[0][int(c)]
                    k += 1
                    continue
                if st[0] == "i":
                    out = [(eq(st[1], num(n)), self.descend(w, steps[k + 1:], pt)) for n, w in enumerate(v.args[0])]
                    return case_num(out)
            if v.op == "objst":
                b, log = self.open_objst(v)
                return self.walk(b, log, steps[k:], pt, self.full())
            if steps[k:] == (("f", "#size"),):
                r = mk("size", v)
                return atom(r)
            r = at(v, steps[k:])
            if self.alias:
                a = self.alias(r, pt)
                if a is not None:
                    return a
            return typed(r, pt)
        if pt[0] != "obj" and v.op not in ("poly", "tens"):
            return typed(v, pt)
        return v

    def _phi(self, ph, steps, pt):
        """value at the loop head, None when the loop does not carry this location"""
        hit = None
        for pat in ph.pats:
            st = pat
            n = min(len(st.steps), len(steps))
            ok = True
            if steps and steps[-1] in SIZES and len(st.steps) < len(steps) and keeps_size(st.val):
                continue
            for p, q in zip(st.steps[:n], steps[:n]):
                if p[0] != q[0]:
                    ok = False
                    break
                if p[0] == "f":
                    if p[1] != q[1]:
                        ok = False
                        break
                    continue
                a, b = p[1], q[1]
                if not (isnum(a) and isnum(b)):
                    if eq(a, b) is ZERO:
                        ok = False
                        break
                    continue
                if ph.var in a.fv:
                    w = fresh()
                    sol = solve_linear(sub(subst(a, {ph.var: var(w)}), b), w)
                    if sol is var(ph.var):
                        # only this very iteration can have written it
                        ok = False
                        break
                    continue
                if a.fv & {v for v, _, _ in st.vars}:
                    continue
                if eq(a, b) is ZERO:
                    ok = False
                    break
            if ok:
                hit = pat
                break
        if hit is None:
            return None
        c = ph.closed.get(steps) if ph.closed else None
        if c is not None:
            return c
        return typed(mk("phi", ph.lid, str(ph.root), steps), pt)

    # -------- functions
    def frame_path(self, name, line):
        """deterministic name of an inline instance; distinct for every call evaluated in a frame"""
        key = "/%s@%d" % (name, line)
        if not self.frames:
            self.n_top += 1
            return "%s~%d" % (key, self.n_top)
        fr = self.frames[-1]
        k = fr.cnt[key] = fr.cnt.get(key, 0) + 1
        return fr.path + key + ("" if k == 1 else "~%d" % k)

    def call(self, func, this, args, line=0):
        """inline a repository function; args: list of Loc/Term values"""
        if len(self.frames) > self.maxdepth:
            raise Unsupported("inline depth")
        self.covered.add((func["q"], func["relfile"], func["line"]))
        path = self.frame_path(func["name"], line)
        fr = Frame(func, this, path)
        for p, a in zip(func["params"], args):
            self.bindparam(fr, p, a)
        for p in func["params"][len(args):]:
            fr.env[p["d"]] = UNDEF
        souter, spath = self.outer, self.path
        g = self.full()
        self.outer, self.path = g, ONE
        self.frames.append(fr)
        try:
            if func["kind"] == "ctor" and isinstance(this, Loc):
                self.default_members(func, this)
            for ini in func.get("inits") or []:
                self.ctor_init(ini, this)
            if func.get("body"):
                self.exec(func["body"])
        finally:
            self.frames.pop()
            self.outer, self.path = souter, spath
        return self.merge_rets(fr, func)

    def default_members(self, func, this):
        """members without an initialiser: class types are default
        constructed, scalars stay indeterminate"""
        rec = self.prog.records.get(func.get("cls") or "")
        if not rec:
            return
        done = {i.get("m") for i in func.get("inits") or [] if i.get("m") and i.get("e") is not None}
        for fd in rec["fields"]:
            if fd["n"] in done or fd.get("ref"):
                continue
            pt = ptype(fd["t"])
            if fd["t"].rstrip().endswith("*"):
                continue
            if pt[0] in ("num", "bool") or pt[0] == "obj" and pt[1] in self.prog.enums:
                self.store("set", this.f(fd["n"]), mk("sym", "uninit:" + fd["n"]))
            elif pt[0] == "tens":
                self.store("set", this.f(fd["n"]), zero_tens(pt))
            elif is_container(fd["t"]):
                self.store("set", this.f(fd["n"]), mk("fill", UNDEF, ZERO))
            elif pt[1] in self.prog.records:
                for c in self.prog.funcs.values():
                    if c["kind"] == "ctor" and c.get("cls") == pt[1] and not c["params"] and c.get("body") is not None:
                        self.call(c, this.f(fd["n"]), [])
                        break

    def merge_rets(self, fr, func):
        if not fr.rets:
            return None
        isref = func.get("rp") in ("r", "cr", "p", "cp", "rr")
        if len(fr.rets) == 1:
            v = fr.rets[0][1]
            if isinstance(v, Loc):
                if isref:
                    return v
                pt = ptype(func["ret"])
                if pt[0] == "obj" and str(v.root).startswith("%"):
                    return v
                return self.read(v, pt)
            return v
        pt = ptype(func["ret"])
        vals = []
        for g, v in fr.rets:
            if isinstance(v, Loc):
                v = self.read(v, pt)
            if isinstance(v, (Lam, Iota)) or v is None:
                raise Unsupported("return value")
            vals.append((g, v))
        out = vals[-1][1]
        for g, v in reversed(vals[:-1]):
            out = ite(g, v, out)
        return out

    def bindparam(self, fr, p, a):
        if isinstance(a, (Lam, Iota)) or a is None:
            fr.env[p["d"]] = a
            return
        if p["pm"] in ("r", "cr", "p", "cp", "rr"):
            fr.env[p["d"]] = a
            if isinstance(a, Term):
                l = self.newroot("%" + fr.path + ":" + p["n"], a)
                fr.env[p["d"]] = l
            return
        pt = ptype(p["t"])
        if "shared_ptr" in p["t"] or "unique_ptr" in p["t"]:
            if isinstance(a, Loc):
                fr.env[p["d"]] = a
                return
        if isinstance(a, Loc) and pt[0] == "obj" and strip_const(p["t"]) != p["t"]:
            fr.env[p["d"]] = a      # const by-value copy: same contents
            return
        v = self.read(a, pt) if isinstance(a, Loc) else self.coerce(a, pt)
        fr.env[p["d"]] = self.newroot("%" + fr.path + ":" + p["n"], v)

    def ctor_init(self, ini, this):
        e = ini.get("e")
        if "m" in ini and ini["m"]:
            l = this.f(ini["m"])
            self.init_loc(l, e, ini.get("t") or (e or {}).get("t", ""), ini.get("l", 0))
        elif e is not None:
            # base class or delegating constructor
            if e.get("k") in ("ctor", "copy"):
                f = self.prog.funcs.get(e["f"].get("u"))
                if f is not None and f.get("body") is not None:
                    self.call(f, this, [self.ev(a) for a in e["a"]], ini.get("l", 0))
                elif e["k"] == "copy":
                    v = self.ev(e["a"][0])
                    self.store("set", this, self.read(v, ("obj", "")) if isinstance(v, Loc) else v, ini.get("l", 0))

    def init_loc(self, l, e, t, line):
        pt = ptype(t)
        if e is None:
            self.store("set", l, default_value(pt), line)
            return
        v = self.ev(e)
        self.assign_loc(l, v, pt, line)

    def assign_loc(self, l, v, pt, line, kind="set"):
        if isinstance(v, Loc):
            v = self.read(v, pt)
        elif isinstance(v, Term):
            v = self.coerce(v, pt)
        elif v is None:
            v = UNDEF
        elif isinstance(v, (Lam, Iota)):
            v = mk("lamv", str(id(v)))
        self.store(kind, l, v, line)

    # -------- statements
    def exec(self, s):
        if s is None:
            return
        k = s["k"]
        if self.full() is ZERO:
            return
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement " + k)
        m(s)

    def s_blk(self, s):
        ss = s["s"]
        for i, x in enumerate(ss):
            self.exec(x)

    def s_null_stmt(self, s):
        pass

    def s_default(self, s):
        self.exec(s.get("s"))

    def s_try(self, s):
        self.exec(s["body"])

    def s_expr(self, s):
        e = s["e"]
        if self.is_ignored(e):
            return
        self.ev(e)

    def is_ignored(self, e):
        t = strip_cv(e.get("t", ""))
        return t.startswith(IGNORED_T) and e.get("k") in ("opcall", "mcall", "call") and not self.formats(e)

    def formats(self, e):
        """a chain of << into a string stream: the stream's content is a value"""
        while e.get("k") == "opcall" and e["op"] == "<<":
            e = e["a"][0]
        return "stringstream<" in e.get("t", "")

    def s_decl(self, s):
        for v in s["v"]:
            self.decl(v)

    def decl(self, v):
        fr = self.frames[-1]
        if v.get("k") not in ("var", None):
            return
        t = v["t"]
        pt = ptype(t)
        init = v.get("init")
        if strip_cv(t).startswith(IGNORED_T):
            a = [x for x in (init or {}).get("a", ())] if strip_cv(t).startswith("std::basic_ofstream") else []
            fr.env[v["d"]] = mk("call", "file", self.rv(a[0])) if a else mk("sym", "ignored")
            return
        if v.get("static") and not v.get("cst") and not v.get("ref"):
            # a static's value on entry is whatever earlier calls left in it
            x = mk("sym", "static:" + v["n"])
            fr.env[v["d"]] = self.newroot("%" + fr.path + ":%s#%s" % (v["n"], v["d"]), atom(x) if pt[0] in ("num", "bool") else x)
            return
        if v.get("ref") or t.rstrip().endswith("*"):
            x = self.ev(init) if init else UNDEF
            if isinstance(x, Term) and not v.get("ref") and fr.func.get("body") is not None and reassigned(fr.func["body"], v["d"]):
                x = self.newroot("%" + fr.path + ":%s#%s" % (v["n"], v["d"]), x)
            fr.env[v["d"]] = x
            return
        key = "%" + fr.path + ":%s#%s" % (v["n"], v["d"])
        if init is None:
            l = self.newroot(key, default_value(pt))
            if pt[0] in ("num", "bool"):
                self.base[key] = mk("sym", "uninit:" + v["n"])
            fr.env[v["d"]] = l
            return
        x = self.ev(init)
        if isinstance(x, (Lam, Iota)):
            fr.env[v["d"]] = x
            return
        if ("shared_ptr" in t or "unique_ptr" in t or "iterator" in strip_cv(t).lower()) and isinstance(x, Loc) and init["k"] not in ("new",) \
                and not (fr.func.get("body") is not None and self.generic is not None and "_ptr" not in t):
            fr.env[v["d"]] = x
            return
        if isinstance(x, Loc):
            if pt[0] == "obj" and str(x.root).startswith("%") and init["k"] in ("mcall", "call", "ctor", "opcall") :
                if x.root.startswith("%tmp"):
                    fr.env[v["d"]] = x
                    return
            x = self.read(x, pt)
        elif isinstance(x, Term):
            x = self.coerce(x, pt)
        else:
            x = UNDEF
        fr.env[v["d"]] = self.newroot(key, x)

    def cond(self, e):
        v = self.rv(e)
        if not isnum(v):
            return atom(mk("b", v))
        return tobool(v)

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"]) if "k" in s["init"] else None
        if s.get("cv"):
            self.decl(s["cv"])
        c = self.cond(s["c"])
        th, el = s.get("then"), s.get("else")
        saved = self.path
        if c is not ZERO and th is not None:
            self.path = mul(saved, c)
            if self.path is not ZERO:
                self.exec(th)
        if c is not ONE and el is not None:
            self.path = mul(saved, lnot(c))
            if self.path is not ZERO:
                self.exec(el)
        self.path = saved

    def s_switch(self, s):
        c = self.rv(s["c"])
        body = s["body"]
        stmts = body["s"] if body["k"] == "blk" else [body]
        # flatten nested case labels
        items = []

        def flat(st):
            if st["k"] == "case":
                items.append(("case", st["e"]))
                if st.get("s"):
                    flat(st["s"])
            elif st["k"] == "default":
                items.append(("default", None))
                if st.get("s"):
                    flat(st["s"])
            else:
                items.append(("stmt", st))
        for st in stmts:
            flat(st)
        guards = {}
        allc = ZERO
        for n, (k, e) in enumerate(items):
            if k == "case":
                v = self.rv(e)
                guards[n] = eq(c, v) if isnum(c) == isnum(v) else eq(c, v)
                allc = lor(allc, guards[n])
        saved = self.path
        fr = self.frames[-1]
        lc = LoopCtx()
        lc.isswitch = True
        fr.loops.append(lc)
        active = ZERO
        for n, (k, e) in enumerate(items):
            if k == "case":
                active = lor(active, guards[n])
            elif k == "default":
                active = lor(active, lnot(allc))
            else:
                if active is ZERO:
                    continue
                self.path = mul(saved, active)
                if e["k"] == "brk":
                    active = ZERO
                    continue
                self.exec(e)
                if self._ends(e):
                    active = ZERO
        fr.loops.pop()
        self.path = saved

    def _ends(self, st):
        if st["k"] in ("brk", "ret"):
            return True
        if st["k"] == "blk" and st["s"]:
            return self._ends(st["s"][-1])
        return False

    def s_brk(self, s):
        fr = self.frames[-1]
        lc = fr.loops[-1]
        g = self.eff()
        lc.dead = lor(lc.dead, g)
        lc.brk = lor(lc.brk, g)
        if not getattr(lc, "isswitch", False):
            lc.broke = True

    def s_cont(self, s):
        fr = self.frames[-1]
        for lc in reversed(fr.loops):
            if not getattr(lc, "isswitch", False):
                lc.dead = lor(lc.dead, self.eff())
                return

    def s_ret(self, s):
        fr = self.frames[-1]
        g = self.eff()
        v = None
        if s.get("e") is not None:
            v = self.ev(s["e"])
            if isinstance(v, Loc) and fr.func.get("rp", "v") == "v":
                pt = ptype(fr.func["ret"])
                if pt[0] != "obj":
                    v = self.read(v, pt)
        fr.rets.append((g, v))
        fr.dead = lor(fr.dead, g)

    # -------- loops
    def s_for(self, s):
        ini, c, inc, body = s.get("init"), s.get("c"), s.get("inc"), s.get("body")
        sh = self.for_shape(ini, c, inc, body)
        if sh is None:
            sh = self.iter_shape(s, ini, c, inc)
            if sh is not None:
                lo, hi, setit = sh
                cl, ch = const(lo), const(hi)
                if cl is not None and ch is not None and ch - cl <= self.max_unroll and not contains(body, "brk"):
                    for k in range(int(cl), int(ch)):
                        lc = LoopCtx()
                        lc.unrolled = True
                        self.frames[-1].loops.append(lc)
                        setit(num(k))
                        self.exec(body)
                        self.frames[-1].loops.pop()
                    return
                return self.summarise(s, lo, hi, 1, lambda v: setit(var(v)), lambda: self.exec(body))
            return self.opaque_loop(s, body)
        d, lo, hi, step, decl = sh
        self.run_range(s, d, lo, hi, step, body, decl)

    @staticmethod
    def countdown(c):
        """the variable of a condition 'i-- > 0'"""
        while c["k"] == "cast":
            c = c["e"]
        if c["k"] == "bin" and c["op"] in (">", "!="):
            y = c["y"]
            while y["k"] == "cast":
                y = y["e"]
            if y["k"] != "int" or int(y["v"]) != 0:
                return None
            c = c["x"]
            while c["k"] == "cast":
                c = c["e"]
        if c["k"] == "un" and c["op"] == "--" and c.get("post"):
            x = c["x"]
            while x["k"] == "cast":
                x = x["e"]
            return x.get("d") if x["k"] == "ref" and x.get("dk") == "local" else None
        return None

    def for_shape(self, ini, c, inc, body=None):
        if ini and c and not inc and ini["k"] == "decl" and len(ini["v"]) == 1 and ini["v"][0].get("init"):
            v = ini["v"][0]
            if ptype(v["t"])[0] == "num" and self.countdown(c) == v["d"] and not writes_local(body, v["d"]):
                return v["d"], ZERO, self.rv(v["init"]), -1, v
        if not ini or not c or not inc:
            return None
        fr = self.frames[-1]
        if ini["k"] == "decl" and ini["v"]:
            vs = ini["v"]
            if len(vs) > 1:
                # for (i = 0, n = size; i < n; ++i): the others are constants of the loop
                vs = sorted(vs, key=lambda w: not writes_local(inc, w["d"]))
                if any(writes_local(x, w["d"]) for w in vs[1:] for x in (c, inc, body)) or any(ptype(w["t"])[0] != "num" or not w.get("init") for w in vs):
                    return None
                for w in ini["v"]:
                    if w is not vs[0]:
                        self.decl(w)
            v = vs[0]
            if ptype(v["t"])[0] != "num" or not v.get("init"):
                return None
            d, start, decl = v["d"], self.rv(v["init"]), v
        elif ini["k"] == "expr" and ini["e"]["k"] == "assign" and ini["e"]["op"] == "=" and ini["e"]["lhs"]["k"] == "ref":
            d, start, decl = ini["e"]["lhs"]["d"], self.rv(ini["e"]["rhs"]), None
        else:
            return None
        return self._shape(d, start, c, inc, decl)

    def iter_shape(self, s, ini, c, inc):
        """for (it = x.begin(); it != x.end(); ++it), containers and active cells"""
        if not ini or not c or not inc or ini["k"] != "decl" or not ini["v"]:
            return None
        v = ini["v"][0]
        if "iterator" not in v["t"].lower() or not v.get("init"):
            return None
        d = v["d"]

        def isvar(e):
            while e["k"] in ("cast", "copy"):
                e = e["e"]
            return e["k"] == "ref" and e.get("d") == d
        if inc["k"] == "opcall" and inc["op"] == "++" and isvar(inc["a"][0]) and not writes_local(s["body"], d):
            pass
        else:
            return None
        while c["k"] in ("cast", "stmtexpr"):
            c = c["e"]
        if c["k"] not in ("opcall", "bin") or c["op"] not in ("!=", "<"):
            return None
        x, y = c["a"] if c["k"] == "opcall" else (c["x"], c["y"])
        if not isvar(x):
            x, y = y, x
        if not isvar(x):
            return None
        fr = self.frames[-1]
        for w in ini["v"][1:]:
            self.decl(w)
        a, b = self.rv(v["init"]), self.rv(y)
        name = "%" + fr.path + ":it#%s" % d
        if a.op == "iter" and b.op == "iter" and a.args[:2] == b.args[:2]:
            def setit(k):
                fr.env[d] = self.newroot(name, mk("iter", a.args[0], a.args[1], k))
            return a.args[2], b.args[2], setit
        if a.op == "call" and b.op == "call" and str(a.args[0]) == "begin_active" and str(b.args[0]) == "end" and a.args[1] is b.args[1] and all(x is ZERO for x in a.args[2:]):
            r = mk("call", "active_cell_iterators", a.args[1])

            def setcell(k):
                fr.env[d] = self.newroot(name, self.descend(r, (("i", k),), ptype(v["t"])))
            return ZERO, self.descend(r, (("f", "#size"),), ("num", True)), setcell
        return None

    def _shape(self, d, start, c, inc, decl):
        def isvar(e):
            while e["k"] == "cast":
                e = e["e"]
            return e["k"] == "ref" and e.get("d") == d
        step = None
        if inc["k"] == "un" and inc["op"] in ("++", "--") and isvar(inc["x"]):
            step = 1 if inc["op"] == "++" else -1
        elif inc["k"] == "assign" and isvar(inc["lhs"]) and inc["op"] in ("+=", "-="):
            k = const(self.rv(inc["rhs"]))
            if k is not None and k.denominator == 1:
                step = int(k) if inc["op"] == "+=" else -int(k)
        if step is None:
            return None
        while c["k"] == "cast":
            c = c["e"]
        if c["k"] != "bin":
            return None
        op, x, y = c["op"], c["x"], c["y"]

        def shifted(e):
            """variable plus a constant"""
            while e["k"] == "cast":
                e = e["e"]
            if e["k"] == "bin" and e["op"] == "+":
                for u, v in ((e["x"], e["y"]), (e["y"], e["x"])):
                    while v["k"] == "cast":
                        v = v["e"]
                    if isvar(u) and v["k"] == "int":
                        return int(v["v"])
            return 0 if isvar(e) else None
        k = shifted(x)
        if k is None:
            k = shifted(y)
            if k is None:
                return None
            x, y = y, x
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(op)
        if k and step != 1:
            return None
        if step == 1:
            b = sub(self.rv(y), num(k))
            if op in ("<", "!="):
                return d, start, b, 1, decl
            if op == "<=":
                return d, start, add(b, ONE), 1, decl
        if step == -1:
            b = self.rv(y)
            if op == ">":
                return d, add(b, ONE), add(start, ONE), -1, decl
            if op == ">=":
                return d, b, add(start, ONE), -1, decl
        return None

    def s_while(self, s):
        """while (i < n) { ...; ++i; } with no other write to i"""
        c, body = s["c"], s["body"]
        cc = c
        while cc["k"] == "cast":
            cc = cc["e"]
        d = self.countdown(c)
        if d is not None and not writes_local(body, d):
            l = self.frames[-1].env.get(d)
            if isinstance(l, Loc):
                hi = self.read(l, ("num", True))
                self.run_range(s, d, ZERO, hi, -1, body, None)
                self.store("set", l, num(-1), s.get("l", 0))
                return
        if cc["k"] == "bin" and body["k"] == "blk" and body["s"]:
            last = body["s"][-1]
            if last["k"] == "expr":
                for side in ("x", "y"):
                    v = cc[side]
                    while v["k"] == "cast":
                        v = v["e"]
                    if v["k"] == "ref" and v.get("dk") == "local":
                        d = v["d"]
                        if not any(writes_local(x, d) for x in body["s"][:-1]) and not contains(body, "cont"):
                            l = self.frames[-1].env.get(d)
                            if isinstance(l, Loc):
                                st = self.read(l, ("num", True))
                                sh = self._shape(d, st, c, last["e"], None)
                                if sh:
                                    d, lo, hi, step, _ = sh
                                    self.run_range(s, d, lo, hi, step, {"k": "blk", "s": body["s"][:-1]}, None)
                                    g = lt(lo, hi)
                                    self.store("set", l, ite(g, hi, lo) if step > 0 else ite(g, sub(lo, ONE), sub(hi, ONE)), s.get("l", 0))
                                    return
        self.opaque_loop(s, body)

    def s_do(self, s):
        self.opaque_loop(s, s["body"])

    def loop_id(self, path, s):
        """name of a loop: where it runs and its line; the second loop on the same line gets a number"""
        k = self.loopids.setdefault((path, s.get("l", 0)), [])
        if not any(x is s for x in k):
            k.append(s)
        n = next(i for i, x in enumerate(k) if x is s)
        return "L%s:%d" % (path, s.get("l", 0)) + ("." + str(n) if n else "")

    def opaque_loop(self, s, body):
        """unknown trip structure: every written location becomes opaque; one
        generic iteration is kept as events, with the exit condition"""
        if self.generic is not None:
            return self.generic_loop(s, body)
        fr = self.frames[-1]
        lid = self.loop_id(fr.path, s)
        k = s["k"]
        cond = s.get("c")
        if k == "for" and s.get("init") is not None:
            self.exec(s["init"])
        stop = [ZERO]

        def test():
            return tobool(self.rv(cond)) if cond is not None else ONE

        def once():
            go = ONE
            if k in ("while", "for"):
                go = test()
            self.exec(body)
            lc = fr.loops[-1]
            lc.dead = lc.brk
            if k == "for" and s.get("inc") is not None:
                self.ev(s["inc"])
            if k == "do":
                go = test()
            stop[0] = lor(lc.brk, lnot(go)) if k == "do" else lor(lnot(go), mul(go, lc.brk))
        written = self.discover(once, lid)
        # writes hidden behind conditions on the values before the loop show up
        # in the iteration from an arbitrary state
        for _ in range(8):
            ev0 = list(self.events)
            self.loop_events(once, lid, written)
            if not self.widen(written, self.loop_new):
                break
            self.events = ev0
        else:
            raise Unsupported("written locations of a loop do not stabilise", s)
        rets = self.loop_rets
        deps = self.loop_deps(written)
        for root, sts in written.items():
            self.known_root(root)
            for pre in dict.fromkeys(self._prefix(st, True) for st in sts):
                if root in self.logs:
                    v = self.try_read(Loc(root, pre))
                    if v is not None:
                        self.events.append(("loop-init", lid, root, pre, v))
                self.logs[root].append(Store("set", pre, mk("mu", lid, str(root), pre, deps), self.full()))
        for n, (g, v) in enumerate(rets):
            # a return from some iteration: its value is that iteration's value
            b = mul(self.eff(), atom(mk("b", mk("mu", lid, "#return", n))))
            fr.rets.append((b, v))
            fr.dead = lor(fr.dead, b)
        self.events.append(("loop-exit", lid, stop[0], s.get("l", 0), tuple(g for g, v in rets), self.full()))
        self.events.append(("opaque-loop", lid, s.get("l", 0)))

    def loop_events(self, once, lid, written):
        """one generic iteration from an arbitrary loop state: only its events
        and its writes are kept (as events), its effects are undone"""
        fr = self.frames[-1]
        logs = {r: list(l) for r, l in self.logs.items()}
        base, env = dict(self.base), dict(fr.env)
        rets, dead, sd = list(fr.rets), fr.dead, self.declared
        self.declared = set()
        for root, sts in written.items():
            self.known_root(root)
            for pre in dict.fromkeys(self._prefix(st, True) for st in sts):
                self.logs[root].append(Store("set", pre, mk("head", lid, str(root), pre), self.full()))
        n0 = {r: len(l) for r, l in self.logs.items()}
        e0 = len(self.events)
        fr.loops.append(LoopCtx())
        try:
            once()
            evs = self.events[e0:]
            self.loop_new = {r: [st for st in l[n0.get(r, 0):] if st.kind != "phi"] for r, l in self.logs.items()
                             if r not in self.declared}
            for r, l in self.logs.items():
                for st in l[n0.get(r, 0):]:
                    if st.kind != "phi":
                        evs.append(("loop-write", lid, r, st.steps, st.val, st.guard, st.line, st.kind))
            self.loop_rets = fr.rets[len(rets):]
            if "$this" in self.logs:
                evs.append(("loop-end", lid, "$this", (), self.read(Loc("$this", ()), ("obj", ""))))
            for root, sts in written.items():
                if root in self.logs and root != "$this":
                    for pre in dict.fromkeys(self._prefix(st, True) for st in sts):
                        v = self.try_read(Loc(root, pre))
                        if v is not None:
                            evs.append(("loop-end", lid, root, pre, v))
        finally:
            fr.loops.pop()
            self.logs, self.base, fr.env = logs, base, env
            fr.rets, fr.dead, self.declared = rets, dead, sd
        self.events = self.events[:e0] + [e + (("in", lid),) for e in evs]

    def widen(self, written, new):
        """add the locations of `new` to `written`; were there any?"""
        grown = False
        for r, sts in new.items():
            have = [self._prefix(st, True) for st in written.get(r, ())]
            for st in sts:
                p = self._prefix(st, True)
                if not any(p[:len(h)] == h for h in have):
                    written[r] = list(written.get(r, ())) + [st]
                    have.append(p)
                    grown = True
        return grown

    def try_read(self, l):
        """value of a location of unknown type, or None"""
        for pt in (("obj", ""), ("num", False)):
            try:
                return self.read(l, pt)
            except Unsupported:     # accumulated: has a value as a number only
                pass
        return None

    def loop_deps(self, written):
        """objects an opaque loop consumes: what it leaves behind depends on them"""
        out = []
        for root, sts in written.items():
            for pre in dict.fromkeys(self._prefix(st, True) for st in sts):
                if root in self.logs:
                    v = self.read(Loc(root, pre), ("obj", ""))
                    if isinstance(v, Term) and v.op in ("ctorobj", "call", "sym", "at"):
                        out.append(v)
        return tuple(sorted(set(out), key=lambda t: t.dig))

    def _prefix(self, st, any_index=False):
        out = []
        for x in st.steps:
            if x[0] == "i" and (any_index or x[1].fv):
                break
            if any_index and x == ("f", "#size"):
                break
            out.append(x)
        return tuple(out)

    def mark(self):
        return {r: len(l) for r, l in self.logs.items()}

    def discover(self, run, lid):
        """run a body once to learn what it writes; all effects are undone"""
        fr = self.frames[-1]
        logs = {r: list(l) for r, l in self.logs.items()}
        base = dict(self.base)
        ev = list(self.events)
        env = dict(fr.env)
        rets, dead = list(fr.rets), fr.dead
        sd = self.declared
        self.declared = set()
        n0 = {r: len(l) for r, l in self.logs.items()}
        lc = LoopCtx()
        fr.loops.append(lc)
        try:
            run()
            written = {}
            for r, l in self.logs.items():
                if r in self.declared:
                    continue
                k = n0.get(r, 0)
                new = [st for st in l[k:] if st.kind != "phi"]
                if new:
                    written[r] = new
        finally:
            fr.loops.pop()
            self.logs = logs
            self.base = base
            self.events = ev
            fr.env = env
            fr.rets, fr.dead = rets, dead
            self.declared = sd
        written_broke = lc.broke
        self._broke = written_broke
        return written

    def run_range(self, s, d, lo, hi, step, body, decl):
        fr = self.frames[-1]
        cl, ch = const(lo), const(hi)
        if cl is not None and ch is not None and ch - cl <= self.max_unroll and not (self.generic is not None and self.generic(hi)):
            its = range(int(cl), int(ch))
            if step < 0:
                its = reversed(its)
            lb = LoopCtx()
            for k in its:
                lc = LoopCtx()
                lc.dead = lb.dead
                lc.unrolled = True
                fr.loops.append(lc)
                self.setidx(d, num(k), decl)
                self.exec(body)
                fr.loops.pop()
                if lc.broke:
                    lb.dead = lc.dead
            return

        def setit(v):
            self.setidx(d, var(v), decl)
        self.summarise(s, lo, hi, step, setit, lambda: self.exec(body))

    def setidx(self, d, t, decl):
        fr = self.frames[-1]
        l = fr.env.get(d)
        if decl is not None or not isinstance(l, Loc):
            fr.env[d] = self.newroot("%" + fr.path + ":idx#%s" % d, t)
        else:
            # index variable declared outside the loop
            self.base[l.root] = t
            self.logs[l.root] = []
            if self.declared is not None:
                self.declared.add(l.root)

    def generic_loop(self, s, body):
        """one iteration from an arbitrary state of the local variables; the objects outside
        the function are as before the loop (the caller makes them arbitrary)"""
        fr = self.frames[-1]
        lid = self.loop_id(fr.path, s)
        if s["k"] == "for" and s.get("init") is not None:
            self.exec(s["init"])
        if s["k"] == "do":
            raise Unsupported("do loop in generic mode", s)
        test = lambda: tobool(self.rv(s["c"])) if s.get("c") is not None else ONE

        def once():
            go = test()
            self.exec(body)
            if s["k"] == "for" and s.get("inc") is not None:
                self.ev(s["inc"])
            return go
        start = {}
        for root in self.discover(once, lid):
            if str(root).startswith("%") and root in self.logs:
                start[root] = self.try_read(Loc(root, ()))
                self.logs[root] = []
                self.base[root] = mk("sym", "any:" + str(root))
        lc = LoopCtx()
        fr.loops.append(lc)
        n = len(fr.rets)
        go = once()
        fr.loops.pop()
        if lc.broke or len(fr.rets) > n:
            raise Unsupported("exit from a generic loop", s)
        self.events.append(("generic-loop", lid, go, {r: (x, self.base[r], self.try_read(Loc(r, ()))) for r, x in start.items()}, s.get("l", 0)))

    def summarise(self, s, lo, hi, step, setit, runbody):
        fr = self.frames[-1]
        lid = self.loop_id(fr.path, s) + ":0"
        v = "\u03bb" + lid
        ck = lid
        self.ranges[v] = (lo, hi)
        if self.generic is not None and self.generic(hi):
            lc = LoopCtx()
            fr.loops.append(lc)
            n = len(fr.rets)
            setit(v)
            runbody()
            fr.loops.pop()
            if lc.broke or len(fr.rets) > n:
                raise Unsupported("exit from a generic loop", s)
            self.events.append(("generic-range", v, lo, hi, s.get("l", 0)))
            return

        cnt0 = dict(fr.cnt)

        def body():
            fr.cnt = dict(cnt0)
            setit(v)
            runbody()
        written = self.loopcache.get(ck)
        if written is None:
            written = self.discover(body, lid)
            broke = self._broke
            self.loopcache[ck] = (written, broke)
        else:
            written, broke = written
        written_broke = broke
        if broke:
            brk = self._breaks(lid, v, lo, hi, body, written)
            if brk is not None:
                # iteration v runs if no earlier one broke
                w = fresh()
                a, b = (lo, var(v)) if step > 0 else (add(var(v), ONE), hi)
                alive = eq(Sum(w, a, b, subst(brk, {v: var(w)})), ZERO)
                inner = runbody

                def runbody():
                    saved = self.path
                    self.path = mul(self.path, alive)
                    inner()
                    self.path = saved
                broke = False
        if broke:
            for root, sts in written.items():
                if root not in self.logs:
                    continue
                for pre in dict.fromkeys(self._prefix(st, True) for st in sts):
                    self.logs[root].append(Store("set", pre, mk("mu", lid, str(root), pre), self.full()))
            self.events.append(("opaque-loop", lid, s.get("l", 0)))
            return
        closed = {}
        brk = brk if written_broke else None
        for _ in range(8):
            ev0 = list(self.events)
            res = self._pass(lid, v, lo, hi, body, written, closed)
            if not self.widen(written, res[0]):
                break
            self.events = ev0
        for attempt in (0, 1):
            if attempt:
                res = self._pass(lid, v, lo, hi, body, written, closed)
            if attempt == 0:
                new = self._induction(lid, v, lo, hi, step, res, written)
                if not new:
                    break
                closed = new
        self._lift(lid, v, lo, hi, step, res, s, (alive, brk) if brk is not None else None)

    def _breaks(self, lid, v, lo, hi, body, written):
        """when iteration v leaves the loop, if that does not depend on earlier iterations"""
        e0 = list(self.events)
        self._pass(lid, v, lo, hi, body, written, {})
        self.events = e0
        b = self._brk
        if any(t.op == "phi" and t.args[0] == lid for t in subterms(b)):
            return None
        return b

    def _pass(self, lid, v, lo, hi, body, written, closed):
        fr = self.frames[-1]
        self._pre = {r: list(l) for r, l in self.logs.items()}
        pre = self._pre
        env = dict(fr.env)
        ev0 = len(self.events)
        for r, sts in written.items():
            if r in self.logs:
                self.logs[r] = self.logs[r] + [Phi(lid, r, sts, v, closed.get(r))]
        sd = self.declared
        self.declared = set()
        lc = LoopCtx()
        rets0, dead0 = list(fr.rets), fr.dead
        fr.loops.append(lc)
        try:
            body()
        finally:
            fr.loops.pop()
        self._brk = lc.brk
        decl = self.declared
        self.declared = sd
        if sd is not None:
            sd |= decl
        new = {}
        for r, l in self.logs.items():
            if r in decl:
                continue
            if r in written and r in pre:
                n = len(pre[r]) + 1
            else:
                n = len(pre.get(r, ()))
            b = l[n:]
            if b:
                new[r] = b
        rets = fr.rets[len(rets0):]
        evs = self.events[ev0:]
        self.events = self.events[:ev0]
        # restore
        for r in list(self.logs):
            if r in pre:
                self.logs[r] = pre[r]
        fr.env = env
        fr.rets, fr.dead = rets0, dead0
        return new, rets, evs

    def _induction(self, lid, v, lo, hi, step, res, written):
        new, rets, evs = res
        closed = {}
        g = self.full()
        for r, sts in new.items():
            by = {}
            for st in sts:
                by.setdefault(st.steps, []).append(st)
            for steps, ss in by.items():
                if any(x[0] == "i" and x[1].fv for x in steps):
                    continue
                c = ZERO
                ok = True
                for st in ss:
                    if st.kind != "add" or not isnum(st.val) or const(st.val) is None or st.vars:
                        ok = False
                        break
                    if any(t.op == "phi" and t.args[0] == lid for t in subterms(st.guard)):
                        ok = False
                        break
                    if mul(g, st.guard) is g:
                        c = add(c, st.val)
                    else:
                        c = add(c, mul(st.val, st.guard))
                if not ok:
                    continue
                # nothing else in the loop may write this location
                if any(len(st.steps) != len(steps) and st.steps[:min(len(st.steps), len(steps))] == steps[:min(len(st.steps), len(steps))] for st in sts):
                    continue
                # is its head value used at all?
                init = self.walk(self.base[r], self.logs[r], steps, ("num", True), self.full())
                if v in c.fv:
                    w = fresh()
                    a, b = (lo, var(v)) if step > 0 else (add(var(v), ONE), hi)
                    closed.setdefault(r, {})[steps] = add(init, Sum(w, a, b, subst(c, {v: var(w)})))
                    continue
                k = sub(var(v), lo) if step > 0 else sub(sub(hi, ONE), var(v))
                closed.setdefault(r, {})[steps] = add(init, mul(c, k))
        return closed

    def _lift(self, lid, v, lo, hi, step, res, s, stops=None):
        new, rets, evs = res
        trip = lt(lo, hi)
        lastv = sub(hi, ONE) if step > 0 else lo
        isphi = lambda t: t.op == "phi" and t.args[0] == lid
        tainted = {}
        for e in evs:
            self.events.append(e + (("in", lid),) if e and e[0] != "quant" else e)
        for r, sts in new.items():
            out = []
            haveset_nov = [st for st in sts if st.kind == "set" and not any(x[0] == "i" and v in x[1].fv for x in st.steps)]
            for n, st in enumerate(sts):
                hasv = any(x[0] == "i" and v in x[1].fv for x in st.steps)
                ph = st.mentions(isphi)
                if ph:
                    st2 = self._reduce(st, lid, v, lo, hi, r, isphi)
                    if st2 is None:
                        if DEBUG:
                            w = [t for t in subterms((st.steps, st.guard, st.val)) if isphi(t)]
                            print("OPAQUE", r, st.kind, [(a, show(b, 2) if isinstance(b, Term) else b) for a, b in st.steps], st.line, [show(t, 5)[:200] for t in w[:6]])
                        self.events.append(("opaque-value", lid, str(r), s.get("l", 0)))
                        out.append(Store("set", self._prefix(st), mk("mu", lid, str(r), self._prefix(st)), self.full(), (), st.line))
                        continue
                    if st2.kind == "final":
                        out.append(Store("set", st2.steps, st2.val, st2.guard, st.vars, st.line))
                        continue
                    st = st2
                if hasv:
                    out.append(Store(st.kind, st.steps, st.val, st.guard, ((v, lo, hi),) + st.vars, st.line))
                    continue
                if st.kind == "add" and not any(self._overlap(st, x) for x in haveset_nov):
                    out.append(Store("add", st.steps, st.val, st.guard, ((v, lo, hi),) + st.vars, st.line))
                    continue
                # last iteration wins
                if v in st.guard.fv:
                    if st.kind == "set" and v not in fvof(st.val) and not st.vars:
                        sg = st.guard
                        if stops is not None and mul(sg, stops[1]) is sg:
                            # written just before leaving the loop: by the first iteration that wants to
                            g0 = replace(sg, single_atom(stops[0]), ONE, {})
                            if mul(g0, stops[0]) is sg and mul(g0, stops[1]) is g0:
                                sg = g0
                        ga = atom(mk("any", mkbind((v,), (lo, hi, sg))))
                        out.append(Store("set", st.steps, st.val, ga, (), st.line))
                        continue
                    if st.kind == "set" and all(x[0] == "f" for x in st.steps) or st.kind == "set":
                        # value of the last iteration that reaches the store
                        val = mk("mu", lid, str(r), st.steps, mkbind((v,), (lo, hi, st.guard, st.val)))
                        out.append(Store("set", st.steps, val, self.full(), st.vars, st.line))
                        continue
                    # an accumulation over a location the iteration resets:
                    # what is left after the loop is not tracked
                    val = mk("mu", lid, str(r), st.steps, mkbind((v,), (lo, hi, st.guard, st.val)))
                    out.append(Store("set", self._prefix(st), val, self.full(), (), st.line))
                    continue
                sb = {v: lastv}
                out.append(Store(st.kind, tuple((k, subst(x, sb)) if k == "i" else (k, x) for k, x in st.steps),
                                 subst(st.val, sb), mul(subst(st.guard, sb), trip),
                                 tuple((w, subst(a, sb), subst(b, sb)) for w, a, b in st.vars), st.line))
            self.logs[r] = self.logs[r] + out
        fr = self.frames[-1]
        for g, val in rets:
            if isinstance(val, Loc):
                val = self.read(val, ptype(fr.func["ret"]))
            ga = atom(mk("any", mkbind((v,), (lo, hi, g)))) if v in g.fv else mul(g, trip)
            if val is not None and v in fvof(val):
                raise Unsupported("return of a loop-dependent value")
            fr.rets.append((ga, val))
            fr.dead = lor(fr.dead, ga)

    def _overlap(self, a, b):
        for p, q in zip(a.steps, b.steps):
            if p[0] != q[0]:
                return False
            if p[0] == "f" and p[1] != q[1]:
                return False
            if p[0] == "i":
                if p[1].fv or q[1].fv:
                    continue
                if eq(p[1], q[1]) is ZERO:
                    return False
        return True

    def _reduce(self, st, lid, v, lo, hi, r, isphi):
        """phi-dependent store: x = x + e  |  x = max(x, e)  |  x = x*e"""
        me = mk("phi", lid, str(r), st.steps)
        if any(isphi(t) for t in subterms((st.steps, st.guard))):
            # guarded maximum:  if (e > x) x = e
            pass
        if st.kind == "set" and isnum(st.val) and not any(isphi(t) for t in subterms(st.steps)):
            p = st.val
            rest = sub(p, atom(me))
            if not any(isphi(t) for t in subterms((rest, st.guard))):
                return Store("add", st.steps, rest, st.guard, st.vars, st.line)
            # max/min
            for sgn, nm in ((1, "max"), (-1, "min")):
                e = self._maxarg(p, me, st.guard, nm, isphi)
                if e is not None and not any(isphi(t) for t in subterms(e)):
                    init = self.walk(self.base[r], self.logs[r], st.steps, ("num", False), self.full())
                    outer = self.full()
                    val = atom(mk("red", nm, mkbind((v,), (lo, hi, e[1], e[0])), init))
                    return Store("final", st.steps, val, outer, st.vars, st.line)
        return None

    def _maxarg(self, p, me, guard, nm, isphi):
        """find e with  guard ? p : me  ==  g' ? max(me, e) : me"""
        x = atom(me)
        g0 = self.full()
        # unguarded: p = max(x,e): p = [x<e]*e + (1-[x<e])*x
        brs = [t for t in subterms((p, guard)) if t.op == "lt0" and any(isphi(u) for u in subterms(t))]
        for b in brs:
            d = b.args[0]
            k = None
            for c, m in d.args[0]:
                if len(m.args[0]) == 1 and m.args[0][0][0] is me and m.args[0][0][1] == 1 and not m.args[1]:
                    k = c
            if k is None:
                continue
            e = sub(x, scale(d, 1 / k))      # zero of d in x
            want = fmax(x, e) if nm == "max" else fmin(x, e)
            got = ite(guard, p, x)
            if any(isphi(u) for u in subterms(e)):
                continue
            # guard may contain phi-free part g'
            if ite(guard, p, x) is want:
                return e, ONE
            gfree = [t for t in subterms(guard) if t.op in BOOL_OPS]
            other = ONE
            for t in gfree:
                if not any(isphi(u) for u in subterms(t)) and mul(guard, atom(t)) is guard:
                    other = mul(other, atom(t))
            if ite(guard, p, x) is ite(other, want, x):
                return e, other
        return None

    def s_rfor(self, s):
        rng = s["range"]
        r = self.ev(rng)
        fr = self.frames[-1]
        vd = s["var"]
        t = strip_cv(rng.get("t", ""))
        if isinstance(r, Iota):
            lo, hi = r.lo, r.hi
            elem = lambda v: v
        elif isinstance(r, Term) and r.op == "ilist":
            for x in r.args[0]:
                lc = LoopCtx()
                fr.loops.append(lc)
                fr.env[vd["d"]] = self.newroot("%" + fr.path + ":it#%s" % vd["d"], x)
                self.exec(s["body"])
                fr.loops.pop()
                if lc.broke:
                    raise Unsupported("break in list loop")
            return
        elif t.startswith(("std::map<", "std::unordered_map<")) and isinstance(r, Loc) and self.keys_of(r) is not None \
                and ptype(vg_first(t))[0] == "num":
            keys = self.keys_of(r)
            lo, hi = ZERO, atom(mk("size", keys))

            def elem(v):
                k = atom(mk("elem", mk("keys", keys), v))
                return MapElem(r.i(k), k)
        elif t == "dealii::IndexSet":
            if isinstance(r, Loc):
                r = self.read(r, ("obj", t))
            lo, hi = ZERO, atom(mk("size", r))
            elem = lambda v: atom(mk("elem", r, v))
        else:
            if isinstance(r, Loc):
                n = self.read(r.f("#size"), ("num", True))
                elem = lambda v: r.i(v)
            else:
                n = self.descend(r, (("f", "#size"),), ("num", True))
                elem = lambda v: self.descend(r, (("i", v),), ptype(vd["t"]))
            lo, hi = ZERO, n

        def setit(v):
            x = elem(var(v))
            if isinstance(x, Loc) and not vd.get("ref"):
                x = self.read(x, ptype(vd["t"]))
            if isinstance(x, Term):
                x = self.newroot("%" + fr.path + ":it#%s" % vd["d"], x)
            fr.env[vd["d"]] = x
        self.summarise(s, lo, hi, 1, setit, lambda: self.exec(s["body"]))

    # -------- expressions
    def rv(self, e):
        """value of an expression as a term"""
        v = self.ev(e)
        return self.val(v, e.get("t", ""))

    def val(self, v, t):
        if isinstance(v, Loc):
            return self.read(v, t)
        if isinstance(v, Term):
            return self.coerce(v, ptype(t)) if t else v
        if v is None:
            return UNDEF
        if isinstance(v, Lam):
            return mk("lamv", str(id(v.node)))
        if isinstance(v, Iota):
            return mk("rng", v.lo, v.hi)
        raise Unsupported("value")

    def ev(self, e):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(e)

    def e_int(self, e):
        return num(int(e["v"]))

    def e_float(self, e):
        s = str(e.get("s") or e["v"]).rstrip("fFlL")
        try:
            return num(Fr(s))
        except ValueError:
            return num(Fr(repr(float(s))))

    def e_bool(self, e):
        return ONE if e["v"] else ZERO

    def e_str(self, e):
        return mk("str", e["v"])

    def e_null(self, e):
        return mk("sym", "null")

    def e_unk(self, e):
        return mk("sym", "unk:" + str(e.get("c", "")))

    def e_this(self, e):
        return self.frames[-1].this

    def e_ref(self, e):
        dk = e["dk"]
        if dk == "enum":
            return mk("enum", e["q"])
        if dk in ("param", "local", "binding", "slocal"):
            for fr in reversed(self.frames):
                if e["d"] in fr.env and (fr is self.frames[-1] or getattr(self.frames[-1], "lam", None) is not None):
                    return fr.env[e["d"]]
                if getattr(fr, "lam", None) is None:
                    break
            if dk == "slocal":
                return self.sym("static:" + e["n"])
            raise Unsupported("unbound local " + e["n"])
        if dk == "global":
            q = e.get("q", e["n"])
            if q.endswith("numbers::PI"):
                return PI
            if "v" in e and isinstance(e["v"], (int, float)):
                return num(e["v"])
            if q.startswith("ompi_mpi_") or q.startswith("MPI_"):
                return atom(mk("sym", "global:" + q))      # handles of the MPI library: constants
            return self.sym("global:" + q)
        if dk == "func":
            return mk("sym", "func:" + e.get("q", e["n"]))
        raise Unsupported("reference kind " + dk)

    def e_mem(self, e):
        bt = ptype(e["b"].get("t", ""))
        if bt[0] == "tens":
            if e["n"] == "n_independent_components":
                n = bt[3] ** bt[2]
                if bt[1] == "S":
                    n = (bt[3] * (bt[3] + 1) // 2) ** (bt[2] // 2)
                return num(n)
            if e["n"] == "dimension":
                return num(bt[3])
            if e["n"] == "rank":
                return num(bt[2])
        b = self.ev(e["b"])
        if b is None:
            raise Unsupported("member of nothing")
        if isinstance(b, MapElem):
            return b.key if e["n"] == "first" else b.loc
        if isinstance(b, Loc):
            return b.f(e["n"])
        if isinstance(b, Term):
            return self.descend(b, (("f", e["n"]),), ptype(e.get("t", "")))
        raise Unsupported("member base")

    def e_cast(self, e):
        ck = e.get("ck", "")
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            v = self.rv(e["e"])
            return tobool(v) if isnum(v) else atom(mk("b", v))
        if ck == "FloatingToIntegral":
            v = self.rv(e["e"])
            if ptype(e.get("t", ""))[0] == "bool":
                return tobool(v)
            return fn1("trunc", v)
        v = self.ev(e["e"])
        ft, tt = ptype(e.get("ft", "")), ptype(e.get("t", ""))
        if isinstance(v, Term) and tt[0] == "tens" and v.op == "tens" and v.args[0] != tt[1] and tt[1] == "T":
            return mk("tens", "T", *v.args[1:])
        if isinstance(v, Loc) and ft[0] in ("num", "bool") and tt[0] in ("num", "bool"):
            return self.read(v, ft)
        if tt[0] == "num" and ft[0] != "num":
            w = self.read(v, ft) if isinstance(v, Loc) else v
            if isinstance(w, Term):
                a = single_atom(w) if w.op == "poly" else w
                if a is not None and a.op == "enum" and a.args[0] in self.prog.enumval:
                    return num(self.prog.enumval[a.args[0]])
        return v

    def e_copy(self, e):
        v = self.ev(e["a"][0])
        return v

    def e_stmtexpr(self, e):
        return UNDEF

    def e_throw(self, e):
        self.do_throw(e)
        return UNDEF

    def do_throw(self, e):
        self.events.append(("throw", self.full(), e.get("l", 0), self.frames[-1].func["q"]))

    def e_lambda(self, e):
        return Lam(e, self.frames[-1], self.frames[-1].this)

    def e_initlist(self, e):
        vals = [self.rv(a) for a in e["a"]]
        pt = ptype(e.get("t", ""))
        if len(vals) == 1 and pt[0] in ("num", "bool"):
            return vals[0]
        if not vals and pt[0] != "obj":
            return default_value(pt)
        if pt[0] == "tens":
            flat = []

            def fl(v):
                if v.op == "ilist":
                    for x in v.args[0]:
                        fl(x)
                else:
                    flat.append(v)
            for v in vals:
                fl(v)
            if len(flat) == pt[3] ** pt[2]:
                return mk("tens", pt[1], pt[2], pt[3], tuple(flat))
        return mk("ilist", tuple(vals))

    def e_new(self, e):
        if e.get("e"):
            return self.ev(e["e"])
        return mk("sym", "new")

    def e_un(self, e):
        op = e["op"]
        if op in ("*", "&", "__extension__"):
            return self.ev(e["x"])
        if op in ("++", "--"):
            l = self.ev(e["x"])
            old = self.read(l, e["x"].get("t", ""))
            d = ONE if op == "++" else num(-1)
            self.store("add", l, d, e.get("l", 0))
            return old if e.get("post") else l
        v = self.rv(e["x"])
        if op == "!":
            return lnot(tobool(v)) if isnum(v) else lnot(atom(mk("b", v)))
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "~":
            return atom(mk("bitnot", v))
        raise Unsupported("unary " + op)

    def e_bin(self, e):
        op = e["op"]
        if op == ",":
            self.ev(e["x"])
            return self.ev(e["y"])
        if op in ("&&", "||"):
            a = self.cond(e["x"])
            if op == "&&" and a is ZERO:
                return ZERO
            if op == "||" and a is ONE:
                return ONE
            b = self.cond(e["y"])
            return land(a, b) if op == "&&" else lor(a, b)
        a, b = self.rv(e["x"]), self.rv(e["y"])
        return self.binop(op, a, b, e["x"].get("t", ""), e["y"].get("t", ""))

    def binop(self, op, a, b, ta="", tb=""):
        if op in ("==", "!="):
            r = eq(a, b) if isnum(a) == isnum(b) else atom(mk("b", "==", a, b))
            return r if op == "==" else lnot(r)
        if op in ("<", ">", "<=", ">="):
            if not (isnum(a) and isnum(b)):
                if op in (">", "<="):
                    r = self._olt(b, a)
                    return r if op == ">" else lnot(r)
                r = self._olt(a, b)
                return r if op == "<" else lnot(r)
            if op == "<":
                return lt(a, b)
            if op == ">":
                return lt(b, a)
            if op == "<=":
                return le(a, b)
            return le(b, a)
        if is_tens(a) or is_tens(b):
            return self.tbin(op, a, b)
        if not (isnum(a) and isnum(b)):
            if op in ("+", "-", "*", "/", "|", "&", "%"):
                return mk("call", "op" + op, a, b)
            raise Unsupported("binary %s on objects" % op)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            pa, pb = ptype(ta), ptype(tb)
            if pa == ("num", True) and pb == ("num", True):
                ca, cb = const(a), const(b)
                if ca is not None and cb:
                    q = ca / cb
                    return num(int(q))
                return atom(mk("idiv", a, b))
            return div(a, b)
        if op == "%":
            ca, cb = const(a), const(b)
            if ca is not None and cb:
                return num(int(ca) % int(cb))
            return atom(mk("mod", a, b))
        if op in ("&", "|", "^", "<<", ">>"):
            return atom(mk("bit" + op, a, b))
        raise Unsupported("binary " + op)

    def _olt(self, a, b):
        if a is b:
            return ZERO
        return atom(mk("b", "<", a, b))

    def tbin(self, op, a, b):
        if op == "+":
            return tzip(a, b, add)
        if op == "-":
            return tzip(a, b, sub)
        if op == "*":
            if isnum(a):
                return tmap(b, lambda x: mul(a, x))
            if isnum(b):
                return tmap(a, lambda x: mul(x, b))
            if not (is_tens(a) and is_tens(b)):
                raise Unsupported("tensor times object")
            if a.args[0] == "S" and b.args[0] == "S":
                return contract(a, b, 2)
            return contract(a, b, 1)
        if op == "/" and isnum(b):
            ib = div(ONE, b)
            return tmap(a, lambda x: mul(x, ib))
        raise Unsupported("tensor " + op)

    def e_cond(self, e):
        c = self.cond(e["c"])
        if c is ONE:
            return self.ev(e["x"])
        if c is ZERO:
            return self.ev(e["y"])
        saved = self.path
        self.path = mul(saved, c)
        a = self.rv(e["x"])
        self.path = mul(saved, lnot(c))
        b = self.rv(e["y"])
        self.path = saved
        return ite(c, a, b)

    def e_idx(self, e):
        b = self.ev(e["b"])
        i = self.rv(e["i"])
        if isinstance(b, Loc):
            return b.i(i)
        return self.descend(b, (("i", i),), ptype(e.get("t", "")))

    def e_assign(self, e):
        op = e["op"]
        line = e.get("l", 0)
        if op == "=":
            terms = self_sum(e["lhs"], e["rhs"])
            if terms:
                return self.compounds(terms, e["lhs"], line)
            r = self.ev(e["rhs"])
            if isinstance(r, Loc):
                r = self.read(r, e["lhs"].get("t", ""))
            l = self.ev(e["lhs"])
            self.assign_loc(l, r, ptype(e["lhs"].get("t", "")), line)
            return l
        l = self.ev(e["lhs"])
        r = self.rv(e["rhs"])
        self.compound(op, l, r, e["lhs"].get("t", ""), e["rhs"].get("t", ""), line)
        return l

    def compounds(self, terms, lhs, line):
        vals = [self.rv(x) for _, x in terms]
        l = self.ev(lhs)
        for (o, x), v in zip(terms, vals):
            self.compound(o, l, v, lhs.get("t", ""), x.get("t", ""), line)
        return l

    def compound(self, op, l, r, tl, tr, line):
        if op in ("+=", "-="):
            if op == "-=":
                r = tmap(r, neg) if is_tens(r) else (neg(r) if isnum(r) else mk("call", "neg", r))
            self.store("add", l, r, line)
            return
        old = self.read(l, tl)
        if op == "*=" and ptype(tl)[0] == "obj" and isnum(r) and isinstance(l, Loc):
            # scaling a whole container
            self.scale_obj(l, r, line)
            return
        v = self.binop(op[:-1], old, r, tl, tr)
        self.store("set", l, v, line)

    def scale_obj(self, l, r, line):
        old = self.read(l, ("obj", ""))
        self.store("set", l, mk("scaled", old, r), line)

    # -------- calls
    def e_ctor(self, e):
        t = e.get("t", "")
        f = e["f"]
        fn = self.prog.funcs.get(f.get("u"))
        st = strip_cv(t)
        pt = ptype(t)
        if fn is not None and fn.get("body") is not None and not self.opaque(fn["q"]):
            self.n_inst += 1
            args = [self.ev(a) for a in e["a"]]
            l = self.newroot("%%tmp%s:%s#%d:%s" % (self.frames[-1].path, e.get("l", 0), id(e) % 10 ** 9, fn["name"]), UNDEF)
            self.call(fn, l, args, e.get("l", 0))
            return l
        args = [a for a in e["a"]]
        if pt[0] == "tens":
            if not args:
                return zero_tens(pt)
            v = self.rv(args[0])
            if pt[2] == 1 and pt[3] == len(args) and len(args) > 1:
                return mk("tens", "T", 1, pt[3], tuple(self.rv(a) for a in args))
            if v.op == "tens":
                if v.args[0] == "T" and pt[1] == "S":
                    return self.symm(v)
                return mk("tens", pt[1], *v.args[1:]) if v.args[0] != pt[1] else v
            if v.op == "ilist":
                flat = []

                def fl(w):
                    if w.op == "ilist":
                        for x in w.args[0]:
                            fl(x)
                    else:
                        flat.append(w)
                fl(v)
                if len(flat) == pt[3] ** pt[2]:
                    return mk("tens", pt[1], pt[2], pt[3], tuple(flat))
            return typed(v, pt)
        if st.startswith("std::allocator"):
            return UNDEF
        if st.startswith(("std::vector<", "dealii::Vector<", "dealii::FullMatrix<", "dealii::Table<")):
            args = [a for a in args if not strip_cv(a.get("t", "")).startswith("std::allocator")]
            if not args:
                return mk("fill", UNDEF, ZERO)
            a0 = self.ev(args[0])
            v0 = self.val(a0, args[0].get("t", ""))
            if isnum(v0) and ptype(args[0].get("t", ""))[0] == "num":
                if st.startswith("std::vector<"):
                    if len(args) >= 2 and ptype(args[1].get("t", ""))[0] != "obj" or len(args) >= 2:
                        fv = self.rv(args[1])
                    else:
                        fv = elem_default(st)
                    return mk("fill", fv, v0)
                if len(args) > 1 and st.startswith("dealii::FullMatrix<"):
                    v1 = self.rv(args[1])
                    if v1 is not v0 and isnum(v1):
                        return mk("fill", ZERO, v0, v1)
                return mk("fill", ZERO, v0)
            if v0.op == "ilist":
                return v0
            return a0
        if st.startswith("std::pair<") and len(args) == 2:
            return mk("rec", (("first", self.rv(args[0])), ("second", self.rv(args[1]))))
        if len(args) == 1 and (st.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::function<", "dealii::TriaIterator", "dealii::TriaActiveIterator", "dealii::TriaRawIterator", "dealii::FilteredIterator")) or strip_cv(args[0].get("t", "")) == st):
            return self.ev(args[0])
        if st.startswith("std::basic_string<"):
            vs = [self.rv(a) for a in args if not strip_cv(a.get("t", "")).startswith("std::allocator")]
            if not vs:
                return mk("str", "")
            if len(vs) == 1:
                return vs[0]
            return mk("ctorobj", "string", *vs)
        return mk("ctorobj", st, *[self.rv(a) for a in args])

    def symm(self, v):
        half = num(Fr(1, 2))
        return tens_gen("S", 2, v.args[2], lambda ix: mul(half, add(tget(v, ix), tget(v, (ix[1], ix[0])))))

    def e_opcall(self, e):
        op = e["op"]
        A = e["a"]
        line = e.get("l", 0)
        if op in ("->",) or (op == "*" and len(A) == 1):
            v = self.ev(A[0])
            if "iterator" in A[0].get("t", "").lower():
                it = self.iterator(v)
                if it is not None:
                    return Loc(it.args[0], it.args[1]).i(it.args[2])
            return v
        f = e["f"]
        fn = self.prog.funcs.get(f.get("u"))
        if fn is not None and fn.get("body") is not None and not self.opaque(fn["q"]) and not fn["q"].startswith("std::"):
            if e.get("meth"):
                this = self.ev(A[0])
                return self.call(fn, this, [self.ev(a) for a in A[1:]], line)
            return self.call(fn, None, [self.ev(a) for a in A], line)
        t0 = A[0].get("t", "")
        if "iterator" in t0.lower() and op in ("+", "-", "+=", "-=", "++", "--", "==", "!=", "<", ">", "<=", ">="):
            r = self.iter_op(op, A, line, e)
            if r is not NotImplemented:
                return r
        if op == "[]" or (op == "()" and (is_container(t0) or is_vector(t0))):
            b = self.ev(A[0])
            idx = [self.rv(a) for a in A[1:]]
            return self.index(b, t0, idx, e)
        if op == "()":
            c = self.ev(A[0])
            if isinstance(c, Lam):
                return self.call_lam(c, [self.ev(a) for a in A[1:]], line)
            b = self.val(c, t0)
            return self.extcall("operator()", b, c, A[1:], e, t0)
        if op == "=":
            terms = self_sum(A[0], A[1])
            if terms:
                return self.compounds(terms, A[0], line)
            r = self.ev(A[1])
            pt0 = ptype(t0)
            if isinstance(r, Loc):
                r = self.read(r, A[1].get("t", "") if pt0[0] == "obj" else pt0)
            elif isinstance(r, Term):
                r = self.coerce(r, ptype(A[1].get("t", "")))
            l = self.ev(A[0])
            if pt0[0] == "tens" and isnum(r):
                r = mk("tens", pt0[1], pt0[2], pt0[3], (r,) * (pt0[3] ** pt0[2]))
            elif pt0[0] == "tens" and is_tens(r) and r.args[0] != pt0[1]:
                r = mk("tens", pt0[1], *r.args[1:])
            elif pt0[0] == "obj" and isnum(r) and isinstance(l, Loc):
                r = mk("refill", r)      # container = scalar: keeps its size
            elif pt0[0] == "obj" and isinstance(r, Term) and r.op == "ilist" and not r.args[0]:
                r = mk("fill", UNDEF, ZERO)
            if r is None:
                r = UNDEF
            if isinstance(r, (Lam, Iota)):
                r = mk("lamv", str(line))
            self.store("set", l, r, line)
            return l
        if op in ("|=", "&="):
            l = self.ev(A[0])
            v = mk("call", "op" + op[0], self.rv(A[0]), self.rv(A[1]))
            self.store("set", l, v, line)
            return l
        if op in ("+=", "-=", "*=", "/="):
            l = self.ev(A[0])
            r = self.rv(A[1])
            self.compound(op, l, r, t0, A[1].get("t", ""), line)
            return l
        if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "%"):
            if len(A) == 1:
                v = self.rv(A[0])
                if op == "-":
                    return tmap(v, neg) if is_tens(v) else (neg(v) if isnum(v) else mk("call", "neg", v))
                return v
            return self.binop(op, self.rv(A[0]), self.rv(A[1]), t0, A[1].get("t", ""))
        if op in ("++", "--"):
            l = self.ev(A[0])
            old = self.read(l, ("obj", "")) if isinstance(l, Loc) else l
            new = mk("call", op, old) if isinstance(old, Term) else l
            if isinstance(l, Loc):
                self.store("set", l, new, line)
            return old if len(A) > 1 else l if isinstance(l, Loc) else new
        if op in ("<<", ">>", "|", "&", ","):
            if op == "<<" and self.formats(e):
                l = self.ev(A[0])
                r = self.rv(A[1])
                if isinstance(l, Loc):
                    self.store("set", l, mk("call", "op<<", self.read(l, ("obj", "")), r), line)
                    return l
            if self.is_ignored(e):
                return mk("sym", "ignored")
            return mk("call", "op" + op, *[self.rv(a) for a in A])
        if op == "!":
            v = self.rv(A[0])
            return lnot(tobool(v)) if isnum(v) else lnot(atom(mk("b", v)))
        raise Unsupported("operator " + op)

    def iterator(self, v):
        """the iterator term a value is, or None"""
        if isinstance(v, Loc):
            v = self.read(v, ("obj", ""))
        return v if isinstance(v, Term) and v.op == "iter" else None

    def iter_op(self, op, A, line, e):
        l = self.ev(A[0])
        x = self.iterator(l)
        if x is None:
            return NotImplemented
        move = lambda k: mk("iter", x.args[0], x.args[1], add(x.args[2], k))
        if op in ("++", "--"):
            n = move(ONE if op == "++" else num(-1))
            if isinstance(l, Loc):
                self.store("set", l, n, line)
            return x if len(A) > 1 else n
        y = self.ev(A[1])
        z = self.iterator(y)
        if z is not None:
            if x.args[:2] != z.args[:2]:
                return NotImplemented
            if op == "-":
                return sub(x.args[2], z.args[2])
            return self.binop(op, x.args[2], z.args[2])
        k = self.val(y, A[1].get("t", ""))
        if not isnum(k):
            return NotImplemented
        n = move(k if op in ("+", "+=") else neg(k))
        if op in ("+=", "-=") and isinstance(l, Loc):
            self.store("set", l, n, line)
        return n

    def span(self, a, b, line, body):
        """body(position) for every position of the range [a, b) of iterators"""
        lo, hi = a.args[2], b.args[2]
        cl, ch = const(lo), const(hi)
        if cl is not None and ch is not None and ch - cl <= self.max_unroll:
            for k in range(int(cl), int(ch)):
                lc = LoopCtx()
                self.frames[-1].loops.append(lc)
                body(num(k))
                self.frames[-1].loops.pop()
            return
        at_ = []

        def setit(v):
            at_[:] = [var(v)]
        self.summarise({"l": line, "c_": 900}, lo, hi, 1, setit, lambda: body(at_[0]))

    def apply(self, fn, args, line):
        if isinstance(fn, Lam):
            v = self.call_lam(fn, args, line)
            return v
        return None

    def algorithm(self, name, A, e, line):
        """standard algorithms over iterator ranges, as the loops they are"""
        if len(A) < 2:
            return NotImplemented
        a, b = self.iterator(self.ev(A[0])), None
        if a is None:
            return NotImplemented
        place = lambda it, k: Loc(it.args[0], it.args[1]).i(add(it.args[2], sub(k, a.args[2])))
        if name in ("next", "prev", "advance"):
            return NotImplemented
        if name == "fill_n":
            n = self.rv(A[1])
            b = mk("iter", a.args[0], a.args[1], add(a.args[2], n))
            v = self.rv(A[2])
            self.span(a, b, line, lambda k: self.store("set", place(a, k), v, line))
            return b
        b = self.iterator(self.ev(A[1]))
        if b is None or a.args[:2] != b.args[:2]:
            return NotImplemented
        et = elem_type(A[0].get("t", ""))
        if name == "distance":
            return sub(b.args[2], a.args[2])
        if name == "fill":
            v = self.rv(A[2])
            self.span(a, b, line, lambda k: self.store("set", place(a, k), v, line))
            return None
        if name == "iota":
            v = self.rv(A[2])
            self.span(a, b, line, lambda k: self.store("set", place(a, k), add(v, sub(k, a.args[2])), line))
            return None
        if name == "copy" and len(A) == 3:
            o = self.iterator(self.ev(A[2]))
            if o is None:
                return NotImplemented
            self.span(a, b, line, lambda k: self.store("set", place(o, k), self.read(place(a, k), et), line))
            return mk("iter", o.args[0], o.args[1], add(o.args[2], sub(b.args[2], a.args[2])))
        fn = self.ev(A[-1])
        if name == "for_each" and isinstance(fn, Lam):
            self.span(a, b, line, lambda k: self.call_lam(fn, [place(a, k)], line))
            return None
        if name == "transform" and len(A) == 4 and isinstance(fn, Lam):
            o = self.iterator(self.ev(A[2]))
            if o is None:
                return NotImplemented
            self.span(a, b, line, lambda k: self.store("set", place(o, k), self.val(self.call_lam(fn, [place(a, k)], line), fn.node.get("ret", "")), line))
            return None
        rt = ptype(e.get("t", ""))
        if name == "accumulate" and rt[0] == "num":
            fr = self.frames[-1]
            acc = self.newroot("%" + fr.path + ":acc@%s" % line, self.rv(A[2]))
            D = ("num", False)

            def step(k):
                if len(A) == 3:
                    self.store("add", acc, self.read(place(a, k), D), line)
                else:
                    r = self.val(self.call_lam(fn, [acc, place(a, k)], line), fn.node.get("ret", ""))
                    old = self.read(acc, D)
                    d = sub(r, old)
                    if single_atom(old) is not None and single_atom(old) in subterms(d):
                        self.store("set", acc, r, line)
                    else:
                        self.store("add", acc, d, line)
            if len(A) == 3 or isinstance(fn, Lam):
                self.span(a, b, line, step)
                return self.read(acc, D)
        if name in ("any_of", "none_of", "all_of") and isinstance(fn, Lam):
            fr = self.frames[-1]
            acc = self.newroot("%" + fr.path + ":any@%s" % line, ZERO)

            def step(k):
                p = tobool(self.val(self.call_lam(fn, [place(a, k)], line), "bool"))
                p = lnot(p) if name == "all_of" else p
                if p is ZERO:
                    return
                saved = self.path
                self.path = mul(saved, p)
                self.store("set", acc, ONE, line)
                self.path = saved
            self.span(a, b, line, step)
            r = tobool(self.read(acc, ("bool", False)))
            return r if name == "any_of" else lnot(r)
        return NotImplemented

    def index(self, b, t0, idx, e):
        pt0 = ptype(t0)
        s0 = strip_cv(t0)
        cont = is_container(t0) or pt0[0] == "tens" or "Accessor" in s0 or s0.startswith("dealii::TrilinosWrappers::MPI") \
            or s0.startswith("dealii::BlockVectorBase") or s0.endswith("]")
        if self.accesses and s0.startswith(SIZED):
            for n, i in enumerate(idx):
                st = ("f", "#size" if n == 0 else "#size2")
                z = self.read(Loc(b.root, b.steps + (st,)), ("num", True)) if isinstance(b, Loc) else self.descend(b, (st,), ("num", True))
                self.events.append(("access", t0, b, (i, z), self.full(), e.get("l", 0), n))
        if isinstance(b, Loc):
            if not cont:
                bv = self.read(b, ("obj", ""))
                return typed(mk("call", "operator[]", bv, *idx), ptype(e.get("t", "")))
            for i in idx:
                if pt0[0] == "tens" and (b.ten is None or b.ten[0] + b.ten[2] <= len(b.steps)):
                    b = b.i(i, (len(b.steps), pt0[1], pt0[2]))
                elif "std::vector" in s0[:12] or s0.startswith(("dealii::Vector", "dealii::FullMatrix", "std::")):
                    b = Loc(b.root, b.steps + (("i", i),))
                else:
                    b = b.i(i)
            return b
        if isinstance(b, Term):
            if not cont:
                return typed(mk("call", "operator[]", b, *idx), ptype(e.get("t", "")))
            return self.descend(b, tuple(("i", i) for i in idx), ptype(e.get("t", "")))
        raise Unsupported("index base")

    def call_lam(self, lam, args, line):
        n = lam.node
        fr = Frame({"q": "lambda", "name": "lambda", "ret": n.get("ret", ""), "rp": "v", "params": n["params"], "relfile": "", "line": 0,
                    "kind": "fn"}, lam.this, self.frame_path("lam", line))
        fr.lam = lam
        fr.env = dict(lam.frame.env)
        for p, a in zip(n["params"], args):
            self.bindparam(fr, p, a)
        souter, spath = self.outer, self.path
        g = self.full()
        self.outer, self.path = g, ONE
        self.frames.append(fr)
        try:
            self.exec(n["body"])
        finally:
            self.frames.pop()
            self.outer, self.path = souter, spath
        if not fr.rets:
            return None
        if len(fr.rets) == 1:
            return fr.rets[0][1]
        return self.merge_rets(fr, fr.func)

    def e_mcall(self, e):
        f = e.get("f") or {}
        q = f.get("q", "")
        name = q.rsplit("::", 1)[-1]
        line = e.get("l", 0)
        hook = self.hooks.get(strip_targs(q))
        if hook:
            r = hook(self, e)
            if r is not NotImplemented:
                return r
        fn = self.prog.funcs.get(f.get("u"))
        obj = e.get("obj")
        if fn is not None and fn.get("body") is not None and not self.opaque(fn["q"]):
            this = self.ev(obj)
            if isinstance(this, Term):
                this = self.newroot("%%tmpobj%s:%d:%d" % (self.frames[-1].path, line, id(e) % 10 ** 9), this)
            return self.call(fn, this, [self.ev(a) for a in e["a"]], line)
        ov = self.ev(obj)
        t0 = obj.get("t", "")
        return self.method(name, ov, t0, e)

    def method(self, name, ov, t0, e):
        A = e["a"]
        line = e.get("l", 0)
        s0 = strip_cv(t0)
        pt0 = ptype(t0)
        f = e.get("f") or {}
        if s0.startswith(IGNORED_T):
            for a in A:
                pass
            return mk("sym", "ignored")
        if name in ("get", "lock", "begin_active_") and ("_ptr" in s0 or "__shared_ptr" in f.get("q", "")):
            return ov
        if name.startswith("operator double") or name.startswith("operator const"):
            return self.val(ov, "double")
        if name in ("operator bool",):
            v = self.val(ov, t0)
            return atom(mk("b", v)) if not isnum(v) else tobool(v)
        if pt0[0] == "tens":
            v = self.read(ov, pt0) if isinstance(ov, Loc) else typed(ov, pt0)
            if name == "norm":
                return powr(add(*[mul(x, x) for x in v.args[3]]), Fr(1, 2))
            if name == "norm_square":
                return add(*[mul(x, x) for x in v.args[3]])
            if name == "access_raw_entry":
                return self.raw(v, self.rv(A[0]))
            if name == "clear":
                self.store("set", ov, zero_tens(pt0), line)
                return None
            if name == "square":
                return add(*[mul(x, x) for x in v.args[3]])
        if is_container(t0) or s0.startswith("std::set<"):
            if name in ("size", "n_elements") and isinstance(ov, Loc) or name == "size":
                if isinstance(ov, Loc):
                    return self.read(ov.f("#size"), ("num", True))
                return self.descend(ov, (("f", "#size"),), ("num", True))
            if name in ("push_back", "emplace_back") and isinstance(ov, Loc):
                n = self.read(ov.f("#size"), ("num", True))
                v = self.ev(A[0]) if A else UNDEF
                if isinstance(v, Loc):
                    v = self.read(v, A[0].get("t", ""))
                elif isinstance(v, Term):
                    v = self.coerce(v, ptype(A[0].get("t", "")))
                self.store("set", ov.i(n), v, line)
                self.store("add", ov.f("#size"), ONE, line)
                return None
            if name == "clear" and isinstance(ov, Loc):
                self.store("set", ov, mk("fill", UNDEF, ZERO), line)
                return None
            if name in ("reserve", "shrink_to_fit", "swap_row_col"):
                return None
            if name in ("resize", "assign") and isinstance(ov, Loc):
                n = self.rv(A[0])
                fv = self.rv(A[1]) if len(A) > 1 else elem_default(s0)
                self.store("set", ov, mk("fill", fv, n), line)
                return None
            if name == "reinit" and isinstance(ov, Loc):
                n = self.rv(A[0])
                self.store("set", ov, mk("fill", ZERO, n), line)
                return None
            if name == "at" and s0.startswith(("std::vector", "std::array")):
                return self.index(ov, t0, [self.rv(A[0])], e)
            if name in ("front",):
                return self.index(ov, t0, [ZERO], e)
            if name in ("back",) and isinstance(ov, Loc):
                return self.index(ov, t0, [sub(self.read(ov.f("#size"), ("num", True)), ONE)], e)
            if name in ("begin", "cbegin", "end", "cend") and isinstance(ov, Loc) and s0.startswith(ITERABLE) and not A:
                return mk("iter", ov.root, ov.steps, ZERO if name in ("begin", "cbegin") else self.read(ov.f("#size"), ("num", True)))
            if name == "empty":
                n = self.read(ov.f("#size"), ("num", True)) if isinstance(ov, Loc) else self.descend(ov, (("f", "#size"),), ("num", True))
                return eq(n, ZERO)
            if name in ("vmult", "Tvmult", "vmult_add", "Tvmult_add") and s0.startswith("dealii::FullMatrix") and isinstance(ov, Loc):
                d, x = self.ev(A[0]), self.ev(A[1])
                if isinstance(d, Loc) and isinstance(x, Loc):
                    nd = const(self.read(d.f("#size"), ("num", True)))
                    nx = const(self.read(x.f("#size"), ("num", True)))
                    if nd is not None and nx is not None and nd * nx <= 64 and d != x:
                        D = ("num", False)
                        vs = []
                        for i in range(int(nd)):
                            vs.append(add(*[mul(self.read(ov.i(num(j)).i(num(i)) if name[0] == "T" else ov.i(num(i)).i(num(j)), D),
                                                self.read(x.i(num(j)), D)) for j in range(int(nx))]))
                        for i, v in enumerate(vs):
                            self.store("add" if name.endswith("_add") else "set", d.i(num(i)), v, line)
                        return None
            if name in ("m", "n") and s0.startswith("dealii::FullMatrix"):
                return self.read(ov.f("#size"), ("num", True)) if isinstance(ov, Loc) else self.descend(ov, (("f", "#size"),), ("num", True))
            if name == "add" and isinstance(ov, Loc) and s0.startswith(("dealii::FullMatrix",)) and len(A) == 3:
                self.store("add", ov.i(self.rv(A[0])).i(self.rv(A[1])), self.rv(A[2]), line)
                return None
        if s0.startswith(("std::map<", "std::unordered_map<", "std::set<")) and name in ("find", "count", "contains", "end", "cend", "empty", "at") and isinstance(ov, Loc):
            keys = self.keys_of(ov)
            if keys is not None:
                if name == "at":
                    k = self.rv(A[0])
                    if isnum(k):
                        self.events.append(("call", name, keys, (k,), self.full(), line, t0))
                        return ov.i(k)
                elif name in ("end", "cend"):
                    return mk("call", "end", keys)
                elif name == "find":
                    return mk("call", "find", keys, self.rv(A[0]))
                elif name in ("count", "contains"):
                    b = lnot(T.eq(mk("call", "find", keys, self.rv(A[0])), mk("call", "end", keys)))
                    return b
        if s0.startswith("std::map<") and name in ("emplace", "try_emplace", "insert", "insert_or_assign") and isinstance(ov, Loc):
            # the entry is written if there was none
            r = self.map_insert(name, ov, A, line)
            if r is not NotImplemented:
                return r
        if name in ("face_indices", "dof_indices", "quadrature_point_indices", "vertex_indices"):
            o = self.val(ov, t0)
            return Iota(ZERO, atom(mk("size", mk("call", name, o))))
        if name == "n_faces" and not A and "Accessor" in s0:
            return atom(mk("size", mk("call", "face_indices", self.val(ov, t0))))
        if isinstance(ov, Lam):
            return self.call_lam(ov, [self.ev(a) for a in A], line)
        return self.extcall(name, None, ov, A, e, t0)

    def map_insert(self, name, ov, A, line):
        if self.generic is None or len(A) != (1 if name == "insert" else 2):
            return NotImplemented
        if name == "insert":
            p = self.rv(A[0])
            if p.op != "rec":
                return NotImplemented
            k, v = dict(p.args[0])["first"], dict(p.args[0])["second"]
        else:
            k, v = self.rv(A[0]), self.rv(A[1])
        m = self.read(ov, ("obj", ""))
        absent = atom(mk("b", "==", *sorted((mk("call", "find", m, k), mk("call", "end", m)), key=lambda t: t.dig)))
        saved = self.path
        if name != "insert_or_assign":
            self.path = mul(saved, absent)
        self.store("set", ov.i(k), v, line)
        self.path = saved
        return mk("rec", (("first", mk("call", "find", m, k)), ("second", absent)))

    def raw(self, v, i):
        c = const(i)
        if c is None:
            raise Unsupported("raw entry")
        d = v.args[2]
        order = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}[d]
        if v.args[1] == 2 and v.args[0] == "S":
            return tget(v, order[int(c)])
        return v.args[3][int(c)]

    def keys_of(self, l):
        """set of keys of a map: unaffected by writes to its elements"""
        b = self.base.get(l.root)
        if b is None or b.op not in ("sym", "at"):
            return None
        for st in self.logs[l.root]:
            for x in st.pats if isinstance(st, Phi) else (st,):
                n = min(len(x.steps), len(l.steps))
                if x.steps[:n] == l.steps[:n] and not (len(x.steps) > len(l.steps) and x.steps[len(l.steps)][0] == "i"):
                    return None
        return at(b, l.steps)

    def argval(self, a, pmode):
        """argument of an opaque call -> (term, loc or None)"""
        v = self.ev(a)
        if isinstance(v, Loc):
            return self.read(v, a.get("t", "")), v
        return self.val(v, a.get("t", "")), None

    def first_value(self, l):
        """what an object was constructed with"""
        b0 = self.base[l.root]
        ts = [st.val for st in self.logs.get(l.root, []) if isinstance(st, Store) and st.kind == "set" and st.steps == l.steps and isinstance(st.val, Term)]
        if b0.op in ("objst", "ctorobj"):
            ts.append(self.descend(b0, l.steps, ("obj", "")))
        for t in ts:
            while t.op == "after" and t.args[0] in RESETTING:
                t = t.args[1]
            if t.op == "ctorobj":
                return t
        return None

    def extcall(self, name, recv, ov, A, e, t0):
        """opaque call: result is a term of receiver and arguments; mutable
        arguments and receivers become terms of the call"""
        f = e.get("f") or {}
        line = e.get("l", 0)
        pm = f.get("p") or []
        terms, outs = [], []
        for n, a in enumerate(A):
            t, l = self.argval(a, None)
            mode = pm[n] if n < len(pm) else "v"
            if mode in ("r", "p") and l is not None:
                outs.append((n, l))
                if name in PURE_OUT:
                    t = mk("sym", "out")
            terms.append(t)
        isconst = f.get("const") or ov is None or f.get("static") or name in READERS
        rfn = self.prog.funcs.get(f.get("u"))
        if not isconst and rfn is not None and rfn.get("body") is not None and self.effects().pure_this(rfn):
            isconst = True
        o = recv if recv is not None else (self.val(ov, t0) if ov is not None else mk("sym", "none"))
        cal = mk("call", name, o, *terms)
        self.events.append(("call", name, o, tuple(terms), self.full(), line, t0))
        if not isconst:
            self.mutations.append((name, o, ov.root if isinstance(ov, Loc) else None, self.full(), line, t0, f.get("rp", "v"), len(self.events) - 1))
        for n, l in outs:
            self.outs.append((name, n, l, self.full(), line, len(self.events) - 1))
            if self.accesses and name in PURE_OUT and strip_cv(A[n].get("t", "")).startswith(SIZED):
                z = self.read(l.f("#size"), ("num", True))
                self.events.append(("filled", t0, o, (l, z, name), self.full(), line, n))
            self.store("set", l, mk("out", n, cal), line)
        if not isconst and isinstance(ov, Loc) and f.get("rp", "v") not in ("r", "p"):
            if name in RESETTING:
                b0 = self.base[ov.root]
                b = at(b0, ov.steps) if b0.op in ("sym", "at") else mk("sym", "fresh")
                if self.accesses and b0.op not in ("sym", "at"):
                    b = self.first_value(ov) or b
                self.store("set", ov, mk("after", name, b, *terms), line)
            else:
                fs = self.effects().fields(rfn) if rfn is not None and rfn.get("body") is not None else None
                if fs is None:
                    self.store("set", ov, mk("after", name, o, *terms), line)
                else:
                    aft = mk("after", name, o, *terms)
                    for fn_ in sorted(fs):
                        self.store("set", ov.f(fn_), at(aft, (("f", fn_),)), line)
        elif not isconst and isinstance(ov, Loc) and f.get("rp") in ("r", "p") and name in ("block",):
            return Loc(ov.root, ov.steps + (("f", "#" + name),) + tuple(("i", t) for t in terms))
        pt = ptype(e.get("t", ""))
        return typed(cal, pt)

    def e_call(self, e):
        f = e.get("f") or {}
        q = f.get("q", "")
        line = e.get("l", 0)
        if f.get("nr"):
            self.do_throw(e)
            return UNDEF
        hook = self.hooks.get(strip_targs(q))
        if hook:
            r = hook(self, e)
            if r is not NotImplemented:
                return r
        if not q and e.get("ce"):
            c = self.ev(e["ce"])
            if isinstance(c, Lam):
                return self.call_lam(c, [self.ev(a) for a in e["a"]], line)
            return self.extcall("call", self.val(c, ""), None, e["a"], e, "")
        fn = self.prog.funcs.get(f.get("u"))
        if fn is not None and fn.get("body") is not None and not self.opaque(fn["q"]):
            return self.call(fn, self.frames[-1].this if False else None, [self.ev(a) for a in e["a"]], line)
        A = e["a"]
        sq = strip_targs(q)
        name = sq.rsplit("::", 1)[-1]
        ns = sq.rsplit("::", 1)[0] if "::" in sq else ""
        if ns in ("", "std") or ns.startswith("std"):
            if name in ("abs", "fabs", "sqrt", "cbrt") or name in T._MATH1:
                return fn1({"fabs": "abs", "isfinite": "isfinite"}.get(name, name), self.rv(A[0]))
            if name == "pow":
                return pow2(self.rv(A[0]), self.rv(A[1]))
            if name in ("max", "fmax", "min", "fmin") and len(A) == 2:
                a, b = self.rv(A[0]), self.rv(A[1])
                if isnum(a) and isnum(b):
                    return fmax(a, b) if name in ("max", "fmax") else fmin(a, b)
                if isinstance(a, Term) and isinstance(b, Term) and name in ("max", "min"):
                    g = atom(mk("b", "<", b, a) if name == "min" else mk("b", "<", a, b))
                    return T.case([(g, b), (lnot(g), a)])
            if name == "minmax" and len(A) == 2:
                a, b = self.rv(A[0]), self.rv(A[1])
                if isinstance(a, Term) and isinstance(b, Term) and not isnum(a):
                    g = atom(mk("b", "<", b, a))
                    return T.case([(g, mk("rec", (("first", b), ("second", a)))), (lnot(g), mk("rec", (("first", a), ("second", b))))])
            if name in ("max", "min") and len(A) == 1:
                v = self.rv(A[0])
                if v.op == "ilist":
                    r = v.args[0][0]
                    for x in v.args[0][1:]:
                        r = fmax(r, x) if name == "max" else fmin(r, x)
                    return r
            if name in ("move", "forward", "ref", "cref", "as_const", "addressof"):
                return self.ev(A[0])
            if name == "make_pair":
                return mk("rec", (("first", self.rv(A[0])), ("second", self.rv(A[1]))))
            if name in ("isnan",):
                return ZERO
            if name in ALGORITHMS:
                r = self.algorithm(name, A, e, line)
                if r is not NotImplemented:
                    return r
            if name in ("next", "prev") and A:
                it = self.iterator(self.ev(A[0]))
                if it is not None:
                    k = self.rv(A[1]) if len(A) > 1 and A[1]["k"] != "unk" else ONE
                    return mk("iter", it.args[0], it.args[1], add(it.args[2], k if name == "next" else neg(k)))
            if name == "swap" and len(A) == 2:
                a, b = self.ev(A[0]), self.ev(A[1])
                ta, tb = self.read(a, A[0]["t"]), self.read(b, A[1]["t"])
                self.store("set", a, tb, line)
                self.store("set", b, ta, line)
                return None
            if name in ("hypot",) and len(A) == 2:
                a, b = self.rv(A[0]), self.rv(A[1])
                return powr(add(mul(a, a), mul(b, b)), Fr(1, 2))
            if name == "exchange" and len(A) == 2:
                l = self.ev(A[0])
                old = self.read(l, A[0]["t"])
                self.assign_loc(l, self.rv(A[1]), ptype(A[0]["t"]), line)
                return old
        r = self.dealii(name, sq, A, e)
        if r is not NotImplemented:
            return r
        return self.extcall(sq, None, None, A, e, "")

    def dealii(self, name, sq, A, e):
        if not sq.startswith("dealii::"):
            return NotImplemented
        if name in ("outer_product",):
            a, b = self.rv(A[0]), self.rv(A[1])
            ra = a.args[1]
            return tens_like("S" if a.args[0] == b.args[0] == "S" else "T", ra + b.args[1], a.args[2], lambda ix: mul(tget(a, ix[:ra]), tget(b, ix[ra:])))
        if name == "symmetrize":
            return self.symm(self.rv(A[0]))
        if name in ("unit_symmetric_tensor",):
            pt = ptype(e["t"])
            return tens_gen("S", 2, pt[3], lambda ix: ONE if ix[0] == ix[1] else ZERO)
        if name in ("identity_tensor",):
            pt = ptype(e["t"])
            h = Fr(1, 2)
            return tens_gen("S", 4, pt[3], lambda ix: num(((ix[0] == ix[2]) * (ix[1] == ix[3]) + (ix[0] == ix[3]) * (ix[1] == ix[2])) * h))
        if name == "scalar_product" and len(A) == 2:
            a, b = self.rv(A[0]), self.rv(A[1])
            if a.args[1] == b.args[1]:
                return add(*[mul(x, y) for x, y in zip(a.args[3], b.args[3])])
        if name == "transpose":
            a = self.rv(A[0])
            if is_tens(a):
                return tens_like(a.args[0], 2, a.args[2], lambda ix: tget(a, (ix[1], ix[0])))
        if name in ("trace", "first_invariant"):
            a = self.rv(A[0])
            if is_tens(a):
                return add(*[tget(a, (k, k)) for k in range(a.args[2])])
        if name == "deviator":
            a = self.rv(A[0])
            d = a.args[2]
            tr = scale(add(*[tget(a, (k, k)) for k in range(d)]), Fr(1, d))
            return tens_gen("S", 2, d, lambda ix: sub(tget(a, ix), tr) if ix[0] == ix[1] else tget(a, ix))
        if name == "cross_product_3d":
            a, b = self.rv(A[0]), self.rv(A[1])
            x, y = a.args[3], b.args[3]
            return mk("tens", "T", 1, 3, tuple(sub(mul(x[(k + 1) % 3], y[(k + 2) % 3]), mul(x[(k + 2) % 3], y[(k + 1) % 3])) for k in range(3)))
        if name == "cross_product_2d":
            a = self.rv(A[0])
            return mk("tens", "T", 1, 2, (a.args[3][1], neg(a.args[3][0])))
        if name in ("contract", "double_contract") and len(A) == 2:
            ix = re.match(r".*?%s<((?:#VI\d+)+)" % name, (e.get("f") or {}).get("u", ""))
            ix = [int(x) for x in ix.group(1).split("#VI")[1:]] if ix else []
            np = 1 if name == "contract" else 2
            a, b = self.rv(A[0]), self.rv(A[1])
            if len(ix) >= 2 * np and is_tens(a) and is_tens(b) and a.args[2] == b.args[2]:
                ia, ib = ix[0:2 * np:2], ix[1:2 * np:2]
                ra, rb, dm = a.args[1], b.args[1], a.args[2]
                fa = [k for k in range(ra) if k not in ia]
                fb = [k for k in range(rb) if k not in ib]

                def ent(free):
                    out = []
                    for cs in itertools.product(range(dm), repeat=np):
                        xa, xb = [0] * ra, [0] * rb
                        for k, v in zip(fa, free):
                            xa[k] = v
                        for k, v in zip(fb, free[len(fa):]):
                            xb[k] = v
                        for k, v in zip(ia, cs):
                            xa[k] = v
                        for k, v in zip(ib, cs):
                            xb[k] = v
                        out.append(mul(tget(a, tuple(xa)), tget(b, tuple(xb))))
                    return add(*out)
                r = len(fa) + len(fb)
                if r == 0:
                    return ent(())
                return tens_gen("T", r, dm, ent)
            return NotImplemented
        if name in ("abs", "pow", "sqrt") and len(A) == 1:
            return fn1(name, self.rv(A[0]))
        return NotImplemented


# ---------------------------------------------------------------- helpers
def strip_const(t):
    return t[6:] if t.startswith("const ") else t


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == "<" and not q.startswith("operator<", max(0, i - 8)):
            d += 1
        elif c == ">" and d > 0:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def elem_default(vt):
    m = re.match(r"std::vector<(.*)$", vt)
    inner = first_targ(m.group(1)) if m else ""
    pt = ptype(inner)
    if pt[0] in ("num", "bool", "tens"):
        return ZERO
    if inner.startswith("std::vector<"):
        return mk("fill", UNDEF, ZERO)
    return UNDEF


def first_targ(s):
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif c == "," and d == 0:
            return s[:i].strip()
    return s


def fvof(v):
    return v.fv if isinstance(v, Term) else frozenset()


def case_num(pairs):
    if all(isnum(v) for _, v in pairs):
        return add(*[mul(g, v) for g, v in pairs]) if pairs else ZERO
    if all(is_tens(v) for _, v in pairs):
        t = pairs[0][1]
        return mk("tens", *t.args[:3], tuple(add(*[mul(g, v.args[3][k]) for g, v in pairs]) for k in range(len(t.args[3]))))
    return case(pairs)


def reassigned(n, d):
    """is the pointer variable d given another object somewhere in n?"""
    if isinstance(n, dict):
        if n.get("k") == "assign":
            l = n["lhs"]
            while l["k"] in ("cast",):
                l = l["e"]
            if l["k"] == "ref" and l.get("d") == d:
                return True
        return any(reassigned(x, d) for x in n.values())
    if isinstance(n, list):
        return any(reassigned(x, d) for x in n)
    return False


def elem_type(t):
    return ("num", False) if "double" in t or "int" in t or "float" in t else ("obj", "")


def writes_local(n, d):
    if isinstance(n, dict):
        if n.get("k") == "assign":
            l = n["lhs"]
            if l["k"] == "ref" and l.get("d") == d:
                return True
        if n.get("k") == "un" and n.get("op") in ("++", "--") and n["x"]["k"] == "ref" and n["x"].get("d") == d:
            return True
        return any(writes_local(v, d) for v in n.values())
    if isinstance(n, list):
        return any(writes_local(v, d) for v in n)
    return False


def same_ast(a, b):
    """the same expression, apart from where it is written"""
    if isinstance(a, dict) and isinstance(b, dict):
        while a.get("k") in ("cast", "copy", "stmtexpr") and "e" in a:
            a = a["e"]
        while b.get("k") in ("cast", "copy", "stmtexpr") and "e" in b:
            b = b["e"]
        if a.get("k") != b.get("k"):
            return False
        ka, kb = ({k for k in x if k not in ("l", "t")} for x in (a, b))
        return ka == kb and all(same_ast(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_ast(x, y) for x, y in zip(a, b))
    return a == b


def self_sum(l, r):
    """x = x + a - b: what is added to x, in this order; None: not of this form"""
    out = []
    while True:
        while r.get("k") in ("cast", "copy", "stmtexpr") and "e" in r:
            r = r["e"]
        if r.get("k") == "bin" and r["op"] in ("+", "-"):
            x, y = r["x"], r["y"]
        elif r.get("k") == "opcall" and r["op"] in ("+", "-") and len(r["a"]) == 2:
            x, y = r["a"]
        else:
            return None
        if "iter" in l.get("t", ""):
            return None
        if same_ast(l, x):
            out.append((r["op"] + "=", y))
            return list(reversed(out))
        if r["op"] == "+" and not out and r["k"] == "bin" and same_ast(l, y):
            return [("+=", x)]
        out.append((r["op"] + "=", y))
        r = x


def contains(n, kind):
    if isinstance(n, dict):
        return n.get("k") == kind or any(contains(v, kind) for v in n.values())
    if isinstance(n, list):
        return any(contains(v, kind) for v in n)
    return False


def _rb_tens_at(a, args):
    return atom(mk("at", *args))


def run(prog, func, this="this", args=None, init=None, **kw):
    """Evaluate one function on symbolic inputs. Returns (evaluator, result).
    init: {field path of *this: value} known about the object on entry"""
    ev = Eval(prog, **kw)
    th = ev.sym(this) if isinstance(this, str) else this
    for path, v in (init or {}).items():
        ev.store("set", Loc(th.root, th.steps + tuple(("f", x) for x in path.split("."))), v, 0)
    al = []
    work = any("AssemblyData::" in p["t"] for p in func["params"])
    for p in func["params"]:
        # the parameters of a parallel loop's worker and copier are known by what they are
        n = p["n"]
        if work:
            n = "data" if "::Copy" in p["t"] else "scratch" if "::Scratch" in p["t"] else "cell" if "terator" in p["t"] else n
        al.append(ev.sym(n) if n else ev.sym("arg%s" % p["d"]))
    if args:
        for k, v in args.items():
            for n, p in enumerate(func["params"]):
                if p["n"] == k or n == k:
                    al[n] = v
    r = ev.call(func, th, al)
    if isinstance(r, Loc):
        pt = ptype(func["ret"])
        r = ev.read(r, pt) if pt[0] != "obj" else r
    return ev, r
