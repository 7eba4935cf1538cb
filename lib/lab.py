"""A laboratory for constitutive objects: objects are built by evaluating the
repository's own constructors on symbolic parameters, then methods are
evaluated on them; nothing depends on the names of private members."""
from fractions import Fraction as Fr

import vg
from terms import *
from vg import at, Loc
from frontend import AnalysisBroken


class Lab:
    def __init__(self, chk, **kw):
        self.c = chk
        self.ev = vg.Eval(chk.prog, **kw)
        self.n = 0

    def sym(self, name):
        return self.ev.sym(name)

    def val(self, x):
        """python value -> argument"""
        if isinstance(x, str):
            return self.sym(x)
        if isinstance(x, (int, float)):
            return num(x)
        return x

    def new(self, q, *args, nparams=None, pred=None):
        """q: class name with template arguments"""
        name = q.rsplit("::", 1)[-1].split("<")[0]
        fs = [f for f in self.c.prog.by_q.get(q + "::" + name, []) if f["kind"] == "ctor" and len(f["params"]) == (len(args) if nparams is None else nparams)]
        if pred:
            fs = [f for f in fs if pred(f)]
        if len(fs) != 1:
            raise AnalysisBroken("constructor of %s with %d arguments: %d found" % (q, len(args), len(fs)))
        self.n += 1
        o = self.ev.newroot("%%obj%d:%s" % (self.n, name), mk("sym", "uninit:" + name))
        self.c.functions.add(fs[0]["q"])
        self.ev.call(fs[0], o, [self.val(a) for a in args])
        self.note()
        return o

    def note(self):
        for q, _, _ in self.ev.covered:
            self.c.functions.add(q)

    def fn(self, q, nparams=None, pred=None):
        return self.c.prog.one(q, nparams, pred)

    def call(self, obj, q, *args, pred=None):
        f = self.fn(q, len(args), pred)
        self.c.functions.add(f["q"])
        r = self.ev.call(f, obj, [self.val(a) for a in args])
        self.note()
        pt = vg.ptype(f["ret"])
        if isinstance(r, Loc) and pt[0] != "obj":
            r = self.ev.read(r, pt)
        elif isinstance(r, Term) and pt[0] != "obj":
            r = self.ev.coerce(r, pt)
        return r

    def raw(self, obj, q, *args, pred=None):
        """call without converting the result"""
        f = self.fn(q, len(args), pred)
        self.c.functions.add(f["q"])
        r = self.ev.call(f, obj, [self.val(a) for a in args])
        self.note()
        return r

    def get(self, v, *steps, t="double"):
        """component of a value: strings are fields, terms/ints are indices"""
        pt = vg.ptype(t)
        st = tuple(("f", s) if isinstance(s, str) else ("i", s if isinstance(s, Term) else num(s)) for s in steps)
        if isinstance(v, Loc):
            return self.ev.read(Loc(v.root, v.steps + st), pt)
        r = self.ev.descend(v, st, pt)
        return r

    def calls(self, what):
        return [e for e in self.ev.events if e[0] == "call" and e[1] == what]

    def opaque(self):
        return [e for e in self.ev.events if e[0] in ("opaque-loop", "opaque-value", "opaque-write")]


def sc(name, *steps):
    """scalar symbol access: sc('p','C1111'), sc('v', 3)"""
    st = tuple(("f", s) if isinstance(s, str) else ("i", s if isinstance(s, Term) else num(s)) for s in steps)
    return atom(at(mk("sym", name), st))


def vec(name, dim, *steps):
    return [sc(name, *(steps + (i,))) for i in range(dim)]


def smat(name, dim, *steps):
    return [[sc(name, *(steps + (min(i, j), max(i, j)))) for j in range(dim)] for i in range(dim)]


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def tv(t):
    """rank-1 tensor term -> list"""
    return list(t.args[3])


def tm(t):
    d = t.args[2]
    return [[t.args[3][i * d + j] for j in range(d)] for i in range(d)]


def fnum(x):
    return atom(x) if not isnum(x) else x
