"""ParameterHandler: section paths, declared entries and the values read from them."""
import terms as T
from terms import *
from solver import last, as_atom

HANDLER = "dealii::ParameterHandler"
GET = ("get", "get_double", "get_integer", "get_bool")


def section(recv):
    """subsections open in a handler's state, outermost first; None if they are not balanced"""
    ops = []
    t = as_atom(recv)
    while isinstance(t, Term) and t.op == "after":
        ops.append((last(str(t.args[0])), t.args[2:]))
        t = as_atom(t.args[1])
    path = []
    for n, a in reversed(ops):
        if n == "enter_subsection":
            s = a[0]
            while isinstance(s, tuple) and len(s) == 1:
                s = s[0]
            path.append(text(s))
        elif n == "leave_subsection":
            if not path:
                return None
            path.pop()
    return tuple(path)


def text(t):
    t = as_atom(t) if isinstance(t, Term) else t
    if isinstance(t, Term) and t.op == "str":
        return t.args[0]
    return t if isinstance(t, str) else None


def reading(t):
    """(getter, section path, entry) of a value read from a parameter handler"""
    t = as_atom(t)
    if isinstance(t, Term) and t.op == "call" and last(str(t.args[0])) in GET and len(t.args) == 3:
        n = text(t.args[2])
        if n is not None:
            p = section(t.args[1])
            return last(str(t.args[0])), p, n
    return None


def named(r):
    return mk("sym", "%s" % r[2])


def canon(t):
    """values read from parameter files become symbols carrying the entry's name"""
    from p09 import replace_obj
    if not isinstance(t, Term):
        return t
    while True:
        todo = [x for x in subterms(t) if x.op == "call" and reading(x)]
        if not todo:
            return t
        x = todo[0]
        t = replace_obj(t, x, named(reading(x)))


class Chain:
    """what was done to a handler up to one of its states: open subsections, declared entries, whether a file was read"""
    __slots__ = ("path", "declared", "parsed", "root", "after_parse")


def chain(recv, memo):
    """Chain of a handler state; path is None if subsections are not balanced or branches disagree"""
    todo = []
    t = as_atom(recv)
    while isinstance(t, Term) and t.op == "after" and t not in memo:
        todo.append(t)
        t = as_atom(t.args[1])
    if t in memo:
        cur = memo[t]
    elif isinstance(t, Term) and t.op == "case":
        parts = [chain(v, memo) for _, v in t.args[0]]
        cur = Chain()
        cur.path = parts[0].path if len({p.path for p in parts}) == 1 else None
        cur.declared = frozenset.intersection(*[p.declared for p in parts])
        cur.parsed = parts[0].parsed if len({p.parsed for p in parts}) == 1 else None
        cur.root = parts[0].root
        cur.after_parse = all(p.after_parse for p in parts)
        memo[t] = cur
    else:
        cur = Chain()
        cur.path, cur.declared, cur.parsed, cur.root, cur.after_parse = (), frozenset(), 0, t, True
        memo[t] = cur
    for t in reversed(todo):
        n = last(str(t.args[0]))
        new = Chain()
        new.path, new.declared, new.parsed, new.root, new.after_parse = cur.path, cur.declared, cur.parsed, cur.root, cur.after_parse
        if n == "enter_subsection":
            new.path = None if cur.path is None else cur.path + (text(one(t.args[2])),)
        elif n == "leave_subsection":
            new.path = None if not cur.path else cur.path[:-1]
        elif n == "declare_entry":
            if cur.path is not None:
                new.declared = cur.declared | {cur.path + (text(one(t.args[2])),)}
            if cur.parsed:
                new.after_parse = False
        elif n == "parse_input":
            new.parsed = None if cur.parsed is None else cur.parsed + 1
        memo[t] = new
        cur = new
    return cur


def one(s):
    while isinstance(s, tuple) and s:
        s = s[0]
    return s


class Config:
    """the configuration object built from a parameter file, with every value read from the file a symbol "section/entry" """

    def __init__(self, c, L, cls):
        self.c, self.L, self.cls = c, L, cls
        self.o = L.new(cls, "file", nparams=1)
        self.memo = {}
        self.names = {}
        self.done = {}
        self.declared = []
        self.reads = []
        self.throws = []
        for e in L.ev.events:
            if e[0] == "call" and HANDLER in str(e[6]):
                n = last(e[1])
                if n == "declare_entry":
                    p = chain(e[2], self.memo).path
                    pat = as_atom(e[3][2])
                    self.declared.append((p, text(e[3][0]), text(e[3][1]), pat, e[4], e[5]))
                elif n in GET:
                    self.reads.append((n, chain(e[2], self.memo), text(e[3][0]), e[4], e[5]))
            elif e[0] == "throw":
                self.throws.append((e[1], e[2], e[3]))

    def key(self, t):
        """(getter, section/entry) of an atom read from the file"""
        if isinstance(t, Term) and t.op == "call" and last(str(t.args[0])) in GET and len(t.args) == 3:
            n = text(t.args[2])
            p = chain(t.args[1], self.memo).path
            if n is not None:
                return (("?",) if p is None else p) + (n,)
        return None

    def canon(self, t):
        """the value with every read replaced by the symbol of its entry"""
        if isinstance(t, tuple):
            return tuple(self.canon(y) for y in t)
        if not isinstance(t, Term):
            return t
        if t in self.done:
            return self.done[t]
        k = self.key(t)
        if k:
            r = mk("sym", "/".join(k))
            self.names[r] = k
        elif t.op == "poly":
            parts = []
            for c, m in t.args[0]:
                fs, bs = m.args
                p = num(c)
                for a, e in fs:
                    q = self.canon(a)
                    p = mul(p, T.powr(q if q.op == "poly" else atom(q), e))
                parts.append(T.sum_binders(p, bs) if bs else p)
            r = add(*parts) if parts else ZERO
        elif t.op == "case":
            r = T.case([(self.canon(g), self.canon(v)) for g, v in t.args[0]])
        else:
            args = self.canon(t.args)
            r = t if args == t.args else T.rebuild(t, args)
        self.done[t] = r
        return r

    def get(self, path, t="double"):
        return self.canon(self.L.get(self.o, *path.split("."), t=t))


def option(t, key, alt, alts=()):
    """t when the entry `key` has the value alt"""
    s = mk("sym", key)
    for x in list(subterms(t)):
        if x.op in T.BOOL_OPS and s in x.args:
            o = [text(y) for y in x.args if y is not s and text(y) is not None]
            neq = "!=" in x.args or "ne" in x.args
            if len(o) == 1:
                hit = (o[0] == alt) != neq
                t = T.replace(t, x, num(1 if hit else 0), memo={})
    return t
