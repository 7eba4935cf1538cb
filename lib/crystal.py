"""Shared evaluation of the crystal-data reader for P01 and P02."""
from lab import *

FILES = (("orientations", "fo"), ("directions", "fd"), ("normals", "fn"))


def mentions(t, name):
    return any(x.op == "sym" and x.args[0] == name for x in subterms(t))


def is_stream(t):
    return t.op == "ctorobj" and "stream" in str(t.args[0])


class Crystal:
    """CrystalsData<d>::init evaluated on three symbolic file names; the data
    read from a file is one opaque value per destination, identified by the
    stream object it was read from"""

    def __init__(self, c, d):
        self.c, self.d = c, d
        self.CD = "gCP::CrystalsData<%d>" % d
        self.L = L = Lab(c)
        self.o = L.new(self.CD)
        self.throws = []
        ev = L.ev
        orig = ev.do_throw

        def rec(e):
            orig(e)
            self.throws.append((ev.events[-1], {r: list(x) for r, x in ev.logs.items()}))
        ev.do_throw = rec
        e0 = len(ev.events)
        L.call(self.o, self.CD + "::init", "tria", "fo", "fd", "fn")
        ev.do_throw = orig
        self.events = ev.events[e0:]
        self.f_init = L.fn(self.CD + "::init")
        self.opened = {}
        for e in self.events:
            if e[0] == "throw":
                self._scan(e[1])

    def _scan(self, t):
        for x in subterms(t):
            if is_stream(x):
                for lab, s in FILES:
                    if mentions(x, s) and not any(y.op in ("mu", "head", "out") for y in subterms(x)):
                        self.opened.setdefault(s, set()).add(x)

    def open_atoms(self, t, s):
        """boolean atoms stating that the stream of file s could be opened"""
        out = set()
        for x in subterms(t):
            if is_bool_atom(x) and x.op not in ("lt0", "eq0", "in") and any(y in self.opened.get(s, ()) for y in subterms(x)) \
                    and not any(y.op in ("mu", "head", "getline") for y in subterms(x)):
                out.add(x)
        return out

    def assume_open(self, t):
        for _, s in FILES:
            for a in self.open_atoms(t, s):
                t = replace(t, a, ONE)
        return t

    def source(self, t):
        """the opaque containers read from each file occurring in t"""
        out = {}
        for x in subterms(t):
            if x.op == "mu" and len(x.args) > 3:
                for lab, s in FILES:
                    if any(isinstance(y, Term) and is_stream(y) and mentions(y, s) for y in x.args[3]):
                        out.setdefault(s, set()).add(x)
        return out


from terms import is_bool_atom  # noqa: E402


def cname(x):
    """unqualified name of an opaque call term"""
    return str(x.args[0]).rsplit("::", 1)[-1] if x.op == "call" else None
