"""Structured abstract interpretation over the resolved syntax trees.

A client supplies a finite abstract state and its transfer functions; the
engine walks the statements (branches joined, loops iterated to a fixpoint),
follows calls into repository functions that matter to the client
(call-graph closure of `interesting`), resolves references and parameters to
access paths, and keeps the values of boolean locals so that correlated
branches are understood.  States are sets: the join is the union.

A state is a pair (client state, frozenset of (bool variable, value))."""

from frontend import AnalysisBroken


def strip_targs(q):
    out, d = [], 0
    for i, ch in enumerate(q):
        if ch == "<" and not q[:i].endswith("operator"):
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def kids(n):
    if isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                yield x
    elif isinstance(n, dict):
        for k, v in n.items():
            if k in ("f", "t"):
                continue
            if isinstance(v, (dict, list)):
                yield v


def walk(n):
    """all dict nodes below n, preorder"""
    if isinstance(n, dict):
        yield n
    for c in kids(n):
        yield from walk(c)


def callee(n):
    return strip_targs((n.get("f") or {}).get("q", "")) if isinstance(n, dict) else ""


def short(q):
    return q.rsplit("::", 1)[-1]


CALLS = ("call", "mcall", "opcall", "ctor")


class Ctx:
    __slots__ = ("fn", "par", "bind", "alias", "lams", "depth", "line", "this", "lex")

    def __init__(self, fn, par=None, line=0, lex=None):
        self.fn = fn
        self.par = par
        self.lex = lex            # enclosing context of a lambda body
        self.bind = {}
        self.alias = {}
        self.lams = {}
        self.depth = (par.depth + 1) if par else 0
        self.line = line
        self.this = ("this",)

    def where(self):
        s = "%s:%s (%s)" % (self.fn.get("relfile"), self.fn.get("line"), strip_targs(self.fn["q"]))
        return s

    def stack(self):
        out, c = [], self
        while c is not None:
            out.append(strip_targs(c.fn["q"]))
            c = c.par
        return list(reversed(out))


class Client:
    """Default client: no events."""
    name = "client"

    def interesting(self, n):
        return False

    def inline(self, fn):
        return None              # None: decide by the closure of interesting

    def call(self, n, ctx, st):  # -> None (default treatment) | iterable of states
        return None

    def after(self, n, ctx, st):  # after an uninlined call / any expression node
        return None

    def assign(self, n, path, ctx, st):
        return None

    def decl(self, v, ctx, st):
        return None

    def branch(self, c, pol, ctx, st):
        return (st,)

    def bcall(self, n, pol, ctx, st):
        return None

    def throw(self, n, ctx, st):
        pass

    def enter(self, fn, ctx, st):
        pass

    def iterate(self, s, ctx, sts):
        """start of one iteration of loop s"""
        return sts


class Flow:
    MAXDEPTH = 24

    def __init__(self, prog, client):
        self.prog = prog
        self.c = client
        client.flow = self
        self.clos = {}
        self.visited = set()      # functions analysed
        self.nodes = 0

    # -- which functions matter
    def matters(self, fn):
        u = fn["u"]
        if u in self.clos:
            return self.clos[u]
        r = self.c.inline(fn)
        if r is not None:
            self.clos[u] = r
            return r
        self.clos[u] = False
        res = False
        for n in walk([fn.get("inits"), fn.get("body")]):
            if self.c.interesting(n):
                res = True
                break
            if n.get("k") in CALLS:
                g = self.prog.funcs.get((n.get("f") or {}).get("u"))
                if g is not None and g.get("body") is not None and self.matters(g):
                    res = True
                    break
        self.clos[u] = res
        return res

    # -- access paths
    def path(self, e, ctx):
        k = e.get("k")
        if k == "this":
            return ctx.this
        if k == "mem":
            b = self.path(e["b"], ctx) if e.get("b") is not None else ("?",)
            if e.get("dk") == "enum":
                return ("enum", e["n"])
            return b + (e["n"],)
        if k == "ref":
            d = e["d"]
            if e.get("dk") == "enum":
                return ("enum", short(e.get("q") or e["n"]))
            if d in ctx.bind:
                return ctx.bind[d]
            if d in ctx.alias:
                return ctx.alias[d]
            c = ctx.lex
            # captured variables of the enclosing function
            while c is not None:
                if d in c.bind:
                    return c.bind[d]
                if d in c.alias:
                    return c.alias[d]
                c = c.lex
            if e.get("dk") == "global":
                return ("global", e.get("q") or e["n"])
            return self.var(d, e["n"], ctx)
        if k in ("cast", "copy"):
            x = e.get("e") or e.get("a")
            if isinstance(x, list):
                x = x[0] if x else {}
            return self.path(x, ctx)
        if k == "un" and e["op"] in ("*", "&"):
            return self.path(e["x"], ctx)
        if k == "idx":
            return self.path(e["b"], ctx) + (("[]", self.path(e["i"], ctx)),)
        if k == "int":
            return ("int", e.get("v"))
        if k == "bool":
            return ("bool", bool(e.get("v")))
        if k == "opcall":
            if e["op"] in ("->", "*") and len(e["a"]) == 1:
                return self.path(e["a"][0], ctx)
            if e["op"] in ("[]", "()"):
                return self.path(e["a"][0], ctx) + tuple(("[]", self.path(a, ctx)) for a in e["a"][1:])
        if k == "mcall" or k == "call":
            q = callee(e)
            g = self.prog.funcs.get((e.get("f") or {}).get("u"))
            b = self.path(e["obj"], ctx) if e.get("obj") else ()
            if short(q) in ("get", "front") and q.startswith("std::") and not e.get("a"):
                return b
            if short(q) in ("move", "forward", "as_const") and q.startswith("std::"):
                return self.path(e["a"][0], ctx)
            if g is not None and g.get("body") is not None and not e.get("a"):
                m = self.getter(g)
                if m is not None and b:
                    return b + m
            return (b or ()) + (("call", short(q)) + tuple(self.path(a, ctx) for a in e.get("a") or []),)
        if k == "cond":
            return (("cond", self.path(e["x"], ctx), self.path(e["y"], ctx)),)
        return (k or "?",)

    def var(self, d, n, ctx):
        return ("var", ctx.fn["u"], d, n)

    def getter(self, g):
        b = g.get("body")
        ss = [s for s in (b or {}).get("s", []) if s.get("k") not in ("null_stmt",)]
        # debug-only assertions vanish; AssertThrow guards leave an `if`
        ss = [s for s in ss if not (s.get("k") == "if" and not s.get("else"))] if len(ss) > 1 else ss
        if len(ss) != 1 or ss[0].get("k") != "ret":
            return None
        e = ss[0].get("e") or {}
        c = Ctx(g)
        p = self.path(e, c)
        if p and p[0] == "this" and len(p) >= 2 and all(isinstance(x, str) for x in p[1:]):
            return p[1:]
        return None

    # -- driver
    def run(self, fn, init, args=None):
        ctx = Ctx(fn)
        for p in fn["params"]:
            ctx.bind[p["d"]] = (args or {}).get(p["n"], ("param", p["n"]))
        sts = {(s, frozenset()) for s in init}
        out = self.function(fn, sts, ctx)
        return {s for s, _ in out["ret"] | out["rt"] | out["rf"]}

    def function(self, fn, sts, ctx):
        self.visited.add(fn["q"])
        if ctx.depth > self.MAXDEPTH:
            raise AnalysisBroken("call depth exceeded in " + fn["q"])
        self.c.enter(fn, ctx, sts)
        for i in fn.get("inits") or []:
            if i.get("e"):
                sts = self.eval(i["e"], sts, ctx)
        o = {"next": set(sts), "brk": set(), "cont": set(), "ret": set(), "rt": set(), "rf": set()}
        if fn.get("body") is not None:
            o = self.exec(fn["body"], sts, ctx)
        return {"ret": o["ret"] | o["next"], "rt": o["rt"], "rf": o["rf"]}

    def merge(self, a, b):
        for k in a:
            a[k] |= b[k]
        return a

    def fresh(self, nxt=()):
        return {"next": set(nxt), "brk": set(), "cont": set(), "ret": set(), "rt": set(), "rf": set()}

    def exec(self, s, sts, ctx):
        o = self.fresh()
        if s is None:
            o["next"] = set(sts)
            return o
        if not sts:
            return o
        self.nodes += 1
        k = s.get("k")
        if k == "blk":
            cur = set(sts)
            for x in s["s"]:
                r = self.exec(x, cur, ctx)
                cur = r["next"]
                r["next"] = set()
                self.merge(o, r)
                if not cur:
                    break
            o["next"] |= cur
            return o
        if k == "decl":
            cur = set(sts)
            for v in s["v"]:
                cur = self.declare(v, cur, ctx)
            o["next"] = cur
            return o
        if k == "expr":
            o["next"] = self.eval(s["e"], sts, ctx)
            return o
        if k == "if":
            cur = set(sts)
            if s.get("init"):
                r = self.exec(s["init"], cur, ctx)
                cur = r["next"]
            if s.get("cv"):
                cur = self.declare(s["cv"], cur, ctx)
            t, f = self.cond(s["c"], cur, ctx)
            a = self.exec(s["then"], t, ctx)
            b = self.exec(s.get("else"), f, ctx) if s.get("else") else self.fresh(f)
            self.merge(a, b)
            return a
        if k in ("while", "do", "for", "rfor"):
            return self.loop(s, sts, ctx)
        if k == "ret":
            e = s.get("e")
            if e is not None and (ctx.fn.get("ret") or "").replace("const ", "").strip() == "bool":
                t, f = self.cond(e, sts, ctx)
                o["rt"], o["rf"] = t, f
            else:
                o["ret"] = self.eval(e, sts, ctx) if e is not None else set(sts)
            return o
        if k == "brk":
            o["brk"] = set(sts)
            return o
        if k == "cont":
            o["cont"] = set(sts)
            return o
        if k == "null_stmt":
            o["next"] = set(sts)
            return o
        if k == "switch":
            return self.switch(s, sts, ctx)
        if k in ("case", "default"):
            return self.exec(s.get("s"), sts, ctx)
        if k == "try":
            r = self.exec(s.get("body") or s.get("s"), sts, ctx)
            hs = s.get("handlers") or s.get("h") or []
            # a handler may start in any state reached inside the block; the
            # client's states before and after bound it for our automata
            start = set(sts) | r["next"]
            for h in hs:
                b = h.get("body") or h.get("s") or h
                self.merge(r, self.exec(b, start, ctx))
            return r
        # expression used as statement
        o["next"] = self.eval(s, sts, ctx)
        return o

    def declare(self, v, sts, ctx):
        init = v.get("init")
        t = str(v.get("t", ""))
        if init is not None:
            lam = self.unlam(init)
            if lam is not None:
                ctx.lams[v["d"]] = (lam, ctx)
                return set(sts)
            if v.get("ref") or t.rstrip().endswith("*"):
                ctx.alias[v["d"]] = self.path(init, ctx)
            if t.replace("const ", "").strip() == "bool":
                a, b = self.cond(init, sts, ctx)
                cur = self.setb(a, self.var(v["d"], v["n"], ctx), True) | self.setb(b, self.var(v["d"], v["n"], ctx), False)
            else:
                cur = self.eval(init, sts, ctx)
        else:
            cur = set(sts)
        return self.apply(cur, lambda st: self.c.decl(v, ctx, st))

    def unlam(self, e):
        while isinstance(e, dict) and e.get("k") in ("copy", "cast", "ctor"):
            a = e.get("a") or e.get("e")
            if isinstance(a, list):
                a = a[0] if len(a) == 1 else None
            e = a
        return e if isinstance(e, dict) and e.get("k") == "lambda" else None

    def setb(self, sts, p, val):
        return {(s, frozenset(x for x in b if x[0] != p) | ({(p, val)} if val is not None else frozenset())) for s, b in sts}

    def apply(self, sts, f):
        out = set()
        for s, b in sts:
            r = f(s)
            if r is None:
                out.add((s, b))
            else:
                out |= {(x, b) for x in r}
        return out

    def loop(self, s, sts, ctx):
        k = s["k"]
        o = self.fresh()
        cur = set(sts)
        if k == "for" and s.get("init"):
            cur = self.exec(s["init"], cur, ctx)["next"]
        if k == "rfor":
            cur = self.eval(s["range"], cur, ctx)
            v = s["var"]
            if v.get("ref"):
                ctx.alias[v["d"]] = self.path(s["range"], ctx) + (("[]", ("each",)),)
        head = set()
        work = set(cur)
        exits = set()
        first = True
        n = 0
        while work:
            n += 1
            if n > 60:
                raise AnalysisBroken("loop does not stabilise in %s line %s" % (ctx.fn["q"], s.get("l")))
            new = work - head
            head |= work
            if not new:
                break
            # the body may correlate states: rerun on the new ones only
            if k == "do":
                t, f = new, set()
            elif k == "rfor":
                t, f = set(new), set(new)
            elif s.get("c") is not None:
                t, f = self.cond(s["c"], new, ctx)
            else:
                t, f = new, set()
            exits |= f
            t = self.c.iterate(s, ctx, t)
            r = self.exec(s["body"], t, ctx)
            for key in ("ret", "rt", "rf"):
                o[key] |= r[key]
            exits |= r["brk"]
            nx = r["next"] | r["cont"]
            if k == "for" and s.get("inc"):
                nx = self.eval(s["inc"], nx, ctx)
            if k == "do":
                t2, f2 = self.cond(s["c"], nx, ctx)
                exits |= f2
                nx = t2
            work = nx
            first = False
        o["next"] = exits
        return o

    def switch(self, s, sts, ctx):
        o = self.fresh()
        cur0 = self.eval(s["c"], sts, ctx)
        body = s["body"]
        items = []
        for x in body.get("s", [body]):
            # flatten nested case labels
            labels = []
            y = x
            while isinstance(y, dict) and y.get("k") in ("case", "default"):
                labels.append(y)
                y = y.get("s")
            items.append((labels, y))
        cur = set()
        hasdef = False
        for labels, st in items:
            for lb in labels:
                if lb["k"] == "default":
                    hasdef = True
                cur |= self.apply2(cur0, lambda z: self.c.branch(("case", s["c"], lb.get("e")), True, ctx, z))
            if st is None:
                continue
            r = self.exec(st, cur, ctx)
            cur = r["next"]
            o["next"] |= r["brk"]
            for key in ("ret", "rt", "rf", "cont"):
                o[key] |= r[key]
        o["next"] |= cur
        if not hasdef:
            o["next"] |= cur0
        return o

    def apply2(self, sts, f):
        out = set()
        for s, b in sts:
            out |= {(x, b) for x in f(s)}
        return out

    # -- conditions
    def cond(self, e, sts, ctx):
        """-> (states where e is true, states where e is false)"""
        if not sts:
            return set(), set()
        k = e.get("k")
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["x"], sts, ctx)
            return f, t
        if k == "bin" and e["op"] in ("&&", "and"):
            t, f = self.cond(e["x"], sts, ctx)
            t2, f2 = self.cond(e["y"], t, ctx)
            return t2, f | f2
        if k == "bin" and e["op"] in ("||", "or"):
            t, f = self.cond(e["x"], sts, ctx)
            t2, f2 = self.cond(e["y"], f, ctx)
            return t | t2, f2
        if k == "cast" and (e.get("e") is not None):
            return self.cond(e["e"], sts, ctx)
        if k == "copy" and e.get("a"):
            return self.cond(e["a"][0] if isinstance(e["a"], list) else e["a"], sts, ctx)
        if k in ("bool", "int"):
            return (set(sts), set()) if e.get("v") else (set(), set(sts))
        if k == "cond":
            t, f = self.cond(e["c"], sts, ctx)
            t1, f1 = self.cond(e["x"], t, ctx)
            t2, f2 = self.cond(e["y"], f, ctx)
            return t1 | t2, f1 | f2
        if k == "stmtexpr":
            return self._opaque_cond(e, sts, ctx)
        if k in ("ref", "mem"):
            p = self.path(e, ctx)
            if p and p[0] == "bool":
                return (set(sts), set()) if p[1] else (set(), set(sts))
            T, F = set(), set()
            for s, b in sts:
                v = dict(b).get(p)
                if v is True:
                    T.add((s, b))
                elif v is False:
                    F.add((s, b))
                else:
                    isloc = p[0] == "var" or p[0] == "param"
                    for x in self.c.branch(e, True, ctx, s):
                        T.add((x, b | {(p, True)} if isloc else b))
                    for x in self.c.branch(e, False, ctx, s):
                        F.add((x, b | {(p, False)} if isloc else b))
            return T, F
        if k in ("call", "mcall", "opcall"):
            q = callee(e)
            fn = self.prog.funcs.get((e.get("f") or {}).get("u"))
            # client decides the truth of the call
            pre = self.args(e, sts, ctx)
            T, F, rest = set(), set(), set()
            for s, b in pre:
                rt = self.c.bcall(e, True, ctx, s)
                if rt is None:
                    rest.add((s, b))
                    continue
                T |= {(x, b) for x in rt}
                F |= {(x, b) for x in self.c.bcall(e, False, ctx, s)}
            if rest:
                r = self.docall(e, rest, ctx, wantbool=True)
                if isinstance(r, tuple):
                    T |= r[0]
                    F |= r[1]
                else:
                    for s, b in r:
                        T |= {(x, b) for x in self.c.branch(e, True, ctx, s)}
                        F |= {(x, b) for x in self.c.branch(e, False, ctx, s)}
            return T, F
        return self._opaque_cond(e, sts, ctx)

    def _opaque_cond(self, e, sts, ctx):
        cur = self.eval(e, sts, ctx)
        T, F = set(), set()
        for s, b in cur:
            T |= {(x, b) for x in self.c.branch(e, True, ctx, s)}
            F |= {(x, b) for x in self.c.branch(e, False, ctx, s)}
        return T, F

    # -- expressions
    def args(self, e, sts, ctx):
        cur = sts
        if e.get("obj"):
            cur = self.eval(e["obj"], cur, ctx)
        if isinstance(e.get("ce"), dict):
            cur = self.eval(e["ce"], cur, ctx)
        for a in (e.get("a") if isinstance(e.get("a"), list) else [e["a"]] if e.get("a") else []):
            if a.get("k") == "lambda":
                continue
            cur = self.eval(a, cur, ctx)
        return cur

    def eval(self, e, sts, ctx):
        if e is None or not sts:
            return set(sts)
        if isinstance(e, list):
            cur = set(sts)
            for x in e:
                cur = self.eval(x, cur, ctx)
            return cur
        k = e.get("k")
        if k in ("call", "mcall", "opcall", "ctor"):
            cur = self.args(e, sts, ctx)
            return self.docall(e, cur, ctx)
        if k == "assign":
            p = self.path(e["lhs"], ctx)
            if str(e.get("t", "")).replace("const ", "").strip() == "bool" and e["op"] == "=":
                a, b = self.cond(e["rhs"], sts, ctx)
                cur = self.setb(a, p, True) | self.setb(b, p, False)
            else:
                cur = self.eval(e["rhs"], sts, ctx)
                cur = self.eval(e["lhs"], cur, ctx)
                cur = self.setb(cur, p, None)
            return self.apply(cur, lambda st: self.c.assign(e, p, ctx, st))
        if k == "bin" and e["op"] in ("&&", "||", "and", "or"):
            t, f = self.cond(e, sts, ctx)
            return t | f
        if k == "cond":
            t, f = self.cond(e["c"], sts, ctx)
            return self.eval(e["x"], t, ctx) | self.eval(e["y"], f, ctx)
        if k == "un" and e["op"] in ("++", "--"):
            cur = self.eval(e["x"], sts, ctx)
            p = self.path(e["x"], ctx)
            return self.apply(cur, lambda st: self.c.assign(e, p, ctx, st))
        if k == "lambda":
            return set(sts)
        if k == "throw":
            for s, _ in sts:
                self.c.throw(e, ctx, s)
            return set()
        if k == "stmtexpr":
            b = e.get("s") or e.get("body")
            if b is not None:
                return self.exec(b if isinstance(b, dict) else {"k": "blk", "s": b}, sts, ctx)["next"]
            return set(sts)
        cur = set(sts)
        for c in kids(e):
            for x in (c if isinstance(c, list) else [c]):
                if isinstance(x, dict):
                    cur = self.eval(x, cur, ctx)
        return self.apply(cur, lambda st: self.c.after(e, ctx, st))

    def docall(self, e, sts, ctx, wantbool=False):
        """call with evaluated arguments"""
        f = e.get("f") or {}
        if f.get("nr"):
            for s, _ in sts:
                self.c.throw(e, ctx, s)
            return set()
        # assignment operators of class types
        out, rest = set(), set()
        for s, b in sts:
            r = self.c.call(e, ctx, s)
            if r is None:
                rest.add((s, b))
            else:
                out |= {(x, b) for x in r}
        # `bool&` arguments lose their value
        rest2 = rest
        if not rest:
            return self._havoc(e, out, ctx)
        # local lambda
        if e.get("k") == "opcall" and e.get("op") == "()" and e["a"]:
            lam = self.find_lam(e["a"][0], ctx)
            if lam is not None:
                return out | self.lam(lam, e["a"][1:], rest, ctx, e)
        if e.get("k") == "call" and isinstance(e.get("ce"), dict):
            lam = self.find_lam(e["ce"], ctx)
            if lam is not None:
                return out | self.lam(lam, e.get("a") or [], rest, ctx, e)
        fn = self.prog.funcs.get(f.get("u"))
        if fn is not None and fn.get("body") is not None and self.matters(fn):
            r = self.inline(e, fn, rest, ctx)
            if wantbool and (fn.get("ret") or "").replace("const ", "").strip() == "bool":
                T = r["rt"]
                F = r["rf"]
                return T | out, F | out
            return out | r["ret"] | r["rt"] | r["rf"]
        # lambdas handed to library algorithms run zero or more times
        lams = [a for a in (e.get("a") if isinstance(e.get("a"), list) else []) if self.find_lam(a, ctx) is not None]
        if lams:
            cur = set(rest)
            while True:
                n = set(cur)
                for a in lams:
                    n |= self.lam(self.find_lam(a, ctx), [], cur, ctx, e)
                if n == cur:
                    break
                cur = n
            rest = cur
        rest = self._havoc(e, rest, ctx)
        return out | self.apply(rest, lambda st: self.c.after(e, ctx, st))

    def _havoc(self, e, sts, ctx):
        pm = (e.get("f") or {}).get("p") or []
        A = e.get("a") if isinstance(e.get("a"), list) else []
        if e.get("k") == "opcall" and e.get("meth"):
            A = A[1:]
        for i, a in enumerate(A):
            if i < len(pm) and pm[i] in ("r", "p") and str(a.get("t", "")).replace("const ", "").strip().rstrip("*& ") == "bool":
                sts = self.setb(sts, self.path(a, ctx), None)
        return sts

    def find_lam(self, e, ctx):
        lam = self.unlam(e)
        if lam is not None:
            return (lam, ctx)
        x = e
        while isinstance(x, dict) and x.get("k") in ("copy", "cast"):
            x = x.get("e") or x.get("a")
        if isinstance(x, dict) and x.get("k") == "ref":
            c = ctx
            while c is not None:
                if x["d"] in c.lams:
                    return c.lams[x["d"]]
                c = c.lex
        return None

    def lam(self, lm, args, sts, ctx, site):
        node, dctx = lm
        c = Ctx(dctx.fn, ctx, site.get("l", 0), lex=dctx)
        c.fn = dict(dctx.fn)
        c.fn["ret"] = node.get("ret", "")
        c.this = dctx.this
        c.depth = ctx.depth + 1
        if c.depth > self.MAXDEPTH:
            raise AnalysisBroken("lambda recursion in " + ctx.fn["q"])
        for p, a in zip(node.get("params") or [], args):
            c.bind[p["d"]] = self.path(a, ctx)
        o = self.exec(node["body"], sts, c)
        return o["next"] | o["ret"] | o["rt"] | o["rf"]

    def inline(self, e, fn, sts, ctx):
        c = Ctx(fn, ctx, e.get("l", 0))
        A = e.get("a") if isinstance(e.get("a"), list) else []
        if e.get("k") == "opcall" and e.get("meth"):
            c.this = self.path(A[0], ctx)
            A = A[1:]
        elif e.get("obj") is not None:
            c.this = self.path(e["obj"], ctx)
        elif e.get("k") == "ctor":
            c.this = ("new", fn["cls"] if fn.get("cls") else fn["q"])
        else:
            c.this = ctx.this
        pre = set()
        for i, p in enumerate(fn["params"]):
            if i < len(A):
                a = A[i]
                lam = self.find_lam(a, ctx)
                if lam is not None:
                    c.lams[p["d"]] = lam
                pth = self.path(a, ctx)
                isb = str(p.get("t", "")).replace("const ", "").strip() == "bool"
                if isb and p.get("pm") == "v" or isb and p.get("pm") not in ("r", "p"):
                    if pth and pth[0] == "bool":
                        c.bind[p["d"]] = pth
                    else:
                        key = ("param", p["d"], fn["u"][-20:], c.depth)
                        t, f = self.cond(a, sts, ctx)
                        sts = self.setb(t, key, True) | self.setb(f, key, False)
                        c.bind[p["d"]] = key
                        pre.add(key)
                else:
                    c.bind[p["d"]] = pth
            elif p.get("dv") is not None:
                c.bind[p["d"]] = self.path(p["dv"], ctx)
        # locals of the callee must not keep values of an earlier activation
        u = fn["u"]
        islocal = lambda p: p[0] == "var" and p[1] == u
        sts = {(s, frozenset(x for x in b if not islocal(x[0]))) for s, b in sts}
        o = self.function(fn, sts, c)
        for k in o:
            o[k] = {(s, frozenset(x for x in b if not islocal(x[0]) and x[0] not in pre)) for s, b in o[k]}
        return o
