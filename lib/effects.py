"""Write effects of functions (which parameters / this a call may modify),
by a walk over the callee bodies; memoised, recursion assumed impure."""

WRITE_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def base_of(e):
    """the expression a place is rooted in"""
    while True:
        k = e.get("k")
        if k == "mem":
            e = e["b"]
        elif k in ("idx",):
            e = e["b"]
        elif k == "cast" or k == "copy" and False:
            e = e["e"]
        elif k == "un" and e["op"] in ("*", "&"):
            e = e["x"]
        elif k == "opcall" and e["op"] in ("[]", "()", "->", "*") and e["a"]:
            if e["op"] == "*" and len(e["a"]) != 1:
                return e
            e = e["a"][0]
        elif k == "mcall" and (e.get("f") or {}).get("rp") in ("r", "p") and e.get("obj"):
            e = e["obj"]
        elif k == "mcall" and (e.get("f") or {}).get("q", "").endswith("::get") and e.get("obj"):
            e = e["obj"]
        else:
            return e


def strip(e):
    while e.get("k") in ("cast", "copy") or e.get("k") == "un" and e.get("op") in ("*", "&"):
        e = e.get("e") or e.get("x")
    return e


def field_of(e):
    """the member of *this a place lies in; * when it is the object itself"""
    best = "*"
    while True:
        k = e.get("k")
        if k == "mem":
            b = strip(e["b"])
            if b.get("k") == "this":
                return e["n"]
            e = e["b"]
        elif k == "idx":
            e = e["b"]
        elif k in ("cast", "copy"):
            e = e["e"]
        elif k == "un":
            e = e["x"]
        elif k == "opcall" and e["a"]:
            e = e["a"][0]
        elif k == "mcall" and e.get("obj"):
            e = e["obj"]
        else:
            return best


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def of(self, fn):
        """set of 'this' / parameter positions that may be written"""
        u = fn["u"]
        if u in self.memo:
            return self.memo[u]
        self.memo[u] = {"this", ("f", "*")}       # recursion: pessimistic
        out = set()
        alias = {}
        pos = {p["d"]: n for n, p in enumerate(fn["params"]) if p["pm"] in ("r", "p", "rr")}

        def tgt(e):
            b = base_of(e)
            if b.get("k") == "this":
                return ("this", field_of(e))
            if b.get("k") == "ref":
                if b.get("d") in alias:
                    return alias[b["d"]]
                if b.get("d") in pos and b.get("dk") == "param":
                    return pos[b["d"]]
                if b.get("dk") == "global":
                    return "global"
            return None

        def w(e):
            add(tgt(e))

        def add(t):
            if isinstance(t, tuple):
                out.add("this")
                out.add(("f", t[1]))
            elif t is not None:
                out.add(t)

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "var" and (n.get("ref") or str(n.get("t", "")).rstrip().endswith("*")) and n.get("init"):
                alias[n["d"]] = tgt(n["init"])
            if k == "rfor" and n["var"].get("ref"):
                alias[n["var"]["d"]] = tgt(n["range"])
            if k == "assign":
                w(n["lhs"])
            elif k == "un" and n["op"] in ("++", "--"):
                w(n["x"])
            elif k in ("opcall", "mcall", "call", "ctor"):
                f = n.get("f") or {}
                callee = self.prog.funcs.get(f.get("u"))
                args = n.get("a") or []
                obj = n.get("obj")
                if k == "opcall" and n.get("meth"):
                    obj, args = (args[0] if args else None), args[1:]
                if callee is not None and callee.get("body") is not None:
                    eff = self.of(callee)
                    if "this" in eff and obj is not None:
                        if strip(obj).get("k") == "this":
                            out.update(x for x in eff if x == "this" or isinstance(x, tuple))
                        else:
                            w(obj)
                    if "global" in eff:
                        out.add("global")
                    for i, a in enumerate(args):
                        if i in eff:
                            w(a)
                else:
                    if obj is not None and k != "ctor" and not f.get("const") and n.get("op") not in ("->", "[]", "()") \
                            and not f.get("q", "").endswith(("::begin", "::end", "::find", "::get", "::block", "::data")):
                        w(obj)
                    for i, a in enumerate(args):
                        pm = (f.get("p") or [])
                        if i < len(pm) and pm[i] in ("r", "p"):
                            w(a)
                    if k == "opcall" and not n.get("meth") and n.get("op") in WRITE_OPS and args:
                        w(args[0])
            if k == "ref" and n.get("dk") == "func" and n.get("u") in self.prog.funcs:
                # a method handed over as a callback
                eff = self.of(self.prog.funcs[n["u"]])
                out.update(x for x in eff if x == "this" or isinstance(x, tuple))
            for key, v in n.items():
                if key not in ("f", "t"):
                    walk(v)
        walk(fn.get("inits"))
        walk(fn.get("body"))
        self.memo[u] = out
        return out

    def pure_this(self, fn):
        return "this" not in self.of(fn)

    def fields(self, fn):
        """direct members of *this that may be written; None = unknown"""
        e = self.of(fn)
        fs = {x[1] for x in e if isinstance(x, tuple)}
        return None if "*" in fs else fs
