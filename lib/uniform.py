"""Which values may differ between processes, and which operations all processes must enter together.

A forward taint analysis over the structured syntax trees, interprocedural by summaries, to a fixpoint over the members of
all classes.  LOCAL values stem from what only this process knows (its cells, its unknowns, entries of its vectors, its
rank); reductions over all processes are UNIFORM again.  Distributed objects themselves are handles: only what is read
from them is LOCAL.  Control is LOCAL inside a branch or loop whose condition is LOCAL, and after a return, break or
continue in one.  A collective operation reached under LOCAL control may be entered by some processes only."""
import re
from flow import strip_targs, short

DIST = re.compile(r"\b(IndexSet|AffineConstraints|DoFHandler|Triangulation|DataOut\w*|BlockSparsityPattern|SparsityPattern|TrilinosWrappers::|PETScWrappers::|BlockVectorBase|BlockMatrixBase|PackagedOperation|LinearOperator|Mapping\w*|FESystem|FECollection|QCollection|FEValuesExtractors|ConditionalOStream|TimerOutput|SolverControl)")
LOCALTYPE = re.compile(r"\b(Tria(Raw|Active)?Iterator|FilteredIterator|\w*CellAccessor|TriaAccessor|DoFAccessor|hp::FE\w*Values|FE\w*Values(Base|Views)?\b|Scratch|Copy\b)")
# the same on all processes although read from a distributed object
SAME = {"size", "n_dofs", "l2_norm", "linfty_norm", "l1_norm", "norm_sqr", "mean_value", "all_zero", "n_blocks", "block_size", "get_fe_collection",
        "get_triangulation", "n_global_active_cells", "n_global_levels", "get_communicator", "get_mpi_communicator", "has_ghost_elements", "m", "n",
        "block", "get_fe", "get_boundary_ids", "locally_owned_dofs", "get_view", "last_step", "last_value", "n_components", "max_dofs_per_cell",
        "max_dofs_per_face", "n_dofs_per_cell", "component_mask", "max_n_quadrature_points", "n_base_elements", "get_periodic_face_map_size",
        "n_threads", "get", "is_closed"}
MPI_SAME = re.compile(r"dealii::Utilities::MPI::(sum|max|min|min_max_avg|logical_or|broadcast|all_gather|all_reduce|compute_set_union|n_mpi_processes|mean)$")
MPI_LOCAL = re.compile(r"(Utilities::MPI::this_mpi_process|MPI_Comm_rank|locally_owned_subdomain|job_supports_mpi)$")
VECT = re.compile(r"(TrilinosWrappers|PETScWrappers|BlockVectorBase|BlockMatrixBase|LinearAlgebraTrilinos|la_parallel|distributed::(Block)?Vector)")
VEC_OPS = {"compress", "l2_norm", "linfty_norm", "l1_norm", "norm_sqr", "mean_value", "add_and_dot", "all_zero", "update_ghost_values", "vmult", "Tvmult",
           "vmult_add", "residual", "matrix_norm_square", "reinit", "solve", "initialize", "min", "max", "import_elements"}
COLLECTIVE = {"distribute_dofs", "Cuthill_McKee", "component_wise", "exchange_cell_data_to_ghosts", "refine_global", "subdivided_hyper_rectangle",
              "hyper_cube", "create_triangulation", "execute_coarsening_and_refinement", "write_vtu_in_parallel", "write_vtu_with_pvtu_record", "get_boundary_ids",
              "count_dofs_per_fe_block", "count_dofs_per_fe_component", "add_periodicity", "distribute_sparsity_pattern", "compute_set_union",
              "locally_owned_dofs_per_subdomain", "renumber_dofs", "is_consistent_in_parallel", "MPI_Barrier", "MPI_Allreduce", "MPI_Bcast", "compute_n_dofs"}
WRITES = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "++", "--"}


def collective(n, q):
    """name of the collective operation a call is, or None"""
    s = short(q)
    if re.match(r"dealii::Utilities::MPI::", q):
        return None if s in ("this_mpi_process", "n_mpi_processes", "job_supports_mpi") else "MPI::" + s
    if s in COLLECTIVE:
        return s
    t = ""
    if n["k"] == "mcall":
        t = (n.get("obj") or {}).get("t", "") + " " + (n.get("f") or {}).get("cls", "")
        if s == "distribute" and "AffineConstraints" in q:
            return s
        if s in VEC_OPS and VECT.search(t) and "VectorReference" not in t:
            return s
        if s == "compress" and "SparsityPattern" in t:
            return s
    if n["k"] == "opcall" and n["op"] == "=" and VECT.search(n["a"][0].get("t", "")) and "VectorReference" not in n["a"][0].get("t", "") and len(n["a"]) > 1:
        u = n["a"][1].get("t", "")
        if VECT.search(u) or "PackagedOperation" in u or "inear" in u:
            return "assignment of a distributed object"
    if n["k"] == "opcall" and n["op"] == "*" and len(n["a"]) == 2 and all(VECT.search(a.get("t", "")) and "Vector" in a.get("t", "") for a in n["a"]):
        return "scalar product"
    return None


class Fn:
    """state of one activation"""
    def __init__(self, fn, ctrl):
        self.fn, self.ctrl, self.ret = fn, ctrl, False
        self.env, self.alias, self.lams = {}, {}, {}
        self.ended = False          # LOCAL return seen: the rest is under LOCAL control
        self.loops = []


class Uniform:
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}
        self.memo = {}
        self.sites = {}             # (file, line, operation, function) -> LOCAL control?
        self.numbers = {}           # (file, line, operation, function) -> LOCAL number given to a distributed object?
        self.funcs = set()
        self.calls = 0

    # ---- driver
    def run(self):
        for _ in range(12):
            before = dict(self.fields)
            self.memo, self.sites, self.numbers = {}, {}, {}
            for u, f in sorted(self.prog.funcs.items()):
                if f.get("body"):
                    self.call(f, False, tuple(False for _ in f["params"]), False)
            if self.fields == before:
                return
        raise RuntimeError("no fixpoint")

    def call(self, f, this, args, ctrl):
        """(result, taints written through reference parameters)"""
        key = (f["u"], this, args, ctrl)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (False, tuple(False for _ in args))
        self.calls += 1
        self.funcs.add(f["q"])
        A = Fn(f, ctrl)
        A.this = this
        for p, t in zip(f["params"], args):
            A.env[p["d"]] = t
        for i in f.get("inits") or ():
            if i.get("e"):
                t = self.ev(A, i["e"])
                if i.get("m"):
                    self.put_field(f.get("cls") or f["q"].rsplit("::", 1)[0], i["m"], t or A.ctrl, i["e"].get("t", ""))
        self.st(A, f["body"])
        out = tuple(A.env.get(p["d"], False) if p.get("pm") in ("r", "p") else False for p in f["params"])
        r = (A.ret, out)
        self.memo[key] = r
        return r

    def put_field(self, cls, name, t, typ):
        if DIST.search(typ or ""):
            t = False
        k = (strip_targs(cls), name)
        self.fields[k] = self.fields.get(k, False) or bool(t)

    # ---- places
    def place(self, A, e):
        while True:
            k = e.get("k")
            if k in ("cast", "copy"):
                e = e["e"] if "e" in e else e["a"][0]
            elif k == "mem":
                return ("f", strip_targs(e.get("cls", "")), e["n"], e.get("t", ""))
            elif k == "ref":
                if e.get("dk") in ("local", "param", "binding"):
                    return A.alias.get(e["d"]) or ("v", e["d"], e.get("t", ""))
                return None
            elif k == "un":
                e = e["x"]
            elif k == "idx":
                e = e["b"]
            elif k == "opcall" and e["a"]:
                e = e["a"][0]
            elif k == "mcall" and e.get("obj"):
                e = e["obj"]
            else:
                return None

    def write(self, A, e, t, strong):
        t = bool(t) or A.ctrl
        p = self.place(A, e)
        if p is None:
            return
        if p[0] == "f":
            self.put_field(p[1], p[2], t, p[3])
            return
        if DIST.search(p[2]) and not LOCALTYPE.search(p[2]):
            return
        d = p[1]
        if strong and e.get("k") == "ref" and d not in A.alias:
            A.env[d] = t
        else:
            A.env[d] = A.env.get(d, False) or t

    # ---- statements
    def st(self, A, s):
        if s is None:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(A, s)
        if k in ("null_stmt", "case", "default", "brk", "cont"):
            if k in ("case", "default") and isinstance(s.get("s"), dict):
                self.st(A, s["s"])
            if k in ("brk", "cont") and A.ctrl:
                if A.loops:
                    A.loops[-1] = True
            return
        if "e" in s and isinstance(s["e"], dict):
            self.ev(A, s["e"])
            return
        self.ev(A, s)

    def s_blk(self, A, s):
        for x in s["s"]:
            self.st(A, x)
            if A.ended:
                A.ctrl = True

    def s_decl(self, A, s):
        for v in s["v"]:
            self.var(A, v)

    def var(self, A, v):
        if "d" not in v:
            return
        i = v.get("init")
        if i is None:
            A.env[v["d"]] = False
            return
        if i.get("k") in ("lambda", "copy", "cast"):
            x = i
            while x.get("k") in ("copy", "cast"):
                x = x["e"] if "e" in x else x["a"][0]
            if x.get("k") == "lambda":
                A.lams[v["d"]] = x
                return
        t = self.ev(A, i)
        if v.get("ref"):
            p = self.place(A, i)
            if p is not None:
                A.alias[v["d"]] = p
        if LOCALTYPE.search(v["t"]):
            t = True
        elif DIST.search(v["t"]):
            t = False
        else:
            t = t or A.ctrl
        A.env[v["d"]] = bool(t)

    def cond(self, A, e):
        return bool(self.ev(A, e)) if e else False

    def branch(self, A, c, parts):
        saved = A.ctrl
        A.ctrl = saved or c
        env0 = dict(A.env)
        outs = []
        for p in parts:
            A.env = dict(env0)
            if p is not None:
                self.st(A, p)
            outs.append(A.env)
            A.ctrl = saved or c
        env = {}
        for o in outs:
            for d, t in o.items():
                env[d] = env.get(d, False) or t
        A.env = env
        A.ctrl = saved or A.ended

    def s_if(self, A, s):
        if isinstance(s.get("init"), dict):
            self.st(A, s["init"])
        if s.get("cv"):
            self.var(A, s["cv"])
        self.branch(A, self.cond(A, s["c"]), [s.get("then"), s.get("else")])

    def s_switch(self, A, s):
        A.loops.append(False)
        self.branch(A, self.cond(A, s["c"]), [s["body"], None])
        A.loops.pop()

    def loop(self, A, c0, body):
        """body() runs the condition and the body; returns the condition's taint"""
        saved = A.ctrl
        local = c0
        for _ in range(6):
            env0, f0 = dict(A.env), A.ended
            A.loops.append(False)
            A.ctrl = saved or local
            c = body()
            brk = A.loops.pop()
            A.ctrl = saved or A.ended
            for d, t in env0.items():
                A.env[d] = A.env.get(d, False) or t
            new = local or c or brk or A.ended and not f0
            if A.env == env0 and new == local:
                break
            local = new
        A.ctrl = saved or A.ended

    def s_for(self, A, s):
        if s.get("init"):
            self.st(A, s["init"])

        def body():
            c = self.cond(A, s.get("c"))
            A.ctrl = A.ctrl or c
            self.st(A, s["body"])
            if s.get("inc"):
                self.ev(A, s["inc"])
            return self.cond(A, s.get("c"))
        self.loop(A, False, body)

    def s_while(self, A, s):
        def body():
            c = self.cond(A, s["c"])
            A.ctrl = A.ctrl or c
            self.st(A, s["body"])
            return self.cond(A, s["c"])
        self.loop(A, False, body)

    def s_do(self, A, s):
        def body():
            self.st(A, s["body"])
            return self.cond(A, s["c"])
        self.loop(A, False, body)

    def s_rfor(self, A, s):
        r = s["range"]
        t = self.ev(A, r)
        rt = r.get("t", "")
        v = s["var"]
        local = bool(t) or bool(re.search(r"IndexSet|IteratorRange|Triangulation|DoFHandler", rt)) or bool(LOCALTYPE.search(rt)) and "std::vector" not in rt
        x = local or bool(LOCALTYPE.search(v["t"]))
        if v.get("ref"):
            p = self.place(A, r)
            if p is not None:
                A.alias[v["d"]] = p

        def body():
            A.env[v["d"]] = x or A.ctrl
            self.st(A, s["body"])
            return local
        self.loop(A, local, body)

    def s_ret(self, A, s):
        t = self.ev(A, s["e"]) if s.get("e") else False
        rt = A.fn.get("ret", "")
        if DIST.search(rt) and not LOCALTYPE.search(rt):
            t = False
            A.ret = A.ret
        else:
            A.ret = A.ret or bool(t) or A.ctrl
        if A.ctrl:
            A.ended = True

    def s_try(self, A, s):
        self.st(A, s["body"])
        for h in s["h"]:
            self.branch(A, False, [h["body"], None])

    # ---- expressions: does the value differ between processes?
    def ev(self, A, e):
        if e is None:
            return False
        if isinstance(e, list):
            return any([self.ev(A, x) for x in e])
        k = e.get("k")
        m = getattr(self, "e_" + str(k), None)
        if m:
            return m(A, e)
        r = False
        for key, x in e.items():
            if key in ("f", "t"):
                continue
            if isinstance(x, dict) and "k" in x:
                r = self.ev(A, x) or r
            elif isinstance(x, list):
                r = any([self.ev(A, y) for y in x if isinstance(y, dict) and "k" in y]) or r
        return r

    def typed(self, e, t):
        ty = e.get("t", "")
        if DIST.search(ty) and not LOCALTYPE.search(ty) and "VectorReference" not in ty:
            return False
        return t

    def e_ref(self, A, e):
        if e.get("dk") in ("local", "param", "binding"):
            p = A.alias.get(e["d"])
            if p is not None:
                t = self.fields.get(p[1:3], False) if p[0] == "f" else A.env.get(p[1], False)
                return self.typed(e, t or A.env.get(e["d"], False))
            return self.typed(e, A.env.get(e["d"], False))
        return False

    def e_this(self, A, e):
        return False

    def e_mem(self, A, e):
        b = self.ev(A, e["b"])
        if LOCALTYPE.search(e["b"].get("t", "")) and not DIST.search(e["b"].get("t", "")):
            b = True
        return self.typed(e, b or self.fields.get((strip_targs(e.get("cls", "")), e["n"]), False))

    def e_lambda(self, A, e):
        return False

    def e_assign(self, A, e):
        t = self.ev(A, e["rhs"])
        if e["op"] != "=":
            t = self.ev(A, e["lhs"]) or t
        else:
            self.ev(A, e["lhs"])
        self.write(A, e["lhs"], t, e["op"] == "=")
        return t

    def e_un(self, A, e):
        t = self.ev(A, e["x"])
        if e["op"] in ("++", "--"):
            self.write(A, e["x"], t, False)
        return t

    def e_bin(self, A, e):
        x = self.ev(A, e["x"])
        if e["op"] in ("&&", "||"):
            saved = A.ctrl
            A.ctrl = saved or bool(x)
            y = self.ev(A, e["y"])
            A.ctrl = saved
        else:
            y = self.ev(A, e["y"])
        return x or y

    def e_cond(self, A, e):
        ks = [v for kk, v in e.items() if isinstance(v, dict) and kk not in ("f",)]
        c = e.get("c") or ks[0]
        t = bool(self.ev(A, c))
        saved = A.ctrl
        A.ctrl = saved or t
        r = t
        for x in ks:
            if x is not c:
                r = self.ev(A, x) or r
        A.ctrl = saved
        return r

    def lam_of(self, A, e):
        while e.get("k") in ("cast", "copy", "ctor") and (e.get("e") or e.get("a")):
            e = e["e"] if "e" in e else e["a"][0]
        if e.get("k") == "lambda":
            return e
        if e.get("k") == "ref":
            return A.lams.get(e.get("d"))
        return None

    def body_of(self, A, lam, args, ctrl):
        """a lambda shares the variables of the function it is written in"""
        if id(lam) in getattr(A, "active", ()):
            return False
        saved = (A.ctrl, A.ret, A.ended, A.loops)
        A.active = getattr(A, "active", ()) + (id(lam),)
        A.ctrl, A.ret, A.ended, A.loops = A.ctrl or ctrl, False, False, []
        for i, p in enumerate(lam["params"]):
            A.env[p["d"]] = args[i] if i < len(args) else ctrl
        self.st(A, lam["body"])
        r = A.ret
        A.ctrl, A.ret, A.ended, A.loops = saved
        A.active = A.active[:-1]
        return r

    def e_call(self, A, e):
        return self.invoke(A, e, e.get("a") or [], None)

    def e_mcall(self, A, e):
        return self.invoke(A, e, e.get("a") or [], e.get("obj"))

    def e_ctor(self, A, e):
        return self.typed(e, self.invoke(A, e, e.get("a") or [], None))

    def e_opcall(self, A, e):
        a = e["a"]
        f = e.get("f") or {}
        lam = self.lam_of(A, a[0]) if e["op"] == "()" else None
        if lam:
            return self.body_of(A, lam, [self.ev(A, x) for x in a[1:]], False)
        if f.get("u") in self.prog.funcs and self.prog.funcs[f["u"]].get("body"):
            return self.invoke(A, e, a[1:] if e.get("meth") else a, a[0] if e.get("meth") else None)
        self.site(A, e, strip_targs(f.get("q", "")))
        ts = [self.ev(A, x) for x in a]
        self.number(A, e, strip_targs(f.get("q", "")) or "operator" + e["op"], a[1:], ts[1:], a[0])
        t0 = a[0].get("t", "")
        if e["op"] == "=":
            self.write(A, a[0], ts[1] if len(ts) > 1 else False, True)
            return ts[-1]
        if e["op"] in WRITES:
            self.write(A, a[0], any(ts), False)
            return any(ts)
        if e["op"] in ("[]", "()", "==", "!=", "<") and DIST.search(t0) and not DIST.search(e.get("t", "") if "VectorReference" not in e.get("t", "") else ""):
            return True
        if e["op"] == "*" and len(a) == 2 and all(VECT.search(x.get("t", "")) for x in a):
            return False
        if e["op"] in ("<<", ">>"):
            return any(ts)
        return self.typed(e, any(ts) or bool(LOCALTYPE.search(t0)) and e["op"] not in ("->", "*") or bool(LOCALTYPE.search(e.get("t", ""))))

    def number(self, A, e, q, args, ts, obj):
        """numbers all processes have to give alike"""
        t = (obj or {}).get("t", "") + " " + (e.get("f") or {}).get("cls", "")
        whole = VECT.search(t) and "VectorReference" not in t
        s = short(q)
        if whole and (s in ("operator*=", "operator/=", "scale") or e.get("op") in ("*=", "/=") or
                      s in ("add", "sadd", "equ") and any(VECT.search(x.get("t", "")) for x in args)):
            pass
        elif e["k"] == "ctor" and "SolverControl" in q:
            pass
        elif "DiscreteTime" in t or e["k"] == "ctor" and "DiscreteTime" in q:
            pass
        elif s in ("refine_global", "write_vtu_with_pvtu_record", "add_value", "set_time") and obj is not None:
            pass
        elif e["k"] in ("ctor", "call") and re.search(r"\b(FESystem|FE_Q|FE_Nothing|QGauss)\b", q) or s in ("make_shared", "make_unique") and re.search(r"\b(FESystem|FE_Q|FE_Nothing)\b", e.get("t", "")):
            pass
        else:
            return
        if not args:
            return
        k = (A.fn["relfile"], e.get("l", 0), s, strip_targs(A.fn["q"]))
        self.numbers[k] = self.numbers.get(k, False) or any(ts)

    def site(self, A, e, q):
        c = collective(e, q)
        if c:
            k = (A.fn["relfile"], e.get("l", 0), c, strip_targs(A.fn["q"]))
            self.sites[k] = self.sites.get(k, False) or A.ctrl
        return c

    def invoke(self, A, e, args, obj):
        f = e.get("f") or {}
        q = strip_targs(f.get("q", ""))
        fn = self.prog.funcs.get(f.get("u"))
        ot = self.ev(A, obj) if obj is not None else False
        ce = e.get("ce")
        if ce is not None:
            lam = self.lam_of(A, ce)
            if lam:
                return self.body_of(A, lam, [self.ev(A, x) for x in args], False)
            ot = self.ev(A, ce) or ot
        ts = []
        lams = []
        for x in args:
            lam = self.lam_of(A, x)
            if lam:
                lams.append(lam)
                ts.append(False)
            else:
                ts.append(bool(self.ev(A, x)))
        modes = f.get("p") or []
        if fn is not None and fn.get("body") and len(fn["params"]) >= len(ts):
            ts2 = tuple(ts) + (False,) * (len(fn["params"]) - len(ts))
            r, out = self.call(fn, False, ts2, A.ctrl)
            for x, p, t in zip(args, fn["params"], out):
                if p.get("pm") in ("r", "p") and t:
                    self.write(A, x, t, False)
            for l in lams:
                self.body_of(A, l, [], False)
            if obj is not None and LOCALTYPE.search(obj.get("t", "")):
                r = True
            return self.typed(e, r or ot or (A.ctrl and bool(out) and False))
        self.site(A, e, q)
        self.number(A, e, q, args, ts, obj)
        s = short(q)
        # loops over local cells run their workers on this process only
        run_local = q.startswith("dealii::WorkStream") or any(ts)
        for l in lams:
            r0 = self.body_of(A, l, [], run_local)
            ot = ot or (r0 and not q.startswith("dealii::WorkStream"))
        for x, m, t in zip(args, modes, ts):
            if m in ("r", "p") and not DIST.search(x.get("t", "")):
                self.write(A, x, any(ts) or ot or obj is not None and bool(LOCALTYPE.search(obj.get("t", ""))), False)
        if MPI_LOCAL.search(q):
            return True
        if MPI_SAME.search(q):
            return False
        if obj is not None:
            t0 = obj.get("t", "")
            cls = f.get("cls", "")
            if not f.get("const") and not DIST.search(t0):
                self.write(A, obj, any(ts) or ot, False)
            if LOCALTYPE.search(t0) or LOCALTYPE.search(cls):
                return self.typed(e, True)
            if DIST.search(t0) or DIST.search(cls):
                if s in SAME or s.startswith("get_fe"):
                    return self.typed(e, any(ts))
                if e.get("t", "") in ("void", ""):
                    return False
                return self.typed(e, True)
        return self.typed(e, any(ts) or ot or bool(LOCALTYPE.search(e.get("t", ""))))
