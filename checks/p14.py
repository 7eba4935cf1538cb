"""P14 linear solves and application of the Newton update."""
from lab import *
from report import Check
from solver import *
from vg import at
import vg
import terms as T
from linalg import vval, bval, D, cname
from flow import walk
from p08 import SOLVER

EXPL = ("Each linear solve is evaluated for every solver type and block: matrix, right-hand side, controlling tolerance and iteration limit, "
        "constraints and the value left in the Newton update are compared with the system they have to belong to (the reduced system as a "
        "non-commutative polynomial in the Jacobian's blocks). Applying, storing and restoring the trial solution are compared entrywise. "
        "In the solution algorithms, the Jacobian and residual each solve sees are traced back to the assembly that defined them. "
        "Every exception handler around a linear solve is followed to its end on all paths.")
B = var("B")
KRY = {"mono": "parameters.monolithic_algorithm_parameters.monolithic_system_solver_parameters.krylov_parameters",
       0: "parameters.staggered_algorithm_parameters.linear_momentum_solver_parameters.krylov_parameters",
       1: "parameters.staggered_algorithm_parameters.pseudo_balance_solver_parameters.krylov_parameters"}
CLASS = {"DirectSolver": "SolverDirect", "CG": "SolverCG", "GMRES": "SolverGMRES"}
BLOCKS = {0: "Macro", 1: "Micro"}
INC = at(THIS, (("f", "internal_newton_method_constraints"),))
AFF = at(THIS, (("f", "fe_field"), ("f", "affine_constraints")))


def check():
    c = Check("P14", "value graph of the linear solves (operators as non-commutative polynomials), origin of matrix and right-hand side, all-paths termination of handlers", "", None)
    c.load()
    for d in (2, 3):
        direct(c, d)
        reduced(c, d)
        update(c, d)
        undo(c, d)
        driver(c, d)
    layouts(c, sorted((f for f in c.prog.funcs.values() if f.get("body") and any(linear_solve(x) for x in kids_calls(f["body"]))), key=lambda f: f["q"]),
            " (linear solve)")
    handlers(c)
    return c.finish(EXPL)


def jac(i, j):
    return at(THIS, (("f", "jacobian"), ("f", "#block"), ("i", num(i)), ("i", num(j))))


def res(i):
    return at(THIS, (("f", "residual"), ("f", "#block"), ("i", num(i))))


def p(path, n):
    return prm(path + "." + n)


def tolerance(path, i):
    n = mk("call", "l2_norm", res(i))
    return fmax(mul(atom(n), p(path, "relative_tolerance")), p(path, "absolute_tolerance"))


def control(t):
    """arguments of the solver control a solver object was built with"""
    while isinstance(t, Term) and t.op in ("after", "out"):
        t = t.args[1] if t.op == "after" else None
    if isinstance(t, Term) and t.op == "ctorobj":
        for x in t.args[1:]:
            if isinstance(x, Term) and x.op == "ctorobj" and "SolverControl" in str(x.args[0]):
                return x
    return None


def limits(c, w, lab, ctl, path, i):
    ok = ctl is not None and str(ctl.args[0]) == "dealii::SolverControl" and len(ctl.args) >= 3
    c.ob("the iteration is controlled by tolerance and limit" + lab, ok, w, show(ctl, 4) if ctl is not None else "no solver control")
    if ok:
        c.ob("iteration limit of this solve's parameters" + lab, same(ctl.args[1], p(path, "n_max_iterations")), w, show(ctl.args[1], 6))
        tol = ctl.args[2]
        c.ob("tolerance: the larger of relative tolerance times right-hand side norm and absolute tolerance" + lab,
             same(tol, tolerance(path, i)), w, show(tol, 8)[:600])


def same(a, b):
    if a is b:
        return True
    return isnum(a) and isnum(b) and T.equal(a, b, 40) and T.equal_on_boundaries(a, b)


def written(ev):
    """fields of the solver that are written"""
    return {st.steps[0][1] for st in ev.logs.get("$this", []) if st.steps and st.line}


def result(ev, c, w, lab, blocks, want):
    nu = ev.descend(mk("sym", "this"), (), ("obj", ""))
    t = ev.read(vg.Loc("$this", (("f", "newton_update"),)), ("obj", ""))
    for b in blocks:
        got, req = vval(t, num(b)), want(b)
        c.ob("Newton update, block %d%s" % (b, lab), same(got, req), w, "computed: %s\nrequired: %s" % (show(got, 7)[:700], show(req, 7)[:700]))


def direct(c, d):
    types = c.prog.enums.get("gCP::RunTimeParameters::SolverType")
    c.need(types and len(types) >= 3, "solver types: %s" % types)
    mono = c.anchor(SOLVER % d + "solve_linearized_system")
    sub = c.anchor(SOLVER % d + "solve_decoupled_linearized_subsystem")
    for f, path, b, args, blocks in [(mono, KRY["mono"], 0, None, (0,))] + [
            (sub, KRY[i], i, {0: mk("enum", "gCP::BlockIndex::" + BLOCKS[i])}, (0, 1)) for i in (0, 1)]:
        for ty in types:
            lab = " (%s, %s, dim %d)" % ("monolithic" if f is mono else BLOCKS[b], last(ty), d)
            w = c.where(f)
            init = {path + ".solver_type": mk("enum", ty)}
            for q in KRY.values():
                if q != path:
                    init[q + ".solver_type"] = mk("enum", next(x for x in types if x != ty))
            ev, r = c.vg(f, args=args, init=init, opaque=lambda q: False)
            sol = [e for e in calls(ev, ("solve", "vmult")) if "Solver" in str(e[6])]
            if last(ty) not in CLASS:
                c.ob("an unsupported solver type ends in an exception" + lab, any(e[0] == "throw" and e[1] is ONE for e in ev.events) or len(sol) == 1, w)
                if len(sol) != 1:
                    continue
            ok = len(sol) == 1 and sol[0][4] is ONE
            c.ob("exactly one linear solve" + lab, ok, w, "; ".join("%s under %s" % (e[6], show(e[4], 4)[:200]) for e in sol) or "none")
            c.ob("no exception before the solve" + lab, not any(e[0] == "throw" for e in ev.events), w)
            if not ok:
                continue
            e = sol[0]
            if last(ty) in CLASS:
                c.ob("the configured solver is used" + lab, str(e[6]).endswith("::" + CLASS[last(ty)]), w, "used: %s" % e[6])
            A, rhs = e[3][0], e[3][2]
            c.ob("matrix: diagonal block of the Jacobian" + lab, A is jac(b, b), w, show(A, 5))
            c.ob("right-hand side: the block of the residual" + lab, rhs is res(b), w, show(rhs, 5))
            ctl = control(e[2])
            limits(c, w, lab, ctl, path, b)
            X = mk("out", 1, mk("call", e[1], e[2], *e[3]))
            out_ = out_of(ev, X)
            result(ev, c, w, lab, blocks, lambda k: D(INC, bval(X), num(k)) if k == b else ZERO)
            c.ob("nothing else of the solver is written" + lab, written(ev) <= {"newton_update"}, w, str(written(ev)))
            reported(c, w, lab, r, ctl)


def out_of(ev, X):
    return X


def reported(c, w, lab, r, ctl):
    a = as_atom(r)
    ok = isinstance(a, Term) and a.op == "call" and cname(a) == "last_step" and ctl is not None and a.args[1] is ctl
    c.ob("reported: the number of iterations of this solve" + lab, ok, w, show(r, 4)[:300])


# ---------------------------------------------------------------- Schur complement
def operator(t):
    """linear operator as a non-commutative polynomial {word: coefficient}"""
    t = as_atom(t)
    n = cname(t) or (t.op if isinstance(t, Term) else None)
    a = t.args

    def scale(x, k):
        return {w: mul(k, v) for w, v in x.items()}

    def plus(x, y):
        o = dict(x)
        for w, v in y.items():
            o[w] = add(o.get(w, ZERO), v)
        return {w: v for w, v in o.items() if v is not ZERO}

    def times(x, y):
        o = {}
        for w, v in x.items():
            for u, q in y.items():
                o = plus(o, {w + u: mul(v, q)})
        return o
    if t.op == "ctorobj" and len(a) == 2 and isinstance(a[1], Term):
        return operator(a[1])
    if n == "linear_operator":
        return operator(a[-1])
    if n == "inverse_operator":
        return {(("inverse", canon(operator(a[2])), t),): ONE}
    if n == "schur_complement":
        ai, b, cc, dd = [operator(x) for x in a[2:6]]
        return plus(dd, scale(times(cc, times(ai, b)), num(-1)))
    if n in ("op+", "operator+"):
        return plus(operator(a[-2]), operator(a[-1]))
    if n in ("op-", "operator-") and len([x for x in a if isinstance(x, Term)]) >= 2:
        return plus(operator(a[-2]), scale(operator(a[-1]), num(-1)))
    if n in ("op-", "operator-"):
        return scale(operator(a[-1]), num(-1))
    if n in ("op*", "operator*"):
        x, y = a[-2], a[-1]
        if isnum(x) and single_atom(x) is None:
            return scale(operator(y), x)
        if isnum(y) and single_atom(y) is None:
            return scale(operator(x), y)
        return times(operator(x), operator(y))
    return {(t,): ONE}


def canon(x):
    return tuple(sorted(((tuple(u[:2] if isinstance(u, tuple) else u for u in w), v) for w, v in x.items()), key=str))


def reduced(c, d):
    f = c.anchor(SOLVER % d + "solve_reduced_linearized_system")
    ev, r = c.vg(f, opaque=lambda q: False)
    w, lab = c.where(f), " (reduced, dim %d)" % d
    t = ev.read(vg.Loc("$this", (("f", "newton_update"),)), ("obj", ""))
    got = single_atom(vval(t, ZERO))
    ok = got is not None and got.op == "D"
    c.ob("the update satisfies the constraints of the Newton iteration" + lab, ok and got.args[0] is INC, w, show(vval(t, ZERO), 5)[:400])
    c.ob("Newton update, block 1" + lab, same(vval(t, ONE), ZERO), w, show(vval(t, ONE), 6)[:300])
    c.ob("nothing else of the solver is written" + lab, written(ev) <= {"newton_update"}, w, str(written(ev)))
    if not ok:
        return
    x = single_atom(got.args[1])
    x = x.args[0] if x is not None and x.op in ("vec", "bvec") else x
    outer = None
    if x is not None and cname(x) is not None and cname(x).startswith("operator ") and len(x.args) >= 2:
        prod = operator(x.args[1])
        ws = list(prod.items())
        if len(ws) == 1 and len(ws[0][0]) == 2 and ws[0][1] is ONE and isinstance(ws[0][0][0], tuple):
            outer, rhs = ws[0][0]
            inv, matrix = outer[2], outer[1]
            ctl = control(inv.args[3])
    elif x is not None and x.op == "out":
        e = x.args[1]
        if cname(e) == "vmult":
            op = list(operator(e.args[1]))
            if len(op) == 1 and len(op[0]) == 1 and isinstance(op[0][0], tuple):
                outer = op[0][0]
                inv, matrix, rhs = outer[2], outer[1], e.args[3]
                ctl = control(inv.args[3])
        elif cname(e) == "solve":
            outer, matrix, rhs, ctl = e, canon(operator(e.args[2])), e.args[4], control(e.args[1])
    c.ob("solved: an inverse applied to a right-hand side" + lab, outer is not None, w, show(x, 6)[:500] if x is not None else "")
    if outer is None:
        return
    G = ("inverse", canon({(jac(1, 1),): ONE}))
    want = canon({(jac(0, 0),): ONE, (jac(0, 1), G, jac(1, 0)): num(-1)})
    c.ob("matrix: Schur complement of the slips' block" + lab, matrix == want, w, "computed: %s" % pretty(matrix))
    c.ob("right-hand side: the displacements' residual" + lab, rhs is res(0), w, show(rhs, 5))
    limits(c, w, lab, ctl, KRY[0], 0)
    inner = [e for e in calls(ev, "inverse_operator") if canon(operator(e[3][0])) == canon({(jac(1, 1),): ONE})]
    c.ob("one inverse of the slips' block" + lab, len(inner) == 1, w, "%d" % len(inner))
    for e in inner:
        limits(c, w, " (inverse of the slips' block, dim %d)" % d, control(e[3][1]), KRY[1], 1)
    reported(c, w, lab, r, ctl)


def pretty(m):
    return " + ".join("%s·%s" % (show(v, 3), " ".join(show(u, 4) if isinstance(u, Term) else "inverse(%s)" % pretty(u[1]) for u in w)) for w, v in m)[:800]


# ---------------------------------------------------------------- trial solution
def trial(ev):
    return ev.read(vg.Loc("$this", (("f", "trial_solution"),)), ("obj", ""))


def sym_field(n, b):
    return vval(at(THIS, (("f", n),)), b)


def update(c, d):
    one = c.anchor(SOLVER % d + "update_trial_solution", 1, lambda f: "vector" not in f["params"][0]["t"])
    two = c.anchor(SOLVER % d + "update_trial_solution", 2)
    lam = atom(mk("sym", "lambda"))
    for f, b, args in [(one, 0, {0: lam})] + [(two, i, {0: lam, 1: mk("enum", "gCP::BlockIndex::" + BLOCKS[i])}) for i in (0, 1)]:
        ev, _ = c.vg(f, args=args, opaque=lambda q: False)
        t, w = trial(ev), c.where(f)
        lab = " (%s, dim %d)" % ("monolithic" if f is one else BLOCKS[b], d)
        want = D(AFF, add(sym_field("trial_solution", num(b)), mul(lam, sym_field("newton_update", num(b)))), num(b))
        got = vval(t, num(b))
        c.ob("trial solution plus step length times update, constrained" + lab, same(got, want), w, "computed: %s\nrequired: %s" % (show(got, 7)[:600], show(want, 7)[:600]))
        if f is two:
            got = vval(t, num(1 - b))
            c.ob("the other block is left alone" + lab, same(got, sym_field("trial_solution", num(1 - b))), w, show(got, 6)[:400])
        c.ob("only the trial solution is written" + lab, written(ev) == {"trial_solution"}, w, str(written(ev)))


def undo(c, d):
    st = c.anchor(SOLVER % d + "store_trial_solution")
    rs = c.anchor(SOLVER % d + "reset_trial_solution")
    for flag, name in ((1, "initial_trial_solution"), (0, "tmp_trial_solution")):
        ev, _ = c.vg(st, args={0: num(flag)}, opaque=lambda q: False)
        got = vval(ev.read(vg.Loc("$this", (("f", name),)), ("obj", "")), B)
        lab = " (%s, dim %d)" % ("start of the load step" if flag else "this iteration", d)
        c.ob("the stored trial solution is the current one" + lab, same(got, sym_field("trial_solution", B)), c.where(st), show(got, 6)[:400])
        c.ob("storing writes nothing else" + lab, written(ev) == {name}, c.where(st), str(written(ev)))
        for b in (0, 1):
            ev, _ = c.vg(rs, args={0: num(flag), 1: mk("enum", "gCP::BlockIndex::" + BLOCKS[b])}, opaque=lambda q: False)
            t = trial(ev)
            lb = lab[:-1] + ", block %d)" % b
            want = D(AFF, sym_field(name, num(b)), num(b))
            c.ob("restored: the stored trial solution, constrained" + lb, same(vval(t, num(b)), want), c.where(rs), show(vval(t, num(b)), 6)[:400])
            c.ob("restoring leaves the other block alone" + lb, same(vval(t, num(1 - b)), sym_field("trial_solution", num(1 - b))), c.where(rs), show(vval(t, num(1 - b)), 6)[:400])
            c.ob("only the trial solution is written by restoring" + lb, written(ev) == {"trial_solution"}, c.where(rs), str(written(ev)))


# ---------------------------------------------------------------- what the solves see
def driver(c, d):
    n = 0
    for lab, alg, init in configurations(c):
        f, ev = run_step(c, d, init)
        pos = {id(e): k for k, e in enumerate(ev.events)}
        for e in calls(ev, SOLVES):
            n += 1
            S, nm = e[2], last(e[1])
            b = {"Macro": 0, "Micro": 1}.get(str(e[3][0].args[0]).rsplit("::", 1)[-1]) if e[3] else 0
            l = " (%s, %s%s, dim %d)" % (lab, nm, "" if not e[3] else " " + BLOCKS[b], d)
            w = c.where(f, e[5])
            kinds = {"Monolithic": ("solve_linearized_system",)}.get(alg, ("solve_decoupled_linearized_subsystem", "solve_reduced_linearized_system"))
            c.ob("the solve fits the algorithm" + l, nm in kinds, w)
            for fl in ("residual", "jacobian"):
                through = tuple(x for x in ASSEMBLY if x != "assemble_" + fl)
                stale = ZERO
                txt = ""
                for g, o in origins(field(ev, S, fl), through, e[4]):
                    fresh = False
                    if o[0] == "after" and o[1] == "assemble_" + fl:
                        a, z = field(ev, S, "trial_solution"), field(ev, o[2], "trial_solution")
                        fresh = a is z or mul(g, sub(vval(a, B), vval(z, B))) is ZERO
                        k, m = field(ev, S, "internal_newton_method_constraints"), field(ev, o[2], "internal_newton_method_constraints")
                        if k is not m:
                            fresh = False
                    if not fresh:
                        stale = add(stale, mul(g, e[4]))
                        txt = "under %s it is %s" % (show(g, 4)[:200], show(o[1], 4)[:200] if o[0] != "after" else o[1] + " for another state")
                if fl == "jacobian" and alg == "Bouncing" and b == 0:
                    ats = {x for x in subterms(stale) if x.op == "eq0"}
                    ok = stale is ZERO or any(mul(stale, atom(x)) is ZERO for x in ats)
                    c.ob("the Jacobian is assembled for the first iteration of every round" + l, ok, w, txt)
                else:
                    c.ob("the %s solved with is that of the current trial solution and constraints%s" % (fl, l), stale is ZERO, w, txt)
            applied(c, ev, e, pos, b, l, w)
    c.count("linear solves of the solution algorithms", n)
    c.need(n >= 12, "linear solves in the solution algorithms: %d" % n)


def applied(c, ev, e, pos, b, l, w):
    """the full update is what the next refresh sees"""
    k = pos[id(e)]
    nxt = next((x for x in ev.events[k + 1:] if x[0] == "call" and last(x[1]) in (REFRESH, "assemble_residual")), None)
    c.ob("the update is applied before internal variables or residual are recomputed" + l, nxt is not None, w)
    if nxt is None:
        return
    aff = next((x[2] for x in ev.events[k + 1:] if x[0] == "call" and last(x[1]) == "distribute"), None)
    S, N = e[2], nxt[2]
    bb = num(b)
    before, after = vval(field(ev, S, "trial_solution"), bb), vval(field(ev, N, "trial_solution"), bb)
    new = vval(field(ev, N, "newton_update"), bb)
    want = D(aff, add(before, new), bb)
    ok = same(mul(e[4], after), mul(e[4], want)) and aff is not None and aff_ok(aff)
    c.ob("trial solution = constrained (previous + full update)" + l, ok, w, "computed: %s\nrequired: %s" % (show(after, 6)[:500], show(want, 6)[:500]))
    src = {cname(t) for t in subterms(new) if t.op in ("after", "out", "call")} & set(SOLVES)
    c.ob("the update applied is the one just solved for" + l, last(e[1]) in src, w, show(new, 5)[:300])


def aff_ok(t):
    t = as_atom(t)
    if t.op == "call" and cname(t) == "get_affine_constraints":
        return True
    return t.op == "at" and t.args[1][-1] == ("f", "affine_constraints")


# ---------------------------------------------------------------- failure
def linear_solve(n):
    f = n.get("f") or {}
    q, cl = f.get("q", ""), f.get("cls", "") or ""
    nm = last(q)
    return q.startswith("dealii::") and ((nm == "solve" and "Solver" in (cl or q)) or "PackagedOperation" in cl and nm.startswith("operator") or nm in ("inverse_operator",))


def kids_calls(n):
    for x in walk(n):
        if x.get("k") in ("call", "mcall", "opcall", "ctor") and x.get("f"):
            yield x


def handlers(c):
    """no handler around a linear solve lets the run continue"""
    fs = c.prog.funcs
    reach = {u for u, f in fs.items() if any(linear_solve(x) for x in kids_calls(f.get("body"))) or any(linear_solve(x) for x in kids_calls(f.get("inits")))}
    c.need(len(reach) >= 6, "functions with a linear solve: %d" % len(reach))
    callees = {u: {x["f"].get("u") for x in kids_calls({"a": [f.get("body"), f.get("inits")]})} for u, f in fs.items()}
    while True:
        more = {u for u in fs if u not in reach and callees[u] & reach}
        if not more:
            break
        reach |= more
    n = 0
    for u, f in sorted(fs.items(), key=lambda x: str(x[0])):
        if "noexcept" in f and f["noexcept"] and u in reach:
            continue        # escapes end in std::terminate
        for t in walk(f.get("body")):
            if t.get("k") != "try":
                continue
            if not any(linear_solve(x) or x["f"].get("u") in reach for x in kids_calls(t["body"])):
                continue
            for h in t["h"]:
                n += 1
                bad = ends(c, h["body"], f["name"] == "main", set())
                c.ob("an exception of a linear solve is never survived: handler of %s" % f["name"], bad is None, c.where(f, h.get("l") or h["body"].get("l")),
                     "the handler %s" % bad if bad else "", key="handler in %s" % vg.strip_targs(f["q"]))
    c.count("exception handlers around linear solves", n)
    c.count("functions that reach a linear solve", len(reach))
    c.must(n >= 2, "handlers around linear solves: %d" % n)


def ends(c, s, main, seen):
    """None if control never leaves the statement normally (throw, a call that
    never returns, in main a non-zero return); otherwise how it leaves"""
    k = s.get("k") if isinstance(s, dict) else None
    if k == "blk":
        for x in s["s"]:
            r = ends(c, x, main, seen)
            if r is None:
                return None
            if r != "falls through":
                return r
        return "falls through"
    if k == "if":
        if not s.get("else") and not s.get("e2"):
            pass
        bs = [s.get(x) for x in ("then", "else") if s.get(x)]
        rs = [ends(c, b, main, seen) for b in bs]
        if len(bs) == 2 and rs[0] is None and rs[1] is None:
            return None
        return next((r for r in rs if r and r != "falls through"), "falls through")
    if k == "ret":
        e = s.get("e")
        if main and e is not None:
            while e.get("k") in ("cast", "copy") and e.get("e"):
                e = e["e"]
            if e.get("k") == "int" and int(e.get("v", 0)) != 0:
                return None
            if e.get("k") == "ref" and e.get("n") == "EXIT_FAILURE":
                return None
        return "returns at line %s" % s.get("l")
    if k in ("brk", "cont"):
        return "leaves at line %s" % s.get("l")
    if k == "try":
        bs = [s["body"]] + [h["body"] for h in s["h"]]
        rs = [ends(c, b, main, seen) for b in bs]
        return None if all(r is None for r in rs) else next(r for r in rs if r)
    if k in ("for", "rfor", "while", "do", "switch"):
        inner = [x for x in walk(s) if x.get("k") == "ret"]
        if k == "do":
            r = ends(c, s.get("body") or s.get("b"), main, seen)
            if r is None:
                return None
        return "falls through" if not inner else "may return at line %s" % inner[0].get("l")
    # expression or declaration: a call on it that never comes back
    for x in walk(s):
        if x.get("k") == "throw":
            return None
        if x.get("k") in ("cond", "lambda"):
            return "falls through"
        if x.get("k") in ("call", "mcall") and x.get("f"):
            g = x["f"]
            if g.get("nr"):
                if last(g["q"]) in ("exit", "_exit", "quick_exit", "_Exit") and not nonzero(x):
                    return "exits with status zero at line %s" % x.get("l")
                return None
            fn = c.prog.funcs.get(g.get("u"))
            if fn is not None and fn.get("body") and fn["q"] not in seen:
                if ends(c, fn["body"], False, seen | {fn["q"]}) is None:
                    return None
    return "falls through"


def nonzero(x):
    for a in x.get("a", []):
        for y in walk(a):
            if y.get("k") == "int":
                return int(y.get("v", 0)) != 0
    return False
