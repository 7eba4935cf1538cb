"""Shared vocabulary for the solver's algorithms: which state of the solver an
assembly, an internal-variable refresh or a norm refers to."""
from terms import *
from vg import at
import vg
from linalg import vval, bval, cname, D

ASSEMBLY = ("assemble_residual", "assemble_jacobian", "assemble_linear_system")
REFRESH = "reset_and_update_internal_variables"
NORMS = ("get_l2_norm", "get_sub_l2_norms")
THIS = mk("sym", "this")


def last(q):
    return q.rsplit("::", 1)[-1]


def inloop(e):
    """innermost loop the event is in, or None"""
    for x in e[1:]:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "in":
            return x[1]
    return None


def loops(e):
    return [x[1] for x in e[1:] if isinstance(x, tuple) and len(x) == 2 and x[0] == "in"]


def calls(ev, name=None):
    """call events, optionally only those of one (unqualified) name"""
    names = (name,) if isinstance(name, str) else name
    return [e for e in ev.events if e[0] == "call" and (names is None or last(e[1]) in names)]


def field(ev, S, name, *steps):
    """field of a state term"""
    return ev.descend(S, (("f", name),) + tuple(steps), ("obj", ""))


def as_atom(x):
    if isinstance(x, Term) and x.op == "poly":
        return single_atom(x)
    return x


def origin(t, through=ASSEMBLY):
    """follow a field value back through the calls that may have written it
    (`through`) to the call that last defined it: ("after", name, state)"""
    t = as_atom(t)
    while isinstance(t, Term):
        if t.op == "at" and isinstance(t.args[0], Term) and t.args[0].op == "after":
            a = t.args[0]
            n = last(str(a.args[0]))
            if n in through and len(t.args[1]) == 1:
                fld = t.args[1][0]
                nxt = at(a.args[1], (fld,))
                if a.args[1].op == "objst":
                    nxt = from_objst(a.args[1], fld)
                    if nxt is None:
                        return ("unknown", t)
                t = as_atom(nxt)
                continue
            return ("after", n, a.args[1], a.args[2:])
        break
    return ("value", t)


def from_objst(S, fld):
    """last value of a whole field in an object state"""
    r = None
    for w in reversed(S.args[1]):
        vs, (kind, steps, val, g) = w.args[0], w.args[1][:4]
        if steps and steps[0] == fld:
            if len(steps) == 1 and kind == "set" and g is ONE:
                return val
            return None
        if not steps:
            return None
    return at(S.args[0], (fld,))


def leaves(t, g=ONE):
    """(guard, value) of a value that differs between branches"""
    t = as_atom(t)
    if isinstance(t, Term) and t.op == "case":
        for h, v in t.args[0]:
            if mul(g, h) is not ZERO:
                yield from leaves(v, mul(g, h))
    else:
        yield g, t


def origins(t, through=ASSEMBLY, g=ONE):
    """origin() of every branch of a value: (guard, origin)"""
    for h, v in leaves(t, g):
        o = origin(v, through)
        if o[0] == "value" and as_atom(o[1]).op == "case":
            yield from origins(o[1], through, h)
        else:
            yield h, o


def refreshed(ev, S, guard=ONE):
    """is the quadrature point history of state S the one refreshed for the
    trial solution of S?  -> (ok, text)"""
    B = var("B")
    for g, o in origins(field(ev, S, "quadrature_point_history"), ASSEMBLY, guard):
        if o[0] != "after" or o[1] != REFRESH:
            return False, "internal variables are %s" % show(o[1] if o[0] != "after" else mk("after", *o[1:3]), 4)[:300]
        a, b = field(ev, S, "trial_solution"), field(ev, o[2], "trial_solution")
        if a is b or mul(g, sub(vval(a, B), vval(b, B))) is ZERO:
            continue
        return False, "internal variables were refreshed for a different trial solution: %s; assembled: %s" % (show(b, 4)[:200], show(a, 4)[:200])
    return True, ""


def residual_of(ev, t):
    """state whose residual the vector term t is, or None"""
    t = as_atom(t)
    if isinstance(t, Term) and t.op == "at" and len(t.args[1]) == 1 and t.args[1][0] == ("f", "residual"):
        a = t.args[0]
        if a.op == "after" and last(str(a.args[0])) in ASSEMBLY:
            return a.args[1]
        if a.op == "sym":
            return a
    return None


def norm_of(t):
    """t is a norm of a vector: (kind, vector, index or None)"""
    t = as_atom(t)
    if not isinstance(t, Term):
        return None
    idx = None
    if t.op == "at" and t.args[0].op == "call":
        st = t.args[1]
        if len(st) == 1 and st[0][0] == "i":
            idx = st[0][1]
        t = t.args[0]
    if t.op == "call" and last(str(t.args[0])) in NORMS:
        n = last(str(t.args[0]))
        return (n, t.args[2], idx) + tuple(t.args[3:])
    return None


PRIMS = {"assemble_residual", "assemble_jacobian", REFRESH, "get_l2_norm", "get_sub_l2_norms",
         "solve_linearized_system", "solve_decoupled_linearized_subsystem", "solve_reduced_linearized_system",
         "line_search_algorithm", "active_set_algorithm", "debug_output", "update_and_output_nonlinear_solver_logger",
         "get_distributed_vector_instance", "get_affine_constraints", "get_hanging_node_constraints",
         "prepare_quadrature_point_history", "store_effective_opening_displacement_in_quadrature_history",
         "reset_internal_newton_method_constraints", "store_slip_resistances"}
SOLVES = ("solve_linearized_system", "solve_decoupled_linearized_subsystem", "solve_reduced_linearized_system")


def opaque(q):
    n = last(q)
    return n in PRIMS or "gCP::LineSearch::" in q or "gCP::Utilities::" in q


def solver_class(d):
    return "gCP::GradientCrystalPlasticitySolver<%d>" % d


MONO = "parameters.monolithic_algorithm_parameters.monolithic_system_solver_parameters.newton_parameters"
MACRO = "parameters.staggered_algorithm_parameters.linear_momentum_solver_parameters.newton_parameters"
MICRO = "parameters.staggered_algorithm_parameters.pseudo_balance_solver_parameters.newton_parameters"
RI = "parameters.constitutive_laws_parameters.scalar_microstress_law_parameters.flag_rate_independent"


def prm(path):
    return atom(at(THIS, tuple(("f", x) for x in path.split("."))))


def configurations(c):
    """(label, algorithm, field values): every solution algorithm the
    parameter can select, with and without line search, both material kinds"""
    algs = c.prog.enums.get("gCP::RunTimeParameters::SolutionAlgorithm")
    c.need(algs and len(algs) >= 3, "solution algorithms: %s" % algs)
    for a in algs:
        for ls in (0, 1):
            for ri in (0, 1):
                yield ("%s, line search %d, rate independent %d" % (last(a), ls, ri), last(a),
                       {"parameters.solution_algorithm": mk("enum", a),
                        MONO + ".flag_line_search": num(ls), MACRO + ".flag_line_search": num(ls),
                        MICRO + ".flag_line_search": num(ls), RI: num(ri)})


def run_step(c, d, init, **kw):
    """one load step, every helper of the solver inlined except the primitives"""
    f = c.anchor(solver_class(d) + "::solve_nonlinear_system")
    ev, r = c.vg(f, opaque=opaque, init=init, **kw)
    return f, ev


def loop_tree(ev):
    """loop id -> (exit event, parent id)"""
    out = {}
    for e in ev.events:
        if e[0] == "loop-exit":
            out[e[1]] = (e, inloop(e[5:]) if len(e) > 5 else None)
    return out


def heads(ev, lid):
    """loop-carried scalars: {(root, prefix): (entry value, head value, end value)}"""
    ini, end = {}, {}
    for e in ev.events:
        if e[0] == "loop-init" and e[1] == lid:
            ini[(str(e[2]), e[3])] = e[4]
        if e[0] == "loop-end" and e[1] == lid:
            end[(str(e[2]), e[3])] = e[4]
    return {k: (ini[k], mk("head", lid, k[0], k[1]), end.get(k)) for k in ini}


def end_state(ev, lid):
    for e in ev.events:
        if e[0] == "loop-end" and e[1] == lid and e[2] == "$this":
            return e[4]
    return None


# ---------------------------------------------------------------- layout of local vectors
def _links(n, parent=None):
    """(node, parent node), in the order of the source"""
    from flow import kids
    if isinstance(n, dict):
        yield n, parent
        parent = n
    for x in kids(n):
        yield from _links(x, parent)


def _is_ref(x, d, n):
    return isinstance(x, dict) and x.get("k") == "ref" and x.get("d") == d and x.get("n") == n


def _gives_layout(prog, node, d, n, depth=0):
    """is the call the first use of a vector, and one that fixes its size and distribution"""
    k, f = node.get("k"), node.get("f") or {}
    nm, a = last(f.get("q", "")), node.get("a", [])
    if k == "mcall" and _is_ref(node.get("obj"), d, n):
        return nm in ("reinit", "swap") and len(a) >= 1 or nm in ("operator=",) and a and "Vector" in str(a[0].get("t"))
    if k == "opcall" and node.get("op") == "=" and a and _is_ref(a[0], d, n):
        return "Vector" in str(a[1].get("t"))
    if k in ("call", "mcall", "opcall"):
        if nm == "swap":
            return True
        g = prog.funcs.get(f.get("u"))
        if g is not None and g.get("body") and depth < 3:
            for i, x in enumerate(a):
                if _is_ref(x, d, n) and i < len(g["params"]):
                    p = g["params"][i]
                    return first_use(prog, g["body"], p.get("d", i), p.get("n"), depth + 1)[0] is not False
        return "Vector" not in nm and g is None and nm in ("move", "forward", "ref")
    return False


def first_use(prog, body, d, n, depth=0):
    """(True | False | None, node): does the first use fix the layout; None without any use"""
    for x, p in _links(body):
        if _is_ref(x, d, n):
            return (bool(p is not None and _gives_layout(prog, p, d, n, depth)), p)
    return (None, None)


def local_vectors(prog, f):
    """(variable, verdict, line) of the distributed vectors a function creates without a layout"""
    from flow import walk
    for v in walk(f.get("body")):
        if v.get("k") != "var" or v.get("ref") or "MPI::" not in str(v.get("t")) or "Vector" not in str(v.get("t")) or "*" in str(v.get("t")) or "<" in str(v.get("t")):
            continue
        i = v.get("init")
        if i is not None and not (i.get("k") == "ctor" and not i.get("a")):
            continue
        ok, node = first_use(prog, f["body"], v.get("d"), v.get("n"))
        yield v, ok, (node or v).get("l") or v.get("l")


def layouts(c, fs, note=""):
    n = 0
    for f in fs:
        for v, ok, line in local_vectors(c.prog, f):
            n += 1
            c.ob("local vector %s has a layout before its first other use%s" % (v["n"], note), ok is not False, c.where(f, line),
                 "created without size, first used here", key="layout of a vector of %s" % f["q"])
    return n
