"""P17 time stepping: one solve per load step, with its end-of-step loads, from the right history."""
from lab import *
from report import Check
from solver import *
from vg import at
import vg
import terms as T
from linalg import vval, D, cname
import linalg
from p08 import SOLVER
from p14 import same, written

EXPL = ("The driver's time loop is evaluated for an arbitrary step: the calls that form a load step, their order, their guards, and the "
        "time their arguments were read at are compared with the required sequence. The predictor, the shift of the solution vectors and "
        "the value handed over by the solver are compared entrywise for symbolic step sizes, in every algorithm.")
APP = "gCP::SimpleShearProblem<%d>"
B = var("B")
PRIM = ("make_grid", "setup", "initialize_calls", "triangulation_output", "update_dirichlet_boundary_conditions", "solve_nonlinear_system",
        "update_solution_vectors", "postprocessing", "data_output", "get_next_time_step_size", "skip_extrapolation",
        "output_macroscopic_quantities_to_file")
ORDER = ("set_desired_next_step_size", "set_time", "update_dirichlet_boundary_conditions", "solve_nonlinear_system",
         "update_solution_vectors", "advance_time", "postprocessing")
BEFORE = ("make_grid", "setup", "initialize_calls")


def check():
    c = Check("P17", "value graph of the time loop (event order, time provenance) and of predictor and solution history", "", None)
    c.load()
    for d in (2, 3):
        loop(c, d)
        shared(c, d)
        predictor(c, d)
        history(c, d)
        step(c, d)
    return c.finish(EXPL)


def clock(t):
    """advance/desired-size calls a time object went through, newest first, and its origin"""
    out = []
    t = as_atom(t)
    while isinstance(t, Term) and t.op == "after":
        out.append((last(str(t.args[0])), t.args[2:]))
        t = as_atom(t.args[1])
    return out, t


def loop(c, d):
    f = c.anchor(APP % d + "::run")
    ev, _ = c.vg(f, opaque=lambda q: q.startswith("gCP::") and last(q) in PRIM)
    lab, w = " (dim %d)" % d, c.where(f)
    pos = {id(e): k for k, e in enumerate(ev.events)}
    solves = [e for e in calls(ev, "solve_nonlinear_system")]
    c.ob("one solve per pass of the time loop" + lab, len(solves) == 1 and inloop(solves[0]) is not None and len(loops(solves[0])) == 1 and solves[0][4] is ONE, w,
         "%d calls; guards %s" % (len(solves), [show(e[4], 3) for e in solves]))
    if len(solves) != 1 or inloop(solves[0]) is None:
        return
    lid = inloop(solves[0])
    ex = [e for e in ev.events if e[0] == "loop-exit" and e[1] == lid]
    head0 = mk("head", lid, "$this", (("f", "discrete_time"),))
    now, end = atom(mk("call", "get_current_time", head0)), atom(mk("call", "get_end_time", head0))
    cond = [e for e in calls(ev, ("get_current_time", "get_end_time")) if inloop(e) == lid and clock(e[2])[1] is head0 and not clock(e[2])[0]]
    want = None
    if cond:
        nm = {last(e[1]): atom(mk("call", e[1], e[2])) for e in cond}
        if len(nm) == 2:
            want = lnot(lt(nm["get_current_time"], nm["get_end_time"]))
    c.ob("steps are taken exactly while the current time is before the end time" + lab, len(ex) == 1 and want is not None and (ex[0][2] is want or T.equal(ex[0][2], want)), w,
         show(ex[0][2], 6)[:400] if ex else "no loop exit")
    c.ob("no way out of the time loop but its end" + lab, len(ex) == 1 and not ex[0][4] and not [e for e in ev.events if e[0] == 'throw' and lid in loops(e)], w, str(ex[0][3:5])[:200] if ex else '')
    es = {}
    for n in ORDER:
        mine = [e for e in calls(ev, n) if inloop(e) == lid]
        if n == "set_time":
            mine = [e for e in mine if "DisplacementControl" in str(e[6])]
        c.ob("every step: %s exactly once, unconditionally%s" % (n, lab), len(mine) == 1 and mine[0][4] is ONE, w, "%d calls, guards %s" % (len(mine), [show(e[4], 4)[:100] for e in mine]))
        if mine:
            es[n] = mine[0]
        outside = [e for e in calls(ev, n) if inloop(e) != lid]
        c.ob("%s only in the time loop%s" % (n, lab), not outside, w, "line %s" % [e[5] for e in outside])
    if len(es) != len(ORDER):
        return

    def before(a, b):
        c.ob("%s before %s%s" % (a, b, lab), pos[id(es[a])] < pos[id(es[b])], w, "lines %s, %s" % (es[a][5], es[b][5]))
    for a, b in (("set_desired_next_step_size", "set_time"), ("set_desired_next_step_size", "solve_nonlinear_system"), ("set_time", "update_dirichlet_boundary_conditions"),
                 ("update_dirichlet_boundary_conditions", "solve_nonlinear_system"), ("solve_nonlinear_system", "update_solution_vectors"),
                 ("solve_nonlinear_system", "advance_time"), ("solve_nonlinear_system", "postprocessing"), ("advance_time", "postprocessing")):
        before(a, b)
    # provenance of times
    ds = es["set_desired_next_step_size"]
    c.ob("the step size is chosen at the beginning of the step" + lab, not clock(ds[2])[0] and clock(ds[2])[1] is head0, w, show(ds[2], 3))
    sz = as_atom(ds[3][0])
    n0 = [e for e in calls(ev, "get_step_number") if clock(e[2])[1] is head0]
    ok = cname(sz) == "get_next_time_step_size" and simple(sz.args[1]) and stepno(sz.args[2], head0)
    c.ob("step size of the configured loading for the number of steps already taken" + lab, ok, w, show(sz, 5)[:300])
    st = es["set_time"]
    t = as_atom(st[3][0])
    ok = cname(t) == "get_next_time" and [x[0] for x in clock(t.args[1])[0]] == ["set_desired_next_step_size"] and clock(t.args[1])[1] is head0
    if cname(t) == "get_current_time":
        ok = False
    c.ob("boundary displacements are those of the end of the step" + lab, ok, w, show(t, 6)[:300])
    r = as_atom(st[2])
    c.ob("the time is set on the displacement control" + lab, "displacement_control" in str(r.args) or "displacement_control" in show(r, 4), w, show(r, 4)[:200])
    a = strip_b(es["solve_nonlinear_system"][3][0]) if es["solve_nonlinear_system"][3] else None
    ok = a is not None and cname(a) == "skip_extrapolation" and simple(a.args[1]) and stepno(a.args[2], head0)
    c.ob("extrapolation is skipped where the loading says so for this step" + lab, ok, w, show(a, 5)[:300] if a is not None else "no argument")
    ad = es["advance_time"]
    c.ob("time advances by the step just solved" + lab, [x[0] for x in clock(ad[2])[0]] == ["set_desired_next_step_size"] and clock(ad[2])[1] is head0, w, show(ad[2], 4)[:300])
    up = es["update_solution_vectors"]
    c.ob("the field's own solution vectors are shifted" + lab, "FEField" in str(up[6]), w, str(up[6]))
    # set-up precedes the loop
    first = min(pos[id(e)] for e in es.values())
    prev = -1
    for n in BEFORE:
        mine = [e for e in calls(ev, n)]
        ok = len(mine) == 1 and mine[0][4] is ONE and prev < pos[id(mine[0])] < first and inloop(mine[0]) is None
        c.ob("%s once, before the first step%s" % (n, lab), ok, w, "%d calls" % len(mine))
        prev = pos[id(mine[0])] if mine else prev
    # results
    out = [e for e in calls(ev, "data_output")]
    ok = len(out) == 1 and inloop(out[0]) == lid and pos[id(out[0])] > pos[id(es["postprocessing"])]
    c.ob("results are written from the time loop, after postprocessing" + lab, ok, w, "%d calls" % len(out))
    if ok:
        g = out[0][4]
        n = now_ = end_ = None
        for x in atoms_of(g):
            if cname(x) == "get_step_number":
                n = x
            if cname(x) == "get_current_time":
                now_ = x
            if cname(x) == "get_end_time":
                end_ = x
        adv = ["advance_time", "set_desired_next_step_size"]
        c.ob("output is decided at the new time" + lab, None not in (n, now_) and all([y[0] for y in clock(x.args[1])[0]] == adv for x in (n, now_)), w, show(g, 6)[:300])
        if None not in (n, now_, end_):
            fr = [x for x in subterms(g) if x.op == "at" and x.args[1][-1] == ("f", "graphical_output_frequency")]
            if fr:
                m = mod(atom(n), atom(fr[0]))
                # brackets of the guard are compared structurally: random values never decide an equality of integers
                alt = [lor(eq(m, ZERO), x) for x in (eq(atom(now_), atom(end_)), lnot(lt(atom(now_), atom(end_))))]
                want = alt[0]
                c.ob("results every n-th step and at the end" + lab, any(mul(g, lnot(x)) is ZERO and mul(x, lnot(g)) is ZERO for x in alt), w, "computed %s\nrequired %s" % (show(g, 6)[:400], show(want, 6)[:400]))
            else:
                c.ob("results every n-th step and at the end" + lab, False, w, show(g, 6)[:400])
    c.count("time loop events", len([e for e in ev.events if e[0] == "call" and inloop(e) == lid]))


def atoms_of(t):
    """calls a guard depends on, not looking into their arguments"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x in seen:
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            continue
        seen.add(x)
        if x.op == "call":
            yield x
        else:
            todo.extend(x.args)


def mod(a, b):
    return atom(mk("mod", a, b))


def simple(t):
    t = as_atom(t)
    return t.op == "at" and tuple(t.args[1]) == (("f", "parameters"), ("f", "simple_loading"))


def stepno(t, head0):
    t = as_atom(t)
    return cname(t) == "get_step_number" and clock(t.args[1])[1] is head0 and "advance_time" not in [x[0] for x in clock(t.args[1])[0]]


def strip_b(t):
    t = as_atom(t)
    return t.args[0] if t.op == "b" and len(t.args) == 1 else t


def shared(c, d):
    """solver and driver see the same clock and the same field"""
    cls = c.prog.records.get("gCP::GradientCrystalPlasticitySolver<%d>" % d)
    c.need(cls, "class record of the solver")
    fld = {x["n"]: x for x in cls["fields"]}
    c.need("discrete_time" in fld and "fe_field" in fld, "solver's discrete_time and fe_field")
    c.ob("the solver refers to the driver's clock (dim %d)" % d, fld["discrete_time"]["ref"] or fld["discrete_time"]["t"].rstrip().endswith("*") or "ptr" in fld["discrete_time"]["t"],
         "include/gCP/gradient_crystal_plasticity.h", fld["discrete_time"]["t"])
    c.ob("solver and driver share one field (dim %d)" % d, "shared_ptr" in fld["fe_field"]["t"] or fld["fe_field"]["ref"] or fld["fe_field"]["t"].rstrip().endswith("*"),
         "include/gCP/gradient_crystal_plasticity.h", fld["fe_field"]["t"])
    f = c.anchor(APP % d + "::SimpleShearProblem", 1, lambda f: "Parameters" in f["params"][0]["t"])
    ev, _ = c.vg(f, opaque=lambda q: not ("SimpleShearProblem" in q or q.endswith("::GradientCrystalPlasticitySolver")))
    rd = lambda *p: ev.read(vg.Loc("$this", tuple(("f", x) for x in p)), ("obj", ""))
    t = as_atom(rd("discrete_time"))
    w = c.where(f)
    prm_ = lambda n: atom(at(mk("sym", "parameters"), (("f", "simple_loading"), ("f", n))))
    ok = t.op == "ctorobj" and len(t.args) >= 3 and same(t.args[1], prm_("start_time")) and same(t.args[2], prm_("end_time"))
    c.ob("the clock runs from start to end time of the loading (dim %d)" % d, ok, w, show(t, 4)[:300])
    u = rd("gCP_solver", "discrete_time")
    c.ob("the solver is given the driver's clock (dim %d)" % d, as_atom(u) is t, w, show(u, 4)[:300])
    a, b = rd("gCP_solver", "fe_field"), rd("fe_field")
    c.ob("the solver is given the driver's field (dim %d)" % d, as_atom(a) is as_atom(b), w, show(a, 4)[:300])


def predictor(c, d):
    f = c.anchor(SOLVER % d + "extrapolate_initial_trial_solution")
    skip = atom(mk("b", mk("sym", "skip")))
    dt = at(THIS, (("f", "discrete_time"),))
    n = atom(mk("call", "get_step_number", dt))
    r = mul(prm("parameters.extrapolation_factor"), div(atom(mk("call", "get_next_step_size", dt)), atom(mk("call", "get_previous_step_size", dt))))
    ff = lambda x: vval(at(THIS, (("f", "fe_field"), ("f", x))), B)
    H = at(THIS, (("f", "fe_field"), ("f", "hanging_node_constraints")))
    for sk in (0, 1):
        ev, _ = c.vg(f, args={0: num(sk)}, opaque=lambda q: False)
        got = vval(ev.read(vg.Loc("$this", (("f", "trial_solution"),)), ("obj", "")), B)
        old, oo = ff("old_solution"), ff("old_old_solution")
        later = lt(ZERO, n)
        k = add(mul(later, r), lnot(later))
        x = old if sk else add(old, mul(k, sub(old, oo)))
        lab = " (%s, dim %d)" % ("without extrapolation" if sk else "extrapolated", d)
        g = single_atom(got)
        ok = g is not None and g.op == "D" and g.args[0] is H
        c.ob("the starting point satisfies the hanging-node constraints" + lab, ok, c.where(f), show(got, 5)[:300])
        if ok:
            c.same("starting point of the load step" + lab, g.args[1], x, f)
        c.ob("only starting point and update are written" + lab, written(ev) <= {"trial_solution", "newton_update"}, c.where(f), str(written(ev)))


def history(c, d):
    f = c.anchor("gCP::FEField<%d>::update_solution_vectors" % d)
    ev, _ = c.vg(f, opaque=lambda q: False)
    rd = lambda n: vval(ev.read(vg.Loc("$this", (("f", n),)), ("obj", "")), B)
    s = lambda n: vval(at(THIS, (("f", n),)), B)
    for n, o in (("old_old_solution", "old_solution"), ("old_solution", "solution"), ("solution", "solution")):
        c.ob("after a step %s is the former %s (dim %d)" % (n, o, d), same(rd(n), s(o)), c.where(f), show(rd(n), 5)[:300])


def step(c, d):
    """what a load step starts from and leaves behind"""
    for lab, alg, init in configurations(c):
        if "search 1" in lab:
            continue
        f, ev = run_step(c, d, init)
        l, w = " (%s, dim %d)" % (lab, d), c.where(f)
        S = ev.descend(mk("sym", "this"), (), ("obj", ""))
        sol = ev.read(vg.Loc("$this", (("f", "fe_field"), ("f", "solution"))), ("obj", ""))
        tr = ev.read(vg.Loc("$this", (("f", "trial_solution"),)), ("obj", ""))
        c.ob("the field's solution is the accepted trial solution" + l, sol is tr or same(vval(sol, B), vval(tr, B)), w, show(sol, 4)[:300])
        stores = [st for st in ev.logs.get("$this", []) if st.line and st.steps[:1] == (("f", "fe_field"),) and len(st.steps) > 1]
        bad = [st for st in stores if st.steps[1][1] in ("old_solution", "old_old_solution")]
        c.ob("a load step leaves the previous solutions alone" + l, not bad, w, "line %s" % [st.line for st in bad])
        n = [st for st in stores if st.steps[1][1] == "solution"]
        c.ob("the field's solution is set once, after the algorithm" + l, len(n) == 1 and n[0].guard is ONE and not n[0].vars, w, "lines %s" % [st.line for st in n])
        ini = ev.read(vg.Loc("$this", (("f", "initial_trial_solution"),)), ("obj", ""))
        ex = extrapolated(c, d)
        skip = lor(atom(mk("b", mk("sym", f["params"][0]["n"]))), atom(mk("b", at(THIS, (("f", "parameters"), ("f", "flag_skip_extrapolation"))))))
        v = vval(ini, B)
        g = single_atom(v)
        if g is not None and cname(g.args[0]) == "get_distributed_vector_instance":
            v = vval(g.args[0], B)
        ok, txt = starting_point(v, skip)
        c.ob("the stored starting point is the predictor of this step" + l, ok, w, txt)


def extrapolated(c, d):
    return None


def starting_point(v, skip):
    """D(hanging nodes, case over the skip flag)"""
    g = single_atom(v)
    if g is None or g.op != "D":
        return False, show(v, 5)[:400]
    x = g.args[1]
    if not all(s in show(x, 9) for s in ("old_solution",)):
        return False, show(x, 5)[:400]
    # under the flag the starting point is the old solution itself
    rest = mul(skip, x)
    olds = {t for t in subterms(x) if t.op == "vec"}
    oo = [t for t in olds if "old_old" in show(t, 9)]
    o = [t for t in olds if "old_old" not in show(t, 9)]
    if len(o) != 1:
        return False, show(x, 5)[:400]
    return (rest is mul(skip, atom(o[0])) or T.equal(rest, mul(skip, atom(o[0])))) and len(oo) == 1, show(x, 6)[:400]
