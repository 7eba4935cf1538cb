"""P16 internal variables always belong to the trial solution being assembled."""
from lab import *
from report import Check
from solver import *
import kernel
from kernel import *
from p08 import SOLVER, Q, F
from p09 import Face, OWN, NB, NBC, replace_obj

EXPL = ("One load step is evaluated for every algorithm, with and without line search, for both material kinds, every helper "
        "of the solver inlined; at every assembly of residual or Jacobian (in the algorithms and in the line searches) the "
        "last refresh of the internal variables must have been made for the trial solution being assembled. The kernel of "
        "the refresh is evaluated symbolically and the arguments each history receives are compared with their definition; "
        "the same for the openings stored at the end of a step, the hardening of the nodal slip resistances and the storing "
        "of the last step's values.")


def check():
    c = Check("P16", "value-history analysis of the solver state: last refresh before every assembly", "", None)
    c.load()
    n = 0
    for d in (2, 3):
        for lab, alg, init in configurations(c):
            f, ev = run_step(c, d, init)
            n += each(c, f, ev, "%s, dim %d" % (lab, d), alg)
            life_cycle(c, f, ev, "%s, dim %d" % (lab, d))
    c.must(n > 0, "no assembly was found")
    for d in (2, 3):
        written(c, d)
        hardening(c, d)
        line_searches(c, d)
        stored(c, d)
        whole_refresh(c, d)
    return c.finish(EXPL)


def each(c, f, ev, lab, alg):
    n = 0
    for e in calls(ev, ASSEMBLY):
        n += 1
        ok, why = refreshed(ev, e[2])
        c.ob("internal variables refreshed at %s line %s: %s" % (last(e[1]), e[5], lab), ok, c.where(f), why, key="refresh %s %s" % (alg, last(e[1])))
    return n


# ---------------------------------------------------------------- what a refresh writes
HIST = {"update_values", "reset_values", "store_current_values", "store_effective_opening_displacement", "init"}
DAM = "gCP::RunTimeParameters::DamageEvolutionModel"
DAMF = "parameters.constitutive_laws_parameters.damage_evolution_parameters."


def hist_opaque(q):
    return kernel.opaque(q) or ("QuadraturePointHistory<" in q and last(q) in HIST)


def located(c, ev, e, K):
    """(receiver, arguments, guard, {variable: number of values}) of an event with loop variables renamed F (faces), Q (points)"""
    s, rng = {}, {}
    for x in e[6:]:
        if isinstance(x, tuple) and x[0] == "in":
            v = "λ" + x[1]
            lo, hi = ev.ranges[v]
            hi = K(hi)
            if not (lo is ZERO):
                return None
            n = "F" if hi is NFACES else "Q"
            if n in rng:
                return None
            s[v] = var(n)
            rng[n] = hi
    r = T._sarg(e[2], s)
    if r.op == "objst":
        r = r.args[0]
    return K(r), [T._sarg(a, s) for a in e[3]], K(subst(e[4], s)), rng


def ids_ordered(t):
    """comparisons of the ids of the two (distinct) cells expressed by one atom"""
    a, b = call("id", CELL), call("id", neighbor(F))
    low = atom(mk("b", "<", b, a))
    for x in list(subterms(t)):
        if x.op == "b" and len(x.args) == 3 and x.args[0] in ("<", ">", "<=", ">=") and {x.args[1], x.args[2]} == {a, b}:
            flip = (x.args[0][0] == "<") != (x.args[1] is b)
            t = replace(t, x, lnot(low) if flip else low)
    return t, low


def face_guard(c, f, nm, g):
    """guard of an interface event: interior crystal boundary of a marked cell, once per face"""
    g, low = ids_ordered(g)
    full = mul(lnot(eq(crystal(), crystal(neighbor(F)))), lnot(atom(mk("b", call("at_boundary", call("face", CELL, F))))))
    marks = [x for x in subterms(g) if is_bool_atom(x) and "cell_is_at_grain_boundary" in show(x, 8)]
    for x in marks:
        full = mul(full, lnot(atom(x)))
    own = atom(mk("b", call("is_locally_owned", neighbor(F))))
    ok = g in (mul(full, lnot(mul(own, low))), mul(full, lnot(mul(own, lnot(low)))))
    c.ob("%s: for every interior face between crystals, by exactly one of the local cells" % nm, ok, c.where(f), show(g, 9)[:700])


def evaluated(K, e, args):
    return K(mk("call", last(e[1]), mk("sym", "receiver"), *args))


def written(c, d):
    n = 0
    models = c.prog.enums.get(DAM)
    c.need(models and len(models) >= 2, "damage evolution models %s" % models)
    f = c.anchor(SOLVER % d + "update_local_quadrature_point_history")
    for m in models:
        m = m.rsplit("::", 1)[-1]
        init = {"fe_field.flag_allow_decohesion": ONE, DAMF + "damage_evolution_model": mk("enum", DAM + "::" + m)}
        lab = "%s, dim %d" % (m, d)
        ev, r = c.vg(f, opaque=hist_opaque, init=init)
        K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS}, opaque=hist_opaque)
        R = Face(d, ev, True)
        evs = [e for e in ev.events if e[0] == "call" and last(e[1]) in HIST and len(e) > 6 and "QuadraturePointHistory<" in str(e[6])]
        cell = [e for e in evs if "Interface" not in e[6]]
        face = [e for e in evs if "Interface" in e[6]]
        c.must(cell and face, "updates of the histories")
        # -- histories of the cell
        ups = [e for e in cell if last(e[1]) == "update_values"]
        ok = len(ups) == len(cell) == 1
        c.ob("one update of the history of a cell's point per refresh, %s" % lab, ok, c.where(f), str([last(e[1]) for e in cell]))
        if ok:
            recv, args, g, rng = located(c, ev, ups[0], K)
            want = at(call("get_data", fld("quadrature_point_history"), CELL), (("i", Q),))
            c.ob("history of the cell's own point, %s" % lab, recv is want and g is ONE and rng == {"Q": NQ}, c.where(f, ups[0][5]),
                 "%s if %s over %s" % (show(recv, 6), show(g, 4), {k: show(v, 3) for k, v in rng.items()}))
            got = evaluated(K, ups[0], args)
            ref = K(mk("call", "update_values", mk("sym", "receiver"), Q, R.slips(R.trial), R.slips(R.old)))
            c.ob("slips of the trial solution and of the last load step, %s" % lab, got is ref, c.where(f, ups[0][5]), "%s /= %s" % (show(got, 9)[:500], show(ref, 9)[:500]))
        # -- histories of the faces
        a, b = sorted((call("id", CELL), call("id", neighbor(F))), key=lambda t: t.dig)
        base = at(call("get_data", fld("interface_quadrature_point_history"), a, b), (("i", Q),))
        ups = [e for e in face if last(e[1]) == "update_values"]
        oth = [e for e in face if last(e[1]) == "reset_values"]
        good = len(ups) == 1 and len(face) == len(ups) + len(oth)
        c.ob("one update of the history of a face's point per refresh, %s" % lab, good, c.where(f), str([last(e[1]) for e in face]))
        if not good:
            continue
        recv, args, g, rng = located(c, ev, ups[0], K)
        c.ob("history shared by the two cells, point by point, %s" % lab, recv is base and rng == {"Q": NFQ, "F": NFACES}, c.where(f, ups[0][5]),
             "%s over %s" % (show(recv, 7), {k: show(v, 3) for k, v in rng.items()}))
        face_guard(c, f, "update of a face's history, %s" % lab, g)
        for e in oth:
            l2 = located(c, ev, e, K)
            c.ob("the stored values restored are those of the history updated, %s" % lab, l2[0] is base and l2[2] is g and ev.events.index(e) < ev.events.index(ups[0]), c.where(f, e[5]), show(l2[0], 6))
        got = [K(x) for x in args]
        eff = atom(call("get_effective_opening_displacement", fld("cohesive_law"), R.opening(), R.n()))
        if len(args) == 2:
            c.ob("opening of the trial solution and its normal, %s" % lab, m != "M1", c.where(f, ups[0][5]), "two arguments")
        c.same("opening of the trial displacements across the face, %s" % lab, got[0], K(eff), f)
        if m == "M1":
            c.must(len(got) == 3, "arguments of update_values for M1")
            u = atom(fld("parameters.dimensionless_form_parameters.characteristic_quantities.displacement"))
            c.same("scale of the opening, %s" % lab, got[1], K(u), f)
            ok = bool(oth)
            c.ob("the driving force is evaluated at the stored damage, %s" % lab, ok, c.where(f), "no reset_values")
            dmg = atom(at(mk("after", "reset_values", base), (("f", "damage_variable"),)))
            dg = atom(call("get_degradation_function_derivative_value", fld("degradation_function"), dmg, ONE))
            w1 = atom(call("get_free_energy_density", fld("cohesive_law"), mul(u, eff)))
            nv, ns, os_ = lam(1, lambda q: R.nvec(q)), R.fslips(NB, NBC), R.fslips(OWN, R.cr)
            w2 = atom(call("get_free_energy_density", fld("microtraction_law"), NBC, R.cr, Q, nv, ns, os_))
            w3 = atom(call("get_free_energy_density", fld("microtraction_law"), R.cr, NBC, Q, nv, os_, ns))
            want = [K(neg(mul(dg, add(w1, w)))) for w in (w2, w3)]
            c.ob("driving force of the damage, %s" % lab, got[2] in want, c.where(f, ups[0][5]), "%s /= %s" % (show(got[2], 9)[:700], show(want[0], 9)[:700]))
        n += 1
    # -- end of a load step
    f = c.anchor(SOLVER % d + "store_local_effective_opening_displacement")
    ev, r = c.vg(f, opaque=hist_opaque, init={"fe_field.flag_allow_decohesion": ONE})
    K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS}, opaque=hist_opaque)
    R = Face(d, ev, True)
    evs = [e for e in ev.events if e[0] == "call" and last(e[1]) in HIST and len(e) > 6 and "QuadraturePointHistory<" in str(e[6])]
    c.ob("the opening is stored once per point, dim %d" % d, len(evs) == 1 and last(evs[0][1]) == "store_effective_opening_displacement", c.where(f), str([last(e[1]) for e in evs]))
    if len(evs) == 1:
        e = evs[0]
        recv, args, g, rng = located(c, ev, e, K)
        c.ob("opening stored in the shared history, point by point, dim %d" % d, recv is base and rng == {"Q": NFQ, "F": NFACES}, c.where(f, e[5]), show(recv, 6))
        face_guard(c, f, "storing the opening, dim %d" % d, g)
        got = [K(x) for x in args]
        c.must(len(got) == 4, "arguments of store_effective_opening_displacement")
        disp = lambda h, cr: R.tvec(lambda k: value("get_function_values", h, ext_u(cr), R.trial, Q, k))
        for nm, x, y in (("neighbour displacement", got[0], disp(NB, NBC)), ("own displacement", got[1], disp(OWN, R.cr)), ("normal", got[2], R.n())):
            c.ob("stored opening: %s, dim %d" % (nm, d), x is K(y), c.where(f, e[5]), "%s /= %s" % (show(x, 6), show(K(y), 6)))
    return n


def hardening(c, d):
    """nodal slip resistances: stored value of the last load step plus the increment of this one"""
    H = "parameters.constitutive_laws_parameters.hardening_law_parameters."
    f = c.anchor(SOLVER % d + "reset_and_update_slip_resistances")
    for perfect in (0, 1):
        ev, r = c.vg(f, init={H + "flag_perfect_plasticity": num(perfect)})
        D = single_atom(var("D"))
        got = ev.read(Loc("$this", (("f", "slip_resistance"), ("i", var("D")))), ("num", False))
        sl = lambda p: atom(at(THIS, tuple(("f", x) for x in p.split(".")) + (("i", var("D")),)))
        if perfect:
            c.same("no hardening in perfect plasticity, dim %d" % d, got, sl("slip_resistance"), f)
            continue
        info = lambda *st: atom(at(THIS, (("f", "dof_to_info"), ("i", var("D"))) + st))
        first = lambda b: info(("f", "first"), ("i", b))
        second = info(("f", "second"))
        p, h, ch = (atom(fld(x)) for x in (H + "hardening_parameter", H + "linear_hardening_modulus",
                                           "parameters.dimensionless_form_parameters.characteristic_quantities.slip_resistance"))
        vec = lambda x, i: atom(fld(x, ("i", i)))
        inc = Sum("b", ZERO, atom(fld("fe_field.n_slips")),
                  mul(div(h, ch), add(p, mul(sub(ONE, p), eq(second, var("b")))), fabs(sub(vec("trial_solution", first(var("b"))), vec("fe_field.old_solution", first(var("b")))))))
        mem = atom(mk("b", call("is_element", fld("fe_field.locally_owned_plastic_slip_dofs"), var("D"))))
        c.same("slip resistance of every nodal slip: stored value plus hardening of this step, dim %d" % d, got, add(sl("tmp_slip_resistance"), mul(mem, inc)), f)
    f = c.anchor(SOLVER % d + "store_slip_resistances")
    ev, r = c.vg(f)
    got = ev.read(Loc("$this", (("f", "tmp_slip_resistance"), ("i", var("D")))), ("num", False))
    c.same("slip resistances of the finished load step are stored, dim %d" % d, got, sl("slip_resistance"), f)
    for o in ("slip_resistance",):
        c.same("storing does not alter the %s, dim %d" % (o, d), ev.read(Loc("$this", (("f", o), ("i", var("D")))), ("num", False)), sl(o), f)


def life_cycle(c, f, ev, lab):
    """stored once at the beginning of a load step, everything after belongs to the step; converged state at its end"""
    order = [e for e in ev.events if e[0] == "call"]
    pos = {id(e): k for k, e in enumerate(order)}
    body = [pos[id(e)] for e in calls(ev, ASSEMBLY + (REFRESH, "line_search_algorithm", "active_set_algorithm") + SOLVES)]
    c.must(body, "solution algorithm")
    for n in ("prepare_quadrature_point_history", "store_slip_resistances"):
        es = calls(ev, n)
        ok = len(es) == 1 and es[0][4] is ONE and inloop(es[0]) is None and pos[id(es[0])] < min(body)
        c.ob("%s: exactly once, before the first iteration: %s" % (n, lab), ok, c.where(f), "%d calls" % len(es))
    es = calls(ev, "store_effective_opening_displacement_in_quadrature_history")
    ok = len(es) == 1 and es[0][4] is ONE and inloop(es[0]) is None and pos[id(es[0])] > max(body)
    c.ob("openings stored once, for the converged trial solution: %s" % lab, ok, c.where(f), "%d calls" % len(es))
    a, b = (ev.read(Loc("$this", p), ("obj", "")) for p in ((("f", "fe_field"), ("f", "solution")), (("f", "trial_solution"),)))
    B = var("B")
    c.ob("the solution of the step is the trial solution: %s" % lab, a is b or vval(a, B) is vval(b, B), c.where(f), "%s /= %s" % (show(a, 4)[:300], show(b, 4)[:300]))


def line_searches(c, d):
    n = 0
    for f in [x for x in c.prog.by_q[SOLVER % d + "line_search_algorithm"] if x.get("body")]:
        ev, r = c.vg(f, opaque=opaque_but("line_search_algorithm"))
        for e in calls(ev, ASSEMBLY):
            n += 1
            ok, why = refreshed(ev, e[2])
            c.ob("internal variables refreshed at %s line %s of line_search_algorithm/%d, dim %d" % (last(e[1]), e[5], len(f["params"]), d), ok, c.where(f, e[5]), why)
    c.must(n > 0, "assembly in a line search")


def opaque_but(name):
    import solver
    return lambda q: last(q) != name and solver.opaque(q)


def of_point(c, ev, K, e):
    """(receiver, guard, are all points visited, arguments) of a call made for every point of every cell, with the cell, face and point named"""
    iv = ["λ" + l for l in loops(e)]
    c.must(iv, "loop over cells")
    cells = {x for x in subterms(e[2]) if x.op == "at" and x.args[0].op == "call" and x.args[0].args[0] == "active_cell_iterators"
             and x.args[1] == (("i", var(iv[-1])),)}
    c.must(len(cells) == 1, "loop over cells")
    cell = cells.pop()
    sub_, ok = {}, ev.ranges[iv[-1]][0] is ZERO
    for v in iv[:-1]:
        lo, hi = ev.ranges[v]
        hi = K(replace_obj(hi, cell, CELL))
        a = single_atom(hi)
        s = show(hi, 6)
        if hi is NFACES:
            sub_[v] = var("F")
        elif a is not None and (a.op == "call" and a.args[0] == "max_n_quadrature_points" or "get_data" in s and "size" in s):
            face = "face_quadrature_collection" in s or "interface" in s
            ok = ok and face == ("Interface" in str(e[6]))
            sub_[v] = var("Q")
        else:
            ok = False
        ok = ok and lo is ZERO
    put = lambda t: K(T._sarg(replace_obj(t, cell, CELL), sub_))
    return put(e[2]), K(subst(replace_obj(e[4], cell, CELL), sub_)), ok, [put(x) for x in e[3]]


def stored(c, d):
    """storing the values of the last load step reaches every history"""
    for fn, m in (("prepare_quadrature_point_history", "store_current_values"),):
        f = c.anchor(SOLVER % d + fn)
        ev, r = c.vg(f, opaque=hist_opaque, init={"fe_field.flag_allow_decohesion": ONE})
        K = Canon(ev, d, {}, opaque=hist_opaque)
        found = set()
        evs = [e for e in ev.events if e[0] == "call" and last(e[1]) in HIST]
        c.must(evs, "stored histories")
        for e in evs:
            recv, g, ok, _ = of_point(c, ev, K, e)
            own = atom(mk("b", call("is_locally_owned", CELL)))
            ids = sorted((call("id", CELL), call("id", neighbor(F))), key=lambda t: t.dig)
            if last(e[1]) == m and recv is at(call("get_data", fld("quadrature_point_history"), CELL), (("i", Q),)) and g is own and ok:
                found.add("cell")
            full = mul(own, lnot(eq(crystal(), crystal(neighbor(F)))), lnot(atom(mk("b", call("at_boundary", call("face", CELL, F))))))
            for x in subterms(g):
                if is_bool_atom(x) and "cell_is_at_grain_boundary" in show(x, 8):
                    full = mul(full, lnot(atom(x)))
            if last(e[1]) == m and recv is at(call("get_data", fld("interface_quadrature_point_history"), *ids), (("i", Q),)) and g is full and ok:
                found.add("face")
            if last(e[1]) != m:
                found.add(last(e[1]))
        c.ob("%s: every point of every owned cell and of its faces between crystals, dim %d" % (fn, d), found == {"cell", "face"}, c.where(f), str(found))



def whole_refresh(c, d):
    """one refresh updates the quadrature points' histories and the nodal resistances"""
    f = c.anchor(SOLVER % d + REFRESH)
    want = {"reset_and_update_quadrature_point_history", "reset_and_update_slip_resistances"}
    ev, r = c.vg(f, opaque=lambda q: last(q) in want)
    es = calls(ev, tuple(want))
    ok = sorted(last(e[1]) for e in es) == sorted(want) and all(e[4] is ONE and inloop(e) is None for e in es)
    c.ob("a refresh covers quadrature points and nodal slip resistances, dim %d" % d, ok, c.where(f), str([last(e[1]) for e in es]))
