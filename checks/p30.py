"""P30 rate-independent slip: trial microstress and active set."""
from lab import *
from report import Check
from kernel import *
import kernel
import terms as T
from solver import last
from p08 import SOLVER, Ref, I, J, Q, F, S, S2, dn
from p09 import replace_obj
import p18

EXPL = ("The kernels of the trial microstress are compared with the lumped projection of the microforce balance with frozen slips; "
        "the functions determining the sets are evaluated for a symbolic degree of freedom, and the conditions under which it "
        "enters the active set, the inactive set and the constraints, and the value it restarts from, are compared with their "
        "definition.")
X = var("X")
SLIPS = fld("fe_field.locally_owned_plastic_slip_dofs")
OWNED = fld("fe_field.locally_owned_dofs")
AFFINE = fld("fe_field.affine_constraints")
ACT, INA = "locally_owned_active_set", "locally_owned_inactive_set"
RI = "parameters.constitutive_laws_parameters.scalar_microstress_law_parameters.flag_rate_independent"
HL = "parameters.constitutive_laws_parameters.hardening_law_parameters."
STEPS = ("assemble_trial_microstress_right_hand_side", "compute_trial_microstress", "determine_active_set",
         "determine_inactive_set", "reset_inactive_set_values", "reset_internal_newton_method_constraints")


def flag(x):
    return atom(mk("b", x))


def check():
    c = Check("P30", "value graph of the trial microstress and of set membership; comparison of normal forms", "", None)
    c.load()
    for d in (2, 3):
        kernels(c, d)
        projection(c, d)
        active(c, d)
        inactive(c, d)
        restart(c, d)
        sequence(c, d)
        for n in ("assemble_trial_microstress_lumped_matrix", "assemble_trial_microstress_right_hand_side"):
            p18.assembly(c, n, d, set())
    return c.finish(EXPL)


# ---------------------------------------------------------------- trial microstress
def same_extractors(t):
    """the field of the trial microstress is a copy of the solution's field"""
    for n in range(50):
        x = next((x for x in subterms(t) if x.op == "at" and x.args[0] is THIS and x.args[1][:1] == (("f", "trial_microstress"),)
                  and len(x.args[1]) > 1 and "extractors" in str(x.args[1][1][1])), None)
        if x is None:
            break
        t = replace_obj(t, x, at(THIS, (("f", "fe_field"),) + x.args[1][1:]))
    return t


def kernels(c, d):
    r = Ref(d)
    k = {"I": ND, "J": ND, "S": NS, "S2": NS}
    slip = add(num(d), S)
    f = c.anchor(SOLVER % d + "assemble_local_trial_microstress_right_hand_side")
    ev, _ = c.vg(f, opaque=kernel.opaque)
    K = Canon(ev, d, k)
    t = K.integrands(ev.read(Loc("$data", (("f", "local_right_hand_side"), ("i", I))), ("num", False)))
    c.ob("right-hand side sums over the cell and its faces, dim %d" % d, set(t) <= {"cell", "face"}, c.where(f), str(set(t)))

    def grad(h):
        return r.tvec(lambda i: value("get_function_gradients", h, ext_s(r.cr, S), r.old, Q, i))

    def xi(h):
        return call("get_vectorial_microstress", fld("vectorial_microstress_law"), r.cr, S, grad(h))
    es = call("get_elastic_strain_tensor", fld("elastic_strain"), r.cr, Q, r.strain(), r.slips(r.old))
    e = r.sym(lambda i, j: add(comps(fld("macroscopic_strain"), (i, j)), comps(es, (i, j))))
    s = call("get_stress_tensor", fld("hooke_law"), r.cr, e)
    tau = atom(call("get_resolved_shear_stress", fld("resolved_shear_stress_law"), r.cr, S, r.sym(lambda i, j: comps(s, (i, j)))))
    want = mul(jxw(r.h, Q), sub(mul(dn(3), r.phi(I, S), tau),
                                mul(dn(2), add(*[mul(r.dphi(I, S, m), comps(xi(r.h), (m,))) for m in r.R()]))))
    own = fe(CELL, F)
    face = mul(flag(call("at_boundary", call("face", CELL, F))), dn(2), jxw(own, Q), shape("value", own, ext_s(r.cr, S), I, Q),
               add(*[mul(comps(xi(own), (m,)), normal(own, Q, m)) for m in r.R()]))
    for part, w in (("cell", want), ("face", face)):
        got = same_extractors(t.get(part, ZERO))
        c.same("trial microstress, %s part, slip rows, dim %d" % (part, d), K.assume(got, (COMP(I), slip)), K(w), f)
        for v in (0, d - 1):
            c.same("trial microstress, %s part, displacement rows (component %d), dim %d" % (part, v, d), K.assume(got, (COMP(I), num(v))), ZERO, f)
    f = c.anchor(SOLVER % d + "assemble_local_trial_microstress_lumped_matrix")
    ev, _ = c.vg(f, opaque=kernel.opaque)
    K = Canon(ev, d, k)
    t = K.integrands(ev.read(Loc("$data", (("f", "local_lumped_matrix"), ("i", I))), ("num", False)))
    c.ob("lumped matrix sums over the cell, dim %d" % d, set(t) == {"cell"}, c.where(f), str(set(t)))
    body, odd = columns(K, t.get("cell", ZERO))
    body = same_extractors(body)
    c.ob("lumped matrix: every column of a row is added, dim %d" % d, not odd, c.where(f), odd)
    phi = mul(jxw(r.h, Q), shape("value", r.h, ext_s(r.cr, S), I, Q), shape("value", r.h, ext_s(r.cr, S), J, Q))
    ne = (single_atom(eq(S, S2)), ZERO)
    for nm, vi, vj, w in (("same slip system", slip, slip, phi), ("another slip system", slip, add(num(d), S2), ZERO), ("displacement column", slip, ZERO, ZERO),
                          ("displacement row", ZERO, slip, ZERO), ("displacement row and column", num(d - 1), num(d - 1), ZERO)):
        c.same("lumped mass matrix, %s, dim %d" % (nm, d), K.assume(body, (COMP(I), vi), (COMP(J), vj), ne), K(w), f)


def columns(K, t):
    """summand over the columns J of a sum over all local degrees of freedom"""
    out, odd = [], ""
    for co, m in t.args[0]:
        fs, bs = m.args
        if len(bs) != 1 or bs[0][1] is not ZERO or bs[0][2] is not ND:
            odd = show(mk("poly", ((co, m),)), 5)[:300]
            continue
        fs2, bs2 = T._refresh(*m.args)
        p = num(co)
        for a, e in fs2:
            p = T._mul2(p, powr(atom(a) if a.op != "poly" else a, e))
        out.append(subst(p, {bs2[0][0]: J}))
    return (add(*out) if out else ZERO), odd


def projection(c, d):
    f = c.anchor(SOLVER % d + "compute_trial_microstress")
    ev, _ = c.vg(f)
    v = as_term(ev.read(Loc("$this", (("f", "trial_microstress"), ("f", "solution"))), ("obj", "")))
    ok = v.op == "out" and v.args[1].op == "call" and v.args[1].args[0] == "distribute" and v.args[1].args[1] is fld("trial_microstress.hanging_node_constraints")
    c.ob("hanging nodes are distributed to the trial microstress, dim %d" % d, ok, c.where(f), show(v, 4)[:300])
    if not ok:
        return
    t = ev.descend(v.args[1].args[2], (("i", X),), ("num", False))
    mine = mk("b", call("is_element", fld("trial_microstress.locally_owned_plastic_slip_dofs"), X))
    if any(x.op == "b" and x is not mine for x in subterms(t)):
        t = replace(t, mk("b", call("is_element", SLIPS, X)), atom(mine), {})
    rhs, lump = (comps(fld("trial_microstress_" + n), (X,)) for n in ("right_hand_side", "lumped_matrix"))
    t = replace(whole(t), mine, ONE, {})
    left = [x for x in subterms(t) if is_bool_atom(x)]
    c.ob("trial microstress computed at every owned slip unknown, dim %d" % d, not left, c.where(f), "; ".join(show(x, 5) for x in left)[:300])
    c.same("trial microstress = right-hand side / lumped mass at every owned slip unknown, dim %d" % d, t, div(rhs, lump), f)


def whole(t):
    """X is one of the entries of the vector"""
    for x in list(subterms(t)):
        if is_bool_atom(x) and x.op == "lt0":
            rest = sub(x.args[0], X)
            n = single_atom(neg(rest))
            if rest is ZERO:
                t = replace(t, x, ZERO, {})
            elif n is not None and n.op == "call" and n.args[0] == "size":
                t = replace(t, x, ONE, {})
    return t


def as_term(x):
    if isinstance(x, Term) and x.op == "poly":
        return single_atom(x) or x
    return x


# ---------------------------------------------------------------- sets
def opq(q):
    return kernel.opaque(q) or last(q) in STEPS


def elements(ev, e):
    """(set a loop over degrees of freedom runs over, its variable) of an event, or None"""
    ls = [x[1] for x in e[6:] if isinstance(x, tuple) and x[0] == "in"]
    return ls


def partner(x):
    b = call("get_constraint_entries", AFFINE, x)
    return atom(at(b, (("i", ZERO), ("f", "first"))))


def active(c, d):
    f = c.anchor(SOLVER % d + "determine_active_set")
    ev, _ = c.vg(f, opaque=lambda q: opq(q) and last(q) != "determine_active_set")
    where = c.where(f)
    some = lnot(eq(atom(fld("crystals_data.n_slips")), ZERO))
    none = single_atom(eq(atom(fld("crystals_data.n_slips")), ZERO))
    order = [last(e[1]) for e in ev.events if e[0] == "call"]
    a, b = STEPS[:2]
    first = next((k for k, n in enumerate(order) if n in ("add_index", "add_range", "add_indices", "add_line")), len(order))
    ok = order.count(a) == 1 and order.count(b) == 1 and order.index(a) < order.index(b) < first
    c.ob("trial microstress assembled and computed before it is compared, dim %d" % d, ok, where, str(order))
    for e in ev.events:
        if e[0] == "call" and last(e[1]) in (a, b):
            c.ob("%s unconditionally, dim %d" % (last(e[1]), d), mul(some, lnot(e[4])) is ZERO, where, show(e[4], 4))
    adds, lines = [], []
    cleared = False
    for e in ev.events:
        if e[0] != "call":
            continue
        n = last(e[1])
        rec = as_term(e[2])
        base = root(ev, rec)
        if base == ACT:
            if n == "clear" and mul(some, lnot(e[4])) is ZERO and not elements(ev, e):
                cleared, adds = True, []
            elif n in ("add_index",):
                adds.append(e)
            elif n in ("is_element", "compress", "size", "n_elements", "is_empty"):
                pass
            else:
                c.ob("active set is only cleared and added to, dim %d" % d, False, where, "%s at line %s" % (n, e[5]))
        if n in ("add_line", "add_lines"):
            lines.append(e)
    c.ob("active set starts empty, dim %d" % d, cleared, where, "not cleared")
    c.must(adds, "additions to the active set")
    c.must(lines, "constraints of inactive unknowns")
    # conditions
    res = flag(fld(HL + "flag_perfect_plasticity"))
    perfect = div(atom(fld(HL + "initial_slip_resistance")), atom(fld("parameters.dimensionless_form_parameters.characteristic_quantities.slip_resistance")))
    y = add(mul(res, perfect), mul(lnot(res), comps(fld("slip_resistance"), (X,))))
    ident, fixed = flag(call("is_identity_constrained", AFFINE, X)), flag(call("is_constrained", AFFINE, X))
    MEM, MEMP = flag(mk("sym", "active(X)")), flag(mk("sym", "active(partner(X))"))
    got = {"X": ZERO, "partner": ZERO}
    for e in adds:
        g, arg = norm(ev, e[4]), norm(ev, e[3][0])
        dom = {x.args[0] for x in subterms(e[3][0]) if x.op == "elem"} | {x.args[0] for x in subterms(e[4]) if x.op == "elem"}
        c.ob("visits every owned slip unknown (line %s), dim %d" % (e[5], d), dom == {SLIPS} and len(elements(ev, e)) == 1, where, str([show(x, 4) for x in dom]))
        kind = "X" if arg is X else "partner" if arg is partner(X) else None
        c.ob("only an overstressed unknown or its periodic partner becomes active (line %s), dim %d" % (e[5], d), kind is not None, where, show(arg, 5)[:200])
        if kind:
            got[kind] = lor(got[kind], member(g, MEM, MEMP))
    tau = trial(ev, adds)
    c.must(tau is not None, "comparison of the trial microstress")
    over = lt(y, fabs(tau))
    # an unknown with an identity constraint is constrained
    rule = [(single_atom(fixed), ONE)]
    gx = replace(replace(got["X"], none, ZERO, {}), single_atom(MEM), ZERO, {})
    for val, lab in ((ONE, "periodic"), (ZERO, "not periodic")):
        for fx in ((ONE,) if val is ONE else (ZERO, ONE)):
            h = replace(replace(gx, single_atom(ident), val, {}), single_atom(fixed), fx, {})
            own = replace(h, single_atom(MEMP), ZERO, {})
            want = over if (val is ONE or fx is ZERO) else ZERO
            l = "%s, %s" % (lab, "constrained" if fx is ONE else "free")
            c.same("active exactly if overstressed [%s], dim %d" % (l, d), own, want, f)
            other = replace(h, single_atom(MEMP), ONE, {})
            c.same("active if the partner is [%s], dim %d" % (l, d), other, ONE if val is ONE else want, f)
    gp = replace(got["partner"], none, ZERO, {})
    gp = replace(replace(gp, single_atom(MEM), ONE, {}), single_atom(fixed), ONE, {})
    c.same("partner of an active periodic unknown is active, dim %d" % d, replace(gp, single_atom(ident), ONE, {}), over if MEMP not in list(subterms(gp)) else gp, f)
    c.same("unknowns without partner add none, dim %d" % d, replace(gp, single_atom(ident), ZERO, {}), ZERO, f)
    # constraints
    fin = final(ev, ACT)
    for e in lines:
        arg = norm(ev, e[3][0])
        dom = {x.args[0] for x in subterms(e[3][0]) if x.op == "elem"}
        c.ob("inactive slip unknowns are constrained one by one, dim %d" % d, arg is X and dom == {SLIPS} and len(elements(ev, e)) == 1, where, show(arg, 4))
        st = [x.args[1] for x in subterms(e[4]) if x.op == "call" and x.args[0] == "is_element"]
        c.ob("constrained after the active set is complete, dim %d" % d, bool(st) and all(strip(s) is fin for s in st), where,
             "; ".join(show(s, 4) for s in st)[:300])
    g = lor(*[member(norm(ev, e[4]), MEM, MEMP) for e in lines]) if len(lines) > 1 else member(norm(ev, lines[0][4]), MEM, MEMP)
    c.same("exactly the slip unknowns which are not active are constrained, dim %d" % d, replace(g, none, ZERO, {}), lnot(MEM), f)
    v = as_term(ev.read(Loc("$this", (("f", "internal_newton_method_constraints"),)), ("obj", "")))
    v = pick(v, none)
    ok = v.op == "after" and v.args[0] == "merge" and v.args[1] is fld("internal_newton_method_constraints") and "right_object_wins" in show(v.args[3], 2)
    loc = root(ev, v.args[2]) if ok else None
    ok = ok and loc is not None and all(root(ev, as_term(e[2])) == loc for e in lines)
    c.ob("the constraints of inactive unknowns prevail in those of the Newton method, dim %d" % d, ok, where, show(v, 5)[:300])


def pick(v, cond):
    """value of a case where cond is false"""
    if v.op == "case":
        for g, x in v.args[0]:
            if replace(g, cond, ZERO, {}) is ONE:
                return as_term(x)
    return v


def strip(s):
    """without calls that do not change membership"""
    s = as_term(s)
    while s.op == "after" and s.args[0] in ("compress",):
        s = as_term(s.args[1])
    return s


def final(ev, name):
    """last value of the set which the elements were added to"""
    vals = [st.val for st in ev.logs["$this"] if st.steps == (("f", name),)]
    return strip(vals[-1])


def root(ev, rec):
    """member of the solver (or local) a receiver denotes, seen through loop states"""
    n = 0
    while isinstance(rec, Term) and n < 200:
        n += 1
        if rec.op in ("phi", "mu"):
            st = rec.args[2]
            return st[0][1] if st and rec.args[1] == "$this" else str(rec.args[1])
        if rec.op == "at" and rec.args[0] is THIS:
            return ".".join(str(s[1]) for s in rec.args[1]) if rec.args[1] else None
        if rec.op == "after":
            rec = as_term(rec.args[1])
        elif rec.op == "case":
            rec = as_term(rec.args[0][0][1])
        elif rec.op == "out":
            return None
        else:
            return None
    return None


def norm(ev, t):
    t = after_compute(t)
    for x in list(subterms(t)):
        if x.op == "elem":
            t = replace(t, x, X, {})
    return t


def after_compute(t):
    """nothing but the trial microstress is altered by computing it"""
    n = 0
    while n < 20:
        n += 1
        hit = None
        for x in subterms(t):
            if x.op == "at" and x.args[0].op == "after" and last(str(x.args[0].args[0])) in STEPS[:2]:
                p = x.args[1]
                if p[:2] == (("f", "trial_microstress"), ("f", "solution")):
                    hit = (x, at(mk("sym", "trial microstress"), p[2:]))
                else:
                    hit = (x, at(THIS, p))
                break
        if hit is None:
            return t
        t = replace_obj(t, *hit)
    return t


def trial(ev, adds):
    for e in adds:
        for x in subterms(norm(ev, e[4])):
            if x.op == "at" and x.args[0] is mk("sym", "trial microstress"):
                return atom(x)
    return None


def member(g, mem, memp):
    for x in list(subterms(g)):
        if x.op == "b" and len(x.args) == 1 and isinstance(x.args[0], Term) and x.args[0].op == "call" and x.args[0].args[0] == "is_element":
            k = x.args[0]
            if k.args[2] is X:
                g = replace(g, x, ONE if k.args[1] is SLIPS else mem, {})
            elif k.args[2] is partner(X):
                g = replace(g, x, memp, {})
    return g


def inactive(c, d):
    f = c.anchor(SOLVER % d + "determine_inactive_set")
    ev, _ = c.vg(f)
    where = c.where(f)
    adds, cleared = [], False
    for e in ev.events:
        if e[0] == "call" and root(ev, as_term(e[2])) == INA:
            if last(e[1]) == "clear" and e[4] is ONE:
                cleared, adds = True, []
            elif last(e[1]) == "add_index":
                adds.append(e)
    c.ob("inactive set starts empty, dim %d" % d, cleared, where, "not cleared")
    c.must(adds, "additions to the inactive set")
    slip, ident, fixed = flag(call("is_element", SLIPS, X)), flag(call("is_identity_constrained", AFFINE, X)), flag(call("is_constrained", AFFINE, X))
    act = flag(call("is_element", fld(ACT), X))
    g = ZERO
    for e in adds:
        dom = {x.args[0] for x in subterms(e[3][0]) if x.op == "elem"}
        ok = norm(ev, e[3][0]) is X and len(dom) == 1 and next(iter(dom)) in (SLIPS, OWNED) and len(elements(ev, e)) == 1
        c.ob("inactive set: one by one, dim %d" % d, ok, where, show(e[3][0], 4))
        h = norm(ev, e[4])
        if dom == {SLIPS}:
            h = mul(slip, h)
        g = lor(g, h)
    c.same("inactive: slip unknowns that are neither active nor prescribed, dim %d" % d, g, mul(slip, lor(ident, lnot(fixed)), lnot(act)), f)


def restart(c, d):
    f = c.anchor(SOLVER % d + "reset_inactive_set_values")
    ev, _ = c.vg(f)
    v = as_term(ev.read(Loc("$this", (("f", "trial_solution"),)), ("obj", "")))
    ok = v.op == "out" and v.args[1].op == "call" and v.args[1].args[0] == "distribute" and v.args[1].args[1] is AFFINE
    c.ob("constraints are distributed to the restarted solution, dim %d" % d, ok, c.where(f), show(v, 4)[:300])
    if not ok:
        return
    t = ev.descend(v.args[1].args[2], (("i", X),), ("num", False))
    ina = flag(call("is_element", fld(INA), X))
    c.same("inactive unknowns restart from the last converged value, others keep theirs, dim %d" % d, t,
           add(mul(ina, comps(fld("fe_field.old_solution"), (X,))), mul(lnot(ina), comps(fld("trial_solution"), (X,)))), f)
    other = {st.steps[0][1] for st in ev.logs["$this"]} - {"trial_solution"}
    c.ob("nothing else is reset, dim %d" % d, not other, c.where(f), str(other))


def sequence(c, d):
    f = c.anchor(SOLVER % d + "active_set_algorithm")
    p = "$" + f["params"][0]["n"]
    ev, _ = c.vg(f, opaque=lambda q: opq(q))
    ri, arm = flag(fld(RI)), flag(mk("sym", f["params"][0]["n"]))
    want = ["reset_internal_newton_method_constraints", "determine_active_set", "determine_inactive_set", "reset_inactive_set_values"]
    es = [e for e in ev.events if e[0] == "call" and last(e[1]) in STEPS]
    c.ob("order of the active set algorithm, dim %d" % d, [last(e[1]) for e in es] == want, c.where(f), str([last(e[1]) for e in es]))
    for e in es:
        g = e[4]
        a = [x for x in subterms(g) if x.op == "b" and f["params"][0]["n"] in show(x, 3)]
        c.need(len(a) <= 1, "flag of the active set algorithm")
        for x in a:
            g = replace(g, x, arm, {})
        c.same("%s: in rate-independent runs whenever armed, dim %d" % (last(e[1]), d), g, mul(ri, arm), f)
    t = ev.read(Loc(p, ()), ("bool",))
    for x in [x for x in subterms(t) if x.op == "b" and f["params"][0]["n"] in show(x, 3)]:
        t = replace(t, x, arm, {})
    c.same("disarmed afterwards, dim %d" % d, replace(t, single_atom(ri), ONE, {}), ZERO, f)
    v = as_term(ev.read(Loc("$this", (("f", ACT),)), ("obj", "")))
    v = pick(v, single_atom(ri))
    c.ob("rate-dependent: all slip unknowns are active, dim %d" % d, v is SLIPS, c.where(f), show(v, 4)[:300])
    f = c.anchor(SOLVER % d + "reset_internal_newton_method_constraints")
    ev, _ = c.vg(f)
    es = [e for e in ev.events if e[0] == "call"]
    names = [last(e[1]) for e in es]
    ok = names == ["clear", "reinit", "merge", "close"] and es[2][3][0] is fld("fe_field.newton_method_constraints") and es[1][3][0] is fld("fe_field.locally_relevant_dofs") \
        and all(root(ev, as_term(e[2])) == "internal_newton_method_constraints" and e[4] is ONE for e in es)
    alt = not es and as_term(ev.read(Loc("$this", (("f", "internal_newton_method_constraints"),)), ("obj", ""))) is fld("fe_field.newton_method_constraints")
    c.ob("all unknowns are freed before: constraints of the Newton method only, dim %d" % d, ok or alt, c.where(f), str(names))
