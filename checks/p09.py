"""P09 grain-boundary and boundary-face parts of residual and Jacobian."""
from lab import *
from report import Check
from kernel import *
import kernel
import workstream as W
from p08 import Ref, configs, dn, SOLVER, GB, I, J, Q, F, S, S2

EXPL = ("The per-cell kernels of residual and Jacobian are evaluated for every combination of decohesion and "
        "grain-boundary condition; the summand over faces and face quadrature points of every kind of entry (own and "
        "coupling matrix) is compared with the weak form of the interface and its derivative; each of the three "
        "conditions that make a face an interior crystal boundary is shown to switch the summand off when violated. The "
        "coupling matrices are followed through the copier: each is written to the rows of its cell and the columns of "
        "the neighbour across the same face.")
OWN, NB = fe(CELL, F), fe(neighbor(F), nface(F))
NBC = crystal(neighbor(F))
COPY = ("f", "data")


class Face(Ref):
    def __init__(self, d, ev, dec):
        super().__init__(d)
        self.ev, self.dec = ev, dec
        self.hist = call("get_data", fld("interface_quadrature_point_history"), mk("sym", "cell"), mk("sym", "nb"))

    def nvec(self, q):
        return self.tvec(lambda k: normal(OWN, q, k if isinstance(k, Term) else num(k)))

    def n(self):
        return self.nvec(Q)

    def opening(self):
        return self.tvec(lambda k: sub(value("get_function_values", NB, ext_u(NBC), self.trial, Q, k),
                                       value("get_function_values", OWN, ext_u(self.cr), self.trial, Q, k)))

    def history(self, f):
        a, b = sorted((call("id", CELL), call("id", neighbor(F))), key=lambda t: t.dig)
        h = call("get_data", fld("interface_quadrature_point_history"), a, b)
        return atom(at(h, (("i", Q), ("f", f))))

    def damage(self):
        return self.history("damage_variable") if self.dec else ZERO

    def deg(self, which):
        flag = atom(mk("b", fld("parameters.constitutive_laws_parameters.damage_evolution_parameters.flag_couple_%s_to_damage" % which)))
        return atom(call("get_degradation_function_value", fld("degradation_function"), self.damage(), flag))

    def coh_args(self):
        return (self.opening(), self.n(), self.history("max_effective_opening_displacement"),
                self.history("old_effective_opening_displacement"), self.dt)

    def moduli(self):
        m = call("get_grain_interaction_moduli", fld("microtraction_law"), self.cr, NBC, lam(1, lambda q: self.nvec(q)))
        return m

    def fslips(self, h, cr):
        return lam(2, lambda a, b: value("get_function_values", h, ext_s(cr, a), self.trial, b))

    def phi_u(self, h, cr, i, k):
        return shape("value", h, ext_u(cr), i, Q, k)

    def phi_s(self, h, cr, i, s):
        return shape("value", h, ext_s(cr, s), i, Q)

    def rhs_u(self):
        if not self.dec:
            return ZERO
        coh = call("get_cohesive_traction", fld("cohesive_law"), *self.coh_args())
        con = call("get_contact_traction", fld("contact_law"), self.opening(), self.n())
        return mul(self.factor, jxw(OWN, Q), add(*[mul(self.phi_u(OWN, self.cr, I, k), add(mul(self.deg("macrotraction"), comps(coh, (k,))), comps(con, (k,)))) for k in self.R()]))

    def rhs_s(self, micro):
        if not micro:
            return ZERO
        t = atom(call("get_microtraction", fld("microtraction_law"), Q, S, self.moduli(), self.fslips(OWN, self.cr), self.fslips(NB, NBC)))
        return mul(dn(2), jxw(OWN, Q), self.phi_s(OWN, self.cr, I, S), self.deg("microtraction"), t)

    def mat_u(self, other):
        if not self.dec:
            return ZERO
        coh = call("get_jacobian", fld("cohesive_law"), *self.coh_args())
        con = call("get_jacobian", fld("contact_law"), self.opening(), self.n())
        h, cr, sg = (NB, NBC, -1) if other else (OWN, self.cr, 1)
        ix = lambda k, l: (min(k, l), max(k, l)) if self.symj else (k, l)
        return mul(num(sg), self.factor, jxw(OWN, Q),
                   add(*[mul(self.phi_u(OWN, self.cr, I, k), add(mul(self.deg("macrotraction"), comps(coh, ix(k, l))), comps(con, ix(k, l))),
                             self.phi_u(h, cr, J, l)) for k in self.R() for l in self.R()]))

    def mat_s(self, other, micro, same):
        if not micro:
            return ZERO
        s2 = S if same else S2
        m = call("get_%s_gateaux_derivative" % ("inter" if other else "intra"), fld("microtraction_law"), Q, self.moduli())
        h, cr = (NB, NBC) if other else (OWN, self.cr)
        return neg(mul(dn(2), jxw(OWN, Q), self.phi_s(OWN, self.cr, I, S), self.deg("microtraction"), comps(m, (S, s2)), self.phi_s(h, cr, J, s2)))


def guards(t):
    """atoms of the interface conditions"""
    out = {}
    for x in subterms(t):
        if not is_bool_atom(x):
            continue
        s = show(x, 8)
        if "cell_is_at_grain_boundary" in s:
            out["cell at a grain boundary"] = x
        elif x.op == "b" and "at_boundary" in s and "face" in s:
            out["interior face"] = x
        elif x.op == "eq0" and "material_id" in s:
            out["different crystals"] = x
    return out


def interface(t):
    """(integrand on an interior crystal boundary, {condition: integrand when it is violated})"""
    g = guards(t)
    on = {"cell at a grain boundary": ZERO, "interior face": ZERO, "different crystals": ZERO}
    a = [(x, on[k]) for k, x in g.items()]
    return g, a


def part(c, K, f, nm, t, want, assume):
    """one kind of entry: value on an interior crystal boundary, and nothing elsewhere"""
    n = 0
    g, a = interface(t)
    want = K(want)
    got = K.assume(t, *(a + assume)) if t is not ZERO else ZERO
    c.same("%s on a grain boundary" % nm, got, want, f)
    n += 1
    for k in ("interior face", "different crystals"):
        off = t
        if k in g:
            off = K.assume(t, (g[k], ONE), *assume)
        elif t is not ZERO:
            off = K.assume(t, *assume)
        c.ob("%s: nothing without '%s'" % (nm, k), off is ZERO, c.where(f), "" if off is ZERO else "left: %s" % show(off, 8)[:600])
        n += 1
    return n


def copier(c, d):
    """names of the copy data written with (own rows, own columns) and, pairwise, (own rows, neighbour columns)"""
    f = c.anchor(SOLVER % d + "copy_local_to_global_jacobian")
    ev, r = c.vg(f, opaque=kernel.opaque)
    own, coup = [], []
    for e in ev.events:
        if e[0] != "call" or e[1] != "distribute_local_to_global":
            continue
        args = [x for x in e[3]]
        paths = [path_of(x) for x in args[:-1]]
        ins = [x for x in e[7:] if isinstance(x, tuple) and x[0] == "in"]
        c.ob("Jacobian copier: constraints of the Newton method, dim %d" % d, is_this(e[2], "internal_newton_method_constraints"), c.where(f, e[5]), show(e[2], 4))
        if len(paths) == 2:
            own.append((paths, e))
        elif len(paths) == 3:
            coup.append((paths, e, ins))
    c.must(own and coup, "distribute_local_to_global calls of the Jacobian copier")
    return f, ev, own, coup


def is_this(t, name):
    return isinstance(t, Term) and t.op == "at" and t.args[0] is THIS and t.args[1] == (("f", name),)


def path_of(t):
    a = single_atom(t) if isinstance(t, Term) and t.op == "poly" else t
    if isinstance(a, Term) and a.op == "at":
        return a.args[0], a.args[1]
    return a, ()


def check():
    c = Check("P09", "global value graph of the kernels and copiers; normal-form comparison of the interface integrands", "", None)
    c.load()
    for d in (2, 3):
        fc, evc, own, coup = copier(c, d)
        for paths, e in own:
            c.ob("own matrix: rows and columns of the cell, dim %d" % d,
                 e[4] is ONE and [p[1] for p in paths] == [(("f", "local_matrix"),), (("f", "local_dof_indices"),)],
                 c.where(fc, e[5]), "%s guard %s" % (paths, show(e[4], 4)))
        for paths, e, ins in coup:
            mat, rows, cols = paths
            k = mat[1][-1]
            ok = (len(mat[1]) == 2 and len(cols[1]) == 2 and k[0] == "i" and k == cols[1][-1] and rows[1] == (("f", "local_dof_indices"),))
            c.ob("coupling matrix k: rows of the cell, columns of neighbour k, dim %d" % d, ok, c.where(fc, e[5]), str([show(at(*p), 4) for p in paths if p[1]]))
            rng = evc.ranges.get(single_atom(k[1]).args[0]) if ok and isnum(k[1]) and single_atom(k[1]) is not None and single_atom(k[1]).op == "var" else None
            full = rng is not None and rng[0] is ZERO and "#size" in show(rng[1], 4)
            c.ob("every coupling matrix is written, dim %d" % d, full, c.where(fc, e[5]), str(rng))
        c.must(len(coup) == 1, "one coupling call")
        mname, cname = coup[0][0][0][1][0][1], coup[0][0][2][1][0][1]
        for lab, dec, gb, init in configs(c):
            if d == 3 and (dec, gb) not in ((0, "Microfree"), (1, "Microtraction")):
                continue
            one(c, d, lab, dec, gb, init, mname, cname, coup[0])
        flag(c, d)
        neumann(c, d)
    return c.finish(EXPL)


def one(c, d, lab, dec, gb, init, mname, cname, coup):
    micro = gb == "Microtraction"
    lab = "%s, dim %d" % (lab, d)
    disp, slip, slip2 = num(0), add(num(d), S), add(num(d), S2)
    f = c.anchor(SOLVER % d + "assemble_local_residual")
    ev, r = c.vg(f, opaque=kernel.opaque, init=init)
    K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS})
    t = K.integrands(ev.read(Loc("$data", (("f", "local_rhs"), ("i", I))), ("num", False)))
    c.must(set(t) <= {"cell", "face"}, "residual sums over %s" % set(t))
    R = Face(d, ev, dec)
    tf = t.get("face", ZERO)
    for nm, v, want in (("displacement", disp, R.rhs_u()), ("last displacement", num(d - 1), R.rhs_u()), ("slip", slip, R.rhs_s(micro))):
        part(c, K, f, "residual, %s rows, %s" % (nm, lab), tf, want, [(COMP(I), v)])
    # ---- Jacobian
    f = c.anchor(SOLVER % d + "assemble_local_jacobian")
    ev, r = c.vg(f, opaque=kernel.opaque, init=init)
    K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS})
    R = Face(d, ev, dec)
    same = single_atom(eq(S, S2))
    entries = (("uu", disp, disp, lambda o: R.mat_u(o)), ("uu last", num(d - 1), num(d - 1), lambda o: R.mat_u(o)),
               ("us", disp, slip2, lambda o: ZERO), ("su", slip, disp, lambda o: ZERO),
               ("ss", slip, slip2, lambda o: R.mat_s(o, micro, False)), ("ss same slip", slip, slip, lambda o: R.mat_s(o, micro, True)))
    t = K.integrands(ev.read(Loc("$data", (("f", "local_matrix"), ("i", I), ("i", J))), ("num", False)))
    c.must(set(t) <= {"cell", "face"}, "Jacobian sums over %s" % set(t))
    for nm, vi, vj, want in entries:
        part(c, K, f, "own matrix, %s entries, %s" % (nm, lab), t.get("face", ZERO), want(False), [(COMP(I), vi), (COMP(J), vj), (same, ZERO)])
    push = {n: [s for s in ev.logs["$data"] if s.steps[0] == ("f", n) and len(s.steps) == 2 and s.steps[1][0] == "i"] for n in (mname, cname)}
    size = {n: [s for s in ev.logs["$data"] if s.steps == (("f", n), ("f", "#size"))] for n in (mname, cname)}
    clear = {n: [s for s in ev.logs["$data"] if s.steps == (("f", n),)] for n in (mname, cname)}
    for n in (mname, cname):
        ok = len(clear[n]) == 1 and clear[n][0].guard is ONE and clear[n][0].val.op == "fill" and (not push[n] or clear[n][0].line < push[n][0].line)
        c.ob("%s: emptied for every cell, %s" % (n, lab), ok, c.where(f), str([(show(s.val, 3), show(s.guard, 3)) for s in clear[n]]))
    flags = [s for s in ev.logs["$data"] if s.steps == (("f", "cell_is_at_grain_boundary"),)]
    active = dec or micro
    if not push[mname] or not push[cname]:
        c.ob("coupling matrices are written, %s" % lab, not active, c.where(f), "no coupling matrix is appended")
        return
    c.must(len(push[mname]) == 1 and len(push[cname]) == 1, "one append per face")
    pm, pc = push[mname][0], push[cname][0]
    c.ob("matrix and indices of a neighbour get the same position, %s" % lab,
         pm.steps[1] == pc.steps[1] and pm.guard is pc.guard and pm.vars == pc.vars and len(size[mname]) == len(size[cname]) == 1
         and size[mname][0].guard is pm.guard and size[cname][0].guard is pm.guard, c.where(f, pm.line),
         "%s | %s" % (show(pm.steps[1][1], 4), show(pc.steps[1][1], 4)))
    c.must(len(pm.vars) == 1, "one face loop")
    v, lo, hi = pm.vars[0]
    c.ob("all faces of the cell are visited, %s" % lab, lo is ZERO and K(hi) is NFACES, c.where(f, pm.line), show(hi, 4))
    sb = {v: F}
    idx = K(T._sarg(pc.val, sb))
    want = mk("out", 0, call("get_dof_indices", neighbor(F), mk("sym", "out")))
    ok = isinstance(idx, Term) and idx.op == "out" and idx.args[1].op == "call" and idx.args[1].args[0] == "get_dof_indices" and idx.args[1].args[1] is neighbor(F)
    c.ob("columns are the unknowns of the neighbour across the face, %s" % lab, ok, c.where(f, pc.line), show(idx, 5))
    g = K(subst(pm.guard, sb))
    gs = guards(g)
    full = ONE
    for k, x in gs.items():
        full = mul(full, lnot(atom(x)))
    c.ob("appended exactly for interior faces between crystals, %s" % lab, g is full and {"interior face", "different crystals"} <= set(gs), c.where(f, pm.line), show(g, 8)[:600])
    val = ev.descend(pm.val, (("i", I), ("i", J)), ("num", False))
    t = integrand_on_face(K, subst(val, sb))
    on = [(x, ZERO) for x in guards(t).values()]
    for nm, vi, vj, want in entries:
        got = K.assume(t, *(on + [(COMP(I), vi), (COMP(J), vj), (same, ZERO)])) if t is not ZERO else ZERO
        c.same("coupling matrix, %s entries, %s" % (nm, lab), got, K(want(True)), f)
    # the copier looks at the coupling matrices whenever there are any
    fv = ev.read(Loc("$data", (("f", "cell_is_at_grain_boundary"),)), ("bool",)) if flags else None
    cg = coup[1][4]
    if cg is not ONE:
        c.must(flags, "flag of the copy data")
        miss = mul(pm.guard, lnot(K(fv))) if False else mul(K(subst(pm.guard, sb)), lnot(K(fv)))
        c.ob("coupling matrices are announced to the copier, %s" % lab, miss is ZERO, c.where(f), show(miss, 6)[:400])


def integrand_on_face(K, t):
    """summand over the quadrature points of the face F"""
    ps = K.integrands(t)
    if not ps:
        return ZERO
    if set(ps) != {"face q"}:
        raise vg.Unsupported("coupling matrix sums over %s" % set(ps))
    return ps["face q"]


def flag(c, d):
    """a locally owned cell with an interior crystal boundary is marked as such"""
    f = c.anchor(SOLVER % d + "init")
    ev, r = c.vg(f, opaque=lambda q: q.rsplit("::", 1)[-1] in SKIP or kernel.opaque(q))
    st = [s for s in ev.logs["$this"] if s.steps[0] == ("f", "cell_is_at_grain_boundary")]
    c.must(st, "marking of the cells at grain boundaries")
    i = max(k for k, s in enumerate(st) if len(s.steps) == 1)
    marks = [s for s in st[i + 1:] if len(s.steps) == 2]
    c.ob("every cell starts unmarked, dim %d" % d, st[i].guard is ONE and st[i].val.op in ("refill", "fill") and const(st[i].val.args[0]) == 0, c.where(f, st[i].line), show(st[i].val, 3))
    ok = False
    for s in marks:
        k = const(s.val)
        a = single_atom(s.steps[1][1])
        if not k or a is None or a.op != "call" or a.args[0] != "active_cell_index" or len(s.vars) != 1:
            continue
        x = a.args[1]
        g = single_atom(s.guard)
        if g is None or g.op != "any":
            continue
        K = Canon(ev, d)
        g = K(replace_obj(g, x, CELL))
        g = single_atom(g) if g.op == "poly" else g
        w, body = g.args[0].args
        if len(w) != 1 or body[0] is not ZERO or body[1] is not NFACES:
            continue
        want = mul(lnot(atom(mk("b", call("at_boundary", call("face", CELL, var(w[0])))))), lnot(eq(crystal(), crystal(call("neighbor", CELL, var(w[0]))))))
        own = atom(mk("b", call("is_locally_owned", CELL)))
        ok = ok or mul(own, want) is body[2] or want is body[2]
    c.ob("a locally owned cell is marked iff one of its faces is an interior crystal boundary, dim %d" % d, ok, c.where(f), str([show(s.guard, 8)[:500] for s in marks]))


SKIP = {"make_sparsity_pattern", "init_quadrature_point_history", "init_dof_to_info_map", "debug_output", "distribute_affine_constraints_to_initial_values"}


def replace_obj(t, a, b):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x is a:
            return b
        r = memo.get(x)
        if r is None:
            if x.op == "poly":
                r = x
                for y in {y for c, m in x.args[0] for y, e in m.args[0]}:
                    z = go(y)
                    if z is not y:
                        r = replace(r, y, z if z.op == "poly" else atom(z), {})
            else:
                args = go(x.args)
                r = x if args == x.args else rebuild(x, args)
            memo[x] = r
        return r
    return go(t)


def neumann(c, d):
    """boundary faces with a prescribed traction"""
    init = dict(list(configs(c))[0][3])
    del init["neumann_boundary_conditions.#size"]
    f = c.anchor(SOLVER % d + "assemble_residual")
    got = []

    def worker_done(ev, s):
        got.append(ev.read(Loc("$data", (("f", "local_rhs"), ("i", I))), ("num", False)))
    ev, r = c.vg(f, opaque=kernel.opaque, hooks={W.RUN: W.make_hook([], after_worker=worker_done)},
                 init=dict(init, **{"parameters.boundary_conditions_at_grain_boundaries": mk("enum", GB + "::Microfree")}))
    c.must(len(got) == 1, "one assembly loop of the residual")
    K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS})
    t = K.integrands(got[0])
    c.must(set(t) == {"cell", "face"}, "residual with boundary tractions sums over %s" % set(t))
    face = call("face", CELL, F)
    fun = fld("neumann_boundary_conditions", ("i", atom(call("boundary_id", face))))
    time = atom(call("get_next_time", fld("discrete_time")))
    now = mk("after", "set_time", fun, time)
    v = mk("out", 1, call("value_list", now, call("get_quadrature_points", OWN), mk("sym", "out")))
    at_b = atom(mk("b", call("at_boundary", face)))
    found = lnot(K(T.eq(call("find", fld("neumann_boundary_conditions"), atom(call("boundary_id", face))), call("end", fld("neumann_boundary_conditions")))))
    want = mul(at_b, found, jxw(OWN, Q), add(*[mul(shape("value", OWN, ext_u(crystal()), I, Q, k), comps(v, (Q, k))) for k in range(d)]))
    # a cell with a face at the boundary is at the boundary; a map with an entry is not empty
    hyp = [(mk("b", call("at_boundary", CELL)), ONE), (single_atom(eq(atom(fld("neumann_boundary_conditions.#size")), ZERO)), ZERO)]
    c.same("residual: prescribed tractions at the next time on their boundary faces only, dim %d" % d,
           K.assume(t["face"], *hyp), K.assume(K(want), *hyp), f)
