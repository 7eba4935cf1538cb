"""P34: the damage at crystal boundaries that is written is the lumped projection of the records' damage."""
from lab import *
from report import Check
from kernel import *
import kernel
import terms as T
from solver import last, as_atom, layouts
from p08 import SOLVER, I, J, Q, F
from p09 import interface, configs, is_this, path_of, replace_obj
from p16 import hist_opaque
from p29 import hanging
from p30 import columns, whole, X
import p24
import p18

EXPL = ("The kernels of the projection are reduced to their integrands over interior faces between crystals and compared with the "
        "reference; the copiers' targets, the quotient at a symbolic unknown of the result, and the average over all faces are "
        "compared in normal form.")
K0 = {"I": ND, "J": ND, "S": NS, "S2": NS}
SKIP = ("init_quadrature_point_history", "init_dof_to_info_map", "debug_output", "distribute_affine_constraints_to_initial_values")
SC = "ctorobj(dealii::FEValuesExtractors::Scalar, 0)"


def check():
    c = Check("P34", "global value graph of the projection's kernels, copiers and quotient; normal-form comparison",
              "numerator and denominator integrate test function times damage, and test function, over the same faces; value = quotient at every owned unknown",
              ["source/gradient_crystal_plasticity/assembly.cc", "source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc",
               "source/gradient_crystal_plasticity/setup.cc", "source/gradient_crystal_plasticity/assembly_data.cc"])
    c.load()
    for d in (2, 3):
        for lab, dec, gb, init in configs(c):
            kernels(c, d, "%s, dim %d" % (lab, d), dec or gb == "Microtraction", init)
        copiers(c, d)
        field(c, d)
        average(c, d)
        prepared(c, d)
        for n in ("assemble_projection_matrix", "assemble_projection_rhs"):
            p18.assembly(c, n, d, set())
    layouts(c, [f for f in c.prog.funcs.values() if f.get("body") and last(f["q"]) == "get_damage_at_grain_boundaries"])
    return c.finish(EXPL)


def view0(t):
    """the values of the only component"""
    for x in {x for x in subterms(t) if x.op == "call" and x.args[0] == "value"}:
        v = x.args[1]
        if isinstance(v, Term) and v.op == "call" and v.args[0] == "operator[]" and show(v.args[2], 3) == SC:
            t = T.replace(t, x, atom(call("phi", v.args[1], *x.args[2:])), memo={})
        elif isinstance(v, Term) and v.op == "call" and v.args[0] == "fe":
            t = T.replace(t, x, atom(call("phi", v, *x.args[2:])), memo={})
    for x in {x for x in subterms(t) if x.op == "call" and x.args[0] in ("shape_value", "shape_value_component") and as_atom(x.args[1]) is not None}:
        if x.args[0] == "shape_value" or x.args[-1] is ZERO:
            t = T.replace(t, x, atom(call("phi", *x.args[1:4])), memo={})
    return t


def swapped(t):
    """one order of the two cells in a query of their common record"""
    a, b = call("id", CELL), call("id", neighbor(F))
    for x in {x for x in subterms(t) if x.op == "call" and x.args[0] == "get_data" and len(x.args) == 4 and x.args[2] is b and x.args[3] is a}:
        t = T.replace(t, x, mk("call", "get_data", x.args[1], a, b), memo={})
    return t


def phi(i):
    return atom(call("phi", fe(CELL, F), i, Q))


def damage():
    return atom(at(call("get_data", fld("interface_quadrature_point_history"), call("id", CELL), call("id", neighbor(F))), (("i", Q), ("f", "damage_variable"))))


def kernels(c, d, lab, on, init):
    w = jxw(fe(CELL, F), Q)
    for nm, name, field_, want in (("right-hand side", "rhs", "local_rhs", [mul(w, phi(I), damage())]),
                                   ("lumped matrix", "matrix", "local_lumped_projection_matrix", [mul(w, phi(I), phi(J)), mul(w, phi(I))])):
        f = c.anchor(SOLVER % d + "assemble_local_projection_" + name)
        ev, _ = c.vg(f, opaque=hist_opaque, init=init)
        K = Canon(ev, d, K0)
        t = K.integrands(ev.read(Loc("$data", (("f", field_), ("i", I))), ("num", False)))
        c.ob("%s sums over the faces, %s" % (nm, lab), set(t) <= {"face"}, c.where(f), str(set(t)))
        b = swapped(view0(t.get("face", ZERO)))
        if not on:
            c.ob("%s: nothing if the crystals are not coupled, %s" % (nm, lab), b is ZERO, c.where(f), show(b, 6)[:400])
            continue
        g, a = interface(b)
        got = K.assume(b, *a) if b is not ZERO else ZERO
        ok = False
        for x in want:
            z = got
            if "phi" in show(x, 9) and any(v.op == "var" and v is as_atom(J) for v in subterms(x)):
                z, odd = columns(K, got)
                z = view0(z)
                if odd:
                    continue
            ok = ok or T.equal(z, K(x), 40)
        c.ob("%s on a crystal boundary, %s" % (nm, lab), ok, c.where(f), "computed: %s\nrequired: %s" % (show(got, 9)[:900], show(want[0], 9)))
        for k in ("interior face", "different crystals"):
            off = K.assume(b, (g[k], ONE)) if k in g else b
            c.ob("%s: nothing without '%s', %s" % (nm, k, lab), off is ZERO, c.where(f), show(off, 8)[:500])
        # announced to the copier, with the cell's unknowns
        fl = K(ev.read(Loc("$data", (("f", "cell_is_at_grain_boundary"),)), ("bool",)))
        marks = [x for x in subterms(fl) if is_bool_atom(x) and "cell_is_at_grain_boundary" in show(x, 8)]
        m = K.assume(fl, *[(x, ZERO) for x in marks])
        c.ob("%s: a marked cell is announced to the copier, %s" % (nm, lab), m is ONE, c.where(f), show(fl, 6)[:400])
        ix = ev.read(Loc("$data", (("f", "local_dof_indices"),)), ("obj", ""))
        ix = K(as_atom(ix))
        for x in marks:
            ix = T.replace(ix, x, ZERO, memo={})
        ix = as_atom(ix)
        while isinstance(ix, Term) and ix.op == "case":
            gs = [(gg, v) for gg, v in ix.args[0]] if isinstance(ix.args[0], tuple) else []
            one = [v for gg, v in gs if gg is ONE]
            if not one:
                break
            ix = as_atom(one[0])
        ok = isinstance(ix, Term) and ix.op == "out" and ix.args[1].op == "call" and ix.args[1].args[0] == "get_dof_indices" and ix.args[1].args[1] is CELL
        c.ob("%s: rows are the unknowns of the cell, %s" % (nm, lab), ok, c.where(f), show(ix, 5)[:400] if isinstance(ix, Term) else str(ix))


def copiers(c, d):
    for name, loc, target in (("rhs", "local_rhs", "projection_rhs"), ("matrix", "local_lumped_projection_matrix", "lumped_projection_matrix")):
        f = c.anchor(SOLVER % d + "copy_local_to_global_projection_" + name)
        ev, _ = c.vg(f, opaque=kernel.opaque)
        es = [e for e in ev.events if e[0] == "call" and e[1] == "distribute_local_to_global"]
        ok = len(es) == 1
        why = "%d calls" % len(es)
        if ok:
            e = es[0]
            p = [path_of(x) for x in e[3]]
            ok = (is_this(e[2], "projection_hanging_node_constraints") and [x[1] for x in p[:2]] == [(("f", loc),), (("f", "local_dof_indices"),)]
                  and p[2][1] == (("f", target),) and not any(isinstance(x, tuple) and x[0] == "in" for x in e[7:]))
            fl = at(mk("sym", "data"), (("f", "cell_is_at_grain_boundary"),))
            ok = ok and (e[4] is ONE or [show(x, 4) for x in subterms(e[4]) if is_bool_atom(x)] == ["b(data.cell_is_at_grain_boundary)"] and not show(e[4], 4).startswith("(1"))
            why = "%s %s if %s" % (show(e[2], 4), [show(x, 4) for x in e[3]], show(e[4], 5))
        c.ob("copier adds the announced cell's vector at its unknowns to %s, dim %d" % (target, d), ok, c.where(f), why)


def field(c, d):
    f = c.anchor(SOLVER % d + "get_damage_at_grain_boundaries")
    ev, r = c.vg(f, opaque=lambda q: last(q) == "assemble_projection_rhs")
    n = [e for e in ev.events if e[0] == "call" and last(e[1]) == "assemble_projection_rhs"]
    c.ob("the right-hand side is assembled anew, dim %d" % d, len(n) == 1 and n[0][4] is ONE, c.where(f), "%d calls" % len(n))
    v = as_atom(ev.read(Loc("$this", (("f", "damage_variable_values"),)), ("obj", "")))
    ret = as_atom(ev.read(r, ("obj", ""))) if isinstance(r, Loc) else as_atom(r)
    c.ob("what is returned is the field just computed, dim %d" % d, ret is v, c.where(f), show(ret, 4) if isinstance(ret, Term) else str(ret))
    ok = isinstance(v, Term) and v.op == "out" and v.args[1].op == "call" and v.args[1].args[0] == "distribute" and is_this(v.args[1].args[1], "projection_hanging_node_constraints")
    c.ob("hanging nodes follow, dim %d" % d, ok, c.where(f), show(v, 4)[:300])
    if not ok:
        return
    a = as_atom(v.args[1].args[2])
    comp = isinstance(a, Term) and a.op == "after" and a.args[0] == "compress"
    c.ob("the vector is compressed before, dim %d" % d, comp, c.where(f), show(a, 3)[:300])
    if comp:
        a = as_atom(a.args[1])
    t = ev.descend(a, (("i", X),), ("num", False))
    own = [x for x in subterms(t) if x.op == "b" and as_atom(x.args[0]) is not None and show(as_atom(x.args[0]), 5).startswith("is_element(locally_owned_dofs(this.projection_dof_handler")]
    for x in own:
        t = T.replace(t, x, ONE, memo={})
    t = whole(t)
    for x in {x for x in subterms(t) if x.op == "after" and last(str(x.args[0])) == "assemble_projection_rhs"}:
        t = T.replace(t, x, mk("sym", "this"), memo={})
    rhs, lump = comps(fld("projection_rhs"), (X,)), comps(fld("lumped_projection_matrix"), (X,))
    z = [x for x in subterms(t) if is_bool_atom(x)]
    on, off = t, t
    for x in z:
        s = x.op == "eq0" and (x.args[0] is lump or neg(x.args[0]) is lump)
        if not s and x.op in ("lt0", "b") and "lumped_projection_matrix" in show(x, 6):
            pos = lt(ZERO, lump) is atom(x)
            s = pos or lt(lump, ZERO) is atom(x)
            if s:       # no mass is negative
                on, off = T.replace(on, x, ONE if pos else ZERO, memo={}), T.replace(off, x, ZERO, memo={})
                continue
        if s:
            on, off = T.replace(on, x, ZERO, memo={}), T.replace(off, x, ONE, memo={})
    c.same("damage at an owned unknown with mass: right-hand side / lumped mass, dim %d" % d, on, div(rhs, lump), f)
    c.ob("damage at an unknown off the crystal boundaries: zero, dim %d" % d, bool(z) and off is ZERO, c.where(f), show(off, 6)[:400])


def average(c, d):
    f = c.anchor(SOLVER % d + "get_macroscopic_damage")
    w = c.where(f)
    for lab, dec, gb, init in configs(c):
        if not (dec or gb == "Microtraction"):
            continue
        lab = "%s, dim %d" % (lab, d)
        ev, r = c.vg(f, opaque=hist_opaque, init=init)
        K = Canon(ev, d, K0)
        sums = sorted({x for x in subterms(r) if x.op == "call" and last(str(x.args[0])) == "sum" and isnum(x.args[2])}, key=lambda x: x.dig)
        t = r
        for x in sums:
            k = over_faces(K, x.args[2])
            nm = None
            if k is not None:
                g, a = interface(k)
                on = K.assume(k, *a)
                if all(K.assume(k, (g[y], ONE)) is ZERO if y in g else False for y in ("interior face", "different crystals")):
                    nm = "volume" if T.equal(on, K(jxw(fe(CELL, F), Q))) else "damage" if T.equal(swapped(on), mul(jxw(fe(CELL, F), Q), damage())) else None
            comm = show(x.args[3], 4)
            if nm is None or not ("MPI_COMM_WORLD" in comm or "ompi_mpi_comm_world" in comm or "get_communicator" in comm):
                c.ob("sum over the interior faces between crystals, %s" % lab, False, w, show(k if k is not None else x, 9)[:900])
                continue
            t = T.replace(t, x, atom(mk("sym", nm)), memo={})
        c.same("average damage = integral of the damage / area, %s" % lab, t, div(atom(mk("sym", "damage")), atom(mk("sym", "volume"))), f)


def over_faces(K, v):
    """integrand over the faces of the owned cells"""
    for h in ("projection_dof_handler", "fe_field.dof_handler"):
        cell = at(call("active_cell_iterators", fld(h)), (("i", p24.NUMBER),))

        def points(u):
            for y in {y for y in subterms(u) if y.op == "call" and y.args[0] == "max_n_quadrature_points"}:
                if y.args[1] is fld("face_quadrature_collection"):
                    u = T.replace(u, y, NFQ, memo={})
            for y in {y for y in subterms(u) if y.op == "size" and isinstance(y.args[0], Term) and y.args[0].op == "call" and y.args[0].args[0] in ("face_iterators", "face_indices")
                      and y.args[0].args[1] is cell}:
                u = T.replace(u, y, NFACES, memo={})
            for y in {y for y in subterms(u) if y.op == "call" and y.args[0] == "n_faces" and y.args[1] is cell}:
                u = T.replace(u, y, NFACES, memo={})
            return u
        k = p24.integrand(K, v, points, "face", (fld(h),))
        if k is not None:
            return K(replace_obj(k, cell, CELL))
    return None


def prepared(c, d):
    """unknowns, constraints, vectors and mass of the projection"""
    f = c.anchor(SOLVER % d + "init")
    w = c.where(f)
    ev, r = c.vg(f, opaque=lambda q: last(q) in SKIP + ("make_sparsity_pattern", "assemble_projection_matrix", "assemble_trial_microstress_lumped_matrix") or kernel.opaque(q))
    get = lambda n: as_atom(ev.read(Loc("$this", (("f", n),)), ("obj", "")))
    D = get("projection_dof_handler")
    made = any(x.op == "after" and x.args[0] == "distribute_dofs" for x in subterms(D))
    c.ob("the projection has unknowns of its own, dim %d" % d, made, w, show(D, 5)[:300])
    C = get("projection_hanging_node_constraints")
    rel = [x for x in subterms(C) if x.op == "out" and x.args[1].op == "call" and last(str(x.args[1].args[0])) == "extract_locally_relevant_dofs"
           or x.op == "call" and last(str(x.args[0])) == "extract_locally_relevant_dofs"]
    rel = [x for x in rel if any(as_atom(y) is D for y in (x.args[1] if x.op == "out" else x).args[1:] if isinstance(y, Term))]
    ok, why = any(hanging(C, D, x, "projection")[0] for x in rel), ""
    c.ob("the projection's constraints are its hanging nodes', dim %d" % d, ok, w, show(C, 6)[:600])
    es = [e for e in ev.events if e[0] == "call" and last(e[1]) == "assemble_projection_matrix"]
    c.ob("the mass is assembled once everything is set up, dim %d" % d, len(es) == 1 and es[0][4] is ONE, w, "%d calls" % len(es))
    if len(es) == 1:
        S = as_atom(es[0][2])
        for n in ("projection_dof_handler", "projection_hanging_node_constraints", "cell_is_at_grain_boundary"):
            b = as_atom(ev.descend(S, (("f", n),), ("obj", "")))
            c.ob("... %s, dim %d" % (n, d), b is get(n), w, "%s\n%s" % (show(b, 3)[:200], show(get(n), 3)[:200]))
    for n, owned in (("projection_rhs", True), ("lumped_projection_matrix", True), ("damage_variable_values", False)):
        rs = [e for e in ev.events if e[0] == "call" and last(e[1]) == "reinit" and is_this(as_atom(e[2]), n) and "Vector" in str(e[6])]
        ok = len(rs) == 1 and rs[0][4] is ONE
        if ok:
            a = [as_atom(x) for x in rs[0][3]]
            own = isinstance(a[0], Term) and a[0].op == "call" and a[0].args[0] == "locally_owned_dofs" and a[0].args[1] is D
            ok = own if owned else (a[0] in rel or own and a[1] in rel)
        c.ob("%s is sized for the projection's unknowns, dim %d" % (n, d), ok, w, str([[show(x, 5)[:200] for x in e[3]] for e in rs]))
