"""P27 constraints: boundary values, microhard grain boundaries, periodicity, hanging nodes."""
from lab import *
from report import Check
from solver import *
import terms as T
import vg
from linalg import cname
from p09 import replace_obj

EXPL = ("Each constraint object handed to the field is followed from its creation: every call that adds lines to it, its boundary identifiers, "
        "functions, component masks, loop ranges and guards are compared with the required set, and the two objects with one another.")
APP = "gCP::SimpleShearProblem<%d>"
FE = "gCP::FEField<%d>"
AC_T = "AffineConstraints"
LOWER, UPPER = 2, 3


def check():
    c = Check("P27", "value graph and mutation history of every constraint object", "", None)
    c.load()
    for d in (2, 3):
        setup(c, d)
        update(c, d)
        field(c, d)
    return c.finish(EXPL)


def opq(q):
    return q.startswith("gCP::FEField") or q.startswith("gCP::CrystalsData")


class Line:
    """one call adding constraints to an object"""

    def __init__(self, what, e, pos):
        self.what, self.e, self.pos = what, e, pos

    def __repr__(self):
        return "%s at line %s" % (self.what, self.e[5])


def history(ev, arg):
    """calls writing the object whose value is arg, in order"""
    roots = {m[2] for m in ev.mutations if m[2] and AC_T in str(m[5])} | {o[2].root for o in ev.outs if o[0].endswith("make_periodicity_constraints") or o[0].endswith("interpolate_boundary_values")}
    mine = set()
    for r in roots:
        v = ev.read(vg.Loc(r, ()), ("obj", ""))
        if v is arg or as_atom(v) is as_atom(arg):
            mine.add(r)
    out = {}
    for m in ev.mutations:
        k = m[7]
        if m[2] in mine and k < len(ev.events) and ev.events[k][0] == "call" and ev.events[k][1] == m[0]:
            out[k] = Line(last(m[0]), ev.events[k], k)
    for o in ev.outs:
        k = o[5]
        if o[2].root in mine and k < len(ev.events) and ev.events[k][0] == "call" and ev.events[k][1] == o[0]:
            out[k] = Line(last(o[0]), ev.events[k], k)
    return mine, [out[k] for k in sorted(out)]


def fun(t, d):
    """'zero' | 'load' | text of a boundary function"""
    t = as_atom(t)
    while isinstance(t, Term) and t.op in ("addr", "deref", "ptr"):
        t = as_atom(t.args[0])
    if t.op == "ctorobj" and "ZeroFunction" in str(t.args[0]) and cname(as_atom(t.args[1])) == "get_n_components":
        return "zero"
    if t.op == "at" and t.args[1][-1:] == (("f", "displacement_control"),):
        return "load"
    return show(t, 4)[:120]


def crystals(t):
    return cname(as_atom(t)) == "get_n_crystals" and "crystals_data" in show(as_atom(t).args[1], 3)


def bc(ev, l, d):
    """(component kind, {boundary id: function}) of an interpolate_boundary_values call, or a complaint"""
    a = l.e[3]
    if l.e[4] is not ONE:
        return None, "conditional: %s" % show(l.e[4], 4)[:200]
    if show(a[0], 3) != "this.mapping" or cname(as_atom(a[1])) != "get_dof_handler":
        return None, "mapping or degrees of freedom: %s, %s" % (show(a[0], 3)[:80], show(a[1], 3)[:80])
    m = as_atom(a[-1])
    if cname(m) != "component_mask" or cname(as_atom(m.args[1])) != "get_fe_collection":
        return None, "component mask %s" % show(m, 4)[:200]
    x = as_atom(m.args[2])
    kind = {"get_displacement_extractor": "displacements", "get_slip_extractor": "slips"}.get(cname(x))
    if kind is None:
        return None, "extractor %s" % show(x, 4)[:200]
    lids = loops(l.e)
    if len(x.args) - 2 != len(lids):
        return None, "components %s in loops %s" % (show(x, 4)[:200], lids)
    for n, ix in enumerate(x.args[2:]):
        v = varname(ix)
        if v is None or v not in ev.ranges:
            return None, "index %s" % show(ix, 4)
        lo, hi = ev.ranges[v]
        ok = lo is ZERO and (crystals(hi) if n == 0 else cname(as_atom(hi)) == "get_n_slips")
        if not ok:
            return None, "index %d runs over [%s, %s)" % (n, show(lo, 3), show(hi, 4))
    if len(a) == 5:
        o = as_atom(a[2])
        if o.op != "objst":
            return None, "function map %s" % show(o, 4)[:200]
        fm = {}
        for b in o.args[1]:
            vs, p = b.args[0], b.args[1]
            kind_, steps, val, g = p[0], p[1], p[2], p[3]
            if vs or g is not ONE or len(steps) != 1 or steps[0][0] != "i" or not isnum(steps[0][1]) or kind_ != "set":
                return None, "function map %s" % show(o, 5)[:300]
            fm[int(const(steps[0][1]))] = fun(val, d)
    else:
        if not isnum(a[2]):
            return None, "boundary %s" % show(a[2], 3)
        fm = {int(const(a[2])): fun(a[3], d)}
    return kind, fm


def common(c, ev, ls, lab, w):
    """hanging nodes first, nothing after closing"""
    names = [l.what for l in ls]
    adders = [l for l in ls if l.what not in ("clear", "reinit", "close")]
    re_ = [l for l in ls if l.what == "reinit"]
    ok = len(re_) == 1 and re_[0].e[4] is ONE and not inloop(re_[0].e) and cname(as_atom(re_[0].e[3][0])) == "get_locally_relevant_dofs" and all(re_[0].pos < a.pos for a in adders)
    c.ob("starts on the locally relevant degrees of freedom" + lab, ok, w, str(names))
    cl = [l for l in ls if l.what == "clear"]
    c.ob("nothing is cleared afterwards" + lab, all(x.pos < a.pos for x in cl for a in adders), w, str(names))
    mg = [l for l in ls if l.what == "merge"]
    ok = len(mg) == 1 and mg[0].e[4] is ONE and inloop(mg[0].e) is None and cname(as_atom(mg[0].e[3][0])) == "get_hanging_node_constraints" and all(mg[0].pos <= a.pos for a in adders)
    c.ob("contains the hanging-node constraints before any other" + lab, ok, w, str(names))
    ok = bool(ls) and ls[-1].what == "close" and ls[-1].e[4] is ONE and names.count("close") == 1
    c.ob("closed once, after its last line" + lab, ok, w, str(names))
    known = {"clear", "reinit", "merge", "close", "interpolate_boundary_values", "add_line", "make_periodicity_constraints"}
    c.ob("no other call writes it" + lab, set(names) <= known, w, str(sorted(set(names) - known)))
    c.count("calls writing constraint objects", len(ls))


def merge_bcs(c, ev, ls, d, lab, w):
    got = {}
    for l in ls:
        if l.what == "interpolate_boundary_values":
            kind, fm = bc(ev, l, d)
            c.ob("boundary values at line %s are for all crystals (and slip systems)%s" % (l.e[5], lab), kind is not None, w, str(fm))
            if kind:
                for k, v in fm.items():
                    # the first call for a degree of freedom wins
                    got.setdefault((kind, k), v)
    return got


def setter(ev, name):
    return [e for e in ev.events if e[0] == "call" and last(e[1]) == name]


def setup(c, d):
    f = c.anchor(APP % d + "::setup_constraints", 0)
    ev, _ = c.vg(f, opaque=opq)
    w = c.where(f)
    sets = {}
    for name, lab in (("set_affine_constraints", "affine"), ("set_newton_method_constraints", "Newton")):
        e = setter(ev, name)
        c.ob("the field is given its %s constraints once (dim %d)" % (lab, d), len(e) == 1 and e[0][4] is ONE and inloop(e[0]) is None, w, "%d calls" % len(e))
        if len(e) != 1:
            continue
        l = " (%s constraints, dim %d)" % (lab, d)
        roots, ls = history(ev, e[0][3][0])
        c.ob("the object given to the field is a local constraint object" + l, bool(roots) and bool(ls), w, show(e[0][3][0], 3)[:200])
        if not ls:
            continue
        common(c, ev, ls, l, w)
        got = merge_bcs(c, ev, ls, d, l, w)
        want = {("displacements", LOWER): "zero", ("displacements", UPPER): "load" if lab == "affine" else "zero",
                ("slips", LOWER): "zero", ("slips", UPPER): "zero"}
        for k, v in want.items():
            c.ob("%s at boundary %d: %s%s" % (k[0], k[1], {"zero": "zero", "load": "the applied displacement"}[v], l), got.get(k) == v, w, str(got.get(k)))
        c.ob("no other boundary is prescribed" + l, set(got) == set(want), w, str(sorted(set(got) - set(want))))
        microhard(c, ev, ls, d, l, w)
        periodic(c, ev, ls, d, l, w)
        sets[lab] = (got, ls)
    if len(sets) == 2:
        a, n = sets["affine"], sets["Newton"]
        sig = lambda ls: [x.what for x in ls if x.what in ("merge", "interpolate_boundary_values", "add_line", "make_periodicity_constraints")]
        c.ob("Newton updates are constrained on the same degrees of freedom (dim %d)" % d, set(a[0]) == set(n[0]) and sorted(sig(a[1])) == sorted(sig(n[1])), w, "%s / %s" % (sig(a[1]), sig(n[1])))
        for lab in ("affine", "Newton"):
            order = [x.what for x in sets[lab][1]]
            if "make_periodicity_constraints" in order:
                k = order.index("make_periodicity_constraints")
                c.ob("periodicity comes after the prescribed values (%s, dim %d)" % (lab, d), not set(order[k + 1:]) - {"close"}, w, str(order))


def microhard(c, ev, ls, d, lab, w):
    al = [l for l in ls if l.what == "add_line"]
    c.ob("slips are blocked at grain boundaries by one rule" + lab, len(al) == 1, w, str(al))
    if len(al) != 1:
        return
    e = al[0].e
    lids = loops(e)
    ok = len(lids) == 3
    c.ob("blocked line: cells, faces and face degrees of freedom are swept" + lab, ok, w, str(lids))
    if not ok:
        return
    i, fc, ce = [var("λ" + x) if var("λ" + x).fv else None for x in lids]
    key = as_atom(e[3][0])
    # key = dof_indices(face of the cell, its crystal)[i]
    out = key.args[0] if key.op == "at" else None
    o = [x for x in subterms(key) if x.op == "out"]
    if key.op != "at" or len(o) != 1 or cname(as_atom(o[0].args[1])) != "get_dof_indices":
        c.ob("blocked line is a degree of freedom of the face" + lab, False, w, show(key, 5)[:300])
        return
    call = as_atom(o[0].args[1])
    face, crystal = as_atom(call.args[1]), call.args[3] if len(call.args) > 3 else None
    ok = cname(face) == "face" and crystal is not None and cname(as_atom(crystal)) in ("material_id", "active_fe_index") and as_atom(crystal).args[1] is face.args[1]
    c.ob("blocked line is a degree of freedom of the cell's own side of the face" + lab, ok, w, show(call, 5)[:300])
    if not ok:
        return
    cell, fno = face.args[1], face.args[2]
    ix = key.args[1][-1][1]
    c.ob("every degree of freedom of the face is considered" + lab, varname(ix) == "λ" + lids[0] and varname(fno) == "λ" + lids[1], w, show(key, 5)[:300])
    lo, hi = ev.ranges.get("λ" + lids[0], (None, None))
    c.ob("all degrees of freedom of the face are swept" + lab, lo is ZERO and hi is not None and as_atom(hi).op == "size" and as_atom(as_atom(hi).args[0]) is o[0] or hi is not None and cname(as_atom(hi)) in ("max_dofs_per_face", "n_dofs_per_face"), w, show(hi, 5)[:200] if hi is not None else "")
    call_ = lambda n, *a: atom(mk("call", n, *a))
    nb = as_atom(call_("neighbor", cell, fno))
    sel = e[4]
    # component of face degree of freedom i
    comp = [x for x in subterms(sel) if x.op == "call" and cname(x) == "get_global_component"]
    ok = len(comp) == 1
    if ok:
        k = comp[0]
        fe_of = lambda x: x.op == "call" and cname(x) == "face_to_cell_index" and varname(x.args[2]) == "λ" + lids[0] and x.args[3] is fno
        loc = as_atom(k.args[3])
        ok = (as_atom(k.args[2]) is as_atom(crystal)) and isinstance(loc, Term) and fe_of(loc)
    c.ob("blocked components are those of the face's own degrees of freedom" + lab, ok, w, show(comp[0], 6)[:300] if comp else show(sel, 5)[:300])
    B = lambda t: atom(mk("b", t))
    mh = [x for x in subterms(sel) if x.op == "eqc"]
    ok = len(mh) == 1 and mh[0].args[1].args[0].endswith("Microhard") and show(mh[0].args[0], 5) == "this.parameters.solver_parameters.boundary_conditions_at_grain_boundaries"
    c.ob("slips are blocked for microhard grain boundaries only" + lab, ok, w, str([show(x, 4) for x in mh]))
    if not comp or not mh:
        return
    slip = lnot(lt(atom(comp[0]), num(d)))
    own = B(as_atom(call_("is_locally_owned", cell)))
    inner = lnot(B(as_atom(call_("at_boundary", as_atom(face)))))
    inner2 = lnot(B(as_atom(call_("at_boundary", cell, fno))))
    ids = lnot(eq(call_("material_id", cell), call_("material_id", nb)))
    ok = False
    for i_ in (inner, inner2):
        want = mul(atom(mh[0]), own, i_, ids, slip)
        if mul(sel, lnot(want)) is ZERO and mul(want, lnot(sel)) is ZERO:
            ok = True
    c.ob("exactly the slips on owned cells' faces between different crystals are blocked" + lab, ok, w, show(sel, 9)[:800])


def periodic(c, ev, ls, d, lab, w):
    p = [l for l in ls if l.what == "make_periodicity_constraints"]
    c.ob("periodicity is imposed once" + lab, len(p) == 1 and p[0].e[4] is ONE and inloop(p[0].e) is None, w, str(p))
    if len(p) != 1:
        return
    seen = []
    t = as_atom(p[0].e[3][0])
    while t.op == "out" and cname(as_atom(t.args[1])) == "collect_periodic_faces":
        k = as_atom(t.args[1])
        seen.append(tuple(int(const(x)) if isinstance(x, Term) and isnum(x) else show(x, 3) for x in k.args[3:6]))
        t = as_atom(k.args[6])
    want = [(0, 1, 0)] + ([(4, 5, 2)] if d == 3 else [])
    c.ob("left and right%s are paired in their direction%s" % (" and front and back" if d == 3 else "", lab), sorted(seen) == sorted(want), w, str(seen))
    m = p[0].e[3][2] if len(p[0].e[3]) > 2 else None
    m = as_atom(m) if m is not None else None
    c.ob("periodicity holds for all components" + lab, m is None or (m.op == "ctorobj" and len(m.args) == 1), w, show(m, 3) if m is not None else "")


def update(c, d):
    f = c.anchor(APP % d + "::update_dirichlet_boundary_conditions", 0)
    ev, _ = c.vg(f, opaque=opq)
    w = c.where(f)
    e = setter(ev, "set_affine_constraints")
    l = " (load step, dim %d)" % d
    c.ob("every load step hands new affine constraints to the field" + l, len(e) == 1 and e[0][4] is ONE and inloop(e[0]) is None, w, "%d calls" % len(e))
    c.ob("the constraints of Newton updates stay" + l, not setter(ev, "set_newton_method_constraints"), w, "")
    if len(e) != 1:
        return
    roots, ls = history(ev, e[0][3][0])
    c.ob("the object given to the field is a local constraint object" + l, bool(roots) and bool(ls), w, show(e[0][3][0], 3)[:200])
    common(c, ev, ls, l, w)
    got = merge_bcs(c, ev, ls, d, l, w)
    c.ob("the upper boundary takes the applied displacement" + l, got.get(("displacements", UPPER)) == "load", w, str(got))
    rest = {k: v for k, v in got.items() if k != ("displacements", UPPER)}
    c.ob("nothing else is changed" + l, all(v == "zero" and k[1] in (LOWER, UPPER) for k, v in rest.items()) and all(x.what != "add_line" for x in ls), w, str(rest))


def field(c, d):
    """what the field makes of the objects it is given"""
    for name, fld in (("set_affine_constraints", "affine_constraints"), ("set_newton_method_constraints", "newton_method_constraints")):
        f = c.anchor(FE % d + "::" + name, 1)
        ev, _ = c.vg(f, opaque=lambda q: False)
        w = c.where(f)
        mu = {}
        for m in ev.mutations:
            if AC_T in str(m[5]):
                mu[m[7]] = m
        got = [ev.events[k] for k in sorted(mu)]
        ok = len(got) == 1 and last(got[0][1]) == "merge" and show(got[0][2], 3) == "this." + fld and as_atom(got[0][3][0]).args[0] == f["params"][0]["n"] and "right_object_wins" in show(got[0][3][1], 3) and got[0][4] is ONE
        c.ob("%s replaces the lines it is given and keeps the others (dim %d)" % (name, d), ok, w, "; ".join("%s.%s(%s)" % (show(e[2], 3), last(e[1]), ", ".join(show(x, 3) for x in e[3])) for e in got)[:400])
    for name in ("hanging_node_constraints", "affine_constraints", "newton_method_constraints"):
        g = [f for f in c.prog.by_q.get(FE % d + "::get_" + name, [])]
        c.must(g, "getter of " + name)
        ev, r = c.vg(g[0], opaque=lambda q: False)
        r = ev.read(r, ("obj", "")) if isinstance(r, vg.Loc) else r
        c.ob("get_%s returns those constraints (dim %d)" % (name, d), show(r, 3) == "this." + name, c.where(g[0]), show(r, 3))
