"""P35: the system matrix has an entry for every coupling that is assembled, the solver's vectors have the field's layout."""
from lab import *
from report import Check
from kernel import *
import kernel
import terms as T
from solver import last, as_atom, layouts
from p08 import SOLVER
from p09 import configs, is_this, path_of, SKIP

EXPL = ("Each instance of the construction of the sparsity pattern is evaluated; for every owned cell, and every face of it between "
        "crystals that are coupled, the guard of an insertion of the rows and columns concerned is implied. The matrix of the solver "
        "and its vectors at the end of the set-up are compared with the terms expected.")
RANK = "this_mpi_process"


def check():
    c = Check("P35", "global value graph of set-up and sparsity pattern; implication of guards in the algebra of conditions",
              "rows and columns of all couplings that are assembled are inserted for every owned cell and coupled face; matrix and vectors are sized from them",
              ["source/gradient_crystal_plasticity/setup.cc", "source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc",
               "source/gradient_crystal_plasticity/assembly.cc", "source/gradient_crystal_plasticity/assembly_data.cc", "source/fe_field.cc",
               "source/gradient_crystal_plasticity/solve.cc", "source/gradient_crystal_plasticity/active_set.cc"])
    c.load()
    n = 0
    for f in sorted((f for f in c.prog.funcs.values() if f["q"].endswith("make_sparsity_pattern") and f.get("body") and "GradientCrystalPlasticitySolver" in f["q"]),
                    key=lambda f: (f["q"], f["params"][0]["t"])):
        n += 1
        for lab, dec, gb, init in configs(c):
            pattern(c, f, lab, dec or gb == "Microtraction", init)
    c.must(n > 0, "no construction of the sparsity pattern")
    for d in (2, 3):
        system(c, d)
    c.count("local vectors created without layout", layouts(c, sorted((f for f in c.prog.funcs.values() if f.get("body")), key=lambda f: f["q"])))
    return c.finish(EXPL)


def cell_of(t):
    """(cell, loop variable) of an active cell of the field"""
    t = as_atom(t)
    if isinstance(t, Term) and t.op == "at" and len(t.args[1]) == 1 and t.args[1][0][0] == "i":
        b, v = as_atom(t.args[0]), t.args[1][0][1]
        while isinstance(b, Term) and b.op == "call" and b.args[0] in ("filter_iterators", "operator|"):
            b = as_atom(b.args[1])
        if isinstance(b, Term) and b.op == "call" and b.args[0] == "active_cell_iterators" and as_atom(b.args[1]) is fld("fe_field.dof_handler"):
            return t, v
    return None


def indices(t):
    """the cell or neighbour whose unknowns an array holds"""
    t = as_atom(t)
    if isinstance(t, Term) and t.op == "out" and isinstance(t.args[1], Term) and t.args[1].op == "call" and last(str(t.args[1].args[0])) == "get_dof_indices":
        x = as_atom(t.args[1].args[1])
        if cell_of(x):
            return ("own", cell_of(x)[0], None)
        if isinstance(x, Term) and x.op == "call" and x.args[0] == "neighbor" and cell_of(x.args[1]):
            return ("neighbour", cell_of(x.args[1])[0], x.args[2])
    return None


def assumed(g, cell, face=None):
    """the guard for an owned cell whose finite element is its crystal's"""
    cells = [cell] + ([call("neighbor", cell, face)] if face is not None else [])
    for x in {x for x in subterms(g) if is_bool_atom(x)}:
        one = False
        if x.op == "b" and isinstance(x.args[0], Term) and x.args[0].op == "call" and x.args[0].args[0] == "is_locally_owned" and as_atom(x.args[0].args[1]) is cell:
            one = True
        names = {(y.args[0], as_atom(y.args[1])) for y in subterms(x) if y.op == "call" and len(y.args) > 1}
        ns = {last(str(a)) for a, _ in names}
        if x.op == "eq0":
            if "subdomain_id" in ns and RANK in ns and ("subdomain_id", cell) in names or ("subdomain_id", cell) in names and "locally_owned_subdomain" in ns:
                one = True
            for y in cells:
                if ("active_fe_index", y) in names and ("material_id", y) in names and not any(a in ("active_fe_index", "material_id") and z is not y for a, z in names):
                    one = True
        if one:
            g = T.replace(g, x, ONE, memo={})
    return g


def interface(g, cell, face):
    """... at an interior face between this cell and one of a different crystal"""
    n = call("neighbor", cell, face)
    for x in {x for x in subterms(g) if is_bool_atom(x)}:
        names = {(y.args[0], as_atom(y.args[1])) for y in subterms(x) if y.op == "call" and len(y.args) > 1}
        off = False
        if x.op == "b" and any(a == "at_boundary" and isinstance(y, Term) and y.op == "call" and y.args[0] == "face" and as_atom(y.args[1]) is cell and same(y.args[2], face) for a, y in names):
            off = True
        if x.op == "b" and any(y.op == "call" and y.args[0] == "at_boundary" and len(y.args) == 3 and as_atom(y.args[1]) is cell and same(y.args[2], face) for y in subterms(x)):
            off = True
        if x.op == "eq0" and {("material_id", cell), ("material_id", n)} <= names and not any(a == "material_id" and y not in (cell, n) for a, y in names):
            off = True
        if x.op in ("eq0", "b") and ("active_cell_index", cell) in names and "cell_is_at_grain_boundary" in show(x, 6):
            off = x.op == "eq0"
            if not off:
                g = T.replace(g, x, ONE, memo={})
        if off:
            g = T.replace(g, x, ZERO, memo={})
    return g


def same(a, b):
    return a is b or (as_atom(a) is not None and as_atom(a) is as_atom(b))


def pattern(c, f, cfg, on, init):
    w = c.where(f)
    lab = "%s, dim %s, %s" % (cfg, f["q"].split("<")[1].split(">")[0], f["params"][0]["t"].split("::")[-1].strip(" &"))
    ev, r = c.vg(f, opaque=kernel.opaque, init=init)
    own, nb, bad = [], [], []
    name = "$" + f["params"][0]["n"]
    for e in ev.events:
        if e[0] != "call" or last(e[1]) != "add_entries_local_to_global":
            continue
        p = [k for k, a in enumerate(e[3]) if into(a, name)]
        if len(p) != 1:
            bad.append(show(mk("tuple", *e[3]), 5)[:400])
            continue
        who = [indices(a) for a in e[3][:p[0]]]
        if None in who or len(who) not in (1, 2):
            bad.append(show(mk("tuple", *e[3]), 5)[:400])
            continue
        con = as_atom(e[2])
        c.ob("constraints of the Newton iteration are resolved, %s, line %s" % (lab, len(own) + len(nb)), con in (fld("fe_field.newton_method_constraints"), fld("fe_field.affine_constraints"), fld("internal_newton_method_constraints")), w, show(con, 4)[:200])
        mask = e[3][p[0] + 2] if len(e[3]) > p[0] + 2 else None
        c.ob("no couplings masked, %s, line %s" % (lab, len(own) + len(nb)), mask is None or mask.op == "fill" and mask.args[1] is ZERO or mask.op == "ctorobj" and len(mask.args) == 1, w, show(mask, 4)[:200] if mask is not None else "")
        if len(who) == 1 or who[0] == who[1]:
            (own if who[0][0] == "own" else nb).append((e, who[0]))
        else:
            nb.append((e, who))
    c.ob("what is inserted are unknowns of a cell or its neighbour, %s" % lab, not bad, w, "; ".join(bad)[:900])
    ok = False
    gs = []
    for e, x in own:
        g = assumed(e[4], x[1])
        gs.append(g)
        ok = ok or g is ONE and every_cell(ev, x[1], None)
    c.ob("unknowns of every owned cell couple with one another, %s" % lab, ok, w, "; ".join(show(g, 7)[:500] for g in gs))
    if not on:
        return
    ok, gs = False, []
    for e, x in nb:
        if len(x) != 2 or x[0][0] != "own" or x[1][0] != "neighbour" or x[0][1] is not x[1][1]:
            continue
        cell, face = x[1][1], x[1][2]
        g = interface(assumed(e[4], cell, face), cell, face)
        gs.append(g)
        ok = ok or g is ONE and every_cell(ev, cell, face)
    c.ob("unknowns of every owned cell couple with its neighbour's at coupled faces, %s" % lab, ok, w, "; ".join(show(g, 7)[:700] for g in gs) or "no such insertion")


def into(a, name):
    a = as_atom(a)
    return isinstance(a, Term) and any(x is mk("sym", name) or x.op in ("sym", "root") and str(x.args[0]) == name or x.op == "phi" and len(x.args) > 1 and str(x.args[1]) == name for x in subterms(a))


def every_cell(ev, cell, face):
    """the loops run over all active cells, and over all faces"""
    v = cell_of(cell)[1]
    lo, hi = ev.ranges.get(show(v, 9), (None, None))
    if lo is not ZERO or not size_of(hi, "active_cell_iterators", fld("fe_field.dof_handler")):
        return False
    if face is None:
        return True
    lo, hi = ev.ranges.get(show(as_atom(face) if as_atom(face) is not None else face, 9), (None, None))
    return lo is ZERO and (size_of(hi, ("face_indices", "face_iterators"), cell) or callee(hi, ("n_faces", "faces_per_cell"), cell))


def callee(t, names, of):
    t = as_atom(t)
    return isinstance(t, Term) and t.op == "call" and t.args[0] in names and as_atom(t.args[1]) is of


def size_of(t, names, of):
    t = as_atom(t)
    b = t.args[0] if isinstance(t, Term) and t.op == "size" else None
    while isinstance(b, Term) and b.op == "call" and b.args[0] in ("filter_iterators", "operator|"):
        b = as_atom(b.args[1])
    return isinstance(b, Term) and b.op == "call" and b.args[0] in ((names,) if isinstance(names, str) else names) and as_atom(b.args[1]) is of


def branch(t, c):
    """what holds with at least one slip system"""
    t0 = None
    while isinstance(t, Term) and t is not t0:
        t0 = t
        if t.op == "case":
            for g, v in t.args:
                if with_slips(g) is ONE:
                    t = v
                    break
    return t


def with_slips(g):
    for x in {x for x in subterms(g) if x.op == "lt0"}:
        if show(x, 6) == "[-this.crystals_data.n_slips<0]":
            g = T.replace(g, x, ONE, memo={})
    return g


LAYOUT = ("setup_vectors", "setup_extractors", "setup_dofs", "setup_affine_constraints")


def system(c, d):
    f = c.anchor(SOLVER % d + "init")
    w = c.where(f)
    ev, r = c.vg(f, opaque=lambda q: last(q) in tuple(SKIP) + LAYOUT or kernel.opaque(q))
    t = branch(as_atom(ev.read(Loc("$this", (("f", "jacobian"),)), ("obj", ""))), c)
    ok, why = matrix(t)
    c.ob("the system matrix is set up from the compressed pattern of the field's blocks, dim %d" % d, ok, w, why)
    es = [e for e in ev.events if e[0] == "call" and last(e[1]) == "make_sparsity_pattern" and e[2] is not None and "GradientCrystal" in str(e[1]) + "GradientCrystal"]
    es = [e for e in es if len(e[3]) == 1]
    c.ob("the pattern is made once, unconditionally, dim %d" % d, len(es) == 1 and es[0][4] is ONE, w, "%d calls" % len(es))
    for e in es:
        S = as_atom(e[2])
        a = as_atom(ev.descend(S, (("f", "cell_is_at_grain_boundary"),), ("obj", "")))
        b = as_atom(ev.read(Loc("$this", (("f", "cell_is_at_grain_boundary"),)), ("obj", "")))
        c.ob("... after the cells at crystal boundaries have been marked, dim %d" % d, a is b, w, "%s\n%s" % (show(a, 4)[:300], show(b, 4)[:300]))
    for n, src in (("trial_solution", "solution"), ("initial_trial_solution", "solution"), ("tmp_trial_solution", "solution"), ("newton_update", "solution"), ("residual", "distributed_vector")):
        rs = [e for e in ev.events if e[0] == "call" and last(e[1]) == "reinit" and is_this(as_atom(e[2]), n)]
        ok = len(rs) >= 1 and rs[-1][4] is ONE and as_atom(rs[-1][3][0]) is fld("fe_field." + src) and all(a is ZERO for a in rs[-1][3][1:2])
        c.ob("%s has the layout of the field's %s, dim %d" % (n, src, d), ok, w, str([[show(x, 5)[:200] for x in e[3]] for e in rs]))
        v = as_atom(ev.read(Loc("$this", (("f", n),)), ("obj", "")))
        z = isinstance(v, Term) and v.op == "refill" and v.args[0] is ZERO
        c.ob("%s starts at zero, dim %d" % (n, d), z, w, show(v, 4)[:300])
    for n in ("trial_microstress_right_hand_side", "trial_microstress_lumped_matrix", "slip_resistance", "tmp_slip_resistance", "active_set"):
        rs = [e for e in ev.events if e[0] == "call" and last(e[1]) == "reinit" and is_this(as_atom(e[2]), n)]
        ok = len(rs) >= 1 and with_slips(rs[-1][4]) is ONE
        ok = ok and trial_layout(rs[-1][3][0]) and all(a is ZERO for a in rs[-1][3][1:2])
        c.ob("%s has the layout of the trial microstress, dim %d" % (n, d), ok, w, str([[show(x, 5)[:200] for x in e[3]] + [show(e[4], 4)[:200]] for e in rs]))


def trial_layout(t):
    """the distributed vector of the trial microstress, or a vector with its layout"""
    t = as_atom(t)
    while isinstance(t, Term) and t.op == "after" and t.args[0] == "reinit":
        t = as_atom(t.args[2])
    if isinstance(t, Term) and t.op == "refill":
        return True
    if not (isinstance(t, Term) and t.op == "at" and t.args[1][-1] == ("f", "distributed_vector")):
        return False
    b = as_atom(t.args[0]) if len(t.args[1]) == 1 else None
    while isinstance(b, Term) and b.op in ("after", "objst"):
        b = as_atom(b.args[1] if b.op == "after" else b.args[0])
    return isinstance(b, Term) and b.op == "call" and "make_shared" in str(b.args[0])


def matrix(t):
    """reinit from the compressed result of make_sparsity_pattern of a pattern of the field's blocks"""
    P = lambda n: fld("fe_field." + n)
    if not (isinstance(t, Term) and t.op == "after" and t.args[0] == "reinit" and len(t.args) >= 3):
        return False, show(t, 4)[:400]
    s, made, compressed = as_atom(t.args[2]), None, False
    while isinstance(s, Term):
        if s.op == "after" and s.args[0] == "compress":
            compressed, s = True, as_atom(s.args[1])
        elif s.op == "after":
            if made is None:
                return False, "%s between compress and reinit" % s.args[0]
            s = as_atom(s.args[1])
        elif s.op == "out" and isinstance(s.args[1], Term) and s.args[1].op == "call" and last(str(s.args[1].args[0])) == "make_sparsity_pattern":
            made = s.args[1]
            s = as_atom(made.args[-1])
        else:
            break
    if made is None or not compressed:
        return False, "pattern: %s, compressed: %s" % (made is not None, compressed)
    if not (isinstance(s, Term) and s.op == "ctorobj" and "BlockSparsityPattern" in str(s.args[0])):
        return False, show(s, 5)[:400]
    a = [as_atom(x) for x in s.args[1:]]
    own, rel = P("locally_owned_dofs_per_block"), P("locally_relevant_dofs_per_block")
    ok = a[:3] == [own, own, rel] or a[:1] == [own] and len(a) == 2
    return ok, show(s, 5)[:400]
