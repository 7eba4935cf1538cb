"""P18 assemblies: every owned cell once, from zero, whatever the schedule."""
from lab import *
from report import Check
from kernel import *
import kernel
import workstream as W
from solver import last
from p08 import SOLVER, I, J
from p16 import hist_opaque, HIST, ids_ordered, F, neighbor

EXPL = ("Every call of WorkStream::run is evaluated in the state of its caller with a model that executes worker and copier "
        "for a symbolic cell: range and filter of the cells, state of the assembled object before and after, objects "
        "written by worker and copier, and freshness of everything the copier reads are decided from the resulting values.")
# driver -> (assembled object, constraints it is condensed with, degrees of freedom)
DRIVERS = {
    "assemble_jacobian": ("jacobian", "internal_newton_method_constraints", "fe_field.dof_handler"),
    "assemble_residual": ("residual", "internal_newton_method_constraints", "fe_field.dof_handler"),
    "reset_and_update_quadrature_point_history": (None, None, "fe_field.dof_handler"),
    "store_effective_opening_displacement_in_quadrature_history": (None, None, "fe_field.dof_handler"),
    "assemble_projection_matrix": ("lumped_projection_matrix", "projection_hanging_node_constraints", "projection_dof_handler"),
    "assemble_projection_rhs": ("projection_rhs", "projection_hanging_node_constraints", "projection_dof_handler"),
    "assemble_trial_microstress_lumped_matrix": ("trial_microstress_lumped_matrix", "trial_microstress.hanging_node_constraints", "trial_microstress.dof_handler"),
    "assemble_trial_microstress_right_hand_side": ("trial_microstress_right_hand_side", "trial_microstress.hanging_node_constraints", "trial_microstress.dof_handler"),
}
SPAWN = ("dealii::WorkStream::", "dealii::Threads::", "dealii::parallel::apply_to_subranges", "dealii::parallel::accumulate_from_subranges",
         "dealii::parallel::transform", "dealii::MeshWorker::", "dealii::TaskFlow", "std::thread", "std::async", "tbb::", "std::jthread")
DATA = mk("sym", "data")


def expressions(x):
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            yield from expressions(v)
    elif isinstance(x, list):
        for v in x:
            yield from expressions(v)


def spawn_sites(prog):
    out = set()
    for f in prog.funcs.values():
        if f.get("body") is None or f["q"].startswith(("std::", "dealii::")):
            continue
        for e in expressions(f["body"]):
            g = e.get("f") or {}
            q = str(g.get("q", ""))
            if e["k"] in ("call", "mcall", "ctor") and q.startswith(SPAWN):
                out.add((f["relfile"], e.get("l", 0), q.split("<")[0]))
    return out


def check():
    c = Check("P18", "value-graph model of the parallel assembly loops (effects of worker and copier, state before and after)", "", None)
    c.load()
    seen = set()
    for d in (2, 3):
        for n in DRIVERS:
            assembly(c, n, d, seen)
    for file, line, q in sorted(spawn_sites(c.prog)):
        c.count("concurrent loop")
        c.ob("concurrent loop at %s:%d is one of the analysed ones" % (file, line), (file, line) in seen, "%s:%d" % (file, line), q)
    return c.finish(EXPL)


def assembly(c, n, d, seen):
    """one parallel assembly: range, worker, copier, assembled object"""
    target, cons, dofs = DRIVERS[n]
    f = c.anchor(SOLVER % d + n)
    sites = []
    ev, r = c.vg(f, opaque=hist_opaque, hooks={W.RUN: W.make_hook(sites, before=state(target))})
    lab = "%s, dim %d" % (n, d)
    c.ob("one parallel loop: %s" % lab, len(sites) == 1, c.where(f), "%d calls of WorkStream::run" % len(sites))
    for s in sites:
        seen.add((s.file, s.line))
        loop(c, f, ev, s, lab, dofs)
        worker(c, f, ev, s, lab, d)
        copier(c, f, ev, s, lab, target, cons)
    if target and sites:
        whole(c, f, ev, sites[-1], lab, target)


def state(target):
    def before(ev, s):
        s.file = ev.frames[-1].func["relfile"]
        s.before = ev.read(Loc("$this", (("f", target),)), ("obj", "")) if target else None
    return before


def loop(c, f, ev, s, lab, dofs):
    ok = s.guard is ONE and s.loop == 0
    c.ob("runs unconditionally, once: %s" % lab, ok, c.where(f, s.line), show(s.guard, 4))
    dh = fld(dofs)
    loc = mk("ctorobj", "dealii::IteratorFilters::LocallyOwnedCell")
    r = list(s.range)
    txt = " .. ".join(show(x, 5) for x in r)
    good = False
    if len(r) == 2 and all(x.op == "ctorobj" and "FilteredIterator" in str(x.args[0]) and len(x.args) == 3 for x in r):
        a, b = r
        good = a.args[1] is loc and b.args[1] is loc and a.args[2].op == b.args[2].op == "call" \
            and a.args[2].args[0] == "begin_active" and b.args[2].args[0] == "end" and a.args[2].args[1] is dh and b.args[2].args[1] is dh \
            and all(const(x) == 0 for x in a.args[2].args[2:])
    elif len(r) == 1:
        x = r[0]
        while isinstance(x, Term) and x.op == "ctorobj" and len(x.args) == 2:
            x = x.args[1]
        cells = call("active_cell_iterators", dh)
        own = (mk("call", "op|", cells, loc),)
        good = x in own or x.op == "call" and "filter_iterators" in str(x.args[0]) and cells in x.args and loc in x.args
    else:
        c.must(False, "range of the loop: %s" % txt)
    c.ob("every locally owned cell exactly once: %s" % lab, good, c.where(f, s.line), txt[:600])


def owner(o):
    """the object a term denotes a part of"""
    while isinstance(o, Term):
        if o.op in ("at", "objst"):
            o = o.args[0]
        elif o.op == "after":
            o = o.args[1]
        else:
            return o
    return o


def worker(c, f, ev, s, lab, d):
    bad = ["%s written at line %s" % (show(at(ev.base[r], st.steps), 4)[:120], st.line) for r, st in s.worker_stores]
    c.ob("the worker alters no shared object: %s" % lab, not bad, c.where(f, s.line), "; ".join(bad)[:800])
    K = Canon(ev, d, {}, opaque=hist_opaque)
    for name, o, root, g, line, t, rp, k in s.worker_mutations:
        if root in ("$scratch", "$data", "$cell"):
            continue
        b = as_term(owner(K(o)))
        if b.op in ("ctorobj", "fill", "ilist", "undef", "new", "refill"):
            continue
        if b.op == "call" and b.args[0] == "get_data" and name in HIST or name in ("get_data",):
            if name == "get_data":
                continue                     # access to the storage
            if len(b.args) == 3:
                c.ob("history of the worker's own cell: %s" % lab, b.args[2] is CELL, c.where(f, line), show(b, 4))
                continue
            e = ev.events[k]
            sub_ = {"λ" + l[1]: var("F") for l in e[7:] if isinstance(l, tuple) and l[0] == "in" and K(ev.ranges["λ" + l[1]][1]) is NFACES}
            gg, low = ids_ordered(K(subst(g, sub_)))
            own = atom(mk("b", call("is_locally_owned", neighbor(F))))
            one = mul(gg, own, low) is ZERO or mul(gg, own, lnot(low)) is ZERO
            c.ob("a history shared by two cells is written by one of them (%s): %s" % (name, lab), one, c.where(f, line), show(gg, 6)[:500])
            continue
        c.ob("the worker alters no shared object (%s): %s" % (name, lab), rp in ("r", "p") and root is None, c.where(f, line), "%s of %s" % (name, show(o, 4)[:200]))


def as_term(x):
    if isinstance(x, Term) and x.op == "poly":
        return single_atom(x) or x
    return x


def worker_value(ev, steps, t):
    return ev.read(Loc("$data", steps), t)


def stale(t):
    return any(x is DATA for x in subterms(t))


def copier(c, f, ev, s, lab, target, cons):
    wrong = ["%s at line %s" % (show(at(ev.base[r], st.steps), 4)[:120], st.line) for r, st in s.copier_stores if not (r == "$this" and target and st.steps[:1] == (("f", target),))]
    c.ob("the copier writes the assembled object only: %s" % lab, not wrong, c.where(f, s.line), "; ".join(wrong)[:500])
    if not target:
        return
    dist = [e for e in s.copier_events if e[0] == "call" and last(e[1]) == "distribute_local_to_global"]
    c.ob("contributions are distributed: %s" % lab, bool(dist), c.where(f, s.line), "no distribute_local_to_global")
    for st in [st for r, st in s.copier_stores if r == "$this"]:
        b = as_term(st.val)
        ok = b.op == "mu" or b.op == "out" and b.args[1].op == "call" and last(str(b.args[1].args[0])) == "distribute_local_to_global"
        c.ob("contributions are added through the constraints: %s" % lab, ok, c.where(f, st.line), show(b, 3)[:200])
    own = []
    for e in dist:
        c.ob("condensed with %s: %s" % (cons, lab), e[2] is fld(cons), c.where(f, e[5]), show(e[2], 4))
        if not any(isinstance(x, tuple) and x[0] == "in" for x in e[6:]):
            own.append(e)
    ok = len(own) == 1
    c.ob("a cell's own contribution is added once: %s" % lab, ok, c.where(f, s.line), "%d times" % len(own))
    # what the copier looks at was written for this very cell
    fresh = {}
    for e in s.copier_events:
        for t in e[1:]:
            for x in subterms(t) if isinstance(t, Term) and not isinstance(t, str) else []:
                y = copied(x)
                if is_bool_atom(x) and x.op == "b" and len(x.args) == 1 and copied(x.args[0]):
                    y, ty = copied(x.args[0]), ("bool",)
                elif y and y[-1] == ("f", "#size"):
                    ty = ("num", True)
                else:
                    continue
                if y in fresh:
                    continue
                fresh[y] = v = worker_value(ev, y, ty)
                c.ob("%s is set anew for every cell: %s" % (".".join(str(z[1]) for z in y), lab), not stale(v), c.where(f, s.line), show(v, 5)[:300])

    def seen_by_copier(t):
        for x in list(subterms(t)):
            if is_bool_atom(x) and x.op == "b" and len(x.args) == 1 and copied(x.args[0]) in fresh:
                t = replace(t, x, fresh[copied(x.args[0])], {})
        return t
    for e in own:
        names = [copied(a) for a in e[3][:2]]
        c.must(None not in names and len(names) == 2, "local data distributed")
        g = seen_by_copier(e[4])
        indices(c, f, ev, e, lab, names[1], g)
        ext = names[0]
        vals = []
        for st in (ext + (("i", I),), ext + (("i", I), ("i", J))):
            try:
                vals.append((st, ev.read(Loc("$data", st), ("num", False))))
            except Exception:
                continue
        c.must(vals, "local values readable")
        clean = any(not stale(mul(g, v)) for st, v in vals)
        c.ob("local values are computed anew for every cell: %s" % lab, clean, c.where(f, e[5]), show(vals[0][1], 4)[:300])
        # cells which are left out have nothing to contribute
        rest = lnot(g)
        ok = rest is ZERO or any(mul(rest, sub(v, atom(at(DATA, st)))) is ZERO or mul(rest, v) is ZERO for st, v in vals)
        c.ob("no cell with a contribution is left out: %s" % lab, ok, c.where(f, e[5]), show(g, 5)[:300])
    for e in s.copier_events:
        if e in own or e not in dist:
            continue
        lists = [copied(a) for a in e[3][:3]]
        n = [l for l in e[6:] if isinstance(l, tuple) and l[0] == "in"]
        if not any(l and l[-1][0] == "i" for l in lists):
            c.ob("a cell's contribution is not added repeatedly: %s" % lab, False, c.where(f, e[5]), "inside a loop")
            continue
        lo, hi = ev.ranges["λ" + n[-1][1]] if len(n) == 1 else (None, None)
        ok = len(e[3]) == 4 and lists[1] and lists[1][-1][0] != "i" and lists[2] and lists[2][-1][0] == "i"
        c.ob("coupling matrices: rows at the cell's own unknowns, columns at the neighbour's: %s" % lab, bool(ok), c.where(f, e[5]), str(lists)[:300])
        for l in lists:
            if l and l[-1][0] == "i":
                size = worker_value(ev, l[:-1] + (("f", "#size"),), ("num", True))
                c.ob("%s holds contributions of this cell only: %s" % (l[0][1], lab), not stale(size), c.where(f, e[5]), show(size, 4)[:300])
                got = worker_value(ev, copied(hi), ("num", True)) if hi is not None and copied(hi) else hi
                ok = lo is ZERO and got is size and l[-1][1] is var("λ" + n[-1][1])
                c.ob("each of %s is added once: %s" % (l[0][1], lab), ok, c.where(f, e[5]), "loop from %s to %s" % (lo, hi))
            elif l:
                indices(c, f, ev, e, lab, l, seen_by_copier(e[4]))


def copied(x):
    """the part of the copied data a term denotes"""
    x = as_term(x)
    return x.args[1] if isinstance(x, Term) and x.op == "at" and x.args[0] is mk("sym", "copied") else None


def indices(c, f, ev, e, lab, name, g):
    idx = as_term(worker_value(ev, name, ("obj", "")))
    want = call("get_dof_indices", CELL, mk("sym", "out"))

    def own(v):
        v = as_term(v)
        return v.op == "out" and v.args[1] is want
    ok = own(idx) or idx.op == "case" and all(own(v) for h, v in idx.args[0] if mul(h, g) is not ZERO)
    c.ob("added at the cell's own unknowns: %s" % lab, ok, c.where(f, e[5]), show(idx, 5)[:300])


def whole(c, f, ev, s, lab, target):
    b = as_term(s.before)
    c.ob("%s is zero when the cells are visited: %s" % (target, lab), b.op == "refill" and b.args[0] is ZERO, c.where(f, s.line), show(b, 3)[:200])
    v = as_term(ev.read(Loc("$this", (("f", target),)), ("obj", "")))
    ok = v.op == "after" and last(str(v.args[0])) == "compress" and len(v.args) == 3 and "add" in show(v.args[2], 2)
    inner = set()
    if ok:
        todo = [v.args[1]]
        while todo:
            x = as_term(todo.pop())
            if x.op == "case":
                todo += [y for h, y in x.args[0]]
            else:
                inner.add(x.op if x.op != "refill" else "none added")
    ok = ok and inner <= {"out", "mu", "none added"} and inner & {"out", "mu"}
    c.ob("contributions of all processes are summed afterwards, nothing else is done to %s: %s" % (target, lab), bool(ok), c.where(f), show(v, 4)[:300])
