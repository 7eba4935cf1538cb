"""P12: the two cells of a crystal boundary share one set of interface records.

The store of the records is evaluated on a symbolic map (any content).  Its key, as a function of the ids of the two
cells, is computed for either order of the ids in the query (both overloads) and in the initialisation: it must be one
and the same pair.  The loops of the initialisation over cells and faces are taken as one generic iteration, so that what
it creates, where, under which condition and with how many distinct records is decided for every mesh.  Finally every
record of every owned cell and of every face must be initialised with the parameters of its law."""
from lab import *
from report import Check
import terms as T
import vg
import kernel
from kernel import *
from p08 import SOLVER, Q, F
from p09 import replace_obj
from solver import last, calls, loops
import p16

THIS = mk("sym", "this")
MAP = mk("at", THIS, (("f", "map"),))
EXPL = "keys of the store of interface records, one generic iteration of its initialisation, and the initial values of all records"


def check():
    c = Check("P12", "value graph of the record store on an arbitrary map; generic iteration of its initialisation", 
              "one key for a pair of cells in either order; n distinct records created exactly at owned interior faces between crystals; each initialised with its law's parameters",
              ["source/gradient_crystal_plasticity/setup.cc", "source/gradient_crystal_plasticity/quadrature_point_history.cc"])
    c.load()
    qs = sorted({q for q in c.prog.by_q if "InterfaceDataStorage<" in q and q.rsplit("::", 1)[-1] in ("get_data", "initialize")})
    stores = {}
    for q in qs:
        for f in c.prog.by_q[q]:
            if f.get("body") is not None:
                stores.setdefault(q.rsplit("::", 1)[0], {}).setdefault(last(q), []).append(f)
    n = 0
    for cls, fs in sorted(stores.items()):
        if "InterfaceQuadraturePointHistory" not in cls or "initialize" not in fs:
            continue
        c.must(fs.get("get_data"), "get_data of " + cls)
        n += 1
        d = 3 if "3>" in cls.split("InterfaceQuadraturePointHistory", 1)[1] else 2
        keys = None
        for f in sorted(fs["get_data"], key=lambda f: bool(f["const"])):
            k = query(c, d, f)
            keys = keys or k
            c.ob("both queries use one key, dim %d" % d, k == keys, c.where(f), str(k))
        for f in fs["initialize"]:
            creation(c, d, f, keys)
    c.must(n >= 2, "stores of interface records")
    for d in (2, 3):
        initial(c, d)
    return c.finish(EXPL)


# ---------------------------------------------------------------- rewriting under assumptions
def each(t, cond):
    """t with every boolean atom satisfying cond(x) -> value"""
    for _ in range(6):
        done = True
        for x in list(subterms(t)):
            if is_bool_atom(x):
                v = cond(x)
                if v is not None:
                    t2 = replace(t, x, v)
                    if t2 is not t:
                        t, done = t2, False
                        break
        if done:
            break
    return t


def objs(x):
    """the two sides of an object comparison"""
    return (x.args[1], x.args[2]) if x.op == "b" and len(x.args) == 3 and isinstance(x.args[0], str) else None


def order(a, b, less):
    """assumption on the order of two different ids"""
    def v(x):
        o = objs(x)
        if o is None or set(o) != {a, b}:
            return None
        op = x.args[0]
        if op == "==":
            return ZERO
        if op in ("<", "<="):
            return num(1 if (o[0] is a) == less else 0)
        if op in (">", ">="):
            return num(0 if (o[0] is a) == less else 1)
        return None
    return v


def base_map(m):
    while m.op == "call" and m.args[0] in ("after",) or m.op == "after":
        m = m.args[1]
    return m


def presence(key, present, n):
    """assumption on whether the map has an entry of this key; if so it has as many records as the initialisation creates"""
    size = mk("at", THIS, (("f", "map"), ("i", key), ("f", "#size")))

    def v(x):
        if size in set(subterms(x)):
            r = replace(replace(atom(x), size, n if present else ZERO), single_atom(n), num(7))
            return r if const(r) is not None else None
        if x.op == "b" and len(x.args) == 3 and x.args[0] == "==":
            fs = [y for y in x.args[1:] if isinstance(y, Term) and y.op == "call" and y.args[0] == "find"]
            es = [y for y in x.args[1:] if isinstance(y, Term) and y.op == "call" and y.args[0] in ("end", "cend")]
            if len(fs) == len(es) == 1 and base_map(fs[0].args[1]) is MAP and base_map(es[0].args[1]) is MAP and fs[0].args[2] is key:
                return num(0 if present else 1)
        for y in subterms(x):
            if y.op == "call" and y.args[0] in ("count", "contains") and base_map(y.args[1]) is MAP and y.args[2] is key:
                r = replace(atom(x), y, num(1 if present else 0)) if x.op != "b" else num(1 if present else 0)
                return r if const(r) is not None else None
        if x.op == "b" and isinstance(x.args[0], Term):
            y = x.args[0]
            if y.op == "call" and y.args[0] == "empty" and y.args[1] is mk("at", THIS, (("f", "map"), ("i", key))):
                return num(0 if present else 1)
        return None
    return v


def pair(t):
    """(first, second) of a key"""
    if t.op == "rec":
        r = dict(t.args[0])
        return (r.get("first"), r.get("second"))
    return None


# ---------------------------------------------------------------- queries
def entry_of(t):
    """(key, remaining steps) of a value read from the map"""
    o, st = t.args if t.op == "at" else (t, ())
    if o is THIS and len(st) >= 2 and st[0] == ("f", "map") and st[1][0] == "i":
        return st[1][1], st[2:]
    if o.op == "call" and o.args[0] in ("find", "at") and base_map(o.args[1]) is MAP and len(o.args) == 3:
        st = st[1:] if o.args[0] == "find" and st and st[0] == ("f", "second") else st
        return o.args[2], st
    return None


def cast_away(t):
    """a pointer converted to const shares its object"""
    while t.op == "call" and str(t.args[0]).rsplit("::", 1)[-1] in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast") and len(t.args) == 3:
        t = t.args[2]
    return t


def query(c, d, f):
    ev, r = c.vg(f, opaque=lambda q: False)
    c.need(len(f["params"]) == 2, "arguments of get_data")
    a, b = (mk("sym", p["n"]) for p in f["params"])
    get = ev.read if isinstance(r, vg.Loc) else lambda l, t: ev.descend(r, l.steps, t)
    here = r if isinstance(r, vg.Loc) else vg.Loc("", ())
    size = get(here.f("#size"), ("num", True))
    keys = []
    for less in (True, False):
        g = order(a, b, less)
        lab = "%s, %s id first, dim %d" % ("const query" if f["const"] else "query", "lower" if less else "higher", d)
        s = single_atom(each(size, g))
        if s is not None and s.op == "size":
            y = entry_of(s.args[0])
            y = y and (y[0], y[1] + (("f", "#size"),))
        else:
            y = entry_of(s) if s is not None else None
        ok = y is not None and y[1] == (("f", "#size"),)
        c.ob("as many records as are stored for the pair: " + lab, ok, c.where(f), show(size, 8)[:300])
        x = y
        for n in (1, 5):
            for i in range(n):
                e = each(get(here.i(num(i)), ("obj", "")), g)
                if s is not None:
                    e = replace(e, s, num(n))
                e = cast_away(e)
                x = entry_of(e)
                ok = x is not None and y is not None and x[0] is y[0] and x[1] == (("i", num(i)),)
                c.ob("the record stored for point %d of %d: %s" % (i + 1, n, lab), ok, c.where(f), "%s" % show(e, 8)[:400])
        k = pair(x[0]) if x else None
        ok = k is not None and set(k) == {a, b}
        c.ob("the key holds the ids of the two cells: %s" % lab, ok, c.where(f), str(x and show(x[0], 5)))
        keys.append(tuple(0 if y is a else 1 for y in k) if ok else None)
    ok = None not in keys and keys[0] != keys[1]
    c.ob("the key does not depend on which of the cells asks: %s, dim %d" % ("const query" if f["const"] else "query", d), ok, c.where(f), str(keys))
    c.ob("a query changes no records: %s, dim %d" % ("const query" if f["const"] else "query", d),
         not any(st.steps[:1] == (("f", "map"),) for st in ev.logs.get("$this", ())), c.where(f))
    return keys


# ---------------------------------------------------------------- initialisation
def creation(c, d, f, keys):
    N = mk("sym", f["params"][2]["n"])
    points = lambda hi: N in set(subterms(hi)) or any(x.op == "sym" and str(x.args[0]) == str(N.args[0]) for x in subterms(hi)) or MAP in set(subterms(hi)) or "map" in show(hi, 30)
    ev, r = c.vg(f, opaque=lambda q: False, generic=lambda hi: not points(hi))
    w = c.where(f)
    # -- the loops
    first, past = (mk("sym", p["n"]) for p in f["params"][:2])
    cell, face = None, None
    for e in ev.events:
        if e[0] == "generic-loop":
            for root, (start, sym, nxt) in e[3].items():
                if start is first:
                    c.must(cell is None, "one loop over the cells")
                    cell = sym
                    c.ob("every cell of the range is visited, dim %d" % d, e[2] is lnot(atom(mk("b", "==", *sorted((past, sym), key=lambda t: t.dig)))) or e[2] is lnot(atom(mk("b", "==", past, sym))) or e[2] is lnot(atom(mk("b", "==", sym, past))), w, show(e[2], 6))
                    c.ob("one cell after the other, dim %d" % d, nxt.op == "call" and nxt.args[0] in ("++", "operator++") and nxt.args[1] is sym or show(nxt, 6) == "++(%s)" % show(sym, 6), w, show(nxt, 6))
    c.must(cell is not None, "loop over the cells")
    for e in ev.events:
        if e[0] == "generic-range":
            hi = e[3]
            want = atom(mk("size", mk("call", "face_indices", cell)))
            if hi is want or const(hi) == 2 * d or "faces_per_cell" in show(hi, 6):
                c.must(face is None, "one loop over the faces")
                face = var(e[1])
                c.ob("every face of the cell is visited, dim %d" % d, e[2] is ZERO, w, show(e[2], 4))
    c.must(face is not None, "loop over the faces")
    call = lambda n, *a: mk("call", n, *a)
    nb = call("neighbor", cell, face)
    ids = (call("id", cell), call("id", nb))
    own = single_atom(atom(mk("b", call("is_locally_owned", cell))))
    bnd = single_atom(atom(mk("b", call("at_boundary", call("face", cell, face)))))
    same = single_atom(eq(atom(call("material_id", cell)), atom(call("material_id", nb))))
    stores = list(ev.logs.get("$this", ()))
    made = [e for e in ev.events if e[0] == "call" and last(e[1]) in ("make_shared", "allocate_shared", "new")]
    for less in (True, False):
        if None in keys:
            break
        k = keys[0 if less else 1]
        key = mk("rec", (("first", ids[k[0]]), ("second", ids[k[1]])))
        for present in (True, False):
            for vo, vb, vs in ((1, 0, 0), (0, 0, 0), (1, 1, 0), (1, 0, 1)):
                wanted = (vo, vb, vs) == (1, 0, 0)
                fixed = {own: num(vo), bnd: num(vb), same: num(vs)}
                # the ids agree with the order assumed; nothing is assumed of other atoms
                o, pr = order(ids[0], ids[1], less), presence(key, present, atom(N))

                def value(x):
                    if x in fixed:
                        return fixed[x]
                    v = o(x)
                    return v if v is not None else pr(x)
                fix = lambda t: each(t, value)
                ev.logs["$this"] = []
                ev.base["$this"] = THIS
                for st in stores:
                    if st.steps[:1] != (("f", "map"),):
                        continue
                    g = fix(st.guard)
                    if g is ZERO:
                        continue
                    steps = tuple((x[0], fix(x[1])) if isinstance(x[1], Term) else x for x in st.steps)
                    vs_ = tuple((v, fix(lo) if isinstance(lo, Term) else lo, fix(hi) if isinstance(hi, Term) else hi) for v, lo, hi in st.vars)
                    ev.logs["$this"].append(vg.Store(st.kind, steps, fix(st.val), g, vs_, st.line))
                lab = "%s id first, %s, %s" % ("lower" if less else "higher", "known pair" if present else "new pair",
                                               "owned interior face between crystals" if wanted else ("cell of another process", "boundary face", "face inside a crystal")[((0, 0, 0), (1, 1, 0), (1, 0, 1)).index((vo, vb, vs))])
                lab += ", dim %d" % d
                e0 = len(ev.events)
                loc = vg.Loc("$this", (("f", "map"), ("i", key)))
                if wanted and not present:
                    size = fix(ev.read(loc.f("#size"), ("num", True)))
                    c.ob("as many records as quadrature points: " + lab, size is atom(N), w, show(size, 6)[:300])
                    whole = list(ev.logs["$this"])
                    for n in (1, 5):        # every point, for two numbers of points
                        few = lambda t: replace(t, N, num(n)) if isinstance(t, Term) else t
                        ev.logs["$this"] = [vg.Store(st.kind, tuple((a, few(b)) for a, b in st.steps), few(st.val), few(st.guard),
                                                     tuple((v, few(lo), few(hi)) for v, lo, hi in st.vars), st.line) for st in whole]
                        for i in range(n):
                            x = few(fix(ev.read(loc.i(num(i)), ("obj", ""))))
                            ok = x.op == "call" and last(str(x.args[0])) in ("make_shared", "allocate_shared") and len(x.args) == 2
                            c.ob("a new record for point %d of %d: %s" % (i + 1, n, lab), ok, w, show(x, 6)[:300])
                    ev.logs["$this"] = whole
                    ks = {s for st in ev.logs["$this"] for s in [st.steps[1][1] if len(st.steps) > 1 else None]}
                    c.ob("only under the key of the query: " + lab, ks == {key}, w, str([show(s, 6) if s is not None else None for s in ks])[:400])
                elif wanted:
                    ks = [st for st in ev.logs["$this"] if not harmless(st, key)]
                    c.ob("records that exist are kept: " + lab, not ks, w, str([(show(st.val, 5), show(st.guard, 5)) for st in ks])[:500])
                else:
                    ks = [st for st in ev.logs["$this"] if not harmless(st, key)]
                    c.ob("no records: " + lab, not ks, w, str([(show(st.val, 5), show(st.guard, 5)) for st in ks])[:500])
                del ev.events[e0:]
    c.ob("every point has its own record, dim %d" % d, bool(made) and all(len(loops(e)) >= 1 for e in made), w, str([(e[1], loops(e)) for e in made]))


def harmless(st, key):
    """a store that leaves the entry as it was"""
    return st.val.op == "at" and st.val.args[0] is THIS and st.val.args[1] == st.steps


# ---------------------------------------------------------------- initial values
def initial(c, d):
    f = c.anchor(SOLVER % d + "init_quadrature_point_history")
    for dec in (1, 0):
        ev, inits = evaluated(c, f, dec)
        K = Canon(ev, d, {}, opaque=p16.hist_opaque)
        lab = "decohesion %s, dim %d" % ("on" if dec else "off", d)
        # -- which records there are
        for path, nq, what in (("quadrature_point_history", fld("quadrature_collection"), "cells"), ("interface_quadrature_point_history", fld("face_quadrature_collection"), "faces")):
            es = [e for e in inits if e[2] is fld(path)]
            ok = len(es) == 1 and es[0][4] is ONE
            c.ob("records of the %s are created once: %s" % (what, lab), ok, c.where(f), str([(show(e[2], 4), show(e[4], 4)) for e in inits]))
            if not ok:
                continue
            a = es[0][3]
            n = a[2] if len(a) > 2 else None
            want = atom(mk("call", "max_n_quadrature_points", nq))
            c.ob("one record per quadrature point of the %s: %s" % (what, lab), n is want, c.where(f, es[0][5]), show(n, 6) if n is not None else "no number")
            dh = fld("fe_field.dof_handler")
            ok = len(a) > 2 and bound(a[0], "begin_active", dh) and bound(a[1], "end", dh)
            lo, hi = (show(x, 12) for x in a[:2])
            c.ob("records of the %s over all local cells: %s" % (what, lab), ok, c.where(f, es[0][5]), "%s … %s" % (lo[:200], hi[:200]))
        # -- their values
        found = []
        evs = [e for e in ev.events if e[0] == "call" and last(e[1]) in p16.HIST]
        c.must(evs, "initialised records")
        H = fld("parameters.constitutive_laws_parameters.hardening_law_parameters")
        D, Z = fld("parameters.constitutive_laws_parameters.damage_evolution_parameters"), fld("parameters.constitutive_laws_parameters.cohesive_law_parameters")
        S = atom(fld("parameters.dimensionless_form_parameters.characteristic_quantities.slip_resistance"))
        own = atom(mk("b", call("is_locally_owned", CELL)))
        ids = sorted((call("id", CELL), call("id", neighbor(F))), key=lambda t: t.dig)
        inner = mul(lnot(eq(crystal(), crystal(neighbor(F)))), lnot(atom(mk("b", call("at_boundary", call("face", CELL, F))))))
        for e in evs:
            recv, g, ok, args = p16.of_point(c, ev, K, e)
            args = [x.args[0] if x.op == "objst" else x for x in args]
            if last(e[1]) != "init":
                c.ob("records are only initialised: %s" % lab, False, c.where(f, e[5]), e[1])
                continue
            if recv is at(call("get_data", fld("quadrature_point_history"), CELL), (("i", Q),)):
                found.append("cell")
                c.ob("every point of every owned cell: %s" % lab, ok and implied(own, g) and implied(g, own), c.where(f, e[5]), show(g, 7)[:300])
                good = len(args) == 3 and args[0] is H and args[1] is K(NS) and args[2] is K(S)
                c.ob("hardening parameters, number of slips and reference slip resistance: %s" % lab, good, c.where(f, e[5]), str([show(x, 5) for x in args])[:400])
            elif recv is at(call("get_data", fld("interface_quadrature_point_history"), *ids), (("i", Q),)):
                found.append("face")
                full = mul(own, inner)
                marks = [x for x in subterms(g) if is_bool_atom(x) and "cell_is_at_grain_boundary" in show(x, 8)]
                for x in marks:
                    full = mul(full, lnot(atom(x)))
                c.ob("every point of the faces between crystals of owned cells: %s" % lab, ok and implied(full, g) and implied(g, mul(own, inner)), c.where(f, e[5]), show(g, 7)[:400])
                good = len(args) == 2 and args[0] is D and args[1] is Z
                c.ob("parameters of damage and cohesive law: %s" % lab, good, c.where(f, e[5]), str([show(x, 5) for x in args])[:400])
            else:
                c.ob("records of the cell and its faces: %s" % lab, False, c.where(f, e[5]), show(recv, 7)[:400])
        # records of the faces are used with decohesion only
        ok = found.count("cell") == 1 and (found.count("face") == 1 or not dec)
        c.ob("all records are initialised: %s" % lab, ok, c.where(f), str(found))


def bound(t, name, dh):
    """is t the first / past-the-end active cell, filtered to the local ones or not?"""
    if t.op == "ctorobj" and "FilteredIterator" in str(t.args[0]) and any(isinstance(x, Term) and "LocallyOwnedCell" in show(x, 4) for x in t.args[1:-1]):
        t = t.args[-1]
    names = {name, "end_active"} if name == "end" else {name}
    return t.op == "call" and t.args[0] in names and t.args[1] in (dh, call("get_triangulation", dh)) and all(x is ZERO for x in t.args[2:])


def implied(a, b):
    """a => b"""
    return mul(a, lnot(b)) is ZERO


def evaluated(c, f, dec):
    inits = []

    def hook(ev, e):
        o = ev.ev(e["obj"])
        r = ev.read(o, ("obj", "")) if isinstance(o, vg.Loc) else o
        x = ("call", "initialize", r, tuple(ev.rv(a) for a in e["a"]), ev.full(), e.get("l", 0), "")
        inits.append(x)
        return mk("sym", "void")
    hooks = {"dealii::CellDataStorage::initialize": hook, "gCP::InterfaceDataStorage::initialize": hook}
    ev, r = c.vg(f, opaque=p16.hist_opaque, hooks=hooks, init={"fe_field.flag_allow_decohesion": num(dec)})
    return ev, inits
