"""P29 degrees of freedom: layout of the unknowns, blocks, owned sets, norms."""
import re

from lab import *
from report import Check
from solver import *
import terms as T
import vg

EXPL = ("A field is built, set up and queried through its public interface on the abstract state, for several numbers of crystals and slip systems, with and without decohesion, "
        "one or two blocks: elements of every component, extractors, component map, numbering, block and owned index sets, vectors, copies; and the norms for a symbolic field.")
FE = "gCP::FEField<%d>"
SIZES = {2: ((1, 2), (3, 2), (2, 3), (2, 0)), 3: ((2, 2), (1, 0))}
DOF, FACTOR, VEC = var("dof"), atom(mk("sym", "factor")), mk("sym", "v")
COMM = "ompi_mpi_comm_world"


def check():
    c = Check("P29", "value graph of the field's construction and of its queries, against one component layout",
              "each crystal's own unknowns, displacements before slips, blocks and owned sets along that split, norms over it", ("source/fe_field.cc",))
    c.load()
    for d in (2, 3):
        for nc, ns in SIZES[d]:
            for deco in (True, False):
                for single in (True, False):
                    layout(c, d, nc, ns, deco, single)
        norms(c, d)
        copy(c, d)
    return c.finish(EXPL)


# ---------------------------------------------------------------- terms
def short(t):
    return str(t.args[0]).rsplit("::", 1)[-1].split("<")[0] if isinstance(t, Term) and t.args else ""


def call_of(t):
    """(function, receiver, arguments, position of t in the call) of the call whose effect or result t is"""
    t = as_atom(t)
    if not isinstance(t, Term):
        return None
    if t.op == "out" and t.args[1].op == "call":
        return short(t.args[1]), t.args[1].args[1], t.args[1].args[2:], t.args[0]
    if t.op == "after":
        return short(t), t.args[1], t.args[2:], "self"
    if t.op == "call":
        return short(t), t.args[1], t.args[2:], "result"
    return None


def whole(L, v):
    if isinstance(v, Loc):
        v = L.ev.read(v, ("obj", ""))
    return as_atom(v)


def item(L, t, *steps):
    return as_atom(L.ev.descend(t, tuple(("i", num(s)) if isinstance(s, int) else s for s in steps), ("obj", "")))


def size(L, v):
    if isinstance(v, Loc):
        return const_of(L.ev.read(v.f("#size"), ("num", True)))
    return const_of(L.ev.descend(v, (("f", "#size"),), ("num", True)))


def const_of(t):
    return int(const(t)) if isinstance(t, Term) and isnum(t) else None


def pushed(t):
    """elements pushed into an initially empty collection, or None"""
    out = []
    t = as_atom(t)
    while True:
        k = call_of(t)
        if k and k[0] == "push_back" and k[3] == "self":
            out.append(as_atom(k[2][0]))
            t = as_atom(k[1])
            continue
        return list(reversed(out)) if t.op == "ctorobj" and len(t.args) == 1 else None


def components(L, t):
    """the element of every component of a system: ("FE_Q", degree) or ("FE_Nothing",)"""
    if t.op != "ctorobj" or short(t) != "FESystem":
        return None
    a = list(t.args[1:])
    parts = []
    if a and (a[0].op != "ctorobj" or short(a[0]) not in ("FE_Q", "FE_Nothing", "FESystem")):
        n = size(L, a[0])
        if n is None or len(a) < 2 or size(L, a[1]) != n:
            return None
        parts = [(item(L, a[0], k), L.ev.descend(a[1], (("i", num(k)),), ("num", True))) for k in range(n)]
    else:
        if len(a) % 2:
            return None
        parts = list(zip(a[::2], a[1::2]))
    r = []
    for e, m in parts:
        e, m = as_atom(e), const_of(m)
        if m is None or e.op != "ctorobj":
            return None
        if short(e) == "FESystem":
            k = components(L, e)
            if k is None:
                return None
        elif short(e) == "FE_Q":
            k = [("FE_Q", show(e.args[1], 3))]
        elif short(e) == "FE_Nothing":
            if [x for x in e.args[1:] if isinstance(x, Term) and isnum(x)][1:2] == [ONE]:
                return None         # a dominating element constrains its neighbours
            k = [("FE_Nothing",)]
        else:
            return None
        r += k * m
    return r


# ---------------------------------------------------------------- layout
def layout(c, d, nc, ns, deco, single):
    q = FE % d
    lab = " (dim %d, %d crystals, %d slips, %s, %s)" % (d, nc, ns, "decohesion" if deco else "no decohesion", "one block" if single else "two blocks")
    late = {"get_global_component"}          # asked for below
    L = Lab(c, opaque=lambda f: "FEField" not in f or last(f) in late)
    o = L.new(q, "tria", "pu", "ps", ONE if deco else ZERO, ONE if single else ZERO)
    c.count("fields built")
    L.call(o, q + "::setup_extractors", nc, ns)
    n0 = len(L.ev.events)
    L.call(o, q + "::setup_dofs")
    L.call(o, q + "::setup_vectors")
    f = c.anchor(q + "::setup_dofs", 0)
    w = c.where(f)
    ob = lambda name, ok, detail="": c.ob(name + lab, bool(ok), w, detail, key=name)
    get = lambda name, *a: whole(L, L.raw(o, q + "::" + name, *a))
    nd = d * (nc if deco else 1)                      # displacement components
    total = nd + nc * ns
    # extractors
    for i in range(nc):
        base = i * d if deco else 0
        x = get("get_displacement_extractor", i)
        ob("displacement extractor of a crystal", first(L, x, "first_vector_component") == base, show(x, 5))
        for j in range(ns):
            x = get("get_slip_extractor", i, j)
            ob("slip extractor of a crystal", first(L, x, "component") == nd + i * ns + j, show(x, 5))
    ob("numbers of crystals and slips are kept", const_of(L.call(o, q + "::get_n_crystals")) == nc and const_of(L.call(o, q + "::get_n_slips")) == ns)
    # elements
    coll = get("get_fe_collection")
    sys_ = pushed(coll)
    ob("one element per crystal", sys_ is not None and len(sys_) == nc, show(coll, 4)[:300])
    for i, s in enumerate(sys_ or []):
        got = components(L, s)
        want = [("FE_Nothing",)] * total
        for k in range(d):
            want[(i * d if deco else 0) + k] = ("FE_Q", "pu")
        for k in range(ns):
            want[nd + i * ns + k] = ("FE_Q", "ps")
        ob("element of a crystal has its displacement and its slips only", got == want, "crystal %d\ngot  %s\nwant %s" % (i, got, want))
    late.clear()
    # global component of a local degree of freedom
    for i in range(nc):
        G = L.call(o, q + "::get_global_component", i, DOF)
        k, own = component_of(G)
        ok, detail = k is not None and same_fe(own, coll, i), show(G, 6)[:500]
        if ok:
            u = i * d if deco else 0
            for j in list(range(u, u + d)) + list(range(nd + i * ns, nd + (i + 1) * ns)):
                want, got = j - u if j < nd else d + j - nd - i * ns, const_of(T.replace(G, k, num(j)))
                if got != want:
                    ok, detail = False, "component %d of the element is taken as %s, not %s" % (j, got, want)
        ob("component of a crystal's unknown: direction or slip number", ok, detail)
    # numbering
    D = get("get_dof_handler")
    k = call_of(D)
    chain = []
    x = D
    while True:
        y = call_of(x)
        if not y or y[0] not in ("component_wise", "Cuthill_McKee", "distribute_dofs", "downstream", "hierarchical", "random", "boost::Cuthill_McKee", "block_wise"):
            break
        chain.append(y)
        x = as_atom(y[2][0] if y[3] == 0 else y[1])
    names = [y[0] for y in chain]
    ok = bool(chain) and names.count("distribute_dofs") == 1 and names[-1] == "distribute_dofs" and chain[-1][2][0] is coll
    ob("unknowns of the elements are distributed", ok, show(D, 5)[:400])
    if ns:
        ok = names[:1] == ["component_wise"] and blocks(L, chain[0][2][1], nd, total)
        ob("displacements are numbered before slips", ok, str(names) + " " + (show(chain[0][2][1], 5)[:300] if chain else ""))
    # sizes and index sets
    ndofs = atom(mk("call", "n_dofs", D))
    isn = lambda t: call_of(t) and call_of(t)[0] == "n_dofs" and (as_atom(call_of(t)[1]) is D)
    split = None
    if ns:
        for name, b in (("get_n_displacement_dofs", 0), ("get_n_plastic_slip_dofs", 1)):
            t = as_atom(L.call(o, q + "::" + name))
            ok = t.op == "at" and t.args[1] == (("i", num(b)),)
            y = call_of(t.args[0]) if ok else None
            ok = ok and y[0] in ("count_dofs_per_fe_block", "count_dofs_per_fe_component") and as_atom(y[2][0]) is D and len(y[2]) > 1 and blocks(L, y[2][1], nd, total)
            ob("number of %s unknowns" % ("slip" if b else "displacement"), ok, show(t, 5)[:400])
            if not b:
                split = t
    else:
        split = None
    ob("number of unknowns", isn(L.call(o, q + "::n_dofs")))
    owned = get("get_locally_owned_dofs")
    y = call_of(owned)
    ob("owned unknowns are those of the field's handler", y and y[0] == "locally_owned_dofs" and as_atom(y[1]) is D, show(owned, 4)[:300])
    rel = get("get_locally_relevant_dofs")
    y = call_of(rel)
    ok = y and y[0] == "extract_locally_relevant_dofs" and as_atom(y[2][0]) is D
    ob("relevant unknowns are those of the field's handler", ok, show(rel, 4)[:300])
    for name, S in (("get_locally_owned_dofs_per_block", owned), ("get_locally_relevant_dofs_per_block", rel)):
        v = get(name)
        n = size(L, v)
        got = [view(item(L, v, k)) for k in range(n or 0)]
        at0 = lambda t: isnum(t) and const(t) == 0
        if single:
            ok = n == 1 and got[0] and got[0][0] is S and at0(got[0][1]) and isn(got[0][2])
        elif ns:
            ok = n == 2 and all(got) and all(g[0] is S for g in got) and at0(got[0][1]) and as_atom(got[0][2]) is split and as_atom(got[1][1]) is split and isn(got[1][2])
        else:
            ok = n in (1, 2) and all(got) and all(g[0] is S for g in got) and at0(got[0][1]) and isn(got[0][2]) and all(isn(g[1]) and isn(g[2]) for g in got[1:])
        ob("index sets of the blocks: " + name[4:], ok, "%s blocks\n" % n + "\n".join(show(item(L, v, k), 5)[:300] for k in range(n or 0)))
    # owned displacement / slip sets
    disp, slip = get("get_locally_owned_displacement_dofs"), get("get_locally_owned_plastic_slip_dofs")
    sets = {"displacement": disp, "slip": slip}
    parts = {}
    for kind, t in sets.items():
        parts[kind] = {m: member_of(L, t, D, owned, coll, m, d, nd, ns) for m in ("displacement", "slip", "foreign")}
    ob("owned displacement unknowns are the owned ones of a displacement", parts["displacement"] == {"displacement": True, "slip": False, "foreign": False}, str(parts["displacement"]) + show(disp, 6)[:400])
    ob("owned slip unknowns are the other owned ones", parts["slip"] == {"displacement": False, "slip": True, "foreign": False}, str(parts["slip"]) + show(slip, 6)[:400])
    # constraints
    for name in ("hanging_node_constraints", "affine_constraints", "newton_method_constraints"):
        t = get("get_" + name)
        ok, why = hanging(t, D, rel, name)
        ob("the field starts with the hanging-node constraints: " + name, ok, why + "\n" + show(t, 5)[:400])
    L.call(o, q + "::reset_all_affine_constraints")
    for name in ("affine_constraints", "newton_method_constraints"):
        t = get("get_" + name)
        ok, why = hanging(t, D, rel, name)
        ob("resetting goes back to the hanging-node constraints: " + name, ok, why + "\n" + show(t, 5)[:400])
    # vectors
    perm = {"solution": rel, "old_solution": rel, "old_old_solution": rel, "distributed_vector": owned}
    E = [e for e in L.ev.events[n0:] if e[0] == "call" and last(e[1]) == "reinit" and "BlockVector" in str(e[6])]
    ob("vectors are sized once", len(E) == 4 and all(e[4] is ONE for e in E), str([show(e[2], 2) for e in E]))
    vecs = {}
    for e in E:
        vecs.setdefault(sets_of(L, e, get), []).append(e)
    ob("three ghosted vectors and one owned one", {k: len(v) for k, v in vecs.items()} == {"relevant": 3, "owned": 1}, str({k: len(v) for k, v in vecs.items()}))
    for name in perm:
        v = whole(L, o.f(name)) if has_member(c, d, name) else None
        if v is None:
            continue
        z = L.ev.descend(v, (("f", "#block"), ("i", var("b")), ("i", var("k"))), ("num", False))
        ob("vectors start at zero: " + name, z is ZERO, show(z, 4))


def has_member(c, d, name):
    r = c.prog.records.get(FE % d)
    return bool(r) and any(x["n"] == name for x in r["fields"])


def first(L, x, fld):
    """component an extractor starts at"""
    if x.op == "ctorobj" and len(x.args) == 2:
        return const_of(x.args[1])
    return const_of(L.ev.descend(x, (("f", fld),), ("num", True)))


def component_of(G):
    """the component index a value depends on, and the element it is a component of"""
    for s in subterms(G):
        if s.op == "at" and s.args[1] == (("f", "first"),):
            y = call_of(s.args[0])
            if y and y[0] == "system_to_component_index" and as_atom(y[2][0]) is as_atom(DOF):
                return s, as_atom(y[1])
    return None, None


def same_fe(j, coll, i):
    y = call_of(j)
    return bool(y) and y[0] == "operator[]" and as_atom(y[1]) is coll and const_of(y[2][0]) == i


def blocks(L, t, nd, total):
    t = as_atom(t)
    return size(L, t) == total and [const_of(L.ev.descend(t, (("i", num(k)),), ("num", True))) for k in range(total)] == [0] * nd + [1] * (total - nd)


def view(t):
    y = call_of(t)
    return (as_atom(y[1]), y[2][0], y[2][1]) if y and y[0] == "get_view" and y[3] == "result" else None


def member_of(L, t, D, owned, coll, kind, d, nd, ns):
    """is an owned displacement / an owned slip / a foreign unknown in the index set t?  None if unknown"""
    t = as_atom(t)
    if t is owned:
        return kind != "foreign"
    y = call_of(t)
    if t.op == "ctorobj" and short(t) == "IndexSet" and len(t.args) <= 2:
        return False
    if y is None:
        return None
    name, recv, a, pos = y
    if pos == "self":
        m = member_of(L, recv, D, owned, coll, kind, d, nd, ns)
        if name in ("compress", "set_size", "clear"):
            return False if name == "clear" else m
        if name in ("subtract_set", "add_indices"):
            s = member_of(L, a[0], D, owned, coll, kind, d, nd, ns)
            if m is None or s is None:
                return None
            if isinstance(s, tuple) or isinstance(m, tuple):
                # parts of the displacement components, one crystal at a time
                if isinstance(s, tuple) and isinstance(m, (bool, tuple)):
                    return gather(m, s, name, nd)
                return None
            return (m and not s) if name == "subtract_set" else (m or s)
        return None
    if name == "extract_dofs" and as_atom(a[0]) is D:
        mask = call_of(as_atom(a[1]))
        if mask and mask[0] == "component_mask" and as_atom(mask[1]) is coll:
            x = as_atom(mask[2][0])
            if x.op == "ctorobj" and short(x) in ("Vector", "Scalar"):
                lo = const_of(x.args[1])
                cs = frozenset(range(lo, lo + (d if short(x) == "Vector" else 1)))
                is_disp = all(k < nd for k in cs)
                if kind == "foreign":
                    return False
                if (kind == "displacement") != is_disp:
                    return False
                return ("some", cs)
    if name == "operator&" and len(a) >= 1:
        xs = [member_of(L, z, D, owned, coll, kind, d, nd, ns) for z in ((recv,) if recv is not None else ()) + tuple(a)]
        if all(isinstance(z, bool) for z in xs):
            return all(xs)
    return None


def gather(m, s, name, nd):
    """some of the displacement components: all of them once every component was seen"""
    if name == "subtract_set":
        if m is False:
            return False
        left = (frozenset(range(nd)) if m is True else m[1]) - s[1]
        return ("some", left) if left else False
    have = (frozenset() if m is False else frozenset(range(nd)) if m is True else m[1]) | s[1]
    return True if len(have) == nd else ("some", have)


def hanging(t, D, rel, name):
    seq = []
    while True:
        y = call_of(t)
        if not y:
            break
        seq.append(y)
        t = as_atom(y[2][y[3]] if isinstance(y[3], int) else y[1])
    seq.reverse()
    # what happened before a clear / reinit does not count
    for k in range(len(seq) - 1, -1, -1):
        if seq[k][0] in ("clear",):
            seq = seq[k + 1:]
            break
    names = [y[0] for y in seq]
    ok = names[:1] == ["reinit"] and as_atom(seq[0][2][-1]) is rel and names[-1:] == ["close"] and names.count("close") == 1
    mid = seq[1:-1]
    if not ok:
        return False, "sequence %s" % names
    if len(mid) != 1:
        return False, "sequence %s" % names
    y = mid[0]
    if y[0] == "make_hanging_node_constraints":
        return as_atom(y[2][0]) is D, "of another numbering"
    if y[0] == "merge":
        return hanging(as_atom(y[2][0]), D, rel, "merged") if name != "merged" else (False, "merged twice")
    return False, "sequence %s" % names


def sets_of(L, e, get):
    """which index sets a vector is sized by"""
    a = as_atom(e[3][0])
    if a is get("get_locally_relevant_dofs_per_block"):
        return "relevant"
    if a is get("get_locally_owned_dofs_per_block"):
        b = as_atom(e[3][1]) if len(e[3]) > 1 else None
        if b is get("get_locally_relevant_dofs_per_block"):
            return "owned" if len(e[3]) > 3 and e[3][3] is ONE else "relevant"
        return "owned"
    y = call_of(a)
    if y and y[0] == "reinit" and y[3] == "self":
        return sets_of(L, ("call", "reinit", y[1], y[2]), get)
    return "other"


# ---------------------------------------------------------------- norms
def norms(c, d):
    q = FE % d
    f = c.anchor(q + "::get_sub_l2_norms", 2)
    w = c.where(f)
    fp = c.anchor(q + "::get_l2_norm", 1)
    got = owned_norms(c, q, "get_l2_norm", 1)
    c.ob("norms are taken without ghost entries, dim %d: get_l2_norm" % d, all(ok for ok, _ in got) and bool(got), c.where(fp), "; ".join(x for _, x in got))
    got = owned_norms(c, q, "get_sub_l2_norms", 2)
    c.ob("norms are taken without ghost entries, dim %d: get_sub_l2_norms" % d, all(ok for ok, _ in got) and bool(got), w, "; ".join(x for _, x in got))
    for single in (ONE, ZERO):
        L = Lab(c, opaque=lambda g: "FEField" not in g)
        o = L.new(q, "tria", "pu", "ps", "deco", single)
        L.call(o, q + "::setup_extractors", 2, 2)
        L.call(o, q + "::setup_dofs")
        r = whole(L, L.raw(o, q + "::get_sub_l2_norms", "v", "factor"))
        sets = {0: whole(L, L.raw(o, q + "::get_locally_owned_displacement_dofs")), 1: whole(L, L.raw(o, q + "::get_locally_owned_plastic_slip_dofs"))}
        for b in (0, 1):
            t = L.ev.descend(r, (("i", num(b)),), ("num", False))
            ok = norm_value(L, t, b, single, sets[b])
            c.ob("norm of the %s unknowns, %s, dim %d" % (("displacement", "slip")[b], "one block" if single is ONE else "two blocks", d), ok, w, show(t, 7)[:500])
        n = size(L, r)
        c.ob("two norms, dim %d" % d, n == 2, w, str(n))
        t = as_atom(L.call(o, q + "::get_l2_norm", VEC))
        ok = isinstance(t, Term) and t.op == "call" and t.args[0].endswith("l2_norm") and t.args[1] is VEC
        c.ob("norm of a vector, dim %d" % d, ok, c.where(fp), show(t, 5))
        v = L.raw(o, q + "::get_distributed_vector_instance", VEC)
        t = whole(L, v)
        c.ob("distributed copy has the vector's values, dim %d" % d, t is VEC, c.where(c.anchor(q + "::get_distributed_vector_instance")), show(t, 4))
        e2, v = c.vg(c.anchor(q + "::get_distributed_vector_instance", 1), opaque=lambda g: "FEField" not in g)
        ok = isinstance(v, Loc) and unghosted(e2, v)
        c.ob("distributed copy has no ghosts, dim %d" % d, ok, c.where(c.anchor(q + "::get_distributed_vector_instance")))


def norm_value(L, t, b, single, S):
    """t (times the factor for the displacements) is the norm of block b of v"""
    if b == 0:
        n = T.replace(t, single_atom(FACTOR), ONE)
        if mul(n, div(ONE, FACTOR)) is not t:
            return False
        t = n
    if single is ZERO:
        a = as_atom(t)
        return isinstance(a, Term) and show(a, 5) == "l2_norm(v.#block[%d])" % b
    s = single_atom(mul(t, t))
    y = call_of(s) if s is not None else None
    if not y or y[0] != "sum" or COMM not in show(y[2][1], 3):
        return False
    x = as_atom(y[2][0])
    return local_squares(y[2][0], S)


def local_squares(t, S):
    """sum over the elements of S of v[element]^2"""
    return re.fullmatch(r"Σ\{(β\d+)=0\.\.size\(S\)\}\[v\[elem\(S, \1\)\]\^2\]", show(rep(t, S, mk("sym", "S")), 8)) is not None


def rep(x, a, b, memo=None):
    memo = {} if memo is None else memo
    if x is a:
        return b
    if isinstance(x, tuple):
        return tuple(rep(y, a, b, memo) for y in x)
    if not isinstance(x, Term):
        return x
    if x in memo:
        return memo[x]
    n = tuple(rep(y, a, b, memo) for y in x.args)
    r = x if all(p is q for p, q in zip(n, x.args)) else mk(x.op, *n)
    memo[x] = r
    return r


def unghosted(ev, v):
    """the object at v was sized like the field's vector without ghosts, or is a copy made like that"""
    t = as_atom(ev.read(v, ("obj", "")) if isinstance(v, Loc) else v)
    y = call_of(t)
    if y and y[0] == "get_distributed_vector_instance":
        return True
    return isinstance(v, Loc) and any(y and y[0] == "reinit" and show(y[2][0], 3) == "this.distributed_vector"
                                      for y in (call_of(s.val) for s in ev.logs[v.root] if isinstance(s.val, Term)))


def owned_norms(c, q, name, n):
    """every norm is of a vector without ghosts"""
    f = c.anchor(q + "::" + name, n)
    got = []

    def h(ev, e):
        v = ev.ev(e["obj"])
        g = ev.full()
        t = as_atom(ev.read(v, ("obj", "")) if isinstance(v, Loc) else v)
        gh = [a for a in subterms(g) if a.op == "call" and last(str(a.args[0])) == "has_ghost_elements" and a.args[1] is t]
        root = Loc(v.root, ()) if isinstance(v, Loc) else v
        ok = any(mul(g, atom(mk("b", a))) is ZERO for a in gh) or unghosted(ev, root)
        got.append((ok, "%s where %s" % (show(t, 4), show(g, 4))))
        return NotImplemented
    names = ("BlockVectorBase", "TrilinosWrappers::MPI::Vector", "TrilinosWrappers::MPI::BlockVector")
    c.vg(f, opaque=lambda g: "FEField" not in g or last(g) == "get_distributed_vector_instance", hooks={"dealii::%s::l2_norm" % k: h for k in names})
    if not got:
        c.must(False, "norms in " + name)
    return got


# ---------------------------------------------------------------- copies
def copy(c, d):
    q = FE % d
    fs = [f for f in c.prog.by_q.get(q + "::FEField", []) if f["kind"] == "ctor" and len(f["params"]) == 1 and "FEField" in f["params"][0]["t"]]
    c.need(len(fs) == 1, "copy constructor of the field")
    L = Lab(c, opaque=lambda g: "FEField" not in g)
    o = L.new(q, "tria", "pu", "ps", "deco", "single")
    L.call(o, q + "::setup_extractors", 2, 2)
    L.call(o, q + "::setup_dofs")
    p = L.new(q, o, pred=lambda f: "FEField" in f["params"][0]["t"])
    w = c.where(fs[0])
    c.count("fields copied")
    g = lambda obj, name, *a: whole(L, L.raw(obj, q + "::" + name, *a))
    names = [(n, ()) for n in ("get_n_crystals", "get_n_slips", "get_dof_handler", "get_fe_collection", "get_locally_owned_dofs", "get_locally_owned_displacement_dofs",
                              "get_locally_owned_plastic_slip_dofs", "get_locally_owned_dofs_per_block", "get_locally_relevant_dofs", "get_locally_relevant_dofs_per_block",
                              "get_n_displacement_dofs", "get_n_plastic_slip_dofs", "n_dofs", "is_decohesion_allowed")]
    names += [("get_displacement_extractor", (i,)) for i in (0, 1)] + [("get_slip_extractor", (i, j)) for i in (0, 1) for j in (0, 1)] + [("get_global_component", (i, "dof")) for i in (0, 1)]
    for n, a in names:
        x, y = g(o, n, *a), g(p, n, *a)
        c.ob("a copied field has the same %s%s, dim %d" % (n, a or "", d), x is y or T.equal(atom(x) if x.op != "poly" else x, atom(y) if y.op != "poly" else y), w, "%s\n%s" % (show(x, 5)[:300], show(y, 5)[:300]))
    for name in ("hanging_node_constraints", "affine_constraints", "newton_method_constraints"):
        t = g(p, "get_" + name)
        ok, why = hanging(t, g(o, "get_dof_handler"), g(o, "get_locally_relevant_dofs"), name)
        c.ob("a copied field has only the hanging-node constraints: %s, dim %d" % (name, d), ok, w, why + "\n" + show(t, 5)[:300])
