"""P32 wiring: every component works on the same mesh, field, crystals and laws, with its own parameters."""
from lab import *
from report import Check
from solver import *
import terms as T
from linalg import cname

EXPL = ("Constructors and set-up methods of the application and of the solver are evaluated; each component is identified by the arguments it is "
        "built from, followed through shared pointers to their origin, and by the order of the set-up calls.")
APP = "gCP::SimpleShearProblem<%d>"
SOL = "gCP::GradientCrystalPlasticitySolver<%d>"
LAWP = "constitutive_laws_parameters."
DIM_ = "dimensionless_form_parameters."
CQ = DIM_ + "characteristic_quantities."
CR, PR = "crystals", "prm."
LAWS = {"elastic_strain": (CR, PR + DIM_ + "dimensionless_numbers[0]"),
        "hooke_law": (CR, PR + LAWP + "hooke_law_parameters", PR + CQ + "stiffness"),
        "resolved_shear_stress_law": (CR,),
        "scalar_microstress_law": (CR, PR + LAWP + "scalar_microstress_law_parameters", PR + LAWP + "hardening_law_parameters", PR + CQ + "slip_resistance"),
        "vectorial_microstress_law": (CR, PR + LAWP + "vectorial_microstress_law_parameters"),
        "microtraction_law": (CR, PR + LAWP + "microtraction_law_parameters"),
        "cohesive_law": (PR + LAWP + "cohesive_law_parameters",),
        "degradation_function": (PR + LAWP + "degradation_function_parameters",),
        "contact_law": (PR + LAWP + "contact_law_parameters", PR + CQ + "stress", PR + CQ + "displacement")}
KIND = (("SolverParameters", "prm"), ("CrystalsData", CR), ("FEField", "field"), ("DiscreteTime", "clock"), ("Mapping", "mapping"),
        ("ConditionalOStream", "pcout"), ("TimerOutput", "timer"))
MEMBERS = {"crystals_data": CR, "fe_field": "field", "discrete_time": "clock", "mapping": "mapping", "triangulation": "mesh", "parameters": "file",
           "gCP_solver": "solver", "pcout": "pcout", "timer_output": "timer"}


def strip(t, memo=None):
    """the object itself: what a shared pointer or reference handed to a constructor refers to"""
    memo = {} if memo is None else memo
    t = (as_atom(t) or t) if isinstance(t, Term) else t
    if not isinstance(t, Term):
        return tuple(strip(x, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo:
        return memo[t]
    r = t
    if t.op == "out" and isinstance(t.args[0], int):
        r = strip(as_atom(t.args[1]).args[2 + int(t.args[0])], memo)
    elif t.op == "objst":
        r = strip(t.args[0], memo)
    elif t.op == "after":
        r = strip(t.args[1], memo)
    elif t.op == "b" and len(t.args) == 1:
        r = strip(t.args[0], memo)
    elif t.op == "at" and isinstance(t.args[0], Term) and strip(t.args[0], memo) is not t.args[0]:
        r = mk("at", strip(t.args[0], memo), *t.args[1:])
    elif t.op in ("addr", "deref", "ptr"):
        r = strip(t.args[0], memo)
    memo[t] = r
    return r


def path(t, names):
    """'crystals', 'prm.hooke…' : the origin of an argument in terms of the constructor's parameters or members"""
    t = strip(t)
    s = show(t, 12)
    for n, k in names.items():
        if s == n or s.startswith(n + ".") or s.startswith(n + "["):
            return k + s[len(n):]
    return s


def args(t):
    t = strip(t)
    if t.op == "call" and cname(t) in ("make_shared", "make_unique"):
        return t.args[2:]
    if t.op == "ctorobj":
        return t.args[1:]
    return None


def check():
    c = Check("P32", "value graph of constructors and set-up methods: provenance of every component", "", None)
    c.load()
    for d in (2, 3):
        laws(c, d)
        app(c, d)
        setup(c, d)
        init(c, d)
        grid(c, d)
    return c.finish(EXPL)


def ctor(c, q):
    fs = [x for x in c.prog.by_q.get(q, ()) if x["kind"] == "ctor" and x["params"] and q.split("<")[0] not in x["params"][0]["t"]]
    c.need(len(fs) == 1, "constructor " + q)
    return fs[0]


def laws(c, d):
    n = "GradientCrystalPlasticitySolver"
    f = ctor(c, "gCP::%s<%d>::%s" % (n, d, n))
    ev, _ = c.vg(f, opaque=lambda q: not q.startswith("gCP::" + n))
    w, lab = c.where(f), " (dim %d)" % d
    names = {}
    for p in f["params"]:
        for k, v in KIND:
            if k in p["t"]:
                names[p["n"]] = v
                break
    this = ev.base["$this"] if "$this" in ev.base else None
    got = lambda fld: ev.read(vg.Loc("$this", (("f", fld),)), ("obj", ""))
    for fld, want in LAWS.items():
        t = got(fld)
        a = args(t)
        have = None if a is None else [path(x, names) for x in a]
        c.ob("%s is built from %s%s" % (fld, ", ".join(want) or "nothing", lab), have == list(want), w, "built from %s" % (have if a is not None else show(strip(t), 4)[:300]))
    for fld, want in (("parameters", "prm"), ("fe_field", "field"), ("crystals_data", CR), ("discrete_time", "clock")):
        c.ob("%s is the one handed over%s" % (fld, lab), path(got(fld), names) == want, w, path(got(fld), names)[:300])
    ext = [n_ for n_, v in names.items() if v == "mapping"]
    t = got("mapping")
    x = null_of(t, ext)
    given = T.replace(t, *x, memo={}) if x is not None else t
    c.ob("the mapping is the one handed over, if any" + lab, path(given, names) == "mapping", w, show(strip(t), 5)[:300])
    mc = args(got("mapping_collection"))
    ok = mc is not None and len(mc) == 1 and (strip(mc[0]) is strip(t) or path(mc[0] if x is None else T.replace(mc[0], *x, memo={}), names) == "mapping")
    c.ob("cells are evaluated through that mapping" + lab, ok, w, show(got("mapping_collection"), 6)[:300])
    p = args(got("postprocessor"))
    have = [path(x, names) for x in p] if p is not None else None
    c.ob("the solver's output works on the same field and crystals" + lab, bool(have) and have[:3] == ["field", CR, PR + DIM_[:-1]], w, str(have))
    hl = [e for e in calls(ev, "init") if "Postprocessor" in str(e[6])]
    ok = len(hl) == 1 and hl[0][4] is ONE and strip(hl[0][3][0]) is strip(got("hooke_law"))
    c.ob("the solver's output uses its stiffnesses" + lab, ok, w, "%d calls" % len(hl))
    for g, fld in (("get_elastic_strain_law", "elastic_strain"), ("get_hooke_law", "hooke_law")):
        f2 = c.anchor(SOL % d + "::" + g, 0)
        ev2, r = c.vg(f2, opaque=lambda q: False)
        r = ev2.read(r, ("obj", "")) if isinstance(r, vg.Loc) else r
        c.ob("%s returns the solver's own%s" % (g, lab), show(strip(r), 3) == "this." + fld, c.where(f2), show(strip(r), 4)[:200])


def as_term(t):
    return atom(t) if isinstance(t, Term) and t.op != "poly" and t.op != "case" else t


def null_of(t, ext):
    for x in subterms(t):
        if x.op == "b" and len(x.args) == 3 and x.args[0] == "==" and any(show(y, 3) in ext for y in x.args[1:] if isinstance(y, Term)) and any(isinstance(y, Term) and show(y, 2) == "null" for y in x.args[1:]):
            return x, ZERO
        if x.op == "b" and len(x.args) == 1 and show(x.args[0], 3) in ext:
            return x, ONE
    return None


def enum_is(t, key, value):
    """t with the enumerated setting `key` set"""
    for x in list(subterms(t)):
        if x.op == "eqc" and show(as_atom(x.args[0]), 12).endswith(key):
            t = T.replace(t, x, num(1 if as_atom(x.args[1]).args[0].endswith("::" + value) else 0), memo={})
    return t


def app(c, d):
    f = ctor(c, APP % d + "::SimpleShearProblem")
    ev, _ = c.vg(f, opaque=lambda q: "SimpleShearProblem" not in q)
    w, lab = c.where(f), " (dim %d)" % d
    got = lambda fld: ev.read(vg.Loc("$this", (("f", fld),)), ("obj", ""))
    obj = {strip(got(m)): k for m, k in MEMBERS.items() if m != "parameters"}
    names = {f["params"][0]["n"]: "file"}

    def origin_of(x):
        s = strip(x)
        return obj[s] if s in obj else path(s, names)

    def built(fld, want, what, opt=()):
        a = args(got(fld))
        have = None if a is None else [origin_of(x) for x in a]
        ok = have is not None and len(have) >= len(want) and all(y is None or x == y for x, y in zip(have, want))
        c.ob(what + lab, ok, w, "built from %s" % (have,))
        return a
    S_ = "file.solver_parameters."
    built("mapping", ["file.spatial_discretization.mapping_degree"], "the mapping has the configured degree")
    SLO = "file.simple_loading."
    built("discrete_time", [SLO + "start_time", SLO + "end_time"], "the clock runs over the loading")
    a = built("fe_field", ["mesh", "file.spatial_discretization.fe_degree_displacements", "file.spatial_discretization.fe_degree_slips", S_ + "allow_decohesion"],
              "the field lives on the mesh with the configured degrees and decohesion")
    if a is not None and len(a) == 5:
        for alg in ("Monolithic", "Bouncing", "Embracing"):
            t = enum_is(enum_is(a[4], "solution_algorithm", alg), "monolithic_preconditioner", "BuiltIn")
            c.ob("the field's unknowns form %s for the %s algorithm%s" % ("one block" if alg == "Monolithic" else "two blocks", alg.lower(), lab),
                 t is (ONE if alg == "Monolithic" else ZERO), w, show(t, 6)[:300])
    else:
        c.ob("the field's block structure is chosen" + lab, False, w, "")
    built("gCP_solver", [S_[:-1], "clock", "field", CR, "mapping"], "the solver works on the application's clock, field, crystals and mapping")
    built("homogenization", ["field", "mapping"], "homogenization works on the application's field and mapping")
    built("postprocessor", ["field", CR, S_ + DIM_[:-1], "0", "file.output.flag_output_dimensionless_quantities", "file.output.flag_output_fluctuations"],
          "graphical output works on the application's field and crystals, full output in the configured units, with the fluctuations asked for")
    built("simple_shear", ["field", "mapping", SLO + "max_load", SLO + "min_load", SLO + "period", SLO + "duration_loading_and_unloading_phase", SLO + "loading_type", "3", None, SLO + "start_of_cyclic_phase", SLO + "start_of_unloading_phase"],
          "the shear evaluation is of the loading and the upper boundary")
    b = args(got("simple_shear"))
    if b is not None and len(b) > 8:
        n_el = [x for x in subterms(b[8]) if show(x, 4).endswith("n_elements_in_y_direction")]
        c.ob("the shear evaluation's width is the strip's" + lab, bool(n_el) and (b[8] is T.powr(as_term(n_el[0]), -1) or b[8] is div(ONE, as_term(n_el[0]))), w, show(b[8], 5))
    c.count("components", 9)


def recv(e):
    return show(strip(e[2]), 3) if isinstance(e[2], Term) else ""


def setup(c, d):
    f = c.anchor(APP % d + "::setup", 0)
    ev, _ = c.vg(f, opaque=lambda q: "SimpleShearProblem" not in q or q.endswith("::setup_constraints"))
    w, lab = c.where(f), " (dim %d)" % d
    pos = {}
    for k, e in enumerate(ev.events):
        if e[0] == "call":
            pos.setdefault((recv(e), last(e[1])), []).append(k)
    seq = [("this.crystals_data", "init"), ("this.fe_field", "setup_extractors"), ("this.fe_field", "update_ghost_material_ids"), (None, "set_active_fe_index"),
           ("this.fe_field", "setup_dofs"), (None, "make_unique"), (None, "setup_constraints"), ("this.fe_field", "setup_vectors")]
    at = []
    for r, n in seq:
        ks = [k for (rr, nn), v in pos.items() if nn == n and (r is None or rr == r) for k in v]
        if n == "make_unique":
            ks = [k for k in ks if len(ev.events[k][3]) >= 5]
        one = len(ks) == 1 and (ev.events[ks[0]][4] is ONE or n == "set_active_fe_index")
        c.ob("set-up calls %s once%s" % (n, lab), one, w, "%d calls" % len(ks))
        at.append(ks[0] if ks else None)
    need = [(0, 1), (1, 2), (1, 4), (2, 3), (3, 4), (4, 5), (5, 6), (4, 6), (6, 7)]
    for i, j in need:
        if at[i] is not None and at[j] is not None:
            c.ob("%s comes before %s%s" % (seq[i][1], seq[j][1], lab), at[i] < at[j], w, "")
    if at[0] is not None:
        a = [show(strip(x), 6) for x in ev.events[at[0]][3]]
        P = "this.parameters.input."
        c.ob("the crystals are read from the configured files" + lab, a == ["this.triangulation", P + "euler_angles_pathname", P + "slips_directions_pathname", P + "slips_normals_pathname"], w, str(a))
    if at[1] is not None:
        a = [as_atom(x) for x in ev.events[at[1]][3]]
        ok = [cname(x) for x in a] == ["get_n_crystals", "get_n_slips"] and all(show(strip(x.args[1]), 3) == "this.crystals_data" and "init" in show(x, 12) for x in a)
        c.ob("the field's components are those of the crystals read" + lab, ok, w, str([show(x, 3)[:100] for x in a]))
    if at[3] is not None:
        e = ev.events[at[3]]
        v = as_atom(e[3][0])
        ok = cname(v) == "material_id" and v.args[1] is e[2] and len(loops(e)) == 1
        g = [x for x in subterms(e[4]) if x.op in T.BOOL_OPS]
        ok2 = len(g) == 1 and "is_locally_owned" in show(g[0], 3) and T.replace(e[4], g[0], ONE, memo={}) is ONE
        c.ob("every owned cell uses the element of its crystal" + lab, ok and ok2, w, "%s under %s" % (show(v, 3)[:200], show(e[4], 4)[:200]))
    if at[5] is not None:
        a = [strip(x) for x in ev.events[at[5]][3]]
        s = [cname(x) + " of " + show(strip(x.args[1]), 3) if x.op == "call" and cname(x) else show(x, 8) for x in a]
        want = ["this.parameters.simple_loading", "get_n_components of this.fe_field", "get_n_crystals of this.crystals_data", "this.parameters.height",
                "is_decohesion_allowed of this.fe_field", "this.parameters.solver_parameters." + CQ + "displacement"]
        c.ob("the applied displacement is built from the loading, the strip's height and the characteristic displacement" + lab, s[:6] == want and (len(s) < 7 or a[6] in (ZERO, "0") or show(a[6], 2) == "0"), w, str(s)[:600])


def init(c, d):
    f = c.anchor(APP % d + "::initialize_calls", 0)
    ev, _ = c.vg(f, opaque=lambda q: "SimpleShearProblem" not in q)
    w, lab = c.where(f), " (dim %d)" % d
    es = [(k, e) for k, e in enumerate(ev.events) if e[0] == "call" and last(e[1]) == "init"]
    by = {}
    for k, e in es:
        by.setdefault(recv(e), []).append((k, e))
    for r in ("gCP_solver", "homogenization", "simple_shear", "postprocessor"):
        x = by.get("this." + r, [])
        c.ob("%s is initialised once%s" % (r, lab), len(x) == 1 and x[0][1][4] is ONE and inloop(x[0][1]) is None, w, "%d calls" % len(x))
    law = {"homogenization": ("get_elastic_strain_law", "get_hooke_law"), "simple_shear": ("get_elastic_strain_law", "get_hooke_law"), "postprocessor": ("get_hooke_law",)}
    s = by.get("this.gCP_solver", [(0, None)])[0][0]
    for r, ns in law.items():
        for k, e in by.get("this." + r, [])[:1]:
            have = []
            for a in e[3][:len(ns)]:
                a = as_atom(a)
                while a.op in ("copy", "out") or a.op == "ctorobj" and len(a.args) == 2:
                    a = as_atom(a.args[1] if a.op != "copy" else a.args[0])
                have.append(cname(a) if cname(a) and show(strip(a.args[1]), 3) == "this.gCP_solver" else show(a, 3)[:100])
            c.ob("%s uses the solver's laws%s" % (r, lab), have == list(ns), w, str(have))
            c.ob("%s is initialised after the solver%s" % (r, lab), k > s, w, "")


def grid(c, d):
    f = c.anchor(APP % d + "::make_grid", 0)
    ev, _ = c.vg(f, opaque=lambda q: "SimpleShearProblem" not in q)
    w, lab = c.where(f), " (dim %d)" % d
    ne, h, nc = (atom(mk("sym", "?")),) * 3
    es = calls(ev, "subdivided_hyper_rectangle")
    es = [e for e in es if e[4] is not ZERO]
    c.ob("the mesh is one subdivided strip" + lab, len(es) == 1 and es[0][4] is ONE, w, "%d calls" % len(es))
    if len(es) == 1:
        e = es[0]
        P = "this.parameters."
        lo, hi = [ev.read(x, ("obj", "")) if isinstance(x, vg.Loc) else x for x in e[3][2:4]]
        rep = e[3][1]
        g = lambda t, i: entry(ev, t, i)
        H, N = sym_of(ev, "height"), sym_of(ev, "n_elements_in_y_direction")
        want_hi = [div(ONE, N), H] + ([div(ONE, N)] if d == 3 else [])
        for i in range(d):
            c.ob("strip starts at the origin in direction %d%s" % (i, lab), g(lo, i) is ZERO, w, show(lo, 5)[:300])
            x = g(hi, i)
            c.ob("extent of the strip in direction %d%s" % (i, lab), x is want_hi[i], w, "%s, not %s" % (show(x, 6)[:300], show(want_hi[i], 6)))
            x = g(rep, i)
            c.ob("number of cells in direction %d%s" % (i, lab), x is (N if i == 1 else ONE), w, show(x, 6)[:300])
        c.ob("boundaries are numbered" + lab, len(e[3]) > 4 and as_num(e[3][4]) is ONE, w, "")
    pf = calls(ev, "collect_periodic_faces")
    have = sorted(tuple(int(const(x)) if isinstance(x, Term) and isnum(x) else show(x, 3) for x in e[3][1:4]) for e in pf if e[4] is ONE)
    c.ob("the mesh is periodic in the directions of the constraints" + lab, have == [(0, 1, 0)] + ([(4, 5, 2)] if d == 3 else []) and all(recv_arg(e) == "this.triangulation" for e in pf), w, str(have))
    ap = [(k, e) for k, e in enumerate(ev.events) if e[0] == "call" and last(e[1]) == "add_periodicity"]
    rg = [(k, e) for k, e in enumerate(ev.events) if e[0] == "call" and last(e[1]) == "refine_global"]
    mid = [(k, e) for k, e in enumerate(ev.events) if e[0] == "call" and last(e[1]) == "set_material_id"]
    ok = len(ap) == 1 and ap[0][1][4] is ONE and all(x in show(ap[0][1][3][0], 12) for x in ["collect_periodic_faces"])
    c.ob("periodicity is known to the mesh before it is refined" + lab, ok and len(rg) == 1 and ap[0][0] < rg[0][0], w, "%d, %d" % (len(ap), len(rg)))
    ok = len(rg) == 1 and rg[0][1][4] is ONE and inloop(rg[0][1]) is None and show(rg[0][1][3][0], 6) == "this.parameters.spatial_discretization.n_global_refinements"
    c.ob("the mesh is refined as often as configured" + lab, ok, w, show(rg[0][1][3][0], 5) if rg else "never")
    c.ob("crystals are assigned after refinement, by one rule" + lab, len(mid) == 1 and bool(rg) and mid[0][0] > rg[0][0], w, "%d" % len(mid))
    if len(mid) == 1:
        material(c, ev, mid[0][1], d, w, lab)


def recv_arg(e):
    return show(strip(e[3][0]), 3)


def as_num(x):
    return x if isinstance(x, Term) else num(x)


def sym_of(ev, name):
    return atom(as_atom(ev.read(vg.Loc("$this", (("f", "parameters"), ("f", name))), ("num", ""))))


def entry(ev, t, i):
    t = as_atom(t)
    while t.op == "ctorobj" and len(t.args) == 2:
        t = as_atom(t.args[1])
    try:
        return ev.descend(t, [("i", num(i))], ("num", ""))
    except Exception as ex:
        return mk("?", str(ex))


class At(T.Interp):
    def __init__(self, given):
        super().__init__(7, False)
        self.given = given

    def atom(self, a):
        if a in self.given:
            return self.given[a]
        if a.op == "b" and "is_locally_owned" in str(a.args[0]):
            return 1.0
        return super().atom(a)


def material(c, ev, e, d, w, lab):
    """the n equally high layers of the strip are the crystals, in ascending order"""
    H, N = single_atom(sym_of(ev, "height")), single_atom(sym_of(ev, "n_equal_sized_crystals"))
    both = (e[4], e[3][0])
    mid = {x for t in both for x in subterms(t) if x.op == "at" and x.args[1] == (("i", ONE),) and cname(as_atom(x.args[0])) == "center"}
    cells = {as_atom(as_atom(x.args[0]).args[1]) for x in mid}
    own = {as_atom(x.args[0]) for x in subterms(e[4]) if x.op == "b" and len(x.args) == 1 and cname(as_atom(x.args[0])) == "is_locally_owned"}
    ok = len(mid) == 1 and cells == {as_atom(e[2])}
    c.ob("a cell's crystal depends on its own height" + lab, ok, w, "%s" % [show(x, 4)[:200] for x in mid])
    c.ob("owned cells are assigned" + lab, len(own) == 1 and all(as_atom(x.args[1]) is as_atom(e[2]) for x in own), w, show(e[4], 5)[:300])
    if not ok or len(own) != 1:
        return
    y = list(mid)[0]
    flag = [x for x in subterms(e[4]) if x.op == "b" and as_atom(x.args[0]) in own][0]
    lids = [l for l in loops(e) if "λ" + l in ev.ranges]
    cell_loop = [l for l in lids if any(varname(x.args[1][0][1]) == "λ" + l for x in subterms(as_atom(e[2])) if x.op == "at" and x.args[1] and x.args[1][0][0] == "i" and isinstance(x.args[1][0][1], Term))]
    lids = [l for l in lids if l not in cell_loop]
    bad = None
    for owned in (1.0, 0.0):
        for n in range(1, 5):
            for k in range(0, 24):
                z = (k + 0.5) * 3.0 / 24
                g = {H: 3.0, N: float(n), y: z, flag: owned}
                got = assigned(ev, e, lids, g)
                want = [int(z * n / 3.0)] if owned else []
                if got != want and bad is None:
                    bad = "%s cell at %.3g of 3, %d crystals: crystals %s, not %s" % ("owned" if owned else "foreign", z, n, got, want)
    c.ob("cells are assigned to equally high layers in ascending order, each once" + lab, bad is None, w, str(bad))


def assigned(ev, e, lids, g):
    out = []

    def go(ls, env):
        if not ls:
            i = At(g)
            i.env.update(env)
            if i.num(e[4]) > 0.5:
                out.append(int(round(i.num(e[3][0]))))
            return
        i = At(g)
        i.env.update(env)
        lo, hi = ev.ranges["λ" + ls[0]]
        for k in range(int(i.num(lo)), int(round(i.num(hi)))):
            go(ls[1:], dict(env, **{"λ" + ls[0]: k}))
    go(list(reversed(lids)), {})
    return out
