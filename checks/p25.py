"""P25 shear response: mean shear stress on the upper boundary against the prescribed shear strain."""
from lab import *
from report import Check
from kernel import *
import effects
import kernel
import terms as T
import params as P
import p28
import p24
from p24 import NUMBER, ONECELL
from solver import as_atom

EXPL = ("The evaluation is built with the arguments the application gives it; what it writes to its table is compared with the load the boundary "
        "function prescribes (per unit height) and with the mean over the boundary of the shear component of the stress, integrands in kernel normal form.")
CLS = "gCP::Postprocessing::SimpleShear<%d>"
NAMES = ("shear_at_upper_boundary", "stress_12_at_upper_boundary")
Q, F = var("Q"), var("F")


def check():
    c = Check("P25", "value graph of the shear evaluation against the prescribed load and the mean boundary stress", "",
              ("source/postprocessing.cc", "source/constitutive_laws.cc", "source/fe_field.cc", "source/run_time_parameters.cc", "applications/simple_shear.cc"))
    c.load()
    L = Lab(c)
    o = L.new(p28.SL)
    L.ev.call(c.anchor(p28.SL + "::parse_parameters", 1), o, [L.ev.newroot("$prm", mk("sym", "prm"))])
    for d in (2, 3):
        shear(c, L, o, d)
    return c.finish(EXPL)


def arguments(c, d):
    """the arguments the application builds its evaluation from"""
    f = [f for f in c.prog.by_q.get("gCP::SimpleShearProblem<%d>::SimpleShearProblem" % d, []) if f["kind"] == "ctor"]
    c.need(len(f) == 1, "constructor of the application")
    f = f[0]
    ev, _ = c.vg(f, opaque=lambda q: "SimpleShearProblem" not in q)
    import p32
    fs = [x["n"] for x in c.prog.records["gCP::SimpleShearProblem<%d>" % d]["fields"] if x["t"].startswith("Postprocessing::SimpleShear") or "::SimpleShear<" in x["t"]]
    c.must(len(fs) == 1, "the application's shear evaluation")
    a = p32.args(ev.read(Loc("$this", (("f", fs[0]),)), ("obj", "")))
    c.need(a is not None, "arguments of the shear evaluation")
    return a, f["params"][0]["n"]


def from_file(L, o, t, prm):
    """settings of the loading -> expressions in the entries of the file"""
    if isinstance(t, Term) and not isnum(t):
        a = as_atom(t)
        if a.op == "at" and a.args[0] is mk("sym", prm) and a.args[1][0] == ("f", "simple_loading") and len(a.args[1]) == 2:
            return L.get(o, a.args[1][1][1], t="")
        return t
    for x in {x for x in subterms(t) if x.op == "at" and x.args[0] is mk("sym", prm) and x.args[1][0] == ("f", "simple_loading")}:
        t = T.replace(t, x, L.get(o, x.args[1][1][1]), memo={})
    return t


def members(c, L, o, d):
    """members the constructor sets and no method changes, for the application's arguments"""
    a, prm = arguments(c, d)
    a = [from_file(L, o, x, prm) for x in a]
    cls = CLS % d
    M = Lab(c, hooks=(H := {}))
    cols = []

    def declare(ev, e):
        cols.append(ev.rv(e["a"][0]).args[0])
        return mk("sym", "ignored")
    H["dealii::TableHandler::declare_column"] = declare
    M.ev.hooks.update(H)
    e = M.new(cls, *a)
    E = effects.Effects(c.prog)
    sets = [E.fields(f) for q, fs in c.prog.by_q.items() if q.startswith(cls + "::") for f in fs if f["kind"] == "fn" and not f.get("const") and f.get("body")]
    if None in sets:
        raise AnalysisBroken("members written by a method of %s" % cls)
    written = set().union(*sets)
    r = {}
    for x in c.prog.records[cls]["fields"]:
        if x["n"] in written:
            continue
        pt = vg.ptype(x["t"])
        if pt[0] == "num" or "LoadingType" in x["t"]:
            r[x["n"]] = M.get(e, x["n"], t=x["t"])
    w = c.where(c.anchor(cls + "::SimpleShear", pred=lambda f: f["kind"] == "ctor"))
    return r, cols, w


def shear(c, L, o, d):
    lab = " (dim %d)" % d
    init, cols, wc = members(c, L, o, d)
    c.ob("the columns are declared, once" + lab, sorted(cols) == sorted(NAMES), wc, str(cols))
    f = c.anchor(CLS % d + "::compute_data", 1)
    w = c.where(f)
    rows, starts = [], []

    def add_value(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        rows.append((a[0].args[0], a[1], ev.full(), e.get("l", 0)))
        return mk("sym", "ignored")

    def new_row(ev, e):
        starts.append((ev.full(), len(rows)))
        return mk("sym", "ignored")
    ready = {x["n"]: ONE for x in c.prog.records[CLS % d]["fields"] if vg.ptype(x["t"]) == ("bool",) or x["t"] == "bool"}
    ev, _ = c.vg(f, opaque=kernel.opaque, init={**init, **ready}, hooks={"dealii::TableHandler::add_value": add_value, "dealii::TableHandler::start_new_row": new_row})
    c.must(rows, "columns of the shear table")
    got = {}
    for n, v, g, line in rows:
        c.ob("column %s is written once, always%s" % (n, lab), g is ONE and n not in got, w, "line %d under %s" % (line, show(g, 4)[:200]))
        got[n] = v
    c.ob("columns written" + lab, sorted(got) == sorted(NAMES), w, str(sorted(got)))
    c.ob("a row is not split" + lab, all(g is ONE and k in (0, len(rows)) for g, k in starts) and len(starts) <= 1, w, str([k for _, k in starts]))
    p = f["params"][0]["n"]
    if NAMES[0] in got:
        given(c, T.replace(got[NAMES[0]], T.single_atom(atom(mk("sym", p))), p28.TIME, memo={}), w, lab)
    if NAMES[1] in got:
        stress(c, ev, got[NAMES[1]], d, w, lab)


def given(c, t, w, lab):
    """the shear strain prescribed by the boundary function: its load per unit height, in the units of the solution"""
    for kind in p28.KINDS:
        got = p28.pick(t, kind)
        want = p28.strain(kind)
        c.ob("the shear strain is the prescribed one (%s)%s" % (kind, lab), p28.same(got, want), w, "computed %s\nrequired %s" % (show(got, 9)[:900], show(want, 9)[:900]))


def stress(c, ev, t, d, w, lab):
    K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS})
    sums = sorted({x for x in subterms(t) if x.op == "call" and x.args[0] == "dealii::Utilities::MPI::sum" and isnum(x.args[2])}, key=lambda x: x.dig)
    c.ob("the stress has one sum over the processes" + lab, len(sums) == 1, w, "%d sums in %s" % (len(sums), show(t, 6)[:300]))
    if len(sums) != 1:
        return
    x = sums[0]
    n = [y for y in subterms(t) if y.op == "at" and show(y, 4).endswith("n_elements_in_y_direction")]
    per = div(ONE, T.powr(atom(n[0]), 1)) if n else None
    c.ob("the mean is over the strip's width" + lab, per is not None and T.equal(t, div(atom(x), T.powr(per, d - 1))), w, show(T.replace(t, x, atom(mk("sym", "the integral")), memo={}), 6)[:300])
    comm = show(x.args[3], 4)
    c.ob("the sum is over all processes" + lab, "MPI_COMM_WORLD" in comm or "ompi_mpi_comm_world" in comm or "get_communicator" in comm, w, comm[:100])

    def points(u):
        for y in {y for y in subterms(u) if y.op == "call" and y.args[0] == "max_n_quadrature_points"}:
            if "QCollection<%d>" % (d - 1) in show(y, 12):
                u = T.replace(u, y, NFQ, memo={})
        for y in {y for y in subterms(u) if y.op == "size" and isinstance(y.args[0], Term) and y.args[0].op == "call" and y.args[0].args[0] in ("face_iterators", "face_indices")
                  and y.args[0].args[1] is ONECELL}:
            u = T.replace(u, y, NFACES, memo={})
        for y in {y for y in subterms(u) if y.op == "call" and y.args[0] == "n_faces" and y.args[1] is ONECELL}:
            u = T.replace(u, y, NFACES, memo={})
        return u
    k = p24.integrand(K, x.args[2], points, "face")
    c.ob("the stress is integrated over the faces of the owned cells" + lab, k is not None, w, show(x.args[2], 9)[:600])
    if k is None:
        return
    face = call("face", ONECELL, F)
    upper = as_atom(eq(atom(call("boundary_id", face)), num(3)))
    k = K.assume(k, (mk("b", call("at_boundary", face)), ONE), (mk("b", atom(call("at_boundary", face))), ONE),
                 (mk("b", call("at_boundary", ONECELL)), ONE), (mk("b", atom(call("at_boundary", ONECELL))), ONE))
    h, cr, sol = fe(ONECELL, F), crystal(ONECELL), fld("fe_field.solution")
    sym_ = lambda g: mk("tens", "S", 2, d, tuple(g(min(i, j), max(i, j)) for i in range(d) for j in range(d)))
    eps = lambda i, j: value("get_function_symmetric_gradients", h, ext_u(cr), sol, Q, i, j)
    slips = lam(2, lambda a, b: value("get_function_values", h, ext_s(cr, a), sol, b))
    el = call("get_elastic_strain_tensor", fld("elastic_strain"), cr, Q, sym_(eps), slips)
    sig = call("get_stress_tensor", fld("hooke_law"), cr, sym_(lambda i, j: comps(el, (i, j))))
    want = mul(jxw(h, Q), comps(sig, (0, 1)))
    other = K.assume(k, (upper, ZERO))
    c.ob("no other boundary contributes" + lab, other is ZERO, w, show(other, 9)[:500])
    k = K.assume(k, (upper, ONE))
    c.ob("the shear component of the stress is integrated over the upper boundary" + lab, k is want or T.equal(k, want), w, "computed %s\nrequired %s" % (show(k, 12)[:1200], show(want, 12)[:1200]))
    c.count("integrals", 1)
