"""P24 homogenization: volume averages over the whole domain, and the table's columns."""
from lab import *
from report import Check
from kernel import *
import effects
import kernel
import terms as T
from solver import as_atom

EXPL = ("The homogenization is evaluated from its entry point; each value written to the table is an expression in sums over the cells, reduced over "
        "the processes, whose integrands are brought into the normal form of the cell kernels and compared with the stress, strain and volume integrals.")
Q = var("Q")
NUMBER = atom(mk("sym", "number of the cell"))
ONECELL = at(call("active_cell_iterators", fld("fe_field.dof_handler")), (("i", NUMBER),))
HOM = "gCP::Postprocessing::Homogenization<%d>::"
NAMES = {(0, 0): "11", (1, 1): "22", (2, 2): "33", (1, 2): "23", (0, 2): "13", (0, 1): "12"}


def check():
    c = Check("P24", "value graph of the homogenization, integrands in kernel normal form, against the volume averages", "", ("source/postprocessing.cc", "source/constitutive_laws.cc", "source/fe_field.cc"))
    c.load()
    for d in (2, 3):
        table(c, d)
    return c.finish(EXPL)


def table(c, d):
    f = c.anchor(HOM % d + "compute_macroscopic_quantities", 1)
    rows, starts = [], []

    def add_value(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        rows.append((a[0], a[1], ev.full(), e.get("l", 0), len(starts)))
        return mk("sym", "ignored")

    def new_row(ev, e):
        starts.append((ev.full(), len(rows)))
        return mk("sym", "ignored")
    init = constants(c, d)
    strain = setter(c, d)
    ev, _ = c.vg(f, opaque=kernel.opaque, init=init, hooks={"dealii::TableHandler::add_value": add_value, "dealii::TableHandler::start_new_row": new_row})
    p = f["params"][0]["n"]
    lab = " (dim %d)" % d
    w = c.where(f)
    c.must(rows, "columns of the homogenization table")
    c.ob("one row is written" + lab, len(starts) == 1 and starts[0][0] is ONE and starts[0][1] in (0, len(rows)), w, "%s" % [show(g, 3) for g, _ in starts])
    A = Averages(c, ev, d, lab, w, strain)
    want = A.columns(atom(mk("sym", p)))
    got = {}
    for n, v, g, line, _ in rows:
        c.ob("column %s is written once, always%s" % (n.args[0], lab), g is ONE and n.args[0] not in got, w, "line %d under %s" % (line, show(g, 4)[:200]))
        got[n.args[0]] = v
    c.ob("the columns" + lab, set(got) == set(want), w, "missing %s, unexpected %s" % (sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    for n in sorted(set(want) & set(got)):
        v = A.norm(got[n])
        c.ob("%s%s" % (n, lab), v is want[n] or T.equal(v, want[n]), w, "computed %s\nrequired %s" % (show(v, 8)[:700], show(want[n], 8)[:500]))
    declared(c, d, set(want))


def constants(c, d):
    """the projectors the constructor builds, which no method changes"""
    cls = (HOM % d)[:-2]
    L = Lab(c)
    o = L.new(cls, "field", "mapping")
    methods = [f for q, fs in c.prog.by_q.items() if q.startswith(HOM % d) for f in fs if f["kind"] == "fn" and not f.get("const") and f.get("body")]
    E = effects.Effects(c.prog)
    sets = [E.fields(f) for f in methods]
    if None in sets:
        raise AnalysisBroken("members written by a method of %s" % cls)
    written = set().union(*sets)
    r = {}
    for x in c.prog.records[cls]["fields"]:
        pt = vg.ptype(x["t"])
        if pt[0] == "tens" and pt[2] == 4 and x["n"] not in written:
            r[x["n"]] = L.get(o, x["n"], t=x["t"])
    return r


def setter(c, d):
    """the member the prescribed macroscopic strain is kept in"""
    f = c.anchor(HOM % d + "set_macroscopic_strain", 1)
    ev, _ = c.vg(f)
    p = f["params"][0]["n"]
    st = [s for s in ev.logs.get("this", []) + ev.logs.get("$this", []) if s.line]
    names = {s.steps[0][1] for s in st}
    ok = len(names) == 1
    for i in range(d):
        for j in range(i, d):
            if ok:
                v = ev.read(Loc(st[0].root if hasattr(st[0], "root") else ("$this" if ev.logs.get("$this") else "this"), (("f", list(names)[0]), ("i", num(i)), ("i", num(j)))), ("num", False))
                ok = v is comps(mk("sym", p), (i, j))
    c.ob("the macroscopic strain is kept as given (dim %d)" % d, ok, c.where(f), str(names))
    return names.pop() if names else "macroscopic_strain"


def declared(c, d, want):
    L = Lab(c, hooks=(H := {}))
    cols = []

    def dc(ev, e):
        cols.append(ev.rv(e["a"][0]).args[0])
        return mk("sym", "ignored")
    H["dealii::TableHandler::declare_column"] = dc
    L.ev.hooks.update(H)
    L.new((HOM % d)[:-2], "field", "mapping")
    f = c.anchor(HOM % d + "Homogenization", pred=lambda f: f["kind"] == "ctor")
    c.ob("every column is declared, once (dim %d)" % d, len(cols) == len(set(cols)) and want <= set(cols), c.where(f), "%s" % sorted(want - set(cols)))


class Averages:
    def __init__(self, c, ev, d, lab, w, strain):
        self.c, self.ev, self.d, self.lab, self.w = c, ev, d, lab, w
        self.strain = strain
        self.K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS})
        self.seen = {}
        h, cr, sol = fe(ONECELL), crystal(ONECELL), fld("fe_field.solution")
        sym_ = lambda g: mk("tens", "S", 2, d, tuple(g(min(i, j), max(i, j)) for i in range(d) for j in range(d)))
        slips = lam(2, lambda a, b: value("get_function_values", h, ext_s(cr, a), sol, b))
        eps = lambda i, j: value("get_function_symmetric_gradients", h, ext_u(cr), sol, Q, i, j)
        el = call("get_elastic_strain_tensor", fld("elastic_strain"), cr, Q, sym_(eps), slips)
        full = sym_(lambda i, j: add(comps(fld(self.strain), (i, j)), comps(el, (i, j))))
        sig = call("get_stress_tensor", fld("hooke_law"), cr, full)
        sigf = call("get_stress_tensor", fld("hooke_law"), cr, sym_(lambda i, j: comps(el, (i, j))))
        self.ref = {}
        for i in range(d):
            for j in range(i, d):
                self.ref["S%d%d" % (i, j)] = mul(jxw(h, Q), comps(sig, (i, j)))
                self.ref["SF%d%d" % (i, j)] = mul(jxw(h, Q), comps(sigf, (i, j)))
                self.ref["EF%d%d" % (i, j)] = mul(jxw(h, Q), eps(i, j))
        self.ref["V"] = jxw(h, Q)

    def columns(self, time):
        d = self.d
        V = atom(mk("sym", "V"))
        q = lambda n: (lambda i, j: div(atom(mk("sym", n + "%d%d" % (min(i, j), max(i, j)))), V))
        st, sf, ef = q("S"), q("SF"), q("EF")
        e = lambda i, j: add(comps(fld(self.strain), (min(i, j), max(i, j))), ef(i, j))
        r = {"Time": time}
        for (i, j), n in NAMES.items():
            if i < d and j < d:
                r["Stress_" + n], r["Strain_" + n] = st(i, j), e(i, j)
                r["StressFluctuations_" + n], r["StrainFluctuations_" + n] = sf(i, j), ef(i, j)

        def mises(t, f):
            tr = mul(num(Fr(1, 3)), add(*[t(i, i) for i in range(d)]))
            dv = [sub(t(i, j), tr if i == j else ZERO) for i in range(d) for j in range(d)]
            return powr(mul(num(f), add(*[mul(x, x) for x in dv])), Fr(1, 2))
        r["VonMisesStress"], r["VonMisesStrain"] = mises(st, Fr(3, 2)), mises(e, Fr(2, 3))
        r["VonMisesStressFluctuations"], r["VonMisesStrainFluctuations"] = mises(sf, Fr(3, 2)), mises(ef, Fr(2, 3))
        return r

    def norm(self, t):
        """process sums of domain integrals -> their names"""
        for x in sorted({x for x in subterms(t) if self.is_sum(x)}, key=lambda x: x.dig):
            t = T.replace(t, x, self.name(x), memo={})
        return t

    def is_sum(self, x):
        return x.op == "at" and x.args[0].op == "call" and x.args[0].args[0] == "dealii::Utilities::MPI::sum" \
            or x.op == "call" and x.args[0] == "dealii::Utilities::MPI::sum" and isnum(x.args[2])

    def name(self, x):
        if x in self.seen:
            return self.seen[x]
        call_ = x.args[0] if x.op == "at" else x
        v = call_.args[2]
        if x.op == "at":
            ix = tuple(int(const(s[1])) for s in x.args[1])
            v = vg.tget(v, ix)
        comm = show(call_.args[3], 4)
        r = atom(x)
        k = self.integral(v)
        ok = "MPI_COMM_WORLD" in comm or "ompi_mpi_comm_world" in comm or "get_communicator" in comm
        if ok and k is not None:
            for n, want in self.ref.items():
                if k is want or T.equal(k, want):
                    r = atom(mk("sym", n))
                    self.c.count("integrals", 1)
                    break
            else:
                r = atom(mk("sym", "MPI sum of the integral of " + show(k, 7)[:300]))
        self.seen[x] = r
        return r

    def integral(self, v):
        """integrand of the sum over the quadrature points of the owned cells, None if it is no such sum"""
        return integrand(self.K, v, self.points, "cell")

    def points(self, t):
        for x in {x for x in subterms(t) if x.op == "call" and x.args[0] == "max_n_quadrature_points"}:
            if x.args[1] is fld("quadrature_collection"):
                t = T.replace(t, x, NQ, memo={})
        return t


def integrand(K, v, points, kind, handlers=(fld("fe_field.dof_handler"),)):
    """integrand of a sum over the owned cells of the field's mesh (or their faces); None if it is no such sum"""
    parts = []
    for c, m in v.args[0]:
        fs, bs = m.args
        cells = [(b, as_atom(hi).args[0]) for b, lo, hi in bs if lo is ZERO and as_atom(hi) is not None and as_atom(hi).op == "size"
                 and isinstance(as_atom(hi).args[0], Term) and as_atom(hi).args[0].op == "call" and as_atom(hi).args[0].args[0] == "active_cell_iterators"]
        if len(cells) != 1 or cells[0][1].args[1] not in handlers:
            return None
        b, it = cells[0]
        cell = at(it, (("i", var(b)),))
        own = [a for a, e in fs if a.op == "b" and as_atom(a.args[0]) is call("is_locally_owned", cell)]
        if len(own) != 1:
            return None
        rest = [(a, e) for a, e in fs if a is not own[0]]
        p = mk("poly", ((c, mk(m.op, tuple(rest), tuple(x for x in bs if x[0] != b))),))
        parts.append(subst(p, {b: NUMBER}))
    try:
        k = K.integrands(points(add(*parts)))
    except vg.Unsupported:
        return None
    return k[kind] if set(k) == {kind} else None
