"""P23 output fields: names, interpretation and values of the postprocessors."""
from lab import *
from report import Check
import terms as T
import vg

EXPL = ("The postprocessors are evaluated on symbolic solution values and gradients for fixed numbers of slip systems and crystals (all different "
        "from one another); every entry of the result is an algebraic expression compared with the definition of the quantity its name announces, "
        "in two and three dimensions, with and without decohesion, light output, dimensionless output and fluctuations.")
NS = "gCP::Postprocessing::"
SIZES = {2: (4, 3), 3: (4, 2)}  # dimension -> slip systems, crystals
VOIGT = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))
SUFFIX = ("11", "22", "33", "23", "13", "12")
CQ = lambda k: sc("dl", "characteristic_quantities", k)
DN = sc("dl", "dimensionless_numbers", 0)
MAT = mk("call", "material_id", mk("call", "get_cell", mk("sym", "inputs")))


def names(d, ns, fluct):
    eng = [s + ("x2" if i > 2 else "") for i, s in enumerate(SUFFIX)]
    n = ["Displacement"] * d + ["Slip_%02d" % (s + 1) for s in range(ns)]
    n += ["EquivalentPlasticStrain", "EquivalentAbsolutePlasticStrain", "EquivalentEdgeDislocationDensity", "EquivalentScrewDislocationDensity",
          "VonMisesStress", "VonMisesPlasticStrain"]
    n += ["Stress_" + s for s in SUFFIX]
    for k in ("Strain", "ElasticStrain", "PlasticStrain"):
        n += ["%s_%s" % (k, s) for s in eng]
    if fluct:
        n += ["VonMisesStressFluctuations"] + ["StressFluctuations_" + s for s in SUFFIX] + ["StrainFluctuations_" + s for s in eng]
    return n


class Ref:
    """definition of every quantity in terms of the solution at point Q"""

    def __init__(self, d, dec, dimless, hooke):
        self.d = d
        self.ns, self.nc = SIZES[d]
        self.dec = dec
        self.cq = (lambda k: ONE) if dimless else CQ
        self.hooke = hooke
        self.off = d * self.nc if dec else d
        self.Q = var("Q")

    def val(self, k):
        return sc("inputs", "solution_values", self.Q, k)

    def grad(self, k, j):
        return sc("inputs", "solution_gradients", self.Q, k, j)

    def slips(self):
        for a in range(self.nc):
            for s in range(self.ns):
                yield a, s, self.off + s + self.ns * a

    def disp(self, f):
        n = self.nc if self.dec else 1
        return lambda i: add(*[f(i + self.d * a) for a in range(n)])

    def strain(self, macro=True):
        g = lambda i, j: self.disp(lambda k: self.grad(k, j))(i)
        r = [[ZERO] * 3 for _ in range(3)]
        for i in range(self.d):
            for j in range(self.d):
                e = sc("E", min(i, j), max(i, j)) if macro else ZERO
                r[i][j] = add(mul(num(Fr(1, 2)), add(g(i, j), g(j, i))), e)
        return r

    def plastic(self):
        r = [[ZERO] * 3 for _ in range(3)]
        for i in range(self.d):
            for j in range(self.d):
                r[i][j] = add(*[mul(self.val(k), sc("crystals", "symmetrized_schmid_tensors", a, s, min(i, j), max(i, j))) for a, s, k in self.slips()])
        return r

    def elastic(self, macro=True):
        e, p = self.strain(macro), self.plastic()
        return [[sub(e[i][j], mul(DN, p[i][j])) for j in range(3)] for i in range(3)]

    def stress(self, macro=True):
        e = self.elastic(macro)
        return [[add(*[mul(self.hooke(i, j, k, l), e[k][l]) for k in range(3) for l in range(3)]) for j in range(3)] for i in range(3)]

    def mises(self, t, f):
        tr = mul(num(Fr(1, 3)), add(t[0][0], t[1][1], t[2][2]))
        dv = [[sub(t[i][j], tr if i == j else ZERO) for j in range(3)] for i in range(3)]
        return powr(mul(num(f), add(*[mul(x, x) for r in dv for x in r])), Fr(1, 2))

    def density(self, axis):
        q = [powr(add(*[mul(self.grad(k, j), sc("crystals", axis, a, s, j)) for j in range(self.d)]), 2) for a, s, k in self.slips()]
        return mul(self.cq("dislocation_density"), powr(add(*q), Fr(1, 2)))

    def all(self, light, fluct):
        d, ns = self.d, self.ns
        r = [mul(self.cq("displacement"), self.disp(self.val)(i)) for i in range(d)]
        r += [add(*[self.val(k) for a, t, k in self.slips() if t == s]) for s in range(ns)]
        if light:
            return r
        r.append(add(*[self.val(k) for a, s, k in self.slips()]))
        r.append(add(*[T.fabs(self.val(k)) for a, s, k in self.slips()]))
        r.append(self.density("slip_directions"))
        r.append(self.density("slip_orthogonals"))
        sig, eps = self.cq("stress"), self.cq("strain")
        s, p = self.stress(), self.plastic()
        r.append(mul(sig, self.mises(s, Fr(3, 2))))
        r.append(self.mises(p, Fr(2, 3)))
        voigt = lambda t, f, g: [mul(f, g if i > 2 else ONE, t[a][b]) for i, (a, b) in enumerate(VOIGT)]
        two = num(2)
        r += voigt(s, sig, ONE) + voigt(self.strain(), eps, two) + voigt(self.elastic(), eps, two) + voigt(p, ONE, two)
        if fluct:
            s = self.stress(False)
            r += [mul(sig, self.mises(s, Fr(3, 2)))] + voigt(s, sig, ONE) + voigt(self.strain(False), eps, two)
        return r


def trace_free(t, d, ns, nc):
    """slip directions lie in their planes (P01): the Schmid tensors have no trace"""
    m = {}
    for a in range(nc):
        for s in range(ns):
            x = [T.single_atom(sc("crystals", "symmetrized_schmid_tensors", a, s, i, i)) for i in range(d)]
            m[x[-1]] = neg(add(*[atom(y) for y in x[:-1]]))
    for k, v in m.items():
        t = T.replace(t, k, v, memo={})
    return t


class At(T.Interp):
    """point 1 of 1000; the result and the solution have as many entries as the field requires"""

    def __init__(self, d, dec, total):
        super().__init__(7, False)
        ns, nc = SIZES[d]
        self.total, self.comps, self.known = total, (d * nc if dec else d) + ns * nc, True

    def atom(self, a):
        if T.is_bool_atom(a):
            return super().atom(a)
        if a is T.single_atom(var("Q")):
            return 1.0
        if a.op == "at" and a.args[1][-1] == ("f", "#size"):
            of, st = a.args[0], [x for x in a.args[1][:-1]]
            if of is mk("sym", "out"):
                return 1000.0 if not st else float(self.total)
            if of is mk("sym", "inputs") and st and st[0] in (("f", "solution_values"), ("f", "solution_gradients")):
                return 1000.0 if len(st) == 1 else float(self.comps)
        self.known = False
        return super().atom(a)


def clean(t, make):
    """comparisons between the point's number and the lengths of the arrays"""
    for x in sorted({x for x in subterms(t) if T.is_bool_atom(x)}, key=lambda x: len(list(subterms(x)))):
        i = make()
        v = i.atom(x)
        if i.known:
            t = T.replace(t, x, num(int(round(v))), memo={})
    return t


def stiffness(i, j, k, l):
    """a general stiffness: distinct numbers times one material-dependent symbol"""
    v = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (0, 2): 4, (0, 1): 5}
    a, b = sorted((v[min(i, j), max(i, j)], v[min(k, l), max(k, l)]))
    return mul(num((7, 11, 13, 17, 19, 23)[a] + (29, 41, 67, 97, 139, 211)[b]), atom(mk("call", "stiffness", mk("sym", "hooke"), atom(MAT))))


def tetrad(ev, e):
    o = ev.ev(e["obj"]) if e.get("obj") else None
    o = ev.read(o, ("obj", "")) if isinstance(o, Loc) else o
    m = ev.rv(e["a"][0])
    S = mk("call", "stiffness", o, m)
    es = []
    for i in range(3):
        for j in range(3):
            for k in range(3):
                for l in range(3):
                    es.append(T.replace(stiffness(i, j, k, l), mk("call", "stiffness", mk("sym", "hooke"), atom(MAT)), atom(S), memo={}))
    return mk("tens", "S", 4, 3, tuple(es))


def lab(c, d, dec, full=False):
    ns, nc = SIZES[d]
    fix = lambda k: (lambda ev, e: num(k))
    H = {"gCP::CrystalsData::get_n_slips": fix(ns), "gCP::CrystalsData::get_n_crystals": fix(nc), "gCP::FEField::is_decohesion_allowed": fix(dec),
         "gCP::FEField::get_n_slips": fix(ns), "gCP::FEField::get_n_crystals": fix(nc),
         "gCP::FEField::get_n_components": fix((d * nc if dec else d) + ns * nc)}
    if not full:
        H["gCP::ConstitutiveLaws::HookeLaw::get_stiffness_tetrad_3d"] = tetrad
    return Lab(c, hooks=H)


def check():
    c = Check("P23", "symbolic evaluation of the postprocessors, entry by entry, against the definitions of the quantities they name", "",
              ("source/postprocessing.cc", "source/run_time_parameters.cc"))
    c.load()
    for d in (2, 3):
        for dec in (0, 1):
            for light, dimless, fluct in ((0, 0, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 1)):
                if d == 3 and (dec, light, fluct) in ((1, 0, 0), (1, 1, 1)):
                    continue
                postprocessor(c, d, dec, light, dimless, fluct)
            slip_based(c, d, dec)
    return c.finish(EXPL)


def length(c, L, r, n, where, what):
    k = L.get(r, "#size", t="unsigned int")
    c.ob("%s: one for every field" % what, const(k) == n, where, "%s, not %d" % (show(k, 4)[:200], n))
    return const(k) == n


def listed(c, L, o, q, want, where, what):
    r = L.raw(o, q)
    if length(c, L, r, len(want), where, what):
        for i, n in enumerate(want):
            x = L.get(r, i, t="std::string")
            g = text(x)
            if g is None:
                raise AnalysisBroken("name of field %d is not a string expression the check can read: %s" % (i, show(x, 5)[:200]))
            c.ob("%s: field %d" % (what, i), g == n, where, "'%s', not '%s'" % (g, n))


def kinds(c, L, o, q, d, n, where, what):
    """the displacement's components form a vector, everything else is a scalar"""
    r = L.raw(o, q)
    if length(c, L, r, n, where, what):
        got = [show(L.get(r, i, t="dealii::DataComponentInterpretation::DataComponentInterpretation"), 3).rsplit("::", 1)[-1] for i in range(n)]
        want = ["component_is_part_of_vector"] * d + ["component_is_scalar"] * (n - d)
        c.ob("%s: vector and scalars" % what, got == want, where, "%s" % got)


def text(t):
    """the characters of a string value; None where they cannot be determined"""
    if isinstance(t, str):
        return t
    n = T.single_atom(t) if isnum(t) else t
    if const(t) is not None if isnum(t) else False:
        return None
    if n is None:
        return None
    if n.op == "strlit" or n.op == "str":
        return n.args[0]
    if n.op != "call":
        return None
    k, a = n.args[0].rsplit("::", 1)[-1], n.args[1:]
    if k == "op+":
        r = [text(x) for x in a]
        return None if None in r else "".join(r)
    if k == "to_string" and const(a[-1]) is not None:
        return str(int(const(a[-1])))
    if k in ("int_to_string",) and const(a[1]) is not None:
        w = const(a[2]) if len(a) > 2 else None
        return str(int(const(a[1]))).zfill(int(w) if w is not None and 0 <= w < 99 else 0)
    if k == "str":
        return stream(a[0])
    if k == "copy" or k == "string" or k == "ctorobj":
        return text(a[-1]) if a else None
    return None


def stream(t):
    items = []
    while t.op == "call" and t.args[0] == "op<<":
        items.append(t.args[2])
        t = t.args[1]
    if t.op not in ("ctorobj", "call"):
        return None
    r, w, fill = "", 0, " "
    for x in reversed(items):
        n = T.single_atom(x) if isnum(x) else x
        k = n.args[0].rsplit("::", 1)[-1] if isinstance(n, Term) and n.op == "call" and isinstance(n.args[0], str) else None
        if k == "setw":
            w = int(const(n.args[2]))
        elif k == "setfill":
            fill = chr(int(const(n.args[2])))
        else:
            v = str(int(const(x))) if isnum(x) and const(x) is not None else text(x)
            if v is None:
                return None
            r += v.rjust(w, fill)
            w = 0
    return r


def postprocessor(c, d, dec, light, dimless, fluct):
    lab_ = " (dim %d, %s%s%s%s)" % (d, "decohesion" if dec else "no decohesion", ", light" if light else "", ", dimensionless" if dimless else "", ", fluctuations" if fluct else "")
    L = lab(c, d, dec)
    P = NS + "Postprocessor<%d>" % d
    ns, nc = SIZES[d]
    o = L.new(P, "field", "crystals", "dl", num(light), num(dimless), num(fluct))
    L.ev.call(L.fn(P + "::init"), o, [L.sym("hooke")])
    L.ev.call(L.fn(P + "::set_macroscopic_strain"), o, [L.sym("E")])
    want = names(d, ns, fluct)[:d + ns if light else None]
    f = c.anchor(P + "::get_names", 0)
    listed(c, L, o, P + "::get_names", want, c.where(f), "names" + lab_)
    f = c.anchor(P + "::get_data_component_interpretation", 0)
    kinds(c, L, o, P + "::get_data_component_interpretation", d, len(want), c.where(f), "interpretation" + lab_)
    f = c.anchor(P + "::evaluate_vector_field", 2)
    out = L.ev.newroot("$out", mk("sym", "out"))
    L.ev.call(f, o, [L.sym("inputs"), out])
    R = Ref(d, dec, dimless, stiffness)
    ref = R.all(light, fluct)
    for k, (n, w) in enumerate(zip(want, ref)):
        g = clean(L.get(out, var("Q"), k), lambda: At(d, dec, len(want)))
        if n == "VonMisesPlasticStrain":
            g, w = trace_free(g, d, ns, nc), trace_free(w, d, ns, nc)
        ok = g is w or T.equal(g, w) and T.equal_on_boundaries(g, w)
        c.ob("%s%s" % (n if n != "Displacement" else "Displacement %d" % k, lab_), ok, c.where(f), "computed %s\nrequired %s" % (show(g, 9)[:600], show(w, 9)[:600]))


def slip_based(c, d, dec):
    """fields of a quantity defined per slip system (trial microstress, slip resistance, active set)"""
    lab_ = " (slip-based, dim %d, %s)" % (d, "decohesion" if dec else "no decohesion")
    L = lab(c, d, dec)
    P = NS + "SlipBasedPostprocessor<%d>" % d
    ns, nc = SIZES[d]
    o = L.ev.newroot("$pp", mk("sym", "pp"))
    f = c.anchor(P + "::reinit", 4)
    L.ev.call(f, o, [L.sym("crystals"), mk("sym", "name"), num((d * nc if dec else d) + ns * nc), num(dec)])
    f = c.anchor(P + "::get_names", 0)
    r = L.raw(o, P + "::get_names")
    if length(c, L, r, ns, c.where(f), "names" + lab_):
        g = [parts(L.get(r, i, t="std::string")) for i in range(ns)]
        c.ob("names number the slip systems" + lab_, g == [["name", str(i)] for i in range(ns)], c.where(f), str(g))
    f = c.anchor(P + "::get_data_component_interpretation", 0)
    kinds(c, L, o, P + "::get_data_component_interpretation", 0, ns, c.where(f), "interpretation" + lab_)
    f = c.anchor(P + "::evaluate_vector_field", 2)
    out = L.ev.newroot("$out", mk("sym", "out"))
    L.ev.call(f, o, [L.sym("inputs"), out])
    R = Ref(d, dec, 0, None)
    for s in range(ns):
        g = clean(L.get(out, var("Q"), s), lambda: At(d, dec, ns))
        w = add(*[T.fabs(R.val(k)) for a, t, k in R.slips() if t == s])
        c.ob("value of slip system %d%s" % (s, lab_), g is w or T.equal(g, w) and T.equal_on_boundaries(g, w), c.where(f), "computed %s\nrequired %s" % (show(g, 7)[:400], show(w, 7)[:400]))


def parts(x):
    if isinstance(x, Term) and x.op == "call" and x.args[0] == "op+":
        return parts(x.args[1]) + parts(x.args[2])
    t = text(x)
    return [t if t is not None else show(x, 4)]
