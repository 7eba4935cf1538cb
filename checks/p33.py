"""P33 dimensionless formulation: characteristic quantities and dimensionless numbers."""
from lab import *
from report import Check
from solver import last, as_atom, calls
import terms as T
import params as P
import p20
from p20 import LAWS, DIML

EXPL = ("The configuration object is built by evaluating its constructor; each characteristic quantity and each dimensionless number is a term in "
        "the file's entries, compared with its definition, with the formulation switched on and off. The scaling of the vectorial microstress is "
        "followed from the solver's set-up into the law.")
S = lambda n: atom(mk("sym", n))
SWITCH = DIML + "/Solve the dimensionless problem"
PRE = "solver_parameters.dimensionless_form_parameters."
REF = {"length": "length", "time": "time", "displacement": "displacement", "stiffness": "stiffness", "slip_resistance": "slip resistance"}


def definitions():
    r = {k: S(DIML + "/Reference parameters/Reference %s value" % v) for k, v in REF.items()}
    v = LAWS + "/Vectorial microstress law's parameters/"
    s0, ell, n = S(v + "Initial slip resistance"), S(v + "Energetic length scale"), S(v + "Defect energy index")
    h = S(LAWS + "/Hardening law's parameters/Linear hardening modulus")
    q = dict(r)
    q["strain"] = div(r["displacement"], r["length"])
    q["stress"] = mul(r["stiffness"], q["strain"])
    q["resolved_shear_stress"] = q["macro_traction"] = q["stress"]
    q["micro_traction"] = div(mul(s0, T.pow2(ell, n)), T.pow2(r["length"], sub(n, ONE)))
    q["body_force"] = div(q["stress"], r["length"])
    q["dislocation_density"] = div(ONE, r["length"])
    d = [div(r["length"], r["displacement"]), div(h, r["slip_resistance"]),
         mul(div(s0, r["slip_resistance"]), T.pow2(div(ell, r["length"]), n)), div(q["stress"], r["slip_resistance"])]
    return q, d


def with_switch(t, on):
    for x in list(subterms(t)):
        if x.op == "b" and len(x.args) == 1 and as_atom(x.args[0]) is mk("sym", SWITCH):
            t = T.replace(t, x, num(1 if on else 0), memo={})
    return t


def same(a, b):
    return a is b or (T.equal(a, b) and T.equal_on_boundaries(a, b))


def check():
    c = Check("P33", "value graph of the configuration's constructor against the definitions of the dimensionless formulation", "",
              ("source/run_time_parameters.cc", "source/gradient_crystal_plasticity/setup.cc", "source/constitutive_laws.cc"))
    c.load()
    L = Lab(c)
    C = P.Config(c, L, p20.CLS)
    f = c.anchor("gCP::RunTimeParameters::DimensionlessForm::parse_parameters", 1)
    w = c.where(f)
    q, d = definitions()
    fields = [x["n"] for x in c.prog.records["gCP::RunTimeParameters::CharacteristicQuantities"]["fields"]]
    c.need(set(fields) >= set(q), "characteristic quantities")
    for k in fields:
        value(c, C, PRE + "characteristic_quantities." + k, q.get(k), w)
    g = C.canon(L.get(C.o, *(PRE + "flag_solve_dimensionless_problem").split("."), t="bool"))
    c.ob("the formulation is the one chosen in the file", as_bool(g), w, show(g, 5))
    for i, x in enumerate(d):
        value(c, C, PRE + "dimensionless_numbers", x, w, i)
    c.must(any(r[2] == "Solve the dimensionless problem" for r in C.reads), "the formulation's switch")
    for dim in (2, 3):
        law(c, L, dim)
    return c.finish(EXPL)


def as_bool(g):
    x = T.single_atom(g)
    return x is not None and (x is mk("sym", SWITCH) or x.op == "b" and as_atom(x.args[0]) is mk("sym", SWITCH))


def value(c, C, path, want, w, *ix):
    t = C.canon(C.L.get(C.o, *path.split("."), *ix, t="double"))
    n = path.rsplit(".", 1)[-1] + "".join("[%d]" % i for i in ix)
    off = with_switch(t, False)
    c.ob("%s is one in the dimensional formulation" % n, off is ONE, w, show(off, 8)[:500])
    if want is not None:
        on = with_switch(t, True)
        c.ob("%s in the dimensionless formulation" % n, same(on, want), w, "computed %s\nrequired %s" % (show(on, 9)[:700], show(want, 9)[:700]))


def law(c, L, dim):
    """the vectorial microstress leaves its scale to the dimensionless number exactly in the dimensionless formulation"""
    f = c.anchor("gCP::GradientCrystalPlasticitySolver<%d>::init" % dim, 0)
    ev, _ = c.vg(f, opaque=lambda q: not q.endswith("GradientCrystalPlasticitySolver<%d>::init" % dim))
    e = [x for x in calls(ev, "init") if "VectorialMicrostressLaw" in str(x[6])]
    c.ob("the vectorial microstress law is set up once (dim %d)" % dim, len(e) == 1 and e[0][4] is ONE, c.where(f), "%d calls" % len(e))
    if len(e) != 1:
        return
    x = e[0][3][0]
    fl = ("parameters", "dimensionless_form_parameters", "flag_solve_dimensionless_problem")
    ok = show(x, 6).replace("b(", "").rstrip(")") == "this." + ".".join(fl)
    c.ob("its form follows the chosen formulation (dim %d)" % dim, ok, c.where(f), show(x, 6)[:300])
    cls = "gCP::ConstitutiveLaws::VectorialMicrostressLaw<%d>" % dim
    c.count("laws", 1)
    return cls
