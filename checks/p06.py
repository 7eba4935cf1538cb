"""P06 vectorial microstress and its linearisation."""
from report import Check
from lab import *

EXPL = ("Value graph of the vectorial microstress after init() for dim 2 and 3, with the dimensionless switch, the "
        "defect energy index and the slip gradient symbolic, compared component by component with the closed form; "
        "the linearisation is compared with the algebraic derivative of the evaluated microstress.")


def check():
    c = Check("P06", "value-graph equivalence with algebraic differentiation",
              "vectorial microstress equals its closed form and its Jacobian is its derivative",
              ["source/constitutive_laws.cc", "source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        V = "gCP::ConstitutiveLaws::VectorialMicrostressLaw<%d>" % d
        CD = "gCP::CrystalsData<%d>" % d
        L = Lab(c)
        cr = L.sym("crystals")
        nc, ns = L.call(cr, CD + "::get_n_crystals"), L.call(cr, CD + "::get_n_slips")
        k, a = var("crystal"), var("alpha")
        L.ev.ranges["crystal"] = (ZERO, nc)
        L.ev.ranges["alpha"] = (ZERO, ns)
        for label, flag in (("dimensional", ZERO), ("dimensionless", ONE)):
            o = L.new(V, cr, "prm")
            L.ev.call(L.fn(V + "::init"), o, [flag])
            L.note()
            s = tv(L.call(cr, CD + "::get_slip_direction", k, a))
            l = tv(L.call(cr, CD + "::get_slip_orthogonal", k, a))
            n = sc("prm", "defect_energy_index")
            fac = ONE if flag is ONE else sc("prm", "initial_slip_resistance") * pow2(sc("prm", "energetic_length_scale"), n)
            g = vec("grad", d)
            xi = tv(L.call(o, V + "::get_vectorial_microstress", k, a, "grad"))
            f = L.fn(V + "::get_vectorial_microstress")
            sg, lg = dot(s, g), dot(l, g)
            for i in range(d):
                want = fac * (pow2(fabs(sg), n - 2) * sg * s[i] + pow2(fabs(lg), n - 2) * lg * l[i])
                c.same("vectorial microstress component %d, %s, dim %d" % (i, label, d), xi[i], want, f)
            two = lambda f: f["ret"].startswith("dealii::SymmetricTensor")
            J = tm(L.call(o, V + "::get_jacobian", k, a, "grad", pred=lambda f: "vector" not in f["params"][2]["t"]))
            fj = L.fn(V + "::get_jacobian", None, lambda f: "vector" not in f["params"][2]["t"])
            for i in range(d):
                for j in range(d):
                    gj = single_atom(g[j])
                    want = diff(xi[i], lambda t: ONE if t is gj else (ZERO if t.op == "at" else None))
                    c.same("vectorial microstress Jacobian %d%d, %s, dim %d" % (i, j, label, d), J[i][j], want, fj)
    return c.finish(EXPL)
