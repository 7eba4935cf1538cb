"""P07 grain-boundary microtraction, interaction moduli and free energy."""
from report import Check
from lab import *

EXPL = ("Value graph of the interaction moduli, the microtraction, its two derivatives and the grain-boundary free "
        "energy for dim 2 and 3, with slip systems, normal, slips and the number of slip systems symbolic, compared "
        "with the closed forms of the grain-boundary Burgers tensor formulation.")


def cross(a, b, d):
    if d == 2:
        return [a[0] * b[1] - a[1] * b[0]]
    return [a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]


def check():
    c = Check("P07", "value-graph equivalence with algebraic differentiation",
              "interaction moduli, microtraction, derivatives and energy equal their closed forms",
              ["source/constitutive_laws.cc", "source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        M = "gCP::ConstitutiveLaws::MicrotractionLaw<%d>" % d
        CD = "gCP::CrystalsData<%d>" % d
        L = Lab(c)
        cr = L.sym("crystals")
        nc, ns = L.call(cr, CD + "::get_n_crystals"), L.call(cr, CD + "::get_n_slips")
        A, B = var("crystalA"), var("crystalB")
        a, b, q = var("alpha"), var("beta"), var("q")
        for v, n in (("crystalA", nc), ("crystalB", nc), ("alpha", ns), ("beta", ns)):
            L.ev.ranges[v] = (ZERO, n)
        L.ev.ranges["q"] = (ZERO, atom(mk("size", mk("sym", "normals"))))
        o = L.new(M, cr, "prm", "ch")
        sys_ = lambda k, i: (tv(L.call(cr, CD + "::get_slip_direction", k, i)), tv(L.call(cr, CD + "::get_slip_normal", k, i)))
        n = [atom(at(mk("sym", "normals"), (("i", q), ("i", num(i))))) for i in range(d)]
        f = L.fn(M + "::get_grain_interaction_moduli")
        m = L.raw(o, M + "::get_grain_interaction_moduli", A, B, "normals")
        for label, fld, k2 in (("intra", "first", A), ("inter", "second", B)):
            s1, m1 = sys_(A, a)
            s2, m2 = sys_(k2, b)
            want = dot(s1, s2) * dot(cross(m1, n, d), cross(m2, n, d))
            got = L.get(m, fld, q, a, b)
            c.same("%s-grain interaction modulus, dim %d" % (label, d), got, want, f)
        # traction for arbitrary moduli
        mod = lambda fld, i, j: atom(at(mk("sym", "mod"), (("f", fld), ("i", q), ("i", i), ("i", j))))
        sl = lambda s, i: atom(at(mk("sym", s), (("i", i), ("i", q))))
        v = fresh()
        x = var(v)
        K = sc("prm", "grain_boundary_modulus") / sc("ch")
        want = Sum(v, ZERO, ns, -K * (mod("first", a, x) * sl("cur", x) - mod("second", a, x) * sl("nei", x)))
        c.same("microtraction, dim %d" % d, L.call(o, M + "::get_microtraction", q, a, "mod", "cur", "nei"), want, L.fn(M + "::get_microtraction"))
        for nm, fld, sg in (("get_intra_gateaux_derivative", "first", -1), ("get_inter_gateaux_derivative", "second", 1)):
            g = L.raw(o, M + "::" + nm, q, "mod")
            c.same("%s, dim %d" % (nm, d), L.get(g, a, b), sg * K * mod(fld, a, b), L.fn(M + "::" + nm))
        # free energy
        e = L.call(o, M + "::get_free_energy_density", A, B, q, "normals", "sA", "sB")

        def bt(k, s):
            w = fresh()
            L.ev.ranges[w] = (ZERO, ns)
            y = var(w)
            s1, m1 = sys_(k, y)
            cr_ = cross(m1, n, d)
            return [[Sum(w, ZERO, ns, sl(s, y) * si * cj) for cj in cr_] for si in s1]
        G = [[p - r for p, r in zip(u, w)] for u, w in zip(bt(A, "sA"), bt(B, "sB"))]
        want = num(1) / 2 * sc("prm", "grain_boundary_modulus") * add(*[g * g for r in G for g in r])
        c.same("grain-boundary free energy, dim %d" % d, e, want, L.fn(M + "::get_free_energy_density"))
    return c.finish(EXPL)
