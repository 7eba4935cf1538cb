"""P03 linear elastic law: cubic stiffness, rotated per crystal, sigma = C : eps."""
from report import Check
from lab import *

EXPL = ("Value graph of the elastic law built from its own constructors for dim 2 and 3: every independent "
        "component of the mono- and polycrystal stiffness (in-plane and three-dimensional) and of the stress is "
        "compared, as a polynomial in the configured constants, the rotation and the strain, with the cubic tensor "
        "rotated by the crystal's rotation and its double contraction with the strain.")


def cubic(d, k):
    """C11, C12, C44 tensor"""
    c11, c12, c44 = (sc("prm", n) for n in ("C1111", "C1122", "C1212"))
    out = {}
    for i in range(d):
        for j in range(d):
            for p in range(d):
                for q in range(d):
                    if i == j == p == q:
                        v = c11
                    elif i == j and p == q:
                        v = c12
                    elif (i == p and j == q) or (i == q and j == p):
                        v = c44
                    else:
                        v = ZERO
                    out[i, j, p, q] = v / k
    return out


def rotated(C0, R, d, ijkl):
    i, j, k, l = ijkl
    s = []
    for (o, p, q, r), v in C0.items():
        if v is not ZERO:
            s.append(mul(R[i][o], R[j][p], R[k][q], R[l][r], v))
    return add(*s)


def entry4(t, d, ijkl):
    i, j, k, l = ijkl
    return t.args[3][((i * d + j) * d + k) * d + l]


def pairs(d):
    return [(i, j) for i in range(d) for j in range(i, d)]


def check():
    c = Check("P03", "value-graph equivalence (global value numbering with algebraic normal forms)",
              "stress and stiffness components equal the rotated cubic law", ["source/constitutive_laws.cc", "source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        H = "gCP::ConstitutiveLaws::HookeLaw<%d>" % d
        CD = "gCP::CrystalsData<%d>" % d
        kf = sc("k")
        # --- polycrystal
        L = Lab(c)
        cr = L.sym("crystals")
        n = L.call(cr, CD + "::get_n_crystals")
        cid = var("crystal")
        L.ev.ranges["crystal"] = (ZERO, n)
        o = L.new(H, cr, "prm", "k")
        L.call(o, H + "::init")
        f = L.fn(H + "::init")
        R = tm(L.call(cr, CD + "::get_rotation_tensor", cid))
        C0 = cubic(d, kf)
        two = lambda g: len(g["params"]) == 1
        C = L.call(o, H + "::get_stiffness_tetrad", cid, pred=two)
        for a in pairs(d):
            for b in pairs(d):
                c.same("stiffness C%s%s of a crystal, dim %d" % (a, b, d), entry4(C, d, a + b), rotated(C0, R, d, a + b), f)
        R3 = tm(L.call(cr, CD + "::get_3d_rotation_tensor", cid)) if d == 2 else R
        C03 = cubic(3, kf)
        C3 = L.call(o, H + "::get_stiffness_tetrad_3d", cid, pred=two)
        for a in pairs(3):
            for b in pairs(3):
                c.same("3d stiffness C%s%s of a crystal, dim %d" % (a, b, d), entry4(C3, 3, a + b), rotated(C03, R3, 3, a + b), f)
        # the stress is the double contraction with what init() stored
        g = L.fn(H + "::get_stress_tensor", 2)
        s = tm(L.call(o, H + "::get_stress_tensor", cid, "eps"))
        e = smat("eps", d)
        for a in pairs(d):
            want = add(*[mul(entry4(C, d, a + (k, l)), e[k][l]) for k in range(d) for l in range(d)])
            c.same("stress component %s, dim %d" % (a, d), s[a[0]][a[1]], want, g)
        # --- single crystal
        L2 = Lab(c)
        o2 = L2.new(H, "prm", "k")
        L2.call(o2, H + "::init")
        D = L2.call(o2, H + "::get_stiffness_tetrad")
        D3 = L2.call(o2, H + "::get_stiffness_tetrad_3d")
        for a in pairs(d):
            for b in pairs(d):
                c.same("reference stiffness C%s%s, dim %d" % (a, b, d), entry4(D, d, a + b), C0[a + b], f)
        for a in pairs(3):
            for b in pairs(3):
                c.same("reference 3d stiffness C%s%s, dim %d" % (a, b, d), entry4(D3, 3, a + b), C03[a + b], f)
        s = tm(L2.call(o2, H + "::get_stress_tensor", "eps"))
        for a in pairs(d):
            want = add(*[mul(C0[a + (k, l)], e[k][l]) for k in range(d) for l in range(d)])
            c.same("single crystal stress component %s, dim %d" % (a, d), s[a[0]][a[1]], want, L2.fn(H + "::get_stress_tensor", 1))
        # --- elastic strain
        E = "gCP::Kinematics::ElasticStrain<%d>" % d
        L3 = Lab(c)
        cr = L3.sym("crystals")
        nc = L3.call(cr, CD + "::get_n_crystals")
        ns = L3.call(cr, CD + "::get_n_slips")
        L3.ev.ranges["crystal"] = (ZERO, nc)
        o3 = L3.new(E, cr, "N")
        q = var("q")
        es = tm(L3.call(o3, E + "::get_elastic_strain_tensor", cid, q, "eps", "slips"))
        ps = tm(L3.call(o3, E + "::get_plastic_strain_tensor", cid, q, "slips"))
        v = fresh()
        L3.ev.ranges[v] = (ZERO, ns)
        P = tm(L3.call(cr, CD + "::get_symmetrized_schmid_tensor", cid, var(v)))
        gam = atom(at(mk("sym", "slips"), (("i", var(v)), ("i", q))))
        for i, j in pairs(d):
            pl = Sum(v, ZERO, ns, mul(gam, P[i][j]))
            c.same("elastic strain %d%d, dim %d" % (i, j, d), es[i][j], smat("eps", d)[i][j] - mul(sc("N"), pl), L3.fn(E + "::get_elastic_strain_tensor"))
            c.same("plastic strain %d%d, dim %d" % (i, j, d), ps[i][j], pl, L3.fn(E + "::get_plastic_strain_tensor"))
        # --- resolved shear stress
        RS = "gCP::ConstitutiveLaws::ResolvedShearStressLaw<%d>" % d
        o4 = L3.new(RS, cr)
        t = L3.call(o4, RS + "::get_resolved_shear_stress", cid, var(v), "sig")
        sg = smat("sig", d)
        c.same("resolved shear stress, dim %d" % d, t, add(*[mul(sg[i][j], P[i][j]) for i in range(d) for j in range(d)]),
               L3.fn(RS + "::get_resolved_shear_stress"))
    return c.finish(EXPL)
