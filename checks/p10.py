"""P10 cohesive, contact and degradation laws and their derivatives."""
from report import Check
from lab import *

EXPL = ("Value graph of the cohesive and contact laws for dim 2 and 3 and of the degradation function; tractions are "
        "compared with their closed forms in the loading and in the unloading/reloading regime (boundaries of the "
        "regimes included), Jacobians with the algebraic derivative of those tractions for every unit normal, and the "
        "work-conjugacy of the cohesive energy with the loading traction is checked by differentiation.")


def unit(d):
    if d == 2:
        t = sc("th")
        return [fn1("cos", t), fn1("sin", t)]
    t, p = sc("th"), sc("ph")
    return [fn1("cos", t) * fn1("cos", p), fn1("cos", t) * fn1("sin", p), fn1("sin", t)]


def mac(x):
    return x * lt0(neg(x))


HALF = Fr(1, 2)


def check():
    c = Check("P10", "value-graph equivalence with algebraic differentiation",
              "interface tractions equal their closed forms, Jacobians are their derivatives",
              ["source/constitutive_laws.cc", "source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        L = Lab(c)
        n = unit(d)
        nt = mk("tens", "T", 1, d, tuple(n))
        dl = vec("delta", d)
        W = "gCP::ConstitutiveLaws::CohesiveLaw<%d>" % d
        o = L.new(W, "prm", "sig", "cu")
        Tc, dc, be = sc("prm", "critical_cohesive_traction"), sc("prm", "critical_opening_displacement"), sc("prm", "tangential_to_normal_stiffness_ratio")
        cu, sg = sc("cu"), sc("sig")
        dn = dot(n, dl)
        dt = [x - dn * y for x, y in zip(dl, n)]
        eff = powr(mac(dn) * mac(dn) + be * be * dot(dt, dt), HALF)
        f = L.fn(W + "::get_effective_opening_displacement")
        c.same("effective opening displacement, dim %d" % d, L.call(o, W + "::get_effective_opening_displacement", "delta", nt), eff, f)
        T = lambda w: Tc * w / dc * fn1("exp", ONE - w / dc)
        dire = [(mac(dn) * x + be * be * y) / eff for x, y in zip(n, dt)]
        mx, old, h = sc("max"), sc("old"), sc("dt")
        load = eq(eff, mx) * lnot(lt0((eff - old) / h))
        unl = lor(lt(eff, mx), eq(eff, mx) * lt0((eff - old) / h))
        inside = lnot(lt(mx, eff))
        tl = [T(cu * eff) * x / sg for x in dire]
        tu = [T(cu * mx) * eff / mx * x / sg for x in dire]
        f = L.fn(W + "::get_cohesive_traction")
        got = tv(L.call(o, W + "::get_cohesive_traction", "delta", nt, "max", "old", "dt"))
        J = L.fn(W + "::get_jacobian")
        jac = tm(L.call(o, W + "::get_jacobian", "delta", nt, "max", "old", "dt"))
        at_max = lambda x: replace(x, single_atom(mx), eff)
        for i in range(d):
            open_ = lt0(neg(eff))
            # generic point of the unloading regime: below the maximum
            c.same("cohesive traction %d below the largest opening, dim %d" % (i, d), got[i] * lt(eff, mx) * open_, tu[i] * lt(eff, mx) * open_, f)
            # exactly at the largest opening, either sign of the opening rate
            c.same("cohesive traction %d at the largest opening, dim %d" % (i, d), at_max(got[i]) * open_,
                   at_max(load * tl[i] + unl * tu[i]) * open_, f)
            for j in range(d):
                a = single_atom(dl[j])
                D = lambda t: diff(t, lambda t: ONE if t is a else (ZERO if t.op in ("at", "sym") else None))
                c.same("cohesive Jacobian %d%d below the largest opening, dim %d" % (i, j, d), jac[i][j] * lt(eff, mx), D(tu[i]) * lt(eff, mx), J)
                rate = lt0((eff - old) / h)
                c.same("cohesive Jacobian %d%d at the largest opening, dim %d" % (i, j, d), at_max(jac[i][j]),
                       lnot(rate) * D(tl[i]) + rate * at_max(D(tu[i])), J)
        # energy conjugate to the loading traction
        e = L.call(o, W + "::get_free_energy_density", "w")
        w = sc("w")
        a = single_atom(w)
        c.same("cohesive energy is conjugate to the traction, dim %d" % d, diff(e, lambda t: ONE if t is a else None), T(w),
               L.fn(W + "::get_free_energy_density"))
        c.same("cohesive energy vanishes at zero opening, dim %d" % d, replace(e, a, ZERO), ZERO, L.fn(W + "::get_free_energy_density"))
        # contact
        K = "gCP::ConstitutiveLaws::ContactLaw<%d>" % d
        o = L.new(K, "prm", "sig", "cu")
        got = tv(L.call(o, K + "::get_contact_traction", "delta", nt))
        jac = tm(L.call(o, K + "::get_jacobian", "delta", nt))
        k = sc("prm", "penalty_coefficient") * cu / sg
        for i in range(d):
            want = neg(k * mac(neg(dn)) * n[i])
            c.same("contact traction %d, dim %d" % (i, d), got[i], want, L.fn(K + "::get_contact_traction"))
            for j in range(d):
                a = single_atom(dl[j])
                c.same("contact Jacobian %d%d, dim %d" % (i, j, d), jac[i][j],
                       diff(want, lambda t: ONE if t is a else (ZERO if t.op in ("at", "sym") else None)), L.fn(K + "::get_jacobian"))
    # degradation
    L = Lab(c)
    D = "gCP::ConstitutiveLaws::DegradationFunction"
    o = L.new(D, "prm")
    dm, ex = sc("d"), sc("prm", "degradation_exponent")
    for flag, nm in ((ONE, "coupled"), (ZERO, "uncoupled")):
        v = L.call(o, D + "::get_degradation_function_value", "d", flag)
        g = L.call(o, D + "::get_degradation_function_derivative_value", "d", flag)
        want = pow2(ONE - dm, ex) if flag is ONE else ONE
        c.same("degradation value, %s" % nm, v, want, L.fn(D + "::get_degradation_function_value"))
        a = single_atom(dm)
        c.same("degradation derivative, %s" % nm, g, diff(want, lambda t: ONE if t is a else (ZERO if t.op == "at" else None)),
               L.fn(D + "::get_degradation_function_derivative_value"))
    return c.finish(EXPL)
