"""P11 interface damage and largest opening."""
from report import Check
from lab import *

EXPL = ("Value graph of the interface history for dim 2 and 3 along arbitrary commit/update/restore sequences, with both "
        "damage models and the zero-damage option symbolic: the current damage and largest opening are a closed-form "
        "function of the committed values and the call's arguments; bounds and monotonicity follow from the signs of "
        "the factors of that form. The stored opening is compared with the cohesive law's own measure.")


def mac(x):
    return x * lt0(neg(x))


def check():
    c = Check("P11", "value-graph equivalence from an arbitrary abstract state (history-independent)",
              "damage and largest opening are irreversible functions of the committed values",
              ["source/gradient_crystal_plasticity/quadrature_point_history.cc", "source/constitutive_laws.cc", "source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        Q = "gCP::InterfaceQuadraturePointHistory<%d>" % d
        L = Lab(c)
        o = L.new(Q)
        D = lambda: L.call(o, Q + "::get_damage_variable")
        M = lambda: L.call(o, Q + "::get_max_effective_opening_displacement")
        O = lambda: L.call(o, Q + "::get_old_effective_opening_displacement")
        up = lambda *a: L.call(o, Q + "::update_values", *a)
        f1, f3 = L.fn(Q + "::update_values", 1), L.fn(Q + "::update_values", 3)
        fs, fr = L.fn(Q + "::store_current_values"), L.fn(Q + "::reset_values")
        L.call(o, Q + "::init", "prm", "coh")
        fc = L.fn(Q + "::init")
        c.same("damage starts at zero, dim %d" % d, D(), ZERO, fc)
        c.same("largest opening starts at zero, dim %d" % d, M(), ZERO, fc)
        c.same("previous opening starts at zero, dim %d" % d, O(), ZERO, fc)
        # an arbitrary damage value is set and committed
        L.call(o, Q + "::set", "d0")
        c.same("prescribed damage is taken over, dim %d" % d, D(), sc("d0"), L.fn(Q + "::set"))
        L.call(o, Q + "::store_current_values")
        z = atom(mk("b", at(mk("sym", "prm"), (("f", "flag_set_damage_to_zero"),))))
        crit = sc("coh", "critical_opening_displacement")

        def ortiz(w):
            r = w / crit
            return lnot(z) * (ONE - (ONE + r) * fn1("exp", neg(r)))

        def m1(d0, w, wold, cu, F):
            P = lambda n: sc("prm", n)
            x = d0 + P("damage_accumulation_constant") * cu * mac(w - wold) * pow2(ONE - d0 + P("damage_decay_constant"), P("damage_decay_exponent")) * mac(F - P("endurance_limit"))
            return lnot(z) * fmin(x, ONE)

        # first step, model with a closed damage law
        d0, w0 = sc("d0"), ZERO
        for k, w in enumerate(("a", "b")):
            up(w)
            mw = fmax(w0, sc(w))
            c.same("largest opening after update %d, dim %d" % (k, d), M(), mw, f1)
            c.same("damage after update %d, closed law, dim %d" % (k, d), D(), ortiz(mw), f1)
        L.call(o, Q + "::reset_values")
        c.same("restored largest opening, dim %d" % d, M(), w0, fr)
        c.same("restored damage, dim %d" % d, D(), d0, fr)
        up("a")
        L.call(o, Q + "::store_current_values")
        w1 = fmax(w0, sc("a"))
        d1 = ortiz(w1)
        c.same("commit keeps the largest opening, dim %d" % d, M(), w1, fs)
        c.same("commit keeps the damage, dim %d" % d, D(), d1, fs)
        L.call(o, Q + "::reset_values")
        c.same("commit stores the largest opening, dim %d" % d, M(), w1, fs)
        c.same("commit stores the damage, dim %d" % d, D(), d1, fs)
        up("b")
        w2 = fmax(w1, sc("b"))
        c.same("largest opening of the next step, dim %d" % d, M(), w2, f1)
        c.same("damage of the next step, closed law, dim %d" % d, D(), ortiz(w2), f1)
        # accumulating model from an arbitrary committed damage
        for rep in (0, 1):
            L2 = Lab(c)
            o2 = L2.new(Q)
            L2.call(o2, Q + "::init", "prm", "coh")
            L2.call(o2, Q + "::set", "d0")
            L2.call(o2, Q + "::store_current_values")
            get = lambda m: L2.call(o2, Q + "::" + m)
            n = [sc("n", i) for i in range(d)]
            s4 = L2.fn(Q + "::store_effective_opening_displacement", 3 + rep)
            L2.call(o2, Q + "::store_effective_opening_displacement", "un", "uc", "n", *(["t"] if rep else []))
            # the cohesive law's measure of the same opening
            W = "gCP::ConstitutiveLaws::CohesiveLaw<%d>" % d
            law = L2.new(W, "coh", "s_", "u_")
            dl = mk("tens", "T", 1, d, tuple(sc("un", i) - sc("uc", i) for i in range(d)))
            eff = L2.call(law, W + "::get_effective_opening_displacement", dl, "n")
            wold = get("get_old_effective_opening_displacement")
            c.same("stored opening is the cohesive law's measure (%d arguments), dim %d" % (3 + rep, d), wold, eff, s4)
            if rep:
                c.same("reported opening, dim %d" % d, get("get_effective_opening_displacement"), eff, s4)
                c.same("reported cohesive traction, dim %d" % d, get("get_effective_cohesive_traction"), sc("t"), s4)
            c.same("storing the opening keeps the damage (%d arguments), dim %d" % (3 + rep, d), get("get_damage_variable"), sc("d0"), s4)
            c.same("storing the opening keeps the largest opening (%d arguments), dim %d" % (3 + rep, d), get("get_max_effective_opening_displacement"), ZERO, s4)
        wold = sc("wold")
        L3 = Lab(c)
        o3 = L3.new(Q)
        L3.call(o3, Q + "::init", "prm", "coh")
        L3.call(o3, Q + "::set", "d0")
        L3.call(o3, Q + "::store_current_values")
        n1 = mk("tens", "T", 1, d, tuple([ONE] + [ZERO] * (d - 1)))
        L3.call(o3, Q + "::store_effective_opening_displacement", "un", "uc", n1)
        wold = L3.call(o3, Q + "::get_old_effective_opening_displacement")
        for k, (w, F) in enumerate((("a", "Fa"), ("b", "Fb"))):
            L3.call(o3, Q + "::update_values", w, "cu", F)
            c.same("damage after update %d, accumulating law, dim %d" % (k, d), L3.call(o3, Q + "::get_damage_variable"),
                   m1(sc("d0"), sc(w), wold, sc("cu"), sc(F)), f3)
            c.same("largest opening after update %d, accumulating law, dim %d" % (k, d),
                   L3.call(o3, Q + "::get_max_effective_opening_displacement"), fmax(ZERO, sc(w)), f3)
        L3.call(o3, Q + "::reset_values")
        c.same("restored damage, accumulating law, dim %d" % d, L3.call(o3, Q + "::get_damage_variable"), sc("d0"), fr)
    return c.finish(EXPL)
