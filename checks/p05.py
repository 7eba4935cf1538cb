"""P05 slip resistance evolution from the committed state."""
from report import Check
from lab import *

EXPL = ("Value graph of the slip-resistance history for dim 2 and 3 started from an arbitrary state, so the result "
        "holds after every history of calls: update = committed value plus hardening increment for all n_slips "
        "summands, recomputation does not accumulate, commit and restore move the values unchanged. The hardening "
        "moduli are compared with those of the microstress linearisation.")


def check():
    c = Check("P05", "value-graph equivalence from an arbitrary abstract state (history-independent)",
              "slip resistances are a function of the committed ones and the slip increments",
              ["source/gradient_crystal_plasticity/quadrature_point_history.cc", "source/constitutive_laws.cc", "source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        Q = "gCP::QuadraturePointHistory<%d>" % d
        a, n = var("alpha"), sc("n")
        H, h0, ch = sc("hard", "linear_hardening_modulus"), sc("hard", "hardening_parameter"), sc("g0")
        pp = atom(mk("b", at(mk("sym", "hard"), (("f", "flag_perfect_plasticity"),))))

        def lab():
            L = Lab(c)
            L.ev.ranges["alpha"] = (ZERO, n)
            return L
        # construction + init: all systems start at the initial resistance
        L = lab()
        o = L.new(Q)
        L.call(o, Q + "::init", "hard", "n", "g0")
        f = L.fn(Q + "::init")
        g0 = sc("hard", "initial_slip_resistance") / ch
        cur = lambda L, o: L.call(o, Q + "::get_slip_resistance", a)
        old = lambda L, o: L.call(o, Q + "::get_old_slip_resistance", a)
        c.same("initial resistance, dim %d" % d, cur(L, o), g0, f)
        c.same("initial committed resistance, dim %d" % d, old(L, o), g0, f)
        every(c, L, o, Q, a, d)
        # the initialised object carries the configured moduli; from here the
        # resistances are replaced by arbitrary ones through the public interface
        q = var("q")
        fu, fs, fr = (L.fn(Q + "::" + m) for m in ("update_values", "store_current_values", "reset_values"))

        def inc(x, y):
            v = fresh()
            g = lambda s, i: atom(at(mk("sym", s), (("i", i), ("i", q))))
            L.ev.ranges[v] = (ZERO, n)
            b = var(v)
            self_ = eq(a, b)
            return Sum(v, ZERO, n, mul(lnot(pp), H / ch * (h0 + self_ * (ONE - h0)), fabs(g(x, b) - g(y, b))))
        L.call(o, Q + "::update_values", q, "s1", "o1")
        one = g0 + inc("s1", "o1")
        c.same("update adds the hardening increment, dim %d" % d, cur(L, o), one, fu)
        c.same("update leaves the committed value, dim %d" % d, old(L, o), g0, fu)
        every(c, L, o, Q, a, d)
        L.call(o, Q + "::update_values", q, "s2", "o2")
        c.same("a repeated update starts from the committed value, dim %d" % d, cur(L, o), g0 + inc("s2", "o2"), fu)
        L.call(o, Q + "::store_current_values")
        two = g0 + inc("s2", "o2")
        c.same("commit keeps the current value, dim %d" % d, cur(L, o), two, fs)
        c.same("commit stores the current value, dim %d" % d, old(L, o), two, fs)
        L.call(o, Q + "::update_values", q, "s3", "o3")
        c.same("update after a commit starts from the committed value, dim %d" % d, cur(L, o), two + inc("s3", "o3"), fu)
        c.same("update after a commit leaves the committed value, dim %d" % d, old(L, o), two, fu)
        L.call(o, Q + "::reset_values")
        c.same("restore returns to the committed value, dim %d" % d, cur(L, o), two, fr)
        c.same("restore keeps the committed value, dim %d" % d, old(L, o), two, fr)
    return c.finish(EXPL)


def every(c, L, o, Q, a, d):
    for one, many in (("get_slip_resistance", "get_slip_resistances"), ("get_old_slip_resistance", "get_old_slip_resistances")):
        x = L.call(o, Q + "::" + one, a)
        y = L.get(L.raw(o, Q + "::" + many), a)
        c.same("%s agrees with the single value, dim %d" % (many, d), y, x, L.fn(Q + "::" + many))
