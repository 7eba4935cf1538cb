"""P04 scalar microstress: sigmoid functions, derivative, hardening coupling."""
from report import Check
from lab import *

EXPL = ("Value graph of the scalar microstress and its linearisation for dim 2 and 3, with every regularisation "
        "function, rate dependence, and hardening option kept symbolic; the result is compared with the closed form "
        "and the derivative is obtained by differentiating the evaluated value. The stand-alone sigmoid, signum and "
        "Macaulay helpers are compared with the same closed forms.")
RF = "gCP::RunTimeParameters::RegularizationFunction::"
NAMES = ("Atan", "Sqrt", "Gd", "Tanh", "Erf")


def sigmoid(n, x, p):
    h = PI / 2
    if n == "Atan":
        return fn1("atan", h * x / p) / h
    if n == "Sqrt":
        return x / powr(x * x + p * p, Fr(1, 2))
    if n == "Gd":
        return fn1("atan", fn1("sinh", h * x / p)) / h
    if n == "Tanh":
        return fn1("tanh", x / p)
    return fn1("erf", powr(PI, Fr(1, 2)) / 2 * x / p)


def family(sel, x, p, wrt=None):
    out = []
    for n in NAMES:
        v = sigmoid(n, x, p)
        if wrt is not None:
            v = diff(v, wrt)
        out.append(mul(eq(sel, mk("enum", RF + n)), v))
    return add(*out)


def check():
    c = Check("P04", "value-graph equivalence with algebraic differentiation",
              "scalar microstress, its Jacobian and the sigmoid helpers equal their closed forms",
              ["source/constitutive_laws.cc", "source/crystal_data.cc", "source/utilities.cc", "source/gradient_crystal_plasticity/quadrature_point_history.cc"])
    c.load()
    c.need(set(c.prog.enums.get(RF[:-2], [])) == {RF + n for n in NAMES}, "the regularisation functions are not the five known ones")
    for d in (2, 3):
        S = "gCP::ConstitutiveLaws::ScalarMicrostressLaw<%d>" % d
        L = Lab(c)
        cr = L.sym("crystals")
        ns = L.call(cr, "gCP::CrystalsData<%d>::get_n_slips" % d)
        a, b = var("alpha"), var("beta")
        L.ev.ranges["alpha"] = L.ev.ranges["beta"] = (ZERO, ns)
        o = L.new(S, cr, "prm", "hard", "g0")
        sel = at(mk("sym", "prm"), (("f", "regularization_function"),))
        p = sc("prm", "regularization_parameter")
        ri = L.ev.coerce(at(mk("sym", "prm"), (("f", "flag_rate_independent"),)), ("bool",))
        pp = L.ev.coerce(at(mk("sym", "hard"), (("f", "flag_perfect_plasticity"),)), ("bool",))
        dt = sc("dt")
        rate = (sc("s") - sc("so")) / dt
        R = family(sel, rate, p)
        f = L.fn(S + "::get_scalar_microstress")
        t = L.call(o, S + "::get_scalar_microstress", "s", "so", "g", "dt")
        c.same("scalar microstress, dim %d" % d, t, ite(ri, sc("g") * sign(rate), sc("g") * R), f)
        # Jacobian
        J = L.fn(S + "::get_jacobian")
        q = var("q")
        m = L.raw(o, S + "::get_jacobian", q, "sl", "slo", "res", "dt")

        def rt(i):
            return (atom(at(mk("sym", "sl"), (("i", i), ("i", q)))) - atom(at(mk("sym", "slo"), (("i", i), ("i", q))))) / dt
        H, h0, ch = sc("hard", "linear_hardening_modulus"), sc("hard", "hardening_parameter"), sc("g0")
        x = at(mk("sym", "%x"), ())
        for nm, i, j, dl in (("diagonal", a, a, ONE), ("off-diagonal", a, b, ZERO)):
            if i is not j:
                L.ev.ranges["beta"] = (ZERO, ns)
            got = L.get(m, i, j)
            if i is not j:
                got = replace_eq(got, a, b)
            hab = H / ch * (h0 + dl * (ONE - h0))
            s1 = ite(ri, sign(rt(i)) * sign(rt(j)), family(sel, rt(i), p) * family(sel, rt(j), p))
            dR = family(sel, atom(x), p, lambda t: ONE if t is x else None)
            dR = replace(dR, x, rt(i))
            want = lnot(pp) * hab * s1 + dl * lnot(ri) * atom(at(mk("sym", "res"), (("i", i),))) / dt * dR
            c.same("scalar microstress Jacobian, %s entry, dim %d" % (nm, d), got, want, J)
    # stand-alone helpers
    L = Lab(c)
    U = "gCP::Utilities::"
    v, p = sc("v"), sc("p")
    sel = mk("at", mk("sym", "sel"), ())
    sel = L.sym("sel")
    selt = L.ev.read(sel, ("obj", "enum")) if isinstance(sel, vg.Loc) else sel
    vv = at(mk("sym", "v"), ())
    f = L.fn(U + "sigmoid_function")
    c.same("sigmoid function", L.call(None, U + "sigmoid_function", "v", "p", selt), family(selt, v, p), f)
    f = L.fn(U + "sigmoid_function_derivative")
    c.same("sigmoid derivative", L.call(None, U + "sigmoid_function_derivative", "v", "p", selt),
           family(selt, v, p, lambda t: ONE if t is single_atom(v) else None), f)
    c.same("signum", L.call(None, U + "signum_function", "v"), sign(v), L.fn(U + "signum_function"))
    c.same("Macaulay brackets", L.call(None, U + "macaulay_brackets", "v"), v * lt0(neg(v)), L.fn(U + "macaulay_brackets"))
    return c.finish(EXPL)


def replace_eq(t, a, b):
    """t under the assumption a != b"""
    e = single_atom(eq(a, b))
    return replace(t, e, ZERO)
