"""P08 bulk residual and Jacobian are the weak form and its exact linearisation."""
from lab import *
from report import Check
from kernel import *
import kernel

EXPL = ("The per-cell kernels of residual and Jacobian are evaluated to the value each entry of the local vector and matrix "
        "has at the end (for every combination of decohesion and grain-boundary condition), put into normal form, and the "
        "summand over cell quadrature points compared with the weak form and its linearisation, for displacement and "
        "plastic-slip rows and columns.")
I, J, Q, F, S, S2 = (var(x) for x in ("I", "J", "Q", "F", "S", "S2"))
SOLVER = "gCP::GradientCrystalPlasticitySolver<%d>::"
GB = "gCP::RunTimeParameters::BoundaryConditionsAtGrainBoundaries"
DIMNUM = "parameters.dimensionless_form_parameters.dimensionless_numbers"


def configs(c):
    gbs = c.prog.enums.get(GB)
    c.need(gbs and len(gbs) >= 2, "grain boundary conditions: %s" % gbs)
    for dec in (0, 1):
        for g in gbs:
            yield "decohesion %d, %s" % (dec, g.rsplit("::", 1)[-1]), dec, g.rsplit("::", 1)[-1], {
                "fe_field.flag_allow_decohesion": num(dec),
                "parameters.boundary_conditions_at_grain_boundaries": mk("enum", g),
                "neumann_boundary_conditions.#size": ZERO}


def dn(k):
    return comps(fld(DIMNUM), (k,))


class Ref:
    """weak form in canonical atoms"""

    def __init__(self, d):
        self.d = d
        self.cr = crystal()
        self.h = fe()
        self.trial, self.old = fld("trial_solution"), fld("fe_field.old_solution")
        self.dt = atom(call("get_next_step_size", fld("discrete_time")))
        self.factor = div(dn(3), dn(0))

    def R(self):
        return range(self.d)

    def sym(self, f):
        d = self.d
        return mk("tens", "S", 2, d, tuple(f(min(i, j), max(i, j)) for i in range(d) for j in range(d)))

    def tvec(self, f):
        return mk("tens", "T", 1, self.d, tuple(f(i) for i in range(self.d)))

    def slips(self, vec, h=None, cr=None):
        return lam(2, lambda a, b: value("get_function_values", h or self.h, ext_s(cr or self.cr, a), vec, b))

    def strain(self):
        return self.sym(lambda i, j: value("get_function_symmetric_gradients", self.h, ext_u(self.cr), self.trial, Q, i, j))

    def stress(self):
        es = call("get_elastic_strain_tensor", fld("elastic_strain"), self.cr, Q, self.strain(), self.slips(self.trial))
        e = self.sym(lambda i, j: add(comps(fld("macroscopic_strain"), (i, j)), comps(es, (i, j))))
        s = call("get_stress_tensor", fld("hooke_law"), self.cr, e)
        return self.sym(lambda i, j: comps(s, (i, j)))

    def slip(self, s, vec):
        return value("get_function_values", self.h, ext_s(self.cr, s), vec, Q)

    def grad(self, s):
        return self.tvec(lambda i: value("get_function_gradients", self.h, ext_s(self.cr, s), self.trial, Q, i))

    def resistance(self, s):
        return comps(at(call("get_data", fld("quadrature_point_history"), CELL), (("i", Q), ("f", "slip_resistances"))), (s,))

    def phi(self, i, s):
        return shape("value", self.h, ext_s(self.cr, s), i, Q)

    def dphi(self, i, s, k):
        return shape("gradient", self.h, ext_s(self.cr, s), i, Q, k)

    def eps(self, i, k, l):
        return shape("symmetric_gradient", self.h, ext_u(self.cr), i, Q, min(k, l), max(k, l))

    def schmid(self, s, k, l):
        return comps(fld("crystals_data.symmetrized_schmid_tensors"), (self.cr, s, min(k, l), max(k, l)))

    def C(self, i, j, k, l):
        i, j = sorted((i, j))
        k, l = sorted((k, l))
        return comps(call("get_stiffness_tetrad", fld("hooke_law"), self.cr), (i, j, k, l))

    def body_force(self, k):
        null = atom(mk("b", call("==", fld("supply_term"), mk("sym", "null"))))
        v = comps(mk("out", 1, call("value_list", fld("supply_term"), call("get_quadrature_points", self.h), mk("sym", "out"))), (Q, k))
        return v

    def cc(self, a, b):
        """a : C : b with a, b functions of two indices"""
        return add(*[mul(a(i, j), self.C(i, j, k, l), b(k, l)) for i in self.R() for j in self.R() for k in self.R() for l in self.R()])

    # ---- bulk
    def res_u(self):
        s = self.stress()
        return neg(mul(self.factor, jxw(self.h, Q),
                       sub(add(*[mul(self.eps(I, i, j), vg.tget(s, (i, j))) for i in self.R() for j in self.R()]),
                           add(*[mul(shape("value", self.h, ext_u(self.cr), I, Q, k), self.body_force(k)) for k in self.R()]))))

    def res_s(self):
        xi = call("get_vectorial_microstress", fld("vectorial_microstress_law"), self.cr, S, self.grad(S))
        tau = atom(call("get_resolved_shear_stress", fld("resolved_shear_stress_law"), self.cr, S, self.stress()))
        pi = atom(call("get_scalar_microstress", fld("scalar_microstress_law"), self.slip(S, self.trial), self.slip(S, self.old), self.resistance(S), self.dt))
        return neg(mul(jxw(self.h, Q),
                       sub(mul(dn(2), add(*[mul(self.dphi(I, S, k), comps(xi, (k,))) for k in self.R()])),
                           mul(self.phi(I, S), sub(mul(dn(3), tau), pi)))))

    def jac_uu(self):
        return mul(self.factor, jxw(self.h, Q), self.cc(lambda i, j: self.eps(I, i, j), lambda i, j: self.eps(J, i, j)))

    def jac_us(self):
        return neg(mul(dn(3), jxw(self.h, Q), self.cc(lambda i, j: self.eps(I, i, j), lambda i, j: self.schmid(S2, i, j)), self.phi(J, S2)))

    def jac_su(self):
        return neg(mul(dn(3), jxw(self.h, Q), self.phi(I, S), self.cc(lambda i, j: self.schmid(S, i, j), lambda i, j: self.eps(J, i, j))))

    def jac_ss(self, same):
        """same: rows and columns of the same slip system (S2 = S)"""
        s2 = S if same else S2
        pj = call("get_jacobian", fld("scalar_microstress_law"), Q, self.slips(self.trial), self.slips(self.old),
                  lam(1, lambda a: self.resistance(a)), self.dt)
        t = mul(self.phi(I, S), self.phi(J, s2),
                add(mul(dn(0), dn(3), self.cc(lambda i, j: self.schmid(S, i, j), lambda i, j: self.schmid(s2, i, j))), comps(pj, (S, s2))))
        if same:
            xj = call("get_jacobian", fld("vectorial_microstress_law"), self.cr, S, self.grad(S))
            t = add(t, mul(dn(2), add(*[mul(self.dphi(I, S, k), comps(xj, (min(k, l), max(k, l)) if self.symj else (k, l)), self.dphi(J, S, l)) for k in self.R() for l in self.R()])))
        return mul(jxw(self.h, Q), t)

    symj = True


def kernels(c, d, init):
    """final local residual and Jacobian entries: (canon, fn, term) pairs"""
    out = []
    for name, fldn, ix in (("residual", "local_rhs", (I,)), ("jacobian", "local_matrix", (I, J))):
        f = c.anchor(SOLVER % d + "assemble_local_" + name)
        ev, r = c.vg(f, opaque=kernel.opaque, init=init)
        K = Canon(ev, d, {"I": ND, "J": ND, "S": NS, "S2": NS})
        t = ev.read(Loc("$data", (("f", fldn),) + tuple(("i", x) for x in ix)), ("num", False))
        out.append((K, f, ev, K.integrands(t)))
    return out


def null_supply(t):
    return [x for x in subterms(t) if x.op in ("b", "call") and "supply_term" in show(x, 3) and "null" in show(x, 4) and x.op == "b"]


def check():
    c = Check("P08", "global value graph of the cell kernels; normal-form comparison of integrands", "", None)
    c.load()
    n = 0
    for d in (2, 3):
        for lab, dec, gb, init in configs(c):
            if d == 3 and (dec, gb) not in ((0, "Microhard"), (1, "Microtraction")):
                continue
            (K, f, ev, R), (K2, f2, ev2, Jm) = kernels(c, d, init)
            r = Ref(d)
            disp, slip, slip2 = num(0), add(num(d), S), add(num(d), S2)
            for nm, v, want in (("displacement", disp, r.res_u()), ("displacement (last component)", num(d - 1), r.res_u()), ("slip", slip, r.res_s())):
                got = K.assume(R["cell"], (COMP(I), v), *[(a, ZERO) for a in null_supply(R["cell"])])
                n += 1
                c.same("residual, %s rows, dim %d, %s" % (nm, d, lab), got, K(want), f)
            for nm, vi, vj, want in (("uu", disp, disp, r.jac_uu()), ("us", disp, slip2, r.jac_us()), ("su", slip, disp, r.jac_su()),
                                     ("uu last", num(d - 1), num(d - 1), r.jac_uu()),
                                     ("ss", slip, slip2, r.jac_ss(False)), ("ss same slip", slip, slip, r.jac_ss(True))):
                got = K2.assume(Jm["cell"], (COMP(I), vi), (COMP(J), vj), (single_atom(eq(S, S2)), ZERO))
                n += 1
                c.same("Jacobian, %s entries, dim %d, %s" % (nm, d, lab), got, K2(want), f2)
    c.need(n, "no kernel")
    return c.finish(EXPL)
