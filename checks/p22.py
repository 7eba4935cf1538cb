"""P22 configurations outside their admissible range are refused, in every build type."""
from lab import *
from report import Check
from solver import last, as_atom
import terms as T
import params as P
import p20
from p20 import LAWS, SL, SPAT, TEMP, OUT_, POST, SOLV, MONOA, STAG, DIML

EXPL = ("The constructor of the configuration is evaluated without debug assertions; the guards of its exceptions, written in the entries of the "
        "file, must cover every inadmissible combination and nothing admissible, and the declared ranges must be the admissible ones.")
S = lambda n: atom(mk("sym", n))
SYSTEMS = {MONOA: ("monolithic",), STAG + "/Linear momentum balance": ("bouncing", "embracing"), STAG + "/Pseudo-balance": ("bouncing", "embracing")}
HEIGHT = SPAT + "/Problem specific parameters/Height of the strip"
ONE_UP, TWO_UP, ZERO_UP, POS = ("Integer", 1), ("Integer", 2), ("Integer", 0), ("Double", 0)
# entry -> kind and least value
RANGES = {SPAT + "/Spatial dimension": TWO_UP, SPAT + "/FE's polynomial degree - Displacements": ONE_UP, SPAT + "/FE's polynomial degree - Slips": ONE_UP,
          SPAT + "/Mapping - Polynomial degree": ONE_UP, SPAT + "/Number of global refinements": ZERO_UP,
          SPAT + "/Problem specific parameters/Number of elements in y-direction": ONE_UP,
          SPAT + "/Problem specific parameters/Number of equally sized crystals in y-direction": ONE_UP,
          HEIGHT: POS, TEMP + "/Start time": POS, TEMP + "/End time": POS, TEMP + "/Time step size": POS,
          SL + "/Monotonic load parameters/Number of steps during monotonic load": ONE_UP,
          SL + "/Monotonic load parameters/Duration of monotonic load": POS,
          SL + "/Cyclic load parameters/Number of steps during un- and loading phase": ONE_UP,
          SL + "/Cyclic load parameters/Number of steps during a quarter cycle": ONE_UP,
          SL + "/Cyclic load parameters/Number of cycles": ZERO_UP, SL + "/Cyclic load parameters/Period": POS,
          SL + "/Cyclic load parameters/Duration of un- and loading phase": POS,
          OUT_ + "/Graphical output frequency": ONE_UP, POST + "/Homogenization/Homogenization frequency": ONE_UP,
          LAWS + "/Vectorial microstress law's parameters/Defect energy index": ("Double", 1),
          SOLV + "/Extrapolation factor": POS, STAG + "/Maximum number of solution loops": TWO_UP}
for _l, _es in {"Hooke-Law's parameters": ("C1111", "C1122", "C1212"),
                "Scalar microstress law's parameters": ("Regularization parameter",),
                "Vectorial microstress law's parameters": ("Energetic length scale", "Initial slip resistance", "Regularization parameter"),
                "Microtraction law's parameters": ("Grain boundary modulus",),
                "Cohesive law's parameters": ("Critical cohesive traction", "Critical opening displacement", "Tangential to normal stiffness ratio"),
                "Contact law's parameters": ("Penalty coefficient",), "Degradation function parameters": ("Degradation exponent",),
                "Hardening law's parameters": ("Initial slip resistance", "Linear hardening modulus", "Hardening parameter"),
                "Damage evolution parameters": ("Damage accumulation constant", "Damage decay constant", "Damage decay exponent", "Endurance limit")}.items():
    for _e in _es:
        RANGES[LAWS + "/" + _l + "/" + _e] = POS
for _s in SYSTEMS:
    for _e in ("Relative tolerance", "Absolute tolerance"):
        RANGES[_s + "/Krylov parameters/" + _e] = POS
    for _e in ("Relative tolerance of the residual", "Absolute tolerance of the residual", "Absolute tolerance of the step"):
        RANGES[_s + "/Newton-Raphson parameters/" + _e] = POS
    for _e in ("Krylov", "Newton-Raphson"):
        RANGES[_s + "/%s parameters/Maximum number of iterations" % _e] = ONE_UP
    RANGES[_s + "/Line search parameters/Maximum number of iterations"] = ZERO_UP
    RANGES[_s + "/Line search parameters/Alpha condition constant"] = RANGES[_s + "/Line search parameters/Beta condition constant"] = ("Double", 0, 1)
for _e in ("length", "time", "displacement", "stiffness", "slip resistance"):
    RANGES[DIML + "/Reference parameters/Reference %s value" % _e] = POS


def conditions():
    """(what is inadmissible, condition on the entries, algorithms it applies to)"""
    le0 = lambda n: lnot(lt(ZERO, S(n)))
    pos = lambda n: ("'%s' not positive" % n, le0(n), p20.ALGS)
    out = [pos(LAWS + "/Hooke-Law's parameters/" + x) for x in ("C1111", "C1122", "C1212")]
    out += [pos(LAWS + "/%s microstress law's parameters/Regularization parameter" % x) for x in ("Scalar", "Vectorial")]
    out += [pos(HEIGHT), pos(SL + "/Monotonic load parameters/Duration of monotonic load"), pos(SL + "/Cyclic load parameters/Period"),
            pos(SL + "/Cyclic load parameters/Duration of un- and loading phase")]
    out.append(("maximum load not above the minimum load", lnot(lt(S(SL + "/Minimum load"), S(SL + "/Maximum load"))), p20.ALGS))
    d = S(SPAT + "/Spatial dimension")
    out.append(("neither two nor three dimensions", land(lnot(T.eq(d, num(2))), lnot(T.eq(d, num(3)))), p20.ALGS))
    a, b = (S(LAWS + "/%s parameters/Initial slip resistance" % x) for x in ("Hardening law's", "Vectorial microstress law's"))
    out.append(("different initial slip resistances of the hardening law and the vectorial microstress", lnot(T.eq(a, b)), p20.ALGS))
    for s, algs in SYSTEMS.items():
        k, n, l = s + "/Krylov parameters/", s + "/Newton-Raphson parameters/", s + "/Line search parameters/"
        for x in (k + "Relative tolerance", k + "Absolute tolerance", n + "Relative tolerance of the residual", n + "Absolute tolerance of the residual",
                  l + "Alpha condition constant"):
            out.append(("'%s' not positive" % x, le0(x), algs))
        out.append(("%s: relative not above absolute tolerance" % k, lnot(lt(S(k + "Absolute tolerance"), S(k + "Relative tolerance"))), algs))
        out.append(("%s: relative not above absolute tolerance" % n,
                    lnot(lt(S(n + "Absolute tolerance of the residual"), S(n + "Relative tolerance of the residual"))), algs))
        out.append(("%s: beta not above alpha" % l, lnot(lt(S(l + "Alpha condition constant"), S(l + "Beta condition constant"))), algs))
        out.append(("%s: beta not below one" % l, lnot(lt(S(l + "Beta condition constant"), ONE)), algs))
    return out


def check():
    c = Check("P22", "guards of exceptions in the value graph of the configuration's constructor", "",
              ("source/run_time_parameters.cc", "source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc"))
    c.load()
    L = Lab(c)
    C = P.Config(c, L, p20.CLS)
    f = [x for x in c.prog.by_q[p20.CLS + "::InfiniteStripProblem"] if len(x["params"]) == 1][0]
    w = c.where(f)
    c.need(len(C.throws) >= 10, "exceptions of the configuration")
    throws = [(sections(C, g), line, q) for g, line, q in C.throws]
    conds = conditions()
    for what, cond, algs in conds:
        for a in algs:
            hit = refused(throws, cond, a)
            c.ob("refused: %s (%s)" % (what, a), hit, w, "no exception covers it")
    options = selections(C)
    for g, line, q in throws:
        for a in p20.ALGS:
            t = p20.with_algorithm(g, a)
            if t is ZERO:
                continue
            at = "%s:%s %s" % (f["relfile"], line, q)
            c.ob("exception at line %s refuses nothing admissible (%s)" % (line, a), admissible(t, conds, options, a), at, show(t, 7)[:600], key="throw %s %s" % (line, a))
    missing(c, C, w)
    ranges(c, C, w)
    for d in (2, 3):
        solver(c, d)
    return c.finish(EXPL)


def sections(C, g):
    """subsections that were declared exist"""
    have = {p[:i] for p, n, _, _, _, _ in C.declared if p for i in range(len(p) + 1)}
    for x in list(T.subterms(g)):
        if x.op == "b" and len(x.args) == 1:
            y = as_atom(x.args[0])
            if isinstance(y, Term) and y.op == "call" and last(str(y.args[0])) == "subsection_path_exists":
                names = tuple(z.args[0] for z in leaves(y.args[2]))
                p = P.chain(y.args[1], C.memo).path
                if p is not None and p + names in have:
                    g = T.replace(g, x, ONE, memo={})
    return C.canon(g)


def leaves(t):
    t = as_atom(t) if isinstance(t, Term) else t
    if isinstance(t, Term) and t.op == "str":
        return [t]
    out = []
    for x in (t.args if isinstance(t, Term) else t if isinstance(t, tuple) else ()):
        out += leaves(x) if isinstance(x, (Term, tuple)) else []
    return out


def atoms(t):
    return {x for x in T.subterms(t) if x.op in T.BOOL_OPS}


def refused(throws, cond, alg):
    """every configuration meeting cond reaches an exception"""
    left = cond
    mine = {x for y in atoms(cond) for x in T.subterms(y) if x.op == "sym"}
    for g, _, _ in throws:
        t = p20.with_algorithm(g, alg)
        if t is ZERO or not mine & {x for x in T.subterms(t) if x.op == "sym"}:
            continue
        left = land(left, lnot(t))
        if left is ZERO:
            return True
    return False


def selections(C):
    return {"/".join(p + (n,)): P.text(pat.args[1]).split("|") for p, n, _, pat, _, _ in C.declared if p is not None and p20.pattern(pat) == "Selection"}


def admissible(t, conds, options, alg):
    """the exception's guard implies a documented condition, an option that is not on offer, or an unreadable file"""
    syms = {x.args[0] for x in T.subterms(t) if x.op == "sym"}
    for n in syms & set(options):
        if n == p20.ALG:
            continue
        fl = [f for pre, sec, fields in p20.GROUPS for f, e in fields.items() if sec + "/" + e == n] + \
             [f for pre, sec, fields, _ in p20.ONLY for f, e in fields.items() if sec + "/" + e == n]
        import p21
        for a in options[n]:
            if any(p21.OPTIONS[f.rsplit(".", 1)[-1]].get(a, "") is None for f in fl):
                continue
            if P.option(t, n, a) is not ZERO:
                return False
        return True
    if any(x.op == "ctorobj" and "ifstream" in str(x.args[0]) for x in T.subterms(t)):
        return all(a.op == "b" for a in atoms(t))
    left = t
    for _, cond, algs in conds:
        if alg in algs and {x for x in T.subterms(cond) if x.op == "sym"} & {x for x in T.subterms(t) if x.op == "sym"}:
            left = land(left, lnot(cond))
    return left is ZERO


def missing(c, C, w):
    """a parameter file which cannot be opened is an error"""
    ok = False
    for g, line, q in C.throws:
        st = [x for x in T.subterms(g) if x.op == "ctorobj" and "ifstream" in str(x.args[0])]
        at = atoms(g)
        if st and len(at) == 1:
            ok = ok or T.replace(g, list(at)[0], ZERO, memo={}) is ONE
    c.ob("refused: parameter file which cannot be opened", ok, w, "no exception")


def ranges(c, C, w):
    have = {"/".join((p or ()) + (n,)): (pat, line) for p, n, _, pat, _, line in C.declared}
    for n, r in RANGES.items():
        pat, line = have.get(n, (None, 0))
        ok = pat is not None and p20.pattern(pat) == r[0]
        if ok:
            a = [x if isinstance(x, Term) else None for x in pat.args[1:]]
            ok = a[0] is num(r[1]) and (a[1] is num(r[2]) if len(r) > 2 else "max_" in show(a[1], 3))
        c.ob("'%s' is declared as %s from %s%s" % (n, r[0].lower(), r[1], "" if len(r) < 3 else " to %s" % r[2]), ok, "%s (line %s)" % (w, line),
             show(pat, 4) if pat is not None else "not declared")
    c.count("ranges", len(RANGES))


DIMLESS = ".dimensionless_form_parameters.flag_solve_dimensionless_problem"
DECOH = ".allow_decohesion"
RATE_IND = ".constitutive_laws_parameters.scalar_microstress_law_parameters.flag_rate_independent"
GB = ".boundary_conditions_at_grain_boundaries"


def settings():
    """all combinations of the formulations the solver distinguishes, and whether it supports them"""
    for i in range(24):
        dl, dec, ri, gb = bool(i & 1), bool(i & 2), bool(i & 4), ("Microhard", "Microfree", "Microtraction")[i // 8]
        yield (dl, dec, ri, gb), not (dl and (dec or gb == "Microtraction") or ri and gb == "Microtraction")


def under(g, pn, dl, dec, ri, gb):
    """the guard in one combination"""
    val = {pn + DIMLESS: dl, pn + DECOH: dec, pn + RATE_IND: ri}
    for x in atoms(g):
        v = None
        if x.op == "b" and len(x.args) == 1:
            v = val.get(show(as_atom(x.args[0]), 9))
        elif x.op == "eqc" and show(as_atom(x.args[0]), 9) == pn + GB:
            v = as_atom(x.args[1]).args[0].endswith("::" + gb)
        if v is not None:
            g = T.replace(g, x, num(1 if v else 0), memo={})
    return g


def solver(c, d):
    """the solver refuses exactly the formulations it does not implement"""
    n = "GradientCrystalPlasticitySolver"
    q = "gCP::%s<%d>::%s" % (n, d, n)
    fs = [x for x in c.prog.by_q.get(q, ()) if x["kind"] == "ctor" and len(x["params"]) >= 4]
    c.need(len(fs) == 1, "constructor " + q)
    ev, _ = c.vg(fs[0], opaque=lambda x: not x.startswith("gCP::" + n))
    w = c.where(fs[0])
    thrown = [(e[1], e[2]) for e in ev.events if e[0] == "throw"]
    for (dl, dec, ri, gb), fine in settings():
        hit = [(under(g, fs[0]["params"][0]["n"], dl, dec, ri, gb), line) for g, line in thrown]
        lab = "%s, %s, %s, %s (dim %d)" % ("dimensionless" if dl else "dimensional", "decohesion" if dec else "no decohesion",
                                           "rate-independent" if ri else "rate-dependent", gb, d)
        if fine:
            c.ob("accepted: " + lab, all(g is ZERO for g, _ in hit), w, "refused at %s" % [(l, show(g, 5)[:200]) for g, l in hit if g is not ZERO])
        else:
            c.ob("refused: " + lab, any(g is ONE for g, _ in hit), w, "not refused: %s" % [(l, show(g, 5)[:200]) for g, l in hit])
    c.count("formulations", 24)
