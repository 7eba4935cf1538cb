"""P15 line search: sufficient decrease, bounded step lengths, trials from the stored solution."""
from lab import *
from report import Check
from solver import *

EXPL = ("Value graph of the line search from an arbitrary state: acceptance test, first (parabolic) and later (cubic) "
        "step lengths as closed forms of the start value and the last two trials, clamped to [0.1, 0.5] times the "
        "rejected step, including degenerate interpolants; one generic iteration of the solver's line-search loop: "
        "stored trial solution restored, scaled update applied, history refreshed, residual reassembled, for the "
        "block that is searched.")


def clamp(x, lo, hi):
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))


def check():
    c = Check("P15", "value-graph equivalence from an arbitrary abstract state; event order of a generic iteration",
              "acceptance and step lengths equal their closed forms; every trial starts from the stored solution",
              None)
    c.load()
    LS = "gCP::LineSearch"
    for how in ("configured", "default"):
        L = Lab(c)
        if how == "configured":
            o = L.new(LS, "prm")
            al, nmax = sc("prm", "alpha"), sc("prm", "n_max_iterations")
        else:
            o = L.new(LS)
            al, nmax = num(Fr(1, 10000)), num(15)
        f_acc, f_lam, f_re = L.fn(LS + "::suficient_descent_condition"), L.fn(LS + "::get_lambda"), L.fn(LS + "::reinit")
        re_ = lambda *a: L.call(o, LS + "::reinit", *a)
        lam = lambda t, l: L.call(o, LS + "::get_lambda", t, l)
        acc = lambda t, l: L.call(o, LS + "::suficient_descent_condition", t, l)
        n = lambda: L.call(o, LS + "::get_n_iterations")
        r = sc("r")
        c.same("objective is half the squared norm", L.call(o, LS + "::get_objective_function_value", "r"), r * r / 2, L.fn(LS + "::get_objective_function_value"))
        g0, t1, t2, t3, l1, l2, l3 = (sc(x) for x in ("g0", "t1", "t2", "t3", "l1", "l2", "l3"))
        # two rounds: the second one must not remember the first
        for rnd in (0, 1):
            re_("g0", "s", "i")
            c.same("no iterations after the start, round %d (%s)" % (rnd, how), n(), ZERO, f_re)
            c.same("a trial is accepted on sufficient decrease, round %d (%s)" % (rnd, how), acc("t1", "l1"),
                   lor(lt(nmax, ZERO), lt(t1, g0 * (1 - 2 * al * l1))), f_acc)
            x = lam("t1", "l1")
            # minimiser of the parabola through g(0), g'(0), g(1)
            q = g0 / (t1 - g0 + 2 * g0)
            c.same("first step length, round %d (%s)" % (rnd, how), x, clamp(q, num(Fr(1, 10)), num(Fr(1, 2))), f_lam)
            c.same("one iteration, round %d (%s)" % (rnd, how), n(), ONE, f_lam)
            y = lam("t2", "l2")
            w = cubic(g0, t2, l2, t1, l1)
            c.same("second step length, round %d (%s)" % (rnd, how), y, w, f_lam)
            degenerate(c, y, how, f_lam)
            z = lam("t3", "l3")
            c.same("third step length uses the last two trials, round %d (%s)" % (rnd, how), z, cubic(g0, t3, l3, t2, l2), f_lam)
            c.same("three iterations, round %d (%s)" % (rnd, how), n(), num(3), f_lam)
            c.same("acceptance after three iterations, round %d (%s)" % (rnd, how), acc("t1", "l1"),
                   lor(lt(nmax, num(3)), lt(t1, g0 * (1 - 2 * al * l1))), f_acc)
    loop(c)
    return c.finish(EXPL)


def cubic(g0, ta, la, tb, lb):
    d = -2 * g0
    va, vb = ta - g0 - la * d, tb - g0 - lb * d
    den = la - lb
    a = (va / (la * la) - vb / (lb * lb)) / den
    b = (la * vb / (lb * lb) - lb * va / (la * la)) / den
    D = b * b - 3 * a * d
    x = -d / (b + powr(D, Fr(1, 2)))
    h = num(Fr(1, 2)) * la
    return ite(lt0(D), h, clamp(x, num(Fr(1, 10)) * la, h))


def degenerate(c, y, how, f):
    """step length where the cubic interpolant is a parabola or has no minimiser"""
    G = [(1, 19, 9), (1, 30, 19), (2, 30, 20), (1, 40, 100)]
    cases = []
    for g0, q in ((1, 24), (1, 32), (2, 64), (3, 1000)):
        for la, lb in ((Fr(1, 8), Fr(1)), (Fr(1, 4), Fr(1, 2))):
            F = lambda l: g0 - 2 * g0 * l + q * l * l     # exactly a parabola
            cases.append(("parabola", g0, F(la), la, F(lb), lb))
    for g0, a, b in ((1, -100, 3), (2, -64, 4)):
        for la, lb in ((Fr(1, 8), Fr(1)), (Fr(1, 4), Fr(1, 2))):
            F = lambda l: g0 - 2 * g0 * l + b * l * l + a * l ** 3
            cases.append(("no minimiser", g0, F(la), la, F(lb), lb))
    for kind, g0, ta, la, tb, lb in cases:
        t = y
        ok, v = False, None
        try:
            for s, val in (("g0", g0), ("t2", ta), ("l2", la), ("t1", tb), ("l1", lb)):
                t = replace(t, single_atom(sc(s)), num(val))
            v = const(t)
            if v is None:
                it = T_interp()
                v = it.num(t)
            ok = v is not None and la * Fr(1, 10) - Fr(1, 10 ** 9) <= v <= la * Fr(1, 2) + Fr(1, 10 ** 9)
        except Exception as e:      # division by zero, root of a negative number
            v = type(e).__name__
        c.ob("the step length stays within bounds where the interpolant is degenerate: %s (%s)" % (kind, how), ok, c.where(f),
             "start %s, trials (%s at %s), (%s at %s): step length %s" % (g0, tb, lb, ta, la, v), key="degenerate interpolant: " + kind)


def T_interp():
    import terms
    return terms.Interp(0)


def loop(c):
    """the solver's use of the line search"""
    for d in (2, 3):
        S = "gCP::GradientCrystalPlasticitySolver<%d>" % d
        fs = list(c.prog.by_q.get(S + "::line_search_algorithm", []))
        c.must(len(fs) >= 2, "line-search loops found: %d" % len(fs))
        prims = (REFRESH, "assemble_residual", "suficient_descent_condition", "get_lambda", "get_objective_function_value") + NORMS
        for f in fs:
            ev, r = c.vg(f, opaque=lambda q: last(q) in prims)
            analyse(c, f, ev, r, d)
        starts(c, S, d)


def analyse(c, f, ev, r, d):
    two = len(f["params"]) > 1
    lab = " (%s, dim %d)" % ("one block" if two else "monolithic", d)
    w = c.where(f)
    b = as_atom(atom(mk("sym", f["params"][1]["n"]))) if two else None
    blk = atom(b) if two else ZERO

    def one(name, n=1):
        es = [e for e in calls(ev, name) if inloop(e)]
        c.ob("%s once per trial%s" % (name, lab), len(es) == n and all(e[4] is ONE for e in es), w, "%d calls, guards %s" % (len(es), [show(e[4], 4) for e in es]))
        return es[0] if es else None
    acc, lam, asm, obj = one("suficient_descent_condition"), one("get_lambda"), one("assemble_residual"), one("get_objective_function_value")
    ref = one(REFRESH)
    exits = [e for e in ev.events if e[0] == "loop-exit"]
    if not (acc and lam and asm and obj and ref and len(exits) == 1):
        c.ob("one search loop" + lab, False, w, "%d loops" % len(exits))
        return
    lid = exits[0][1]
    accepted = atom(mk("b", as_atom(mk("call", acc[1], acc[2], *acc[3]))))
    c.ob("the search stops exactly when the trial is accepted" + lab, exits[0][2] is accepted or equal(exits[0][2], accepted), w, show(exits[0][2], 4)[:400])
    c.ob("acceptance is decided before a new step length is asked for" + lab, ev.events.index(acc) < ev.events.index(lam), w)
    c.ob("acceptance and step length see the same objective and step" + lab, acc[3] == lam[3], w, "%s vs %s" % (show(acc[3][0], 4), show(lam[3][0], 4)))
    # loop carried objective and step
    step = atom(mk("call", lam[1], lam[2], *lam[3]))
    objv = atom(mk("call", obj[1], obj[2], *obj[3]))
    writes = {}
    for e in ev.events:
        if e[0] == "loop-write" and e[1] == lid and e[7] == "set" and e[3] == ():
            writes[str(e[2])] = (e[4], e[5])

    def carried(t):
        t = as_atom(t)
        if t.op == "head" and t.args[0] == lid:
            return str(t.args[1])
        return None
    co, cl = carried(acc[3][0]), carried(acc[3][1])
    c.ob("next acceptance uses the objective of the latest trial" + lab, co in writes and as_atom(writes[co][0]) is as_atom(objv) and writes[co][1] is ONE, w, "carried objective: %s" % (show(writes[co][0], 4)[:300] if co in writes else acc[3]))
    c.ob("next acceptance uses the latest step length" + lab, cl in writes and as_atom(writes[cl][0]) is as_atom(step) and writes[cl][1] is ONE, w, "carried step: %s" % (show(writes[cl][0], 4)[:300] if cl in writes else acc[3]))
    init = {}
    outside = [e for e in calls(ev, "get_objective_function_value") if not inloop(e)]
    c.ob("the first trial is the full step's residual" + lab, len(outside) == 1, w, "%d objectives before the loop" % len(outside))
    c.ob("returned: the accepted step length" + lab, result_is(r, lid, cl), w, show(r, 3)[:300])
    c.ob("first step length is one" + lab, entry(ev, lid, cl) is not None and const(entry(ev, lid, cl)) == 1, w, str(cl))
    e0 = entry(ev, lid, co)
    if outside:
        c.ob("the first objective is that of the full step" + lab, e0 is not None and as_atom(e0) is mk("call", outside[0][1], outside[0][2], *outside[0][3]), w, show(e0, 4)[:200] if e0 is not None else str(co))
    # the trial itself
    S = asm[2]
    T = field(ev, S, "trial_solution")
    C = affine(ev, S)
    tmp = field(ev, THIS, "tmp_trial_solution")
    nu = field(ev, THIS, "newton_update")
    want = D(C, D(C, vval(tmp, blk), blk) + step * vval(nu, blk), blk)
    want2 = D(C, vval(tmp, blk) + step * vval(nu, blk), blk)
    got = vval(T, blk)
    c.ob("trial = stored solution + step length * Newton update, constrained" + lab, got is want or got is want2, w, "trial: %s; required: %s" % (show(got, 6)[:500], show(want, 6)[:500]))
    ok, txt = refreshed(ev, S)
    c.ob("internal variables refreshed for the trial before the residual" + lab, ok, w, txt)
    for e in [obj] + outside:
        n = norm_of(e[3][0])
        good = n is not None and ((n[0] == "get_l2_norm" and not two) or (n[0] == "get_sub_l2_norms" and two and n[2] is blk))
        c.ob("objective from the residual norm of the searched block" + lab, good, w, show(e[3][0], 5)[:300])
        if n and e is obj:
            R = residual_of(ev, n[1])
            c.ob("objective from the residual just assembled" + lab, R is S, w, show(n[1], 3)[:300])
        elif n:
            R = residual_of(ev, n[1])
            c.ob("first objective from the current residual" + lab, R is THIS, w, show(n[1], 3)[:300])


def affine(ev, S):
    """the constraint object the solver distributes with"""
    for e in calls(ev, "distribute"):
        return e[2]
    return None


def result_is(r, lid, name):
    r = as_atom(r) if isinstance(r, Term) else None
    if r is not None and r.op in ("mu", "head") and r.args[0] == lid and str(r.args[1]) == name:
        return True
    if r is not None and r.op == "case":
        return all(result_is(v, lid, name) for g, v in r.args[0])
    return False


def entry(ev, lid, name):
    """value of a loop-carried location when the loop is entered"""
    for e in ev.events:
        if e[0] == "loop-init" and e[1] == lid and str(e[2]) == name and e[3] == ():
            return e[4]
    return None


def starts(c, S, d):
    """every search starts from the objective of the stored solution"""
