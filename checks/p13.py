"""P13 a load step is accepted only when its residual is below tolerance; iterations are bounded."""
from lab import *
from report import Check
from solver import *
import linalg

EXPL = ("One load step evaluated for every solution algorithm, with and without line search, rate dependent and rate "
        "independent: each nonlinear loop contributes its generic iteration and its exit condition. The exit condition of "
        "the step implies (as boolean algebra) that the norm of the residual belonging to the final trial solution is "
        "below the configured absolute tolerance: the full residual for the monolithic algorithm, both blocks for the "
        "staggered ones, where a convergence flag carried between loops is shown inductive. Every linear solve is "
        "unreachable once the iteration counter of its loop exceeds the configured maximum.")


def boolean(t):
    """0/1 polynomial of a value read without its type"""
    if t.op == "poly":
        return t
    if t.op == "case":
        return add(*[mul(g, boolean(v)) for g, v in t.args[0]])
    return atom(mk("b", t))


def vecs(m):
    return [a for a, e in m.args[0] if a.op in ("vec", "D", "bvec")]


def pairs(g, r, t):
    """(residual, trial) atoms that occur together under guard g"""
    out = set()
    gr = mul(g, r)
    gt = mul(g, t)
    if gr is ZERO or gt is ZERO:
        return out
    for c, m in mul(g, r, t).args[0]:
        vs = [(a, e) for a, e in m.args[0] if a.op in ("vec", "D", "bvec")]
        rs = [a for a, e in vs if any(a is x for x in atoms_of(r))]
        ts = [a for a, e in vs if not any(a is x for x in rs)]
        out.add((tuple(sorted(rs, key=lambda a: a.dig)), tuple(sorted(ts, key=lambda a: a.dig))))
    return out


def atoms_of(p):
    return [a for c, m in p.args[0] for a, e in m.args[0] if a.op in ("vec", "D", "bvec")]


def trial_of_residual(ev, R):
    """trial solution a residual vector belongs to"""
    R = as_atom(R)
    if R.op == "at" and len(R.args[1]) == 1 and R.args[1][0] == ("f", "residual") and R.args[0].op == "after":
        n = last(str(R.args[0].args[0]))
        if n in ASSEMBLY:
            return field(ev, R.args[0].args[1], "trial_solution")
        if n == "line_search_algorithm":
            return at(R.args[0], (("f", "trial_solution"),))
    if R.op in ("head", "mu"):
        return None
    return None


def facts(ev, E):
    """convergence facts implied by a condition: (block or 'all', tolerance, residual)"""
    out = []
    for a in set(x for c, m in E.args[0] for x, e in m.args[0] if x.op == "lt0"):
        if mul(E, lnot(atom(a))) is not ZERO:
            continue
        p = a.args[0]
        norm = tol = None
        ok = True
        for c, m in p.args[0]:
            fs = m.args[0]
            if len(fs) != 1 or fs[0][1] != 1 or m.args[1]:
                ok = False
                break
            x = fs[0][0]
            if x.op == "at" and x.args[0] is THIS and c == -1:
                tol = ".".join(str(s[1]) for s in x.args[1])
            elif c == 1:
                norm = x
            else:
                ok = False
        if not ok or norm is None or tol is None:
            continue
        if norm.op == "call" and last(str(norm.args[0])) == "l2_norm":
            n = norm_of(norm.args[1])
            if n and n[2] is None:
                out.append(("all", tol, n[1], n))
        else:
            n = norm_of(norm)
            if n and n[0] == "get_l2_norm":
                out.append(("all", tol, n[1], n))
            elif n and n[2] is not None and const(n[2]) is not None:
                out.append((int(const(n[2])), tol, n[1], n))
    return out


def unit_scale(n):
    return len(n) < 4 or const(n[3]) == 1 if len(n) >= 4 and isnum(n[3]) else True


def check():
    c = Check("P13", "boolean implication on exit conditions of generic iterations; inductive loop-carried flags",
              "exit of the nonlinear loop implies residual norm < tolerance for the accepted state; solve unreachable beyond the iteration limit", None)
    c.load()
    # a converged active set leaves the trial solution as it is (P30)
    linalg.SEE_THROUGH = {"active_set_algorithm"}
    nsolve = 0
    for d in (2, 3):
        for lab, alg, init in configurations(c):
            f, ev = run_step(c, d, init)
            nsolve += one(c, f, ev, d, "%s, dim %d" % (lab, d), alg)
    c.must(nsolve > 0, "no linear solve was found in any solution algorithm")
    return c.finish(EXPL)


def excluded(ev, e, cond):
    """an exception leaves the iteration before the event whenever cond holds"""
    if cond is ZERO:
        return True
    for t in ev.events[:ev.events.index(e)]:
        if t[0] == "throw" and loops(t)[:1] == loops(e)[:1] and mul(cond, lnot(t[1])) is ZERO:
            return True
    return False


def one(c, f, ev, d, lab, alg):
    tree = loop_tree(ev)
    sol = calls(ev, SOLVES)
    w0 = c.where(f)
    if not c.ob("a linear solve is reached: " + lab, bool(sol), w0):
        return 0
    # ---- iteration limits
    for e in sol:
        ls = loops(e)
        if not c.ob("linear solves happen in an iteration loop: " + lab, bool(ls), w0):
            continue
        lid = ls[0]
        if last(e[1]) == "solve_linearized_system":
            nm = MONO
        elif e[3] and as_atom(e[3][0]).op == "enum":
            nm = {"Macro": MACRO, "Micro": MICRO}[last(as_atom(e[3][0]).args[0])]
        else:
            nm = MACRO
        N = prm(nm + ".n_max_iterations")
        ok, txt = False, []
        for k, (i0, h, end) in heads(ev, lid).items():
            if i0 is None or not isnum(i0) or const(i0) != 0 or end is None or not isnum(end):
                continue
            h = atom(h)
            over = excluded(ev, e, mul(e[4], lt(N, h + 1)))
            step = mul(e[4], end, sub(end, h + 1))
            txt.append("%s: %s" % (k[0][-40:], show(end, 3)[:120]))
            if over and step is ZERO:
                ok = True
        c.ob("no solve beyond the iteration limit (line-independent): %s, %s %s" % (lab, last(e[1]), last(nm.rsplit(".", 1)[0])), ok, w0 + " solve at line %s" % e[5],
             "no counter starting at zero and increasing by one per solve excludes the solve beyond %s; loop counters: %s" % (show(N, 9), "; ".join(txt)[:600]),
             key="iteration limit %s %s" % (alg, last(e[1])))
        # loops around that loop: each round with an inner loop is counted as well
        for outer in ls[1:]:
            x = tree[ls[ls.index(outer) - 1]][0]
            g = x[5]
            lim = [N] + [prm(p + ".n_max_iterations") for p in (MONO, MACRO, MICRO)] + [prm("parameters.staggered_algorithm_parameters.max_n_solution_loops")]
            thr = [t for t in ev.events if t[0] == "throw" and loops(t) and loops(t)[0] == outer]
            ok = False
            for k, (i0, h, end) in heads(ev, outer).items():
                if i0 is None or not isnum(i0) or const(i0) not in (0, 1) or end is None or not isnum(end):
                    continue
                h = atom(h)
                for L in lim:
                    over = lt(L, h + 1)
                    cond = mul(g, over)
                    for t in thr:
                        if cond is not ZERO and mul(cond, lnot(t[1])) is ZERO and mul(g, sub(end, h + 1)) is ZERO:
                            ok = True
                    if cond is ZERO and mul(g, sub(end, h + 1)) is ZERO:
                        ok = True
            c.ob("rounds of nested iterations are limited: " + lab, ok, w0, "loop at line %s inside loop at line %s" % (x[3], tree[outer][0][3]), key="nested limit " + alg)
    # ---- acceptance
    tops = [l for l in tree if not [p for p in [tree[l][1]] if p] and any(l in loops(e) for e in sol)]
    c.ob("one nonlinear loop per algorithm: " + lab, len(tops) == 1, w0, "%d" % len(tops))
    for lid in tops:
        accept(c, ev, lid, tree, lab, alg, w0)
    # the accepted solution is the one that converged
    return len(sol)


def running(ev, lid):
    """flags known at the start of every iteration: the loop's own exit flag,
    false before the loop, is false (else the loop had been left)"""
    ex = [e for e in ev.events if e[0] == "loop-exit" and e[1] == lid][0]
    out = []
    for k, (i0, hd, end) in heads(ev, lid).items():
        if i0 is not None and isnum(i0) and const(i0) == 0 and end is not None:
            e = boolean(end)
            if sub(e, ex[2]) is ZERO:
                out.append(mk("b", hd))
    return out


def under(ev, lid, p):
    for x in running(ev, lid):
        p = replace(p, x, ZERO)
    return p


def established(ev, lid):
    """facts at the normal exit of a loop, with residual and trial of its end state"""
    ex = [e for e in ev.events if e[0] == "loop-exit" and e[1] == lid][0]
    E = under(ev, lid, ex[2])
    S = end_state(ev, lid)
    out = []
    for blk, tol, R, n in facts(ev, E):
        T = trial_of_residual(ev, R)
        good = False
        why = ""
        if T is not None and S is not None:
            Tend = field(ev, S, "trial_solution")
            good = True
            for b in (ZERO, ONE):
                a, z = vval(T, b), vval(Tend, b)
                if mul(E, sub(a, z)) is not ZERO:
                    good = False
                    why = "block %s: the residual belongs to %s, the state left is %s" % (show(b), show(a, 4)[:200], show(z, 4)[:300])
        out.append((blk, tol, R, n, good, why))
    return E, S, out, bool(ex[4])


def accept(c, ev, lid, tree, lab, alg, w0):
    E, S, fs, rets = established(ev, lid)
    if not c.ob("the loop is left through its exit condition only: " + lab, not rets, w0):
        return
    mono = alg == "Monolithic"
    need = {"all": MONO} if mono else {0: MACRO, 1: MICRO}
    inner = [l for l in tree if tree[l][1] == lid]
    for blk, nm in need.items():
        tol = nm + ".absolute_tolerance"
        hit = [f for f in fs if f[0] == blk and f[1] == tol]
        ok = any(f[4] and unit_scale(f[3]) for f in hit)
        why = "; ".join(f[5] for f in hit) or "the exit condition %s does not imply it" % show(E, 6)[:500]
        if not ok and not mono:
            ok, why2 = carried(ev, lid, E, S, tol, blk, inner, fs)
            why = why2 or why
        c.ob("accepted only if the residual norm (%s) is below tolerance: %s" % ({"all": "all", 0: "linear momentum", 1: "pseudo-balance"}[blk], lab), ok, w0, why, key="acceptance %s block %s" % (alg, blk))


def carried(ev, lid, E, S, tol, blk, inner, fs):
    """the fact holds for the residual the loop started its iteration with:
    directly on the loop-carried residual, or through a carried flag"""
    h = heads(ev, lid)
    rh = th = None
    for k in h:
        if k[0] == "$this" and k[1] and k[1][0] == ("f", "residual"):
            rh = h[k][1]
    vval = lambda t, b: under(ev, lid, linalg.vval(t, b))
    # residual and trial at the end of the exiting iteration are the ones it started with
    Rend, Tend = field(ev, S, "residual"), field(ev, S, "trial_solution")

    def head_or_same(g):
        """under g the iteration leaves residual and trial as at its start, or
        re-assembles the residual for the unchanged trial"""
        for b in (ZERO, ONE):
            t = mul(g, vval(Tend, b))
            for a in atoms_of(t):
                if not is_head(a, lid, "trial_solution"):
                    return "trial solution changes: %s" % show(a, 4)[:200]
            r = mul(g, vval(Rend, b))
            for a in atoms_of(r):
                if is_head(a, lid, "residual"):
                    continue
                T = trial_of_residual(ev, a.args[0]) if a.op == "vec" else None
                if T is None or not all(is_head(x, lid, "trial_solution") for bb in (ZERO, ONE) for x in atoms_of(mul(g, vval(T, bb)))):
                    return "residual of another state: %s" % show(a, 4)[:200]
        return None
    bad = head_or_same(E)
    if bad:
        return False, bad
    # direct fact on the loop-carried residual
    for f in fs:
        if f[0] == blk and f[1] == tol and rh is not None and as_atom(f[2]) is rh:
            return residual_current(ev, lid, S, inner)
    # through a flag
    for k, (i0, hd, end) in h.items():
        x = atom(mk("b", hd))
        if not k[0].startswith("%") or mul(E, lnot(x)) is not ZERO:
            continue
        if not (isnum(i0) and const(i0) == 0) or end is None:
            continue
        F = under(ev, lid, boolean(end))
        ok, why = True, ""
        for b in (ZERO, ONE):
            # kept: unchanged since the iteration started
            kept = mul(F, x)
            new = replace(F, as_atom(x), ZERO)
            r, t = vval(Rend, b), vval(Tend, b)
            for g, keep, v in ((kept, True, ONE), (new, False, ZERO)):
                for ra, ta in pairs(replace(g, as_atom(x), v), replace(r, as_atom(x), v), replace(t, as_atom(x), v)):
                    if keep and all(is_head(a, lid, "residual") or same_trial(ev, a, lid) for a in ra) and all(is_head(a, lid, "trial_solution") for a in ta):
                        continue
                    m = [l for l in inner if all(is_mu(a, l, "residual") for a in ra) and all(is_mu(a, l, "trial_solution") for a in ta)]
                    if m:
                        _, _, ifs, irets = established(ev, m[0])
                        if not irets and any(f[0] == blk and f[1] == tol and f[4] for f in ifs):
                            continue
                        why = "the inner loop's exit does not establish it: " + "; ".join(f[5] for f in ifs)
                    else:
                        why = "flag %s may be set for residual %s, trial solution %s" % (k[0].rsplit(":", 1)[-1], [show(a, 3)[:120] for a in ra], [show(a, 3)[:120] for a in ta])
                    ok = False
        if ok:
            return True, ""
        return False, why
    return False, ""


def same_trial(ev, a, lid):
    T = trial_of_residual(ev, a.args[0]) if a.op == "vec" else None
    return T is not None and all(is_head(x, lid, "trial_solution") for b in (ZERO, ONE) for x in atoms_of(vval(T, b)))


def residual_current(ev, lid, S, inner):
    """the loop-carried residual always belongs to the loop-carried trial solution"""
    Rend, Tend = field(ev, S, "residual"), field(ev, S, "trial_solution")
    for b in (ZERO, ONE):
        t, r = vval(Tend, b), vval(Rend, b)
        for ra, ta in pairs(ONE, r, t):
            if all(is_head(a, lid, "residual") for a in ra) and all(is_head(a, lid, "trial_solution") for a in ta):
                continue
            if any(all(is_mu(a, l, "residual") for a in ra) and all(is_mu(a, l, "trial_solution") for a in ta) for l in inner):
                continue
            ok = True
            for a in ra:
                T = trial_of_residual(ev, a.args[0]) if a.op == "vec" else None
                if T is None:
                    ok = False
                    break
                pa = atoms_of(vval(T, b))
                if not all(any(x is y for y in pa) for x in ta):
                    ok = False
            if not ok:
                return False, "residual %s with trial solution %s" % ([show(a, 3)[:150] for a in ra], [show(a, 4)[:200] for a in ta])
    return True, ""


def is_head(a, lid, fld):
    t = a.args[0] if a.op == "vec" else None
    t = as_atom(t) if t is not None else None
    return t is not None and t.op == "head" and t.args[0] == lid and t.args[2] and t.args[2][0] == ("f", fld)


def is_mu(a, lid, fld):
    t = a.args[0] if a.op == "vec" else None
    t = as_atom(t) if t is not None else None
    return t is not None and t.op == "mu" and t.args[0] == lid and t.args[2] and t.args[2][0] == ("f", fld)
