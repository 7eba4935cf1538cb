"""P26 what is recorded: schedule of the outputs, the statistics' rows and the iteration log."""
from lab import *
from report import Check
from solver import *
import linalg
import p17
import p32
import solver
import terms as T
from p13 import running, trial_of_residual

EXPL = ("One load step and the application's output routines are evaluated; every row written to the iteration log or to the statistics is compared with "
        "the state of the solver at that point (residual, Newton update, counters of the generic iteration), and the outputs with their schedule.")
APP = "gCP::SimpleShearProblem<%d>"
LOG = ("N-Itr", "K-Itr", "L-Itr", "(NS)_L2", "(NS_U)_L2", "(NS_G)_L2", "(R)_L2", "(R_U)_L2", "(R_G)_L2", "C-Rate")
TABLE = ("LoadStep", "Iterations", "MonoAverageConvergence", "MacroAverageConvergence", "ReducedMacroAverageConvergence", "MicroAverageConvergence")
BLOCK = {"": None, "_U": 0, "_G": 1}
LOGQ = "gCP::Utilities::Logger::"


def check():
    c = Check("P26", "value graph of one load step and of the output routines: rows against the state they describe, effects against the schedule",
              "every row of the log and of the statistics is written once per iteration / step with the values of that iteration / step", None)
    c.load()
    linalg.SEE_THROUGH = {"active_set_algorithm"}
    for d in (2, 3):
        declared(c, d)
        seen = set()
        for lab, alg, init in configurations(c):
            lab += ", dim %d" % d
            seen.add(alg)
            step(c, d, lab, alg, init)
        outputs(c, d)
        fields(c, d)
        mesh(c, d)
        once(c, d)
        p17.loop(Part(c, ("results", "output is decided", "advance_time before postprocessing", "every step: postprocessing")), d)
    return c.finish(EXPL)


def once(c, d):
    """the mesh before, the homogenized quantities' file after the time loop"""
    f = c.anchor(APP % d + "::run")
    ev, _ = c.vg(f, opaque=lambda q: q.startswith("gCP::") and last(q) in p17.PRIM)
    pos = {id(e): k for k, e in enumerate(ev.events)}
    lab, w = " (dim %d)" % d, c.where(f)
    steps = [e for e in calls(ev, "solve_nonlinear_system")]
    c.must(steps, "solve_nonlinear_system in run()")
    for n, where, init in (("triangulation_output", "before", "initialize_calls"), ("output_macroscopic_quantities_to_file", "after", None)):
        es = [e for e in calls(ev, n) if not loops(e)]
        ok = len(es) >= 1 and len([e for e in es if e[4] is ONE]) >= 1
        if ok:
            k = [pos[id(e)] for e in es if e[4] is ONE]
            i = [pos[id(e)] for e in calls(ev, "initialize_calls")]
            ok = any((x < pos[id(steps[0])] and i and i[0] < x) if where == "before" else x > pos[id(steps[-1])] for x in k)
        c.ob("%s %s the time loop%s" % (n, where, lab), ok, w, "%d calls, guards %s" % (len(es), [show(e[4], 3)[:80] for e in es]))


class Part:
    """the obligations of another check's analysis which belong to this property"""

    def __init__(self, c, heads):
        self.c, self.heads = c, heads

    def __getattr__(self, n):
        return getattr(self.c, n)

    def ob(self, name, ok, *a, **kw):
        return self.c.ob(name, ok, *a, **kw) if name.startswith(self.heads) else ok


# ---------------------------------------------------------------- log and table
def declared(c, d):
    fs = [f for f in c.prog.by_q.get(solver_class(d) + "::GradientCrystalPlasticitySolver", []) if f["kind"] == "ctor" and len(f["params"]) > 3]
    c.need(len(fs) == 1, "constructor of the solver")
    got = {"log": [], "table": []}

    def rec(k):
        def h(ev, e):
            got[k].append((ev.rv(e["a"][0]).args[0], ev.full(), show(ev.rv(e["a"][1]), 3) if len(e["a"]) > 1 else None))
            return mk("sym", "ignored")
        return h
    c.vg(fs[0], opaque=lambda q: "GradientCrystalPlasticitySolver" not in q, hooks={LOGQ + "declare_column": rec("log"), "dealii::TableHandler::declare_column": rec("table")})
    w, lab = c.where(fs[0]), " (dim %d)" % d
    c.ob("columns of the iteration log are declared once" + lab, sorted(x[0] for x in got["log"]) == sorted(LOG) and all(x[1] is ONE for x in got["log"]), w, str([x[0] for x in got["log"]]))
    c.ob("columns of the statistics are declared once" + lab, sorted(x[0] for x in got["table"]) == sorted(TABLE) and all(x[1] is ONE for x in got["table"]), w, str([x[0] for x in got["table"]]))
    for n, g, k in got["log"]:
        # a fraction is not written to a column of integers
        c.ob("column %s shows its kind of value%s" % (n, lab), ("Integer" in k) == n.endswith("Itr"), w, str(k))


def step(c, d, lab, alg, init):
    f = c.anchor(solver_class(d) + "::solve_nonlinear_system")
    rows, table = [], []
    cur = {}

    def update(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        cur[a[0].args[0]] = (a[1], ev.full(), e.get("l", 0))
        return mk("sym", "ignored")

    def row(ev, e):
        g = lambda n: ev.read(vg.Loc("$this", (("f", n),)), ("obj", ""))
        x = ("call", "log_to_file", None, (len(rows),), ev.full(), e.get("l", 0), "row")
        ev.events.append(x)
        rows.append((dict(cur), ev.full(), {n: g(n) for n in ("residual", "newton_update", "trial_solution")}, e.get("l", 0)))
        cur.clear()
        return mk("sym", "ignored")

    def value(ev, e):
        a = [ev.rv(x) for x in e["a"]]
        ev.events.append(("call", "add_value", None, (len(table),), ev.full(), e.get("l", 0), "cell"))
        table.append((a[0].args[0], a[1], ev.full(), e.get("l", 0)))
        return mk("sym", "ignored")
    H = {LOGQ + "update_value": update, LOGQ + "log_to_file": row, "dealii::TableHandler::add_value": value}
    ev, _ = c.vg(f, opaque=lambda q: solver.opaque(q) and "update_and_output" not in q, init=init, hooks=H)
    w = c.where(f)
    ev.at_row = {e[3][0]: e for e in calls(ev, "log_to_file") if e[6] == "row"}
    ev.at_cell = {e[3][0]: e for e in calls(ev, "add_value") if e[6] == "cell"}
    # a loop's body is evaluated until its carried values are known: the last evaluation counts
    rows = {k: rows[k] for k in sorted(ev.at_row)}
    table = {k: table[k] for k in sorted(ev.at_cell)}
    c.ob("iterations are logged: " + lab, bool(rows), w)
    c.ob("the statistics get a row: " + lab, bool(table), w)
    R = Rows(c, ev, rows, w, lab, alg)
    R.rows()
    R.solves()
    R.table(table)


class Rows:
    def __init__(self, c, ev, rows, w, lab, alg):
        self.c, self.ev, self.all, self.w, self.lab, self.alg = c, ev, rows, w, lab, alg
        self.tree = loop_tree(ev)
        self.sol = calls(ev, SOLVES)
        self.iter = []          # (loop, solve group, row)
        self.rate = {}          # loop -> [(guard, value)]

    def ob(self, name, ok, detail="", line=None):
        self.c.ob("%s: %s" % (name, self.lab), ok, self.w + (" line %s" % line if line else ""), detail, key="%s %s" % (name, self.alg))

    def rows(self):
        for k, (v, g, st, line) in self.all.items():
            e = self.ev.at_row[k]
            self.ob("a row of the log is complete", set(v) == set(LOG), "missing %s" % sorted(set(LOG) - set(v)), line)
            if set(v) != set(LOG):
                continue
            self.ob("a row's values belong to it", all(mul(g, lnot(x[1])) is ZERO for x in v.values()), "", line)
            zero = isnum(v["N-Itr"][0]) and const(v["N-Itr"][0]) == 0
            self.residuals(v, g, st, line)
            if zero:
                for n in LOG[1:6]:
                    self.ob("column %s of the starting row" % n, isnum(v[n][0]) and mul(g, v[n][0]) is ZERO, show(v[n][0], 4)[:200], line)
            else:
                self.iteration(e, v, g, st, line)

    def norm(self, t, tail, vec):
        """t is the norm announced by the column's name of the vector `vec`"""
        x = as_atom(t)
        if tail == "":
            if not (isinstance(x, Term) and x.op == "call" and last(str(x.args[0])) == "l2_norm"):
                n = norm_of(x)
                return bool(n) and n[0] == "get_l2_norm" and as_atom(n[1]) is as_atom(vec)
            x = x.args[1]
        n = norm_of(x)
        if not n or n[0] != "get_sub_l2_norms":
            return False
        i = n[2]
        if (tail == "") != (i is None) or (i is not None and const(i) != BLOCK[tail]):
            return False
        return as_atom(n[1]) is as_atom(vec) and (len(n) < 4 or const(n[3]) == 1)

    def residuals(self, v, g, st, line):
        for tail in BLOCK:
            t = v["(R%s)_L2" % tail][0]
            ok = all(self.norm(x, tail, y) for h, x in leaves(t, g) for h2, y in leaves(st["residual"], h))
            self.ob("column (R%s)_L2 is the norm of the current residual" % tail, ok, "written %s\ncurrent %s" % (show(t, 6)[:400], show(st["residual"], 5)[:400]), line)
        B = var("B")
        for h, x in leaves(st["residual"], g):
            t = trial_of_residual(self.ev, x)
            cur = st["trial_solution"]
            ok = t is not None and (t is cur or mul(h, sub(vval(t, B), vval(cur, B))) is ZERO)
            self.ob("the residual logged belongs to the current trial solution", ok, "%s\n%s" % (show(t, 4)[:300] if t is not None else show(x, 4)[:300], show(cur, 4)[:300]), line)

    def same_round(self, e):
        """linear solves of the same generic iteration, before the row"""
        k = self.ev.events.index(e)
        return [s for s in self.sol if loops(s) == loops(e) and self.ev.events.index(s) < k and mul(s[4], e[4]) is not ZERO]

    def iteration(self, e, v, g, st, line):
        lid = loops(e)[0] if loops(e) else None
        sol = self.same_round(e)
        self.ob("a row of the log follows a linear solve", bool(sol) and lid is not None, "", line)
        if not sol or lid is None:
            return
        self.ob("a row is written for every linear solve before it", sub(add(*[s[4] for s in sol]), g) is ZERO, "%s / %s" % (show(add(*[s[4] for s in sol]), 4)[:200], show(g, 4)[:200]), line)
        self.iter.append((lid, sol, line))
        for s in sol:
            r = mk("call", s[1], s[2], *s[3])
            both = mul(g, s[4])
            self.ob("column K-Itr is what the linear solve returns", mul(both, sub(v["K-Itr"][0], atom(r))) is ZERO, show(v["K-Itr"][0], 4)[:300], line)
        self.counter(lid, v["N-Itr"][0], g, line)
        self.line_search(e, lid, v, g, line)
        self.updates(e, lid, v, g, st, sol, line)
        self.convergence(e, lid, v, g, st, sol, line)

    def counter(self, lid, t, g, line):
        """number of the iteration: a counter of the loop that starts at zero"""
        ok, txt = False, []
        for k, (i0, h, end) in heads(self.ev, lid).items():
            if i0 is None or not isnum(i0) or const(i0) != 0 or end is None or not isnum(end):
                continue
            txt.append(show(end, 4)[:100])
            if mul(g, sub(t, atom(h) + 1)) is ZERO and mul(g, end, sub(end, atom(h) + 1)) is ZERO:
                ok = True
        self.ob("column N-Itr is the number of the iteration", ok, "written %s; counters end as %s" % (show(t, 5)[:300], "; ".join(txt)), line)

    def line_search(self, e, lid, v, g, line):
        t = v["L-Itr"][0]
        ok = True
        for h, x in leaves(t, g):
            x = as_atom(x)
            good = isinstance(x, Term) and x.op == "call" and last(str(x.args[0])) == "get_n_iterations"
            if good:
                o = x.args[1]
                seen = 0
                # the object has been armed in this iteration
                for r in calls(self.ev, "reinit"):
                    if loops(r) == loops(e) and mul(r[4], h) is not ZERO:
                        seen += any(y.op == "after" and last(str(y.args[0])) == "reinit" and tuple(y.args[2:]) == tuple(r[3]) for y in subterms(o))
                good = seen > 0
            ok = ok and good
        self.ob("column L-Itr is the number of the line search's iterations", ok, show(t, 5)[:400], line)

    def updates(self, e, lid, v, g, st, sol, line):
        ls = [x for x in calls(self.ev, "line_search_algorithm") if loops(x) == loops(e) and mul(x[4], g) is not ZERO]
        for tail in BLOCK:
            t = v["(NS%s)_L2" % tail][0]
            n = [x for x in subterms(t) if x.op in ("call", "at") and self.norm(x, tail, st["newton_update"])]
            want = [atom(x) for x in n]
            for s in ls:
                want = [mul(x, atom(mk("call", s[1], s[2], *s[3]))) for x in want]
            ok = any(mul(g, sub(t, x)) is ZERO for x in want)
            self.ob("column (NS%s)_L2 is the norm of the step taken" % tail, ok, "written %s" % show(t, 7)[:500], line)
        for h, y in leaves(st["newton_update"], g):
            o = origin(y, ASSEMBLY + ("line_search_algorithm", "reset_and_update_internal_variables"))
            self.ob("the step logged is the solution of this iteration's system", o[0] == "after" and o[1] in SOLVES and any(o[1] == last(s[1]) and o[2] is s[2] for s in sol),
                    "%s" % show(y, 4)[:300], line)

    def convergence(self, e, lid, v, g, st, sol, line):
        """rate: logarithm of the residual norm reached over that of the norm before, of the block solved for"""
        t = v["C-Rate"][0]
        ok, txt = True, ""
        for s in sol:
            both = mul(g, s[4])
            tail = "" if last(s[1]) == "solve_linearized_system" else "_U"
            if s[3] and as_atom(s[3][0]).op == "enum" and as_atom(s[3][0]).args[0].endswith("Micro"):
                tail = "_G"
            A = v["(R%s)_L2" % tail][0]
            good = False
            for b in self.befores(lid, s, tail, v, g):
                q = div(T.fn1("log", A), T.fn1("log", b))
                D = sub(t, q)
                if mul(both, D) is ZERO or (mul(both, D, lnot(T.eq(b, ZERO))) is ZERO and mul(both, t, T.eq(b, ZERO)) is ZERO):
                    good = True
            ok = ok and good
        self.ob("column C-Rate relates the residual norm reached to the one before", ok, "written %s" % show(t, 7)[:600], line)
        self.rate.setdefault(lid, []).append((g, t))

    def befores(self, lid, s, tail, v, g):
        """norms of the residual the iteration started from; or those the loop carries from the previous row"""
        out = []
        res = field(self.ev, s[2], "residual")
        start = [mk("call", e[1], e[2], *e[3]) for e in calls(self.ev, NORMS) if e[3] and as_atom(e[3][0]) is as_atom(res)]
        pick = lambda n: atom(mk("call", "l2_norm", n) if tail == "" else at(n, (("i", num(BLOCK[tail])),)))
        out += [pick(n) for n in start]
        reached = v["(R%s)_L2" % tail][0]
        for k, (i0, h, end) in heads(self.ev, lid).items():
            if end is None or isnum(end) or k[1] or any(not isinstance(as_atom(x), Term) for _, x in leaves(end)):
                continue
            # carried unchanged, or replaced by the norms just written
            if all(x is h or mul(h2, g) is ZERO or mul(h2, sub(pick(x), reached)) is ZERO for h2, x in leaves(end)) and any(mul(g, h2) is not ZERO and x is not h for h2, x in leaves(end)):
                for n in start:
                    for q, (j0, j, jend) in heads(self.ev, lid).items():
                        if j0 is not None and isnum(j0) and const(j0) == 0:
                            first = T.eq(atom(j), ZERO)
                            out.append(add(mul(first, pick(n)), mul(lnot(first), pick(h))))
        return out

    def solves(self):
        """no solve without its row"""
        for s in self.sol:
            n = [x for x in self.iter if any(y is s for y in x[1])]
            self.ob("every linear solve is logged once", len(n) == 1, "%d rows for the solve at line %s" % (len(n), s[5]))

    # ------------------------------------------------------------ statistics
    def table(self, tab):
        by = {}
        for k, (n, v, g, line) in tab.items():
            by.setdefault(n, []).append((v, self.ev.at_cell[k], line))
        self.ob("the statistics' columns are the declared ones", set(by) == set(TABLE), "missing %s, unexpected %s" % (sorted(set(TABLE) - set(by)), sorted(set(by) - set(TABLE))))
        tops = [l for l in self.tree if not self.tree[l][1] and any(l in loops(s) for s in self.sol)]
        self.ob("one nonlinear loop", len(tops) == 1, "%d" % len(tops))
        if len(tops) != 1:
            return
        lid = tops[0]
        E = self.tree[lid][0][2]
        for b in running(self.ev, lid):
            E = T.replace(E, b, ZERO, memo={})
        steps = atom(mk("call", "get_step_number", at(THIS, (("f", "discrete_time"),))))
        for n in sorted(by):
            if n == "LoadStep":
                v, e, line = by[n][0]
                self.ob("column LoadStep is the number of the step being solved, once", len(by[n]) == 1 and not loops(e) and e[4] is ONE and sub(v, steps + 1) is ZERO, show(v, 5)[:200], line)
                continue
            es = [e for _, e, _ in by[n]]
            S = add(*[e[4] for e in es])
            ok = all(loops(e) == [lid] for e in es) and mul(S, lnot(E)) is ZERO and mul(E, sub(ONE, S)) is ZERO
            self.ob("column %s gets one value per accepted step" % n, ok, "written under %s\naccepted under %s" % (show(S, 5)[:400], show(E, 5)[:400]), by[n][0][2])
        V = lambda n: [(e[4], v) for v, e, _ in by.get(n, [])]
        self.counts(lid, V)

    def num_heads(self, lid):
        """scalars the loop carries from zero: (head, value at the end of a round)"""
        return [(atom(h), numv(end)) for k, (i0, h, end) in heads(self.ev, lid).items() if i0 is not None and isnum(i0) and const(i0) == 0 and end is not None]

    def counts(self, lid, V):
        z = lambda n: self.ob("column %s does not apply" % n, all(mul(g, v) is ZERO for g, v in V(n)), str([show(v, 4)[:200] for g, v in V(n)]))
        G = [s for s in self.sol if loops(s)[0] == lid]
        inner = [l for l in self.tree if self.tree[l][1] == lid and any(loops(s)[0] == l for s in self.sol)]
        if not G:
            return
        gs = add(*[s[4] for s in G])
        rate = self.rate.get(lid, [])
        if not rate:
            return
        r = rate[0][1]
        if self.alg == "Monolithic":
            for n in ("MacroAverageConvergence", "ReducedMacroAverageConvergence", "MicroAverageConvergence"):
                z(n)
            ok = mean = False
            txt = ""
            for h, hend in self.num_heads(lid):
                if not all(mul(g, sub(v, h + 1)) is ZERO for g, v in V("Iterations")) or mul(hend, sub(hend, h + 1)) is not ZERO:
                    continue
                ok = True
                for S, Send in self.num_heads(lid):
                    if all(mul(g, sub(v, div(add(S, r), h + 1))) is ZERO for g, v in V("MonoAverageConvergence")):
                        txt = "iterations %s, sum of the rates %s" % (show(hend, 5)[:200], show(Send, 5)[:300])
                        mean = mean or sub(mul(Send, h + 1), mul(hend, add(S, r))) is ZERO
            self.ob("column Iterations is the number of iterations", ok, str([show(v, 5)[:200] for g, v in V("Iterations")]))
            self.ob("column MonoAverageConvergence is the mean rate of the iterations counted", mean, txt or str([show(v, 5)[:300] for g, v in V("MonoAverageConvergence")]))
            return
        z("MonoAverageConvergence")
        self.ob("one loop for the slips", len(inner) == 1, "%d" % len(inner))
        if len(inner) != 1:
            return
        entry = self.tree[inner[0]][0][5]
        rounds = [(h, end) for h, end in self.num_heads(lid) if sub(sub(end, h), entry) is ZERO]
        ok = [h for h, end in rounds if all(mul(g, sub(v, h)) is ZERO for g, v in V("Iterations"))]
        self.ob("column Iterations is the number of rounds in which the slips were solved for", bool(ok), str([show(v, 5)[:200] for g, v in V("Iterations")]))
        for n, fn in (("MicroAverageConvergence", self.micro), ("MacroAverageConvergence", self.macro if self.alg == "Embracing" else self.macro_nested)):
            good, txt = False, ""
            for h in ok:
                for k, (i0, S, Send) in heads(self.ev, lid).items():
                    if i0 is None or not isnum(i0) or const(i0) != 0 or Send is None:
                        continue
                    Send = numv(Send)
                    if not all(mul(g, sub(v, div(atom(S), h))) is ZERO for g, v in V(n)):
                        continue
                    txt = "summed as %s" % show(sub(Send, atom(S)), 6)[:500]
                    good = good or fn(lid, inner[0], entry, k, atom(S), Send, gs, r)
            self.ob("column %s is the mean over the rounds counted" % n, good, txt or str([show(v, 5)[:300] for g, v in V(n)]))
        if self.alg != "Embracing":
            z("ReducedMacroAverageConvergence")
            return
        good = False
        for h in ok:
            for S, Send in self.num_heads(lid):
                if all(mul(g, sub(v, div(S, h - 1))) is ZERO for g, v in V("ReducedMacroAverageConvergence")):
                    for later in (lt(ONE, h + 1), lnot(T.eq(h, ZERO)), lt(ZERO, h), le(ONE, h)):
                        good = good or sub(sub(Send, S), mul(gs, r, later)) is ZERO
        self.ob("column ReducedMacroAverageConvergence leaves out the first iteration", good, str([show(v, 5)[:300] for g, v in V("ReducedMacroAverageConvergence")]))

    def macro(self, lid, inner, entry, k, S, Send, gs, r):
        return sub(sub(Send, S), mul(gs, r)) is ZERO

    def macro_nested(self, lid, inner, entry, k, S, Send, gs, r):
        """sum over the finished loops of the mean of their rates"""
        D = sub(Send, S)
        for it, iend in self.num_heads(lid):
            if mul(gs, sub(iend, it + 1)) is not ZERO or mul(entry, iend) is not ZERO:
                continue
            for L, Lend in self.num_heads(lid):
                if mul(gs, sub(Lend, add(L, r))) is not ZERO or mul(entry, Lend) is not ZERO:
                    continue
                rest = mul(lnot(gs), lnot(entry))
                if mul(rest, sub(Lend, L)) is not ZERO or mul(rest, sub(iend, it)) is not ZERO:
                    continue
                m = div(add(L, r), it + 1)
                for conv in {x for c, mo in D.args[0] for x, e in mo.args[0] if x.op == "lt0"}:
                    if sub(D, mul(gs, atom(conv), m)) is ZERO and self.accepts(conv, gs, lid):
                        return True
        return False

    def accepts(self, conv, gs, lid):
        """the condition is the residual's norm below the tolerance after the iteration"""
        A = [v["(R_U)_L2"][0] for k, (v, g, st, line) in self.all.items() if loops(self.ev.at_row[k])[:1] == [lid] and mul(g, lnot(gs)) is ZERO and not (isnum(v["N-Itr"][0]) and const(v["N-Itr"][0]) == 0)]
        return any(sub(atom(conv), lt(a, prm(MACRO + ".absolute_tolerance"))) is ZERO for a in A)

    def micro(self, lid, inner, entry, k, S, Send, gs, r):
        """sum over the rounds of the mean of the inner loop's rates"""
        rin = self.rate.get(inner)
        if not rin:
            return False
        rin = rin[0][1]
        X = self.tree[inner][0][2]
        for it, iend in self.num_heads(inner):
            if mul(entry, sub(iend, it + 1)) is not ZERO:
                continue
            for q, (j0, L, Lend) in heads(self.ev, inner).items():
                if j0 is None or not isnum(j0) or const(j0) != 0 or Lend is None or mul(entry, sub(numv(Lend), add(atom(L), rin))) is not ZERO:
                    continue
                # added after the inner loop
                mean = div(after(L, Send), after(T.single_atom(it), Send))
                if mul(entry, sub(sub(Send, S), mean)) is ZERO and mul(lnot(entry), sub(Send, S)) is ZERO:
                    return True
                # added in the inner loop's last iteration
                for q2, (m0, H, Hend) in heads(self.ev, inner).items():
                    if q2 != k or m0 is None or Hend is None:
                        continue
                    m0, Hend = numv(m0), numv(Hend)
                    inc = div(add(atom(L), rin), it + 1)
                    if mul(entry, sub(m0, S)) is ZERO and mul(entry, sub(sub(Hend, atom(H)), mul(X, inc))) is ZERO and \
                            mul(entry, sub(Send, after(H, Send))) is ZERO and mul(lnot(entry), sub(Send, S)) is ZERO:
                        return True
        return False


def numv(t):
    """the number read without its type"""
    if isnum(t):
        return t
    if t.op == "case":
        return add(*[mul(g, numv(v)) for g, v in t.args[0]])
    return atom(t)


def after(h, t):
    """value, occurring in t, that the loop leaves for what it carries as h"""
    m = [x for x in subterms(t) if x.op == "mu" and x.args[:3] == h.args[:3]]
    return atom(m[0]) if m else atom(mk("mu", *h.args))



# ---------------------------------------------------------------- output files
def inside(q):
    return "SimpleShearProblem" not in q


def texts(t):
    """characters of a path or string made from the output directory: '<dir>…'"""
    if isinstance(t, tuple):
        return None
    n = as_atom(t) if isinstance(t, Term) else t
    if not isinstance(n, Term):
        return str(n)
    if n.op in ("strlit", "str"):
        return n.args[0]
    if n.op == "at":
        return "<%s>" % n.args[1][-1][1] if n.args[1][-1][0] == "f" else None
    if n.op in ("ctorobj", "file") or n.op == "call":
        k = last(str(n.args[0]))
        if n.op == "ctorobj" or k in ("path", "basic_string"):
            return texts(n.args[1]) if len(n.args) > 1 else ""
        if k in ("string", "c_str", "file", "native", "u8string", "generic_string"):
            return texts(n.args[1] if n.args[1] is not None else n.args[2])
        if k in ("op/", "op+", "append", "operator/", "concat"):
            r = [texts(x) for x in n.args[1:]]
            if None in r:
                return None
            return r[0] + ("/" if k in ("op/", "append", "operator/") else "") + r[1]
    if n.op == "copy":
        return texts(n.args[0])
    return None


DIR = "<output_directory>"


def is_file(t, name):
    """the file `name` in the output directory, whichever way the path is put together"""
    x = texts(t)
    return x is not None and x.startswith(DIR) and x[len(DIR):].strip("/") == name


def due(g, freq):
    """the guard says: at every freq-th step and at the end"""
    by = {}
    for x in p17.atoms_of(g):
        by.setdefault(cname(x), x)
    fr = [x for x in subterms(g) if x.op == "at" and x.args[1][-1] == ("f", freq)]
    if not fr or "get_step_number" not in by:
        return []
    m = p17.mod(atom(by["get_step_number"]), atom(fr[0]))
    out = []
    if "get_current_time" in by and "get_end_time" in by:
        n, e = atom(by["get_current_time"]), atom(by["get_end_time"])
        out += [lor(T.eq(m, ZERO), x) for x in (T.eq(n, e), lnot(lt(n, e)))]
    if "is_at_end" in by:
        out += [lor(T.eq(m, ZERO), atom(mk("b", by["is_at_end"])))]
    return out


def outputs(c, d):
    f = c.anchor(APP % d + "::postprocessing", 0)
    ev, _ = c.vg(f, opaque=inside)
    w, lab = c.where(f), " (dim %d)" % d
    now = mk("call", "get_current_time", at(THIS, (("f", "discrete_time"),)))
    m = lambda n: at(THIS, (("f", n),))
    hom = [e for e in calls(ev, "compute_macroscopic_quantities")]
    if c.ob("homogenized quantities are computed in one place, on the application's homogenization" + lab, len(hom) == 1 and p32.strip(hom[0][2]) is m("homogenization"), w, "%d calls" % len(hom)):
        e = hom[0]
        flag = atom(mk("b", at(THIS, tuple(("f", x) for x in ("parameters", "homogenization", "flag_compute_homogenized_quantities")))))
        alts = [mul(flag, x) for x in due(e[4], "homogenization_frequency")]
        c.ob("homogenized quantities: if asked for, every n-th step and at the end" + lab, any(mul(e[4], lnot(x)) is ZERO and mul(x, lnot(e[4])) is ZERO for x in alts), w, show(e[4], 6)[:500])
        c.ob("homogenized quantities are labelled with the time reached" + lab, as_atom(e[3][0]) is now, w, show(e[3][0], 4)[:200])
    cd = [e for e in calls(ev, "compute_data")]
    if c.ob("the shear response is evaluated once a step" + lab, len(cd) == 1 and cd[0][4] is ONE and not loops(cd[0]) and p32.strip(cd[0][2]) is m("simple_shear"), w, "%d calls" % len(cd)):
        c.ob("the shear response is labelled with the time reached" + lab, as_atom(cd[0][3][0]) is now, w, show(cd[0][3][0], 4)[:200])
    for n, fld, name in (("shear response", "simple_shear", "stress12_vs_shear_strain_at_boundary.txt"), ("statistics", "gCP_solver", "solution_algorithm_statistics.txt")):
        es = [e for e in calls(ev, "output_data_to_file") if p32.strip(e[2]) is m(fld)]
        ok = len(es) == 1 and es[0][4] is ONE and not loops(es[0])
        c.ob("%s: written to its file every step%s" % (n, lab), ok, w, "%d calls" % len(es))
        if ok:
            c.ob("%s: the file is %s%s" % (n, name, lab), is_file(es[0][3][0], name), w, "%s: %s" % (texts(es[0][3][0]), show(es[0][3][0], 8)[:300]))
            if fld == "simple_shear" and cd:
                c.ob("%s: this step's row is in the file%s" % (n, lab), ev.events.index(cd[0]) < ev.events.index(es[0]), w)
    # each writes its own table
    for cls, fn, args in (("gCP::Postprocessing::SimpleShear<%d>" % d, "output_data_to_file", 1), (solver_class(d), "output_data_to_file", 1),
                          ("gCP::Postprocessing::Homogenization<%d>" % d, "output_macroscopic_quantities_to_file", 0)):
        f2 = c.anchor(cls + "::" + fn, args)
        es = []

        def write(ev2, e):
            es.append(([ev2.rv(x) for x in e["a"]], ev2.full(), e))
            return mk("sym", "ignored")
        ev2, _ = c.vg(f2, opaque=lambda q: False, hooks={"dealii::TableHandler::write_text": write})
        ok = len(es) == 1 and es[0][1] is ONE
        c.ob("%s writes its table%s" % (last(cls.split("<")[0]), lab), ok, c.where(f2), "%d writes" % len(es))
        if ok:
            to = p32.strip(es[0][0][0]) if isinstance(es[0][0][0], Term) else None
            want = mk("sym", f2["params"][0]["n"]) if args else None
            good = (to is want) if args else (to is not None and to.op == "at" and to.args[0] is THIS)
            c.ob("%s writes to the file it was given%s" % (last(cls.split("<")[0]), lab), good, c.where(f2), show(to, 4)[:200] if to is not None else "None")
    # the homogenization's file
    f3 = c.anchor(APP % d + "::initialize_calls", 0)
    ev3, _ = c.vg(f3, opaque=inside)
    es = [e for e in calls(ev3, "init") if p32.strip(e[2]) is m("homogenization")]
    if c.ob("homogenization is given its file once" + lab, len(es) == 1 and len(es[0][3]) == 3, c.where(f3), "%d" % len(es)):
        t = es[0][3][2]
        c.ob("homogenization: the file is homogenization.txt" + lab, is_file(t, "homogenization.txt"), c.where(f3), "%s: %s" % (texts(t), show(t, 8)[:300]))


def written(c, ev, w, lab, name, call):
    es = [e for e in calls(ev, call)]
    return es


def vectors(t):
    """calls made on a DataOut up to here, first first: [(name, args)]"""
    out = []
    t = p32_obj(t)
    while isinstance(t, Term) and t.op == "after":
        out.append((last(str(t.args[0])), tuple(t.args[2:])))
        t = p32_obj(t.args[1])
    return out[::-1]


def p32_obj(t):
    t = as_atom(t) if isinstance(t, Term) else t
    return t


def fields(c, d):
    f = c.anchor(APP % d + "::data_output", 0)
    ev, _ = c.vg(f, opaque=inside)
    w, lab = c.where(f), " (dim %d)" % d
    m = lambda n, *s: at(THIS, (("f", n),) + tuple(("f", x) for x in s))
    rec = [e for e in calls(ev, "write_vtu_with_pvtu_record")]
    by = {}
    for e in rec:
        by.setdefault(texts(e[3][1]), []).append(e)
    c.ob("what is written" + lab, set(by) == {"solution", "damage"} and all(len(x) == 1 and not loops(x[0]) for x in by.values()), w, "%s" % {k: len(v) for k, v in by.items()})
    if set(by) != {"solution", "damage"}:
        return
    e = by["solution"][0]
    ops = vectors(e[2])
    names = [x[0] for x in ops]
    c.ob("the solution is written at every output" + lab, e[4] is ONE, w, show(e[4], 4)[:200])
    c.ob("the solution's output is built in order" + lab, names == ["attach_dof_handler", "add_data_vector", "build_patches"], w, str(names))
    if names == ["attach_dof_handler", "add_data_vector", "build_patches"]:
        a = [[p32.strip(x) for x in o[1]] for o in ops]
        hs = (atom(mk("call", "get_dof_handler", m("fe_field"))), m("fe_field", "dof_handler"))
        c.ob("degrees of freedom of the output are the field's" + lab, any(a[0][0] is p32.strip(h) for h in hs) or show(a[0][0], 4) in ("get_dof_handler(this.fe_field)",), w, show(a[0][0], 4)[:200])
        c.ob("the solution vector is written, evaluated by the postprocessor" + lab, len(a[1]) == 2 and a[1][0] is m("fe_field", "solution") and a[1][1] is m("postprocessor"), w, show(ops[1][1], 5)[:300])
        c.ob("the output uses the problem's mapping" + lab, a[2] and a[2][0] is m("mapping"), w, show(ops[2][1], 5)[:300])
    x = by["damage"][0]
    flag = atom(mk("b", at(THIS, tuple(("f", y) for y in ("parameters", "output", "flag_output_damage_variable")))))
    c.ob("damage is written where it is asked for" + lab, sub(x[4], flag) is ZERO, w, show(x[4], 5)[:300])
    ops = vectors(x[2])
    add_ = [o for o in ops if o[0] == "add_data_vector"]
    ok = len(add_) == 1 and [o[0] for o in ops] == ["add_data_vector", "build_patches"]
    c.ob("the damage's output is built in order" + lab, ok, w, str([o[0] for o in ops]))
    if ok:
        a = [p32.strip(y) for y in add_[0][1]]
        c.ob("damage at the grain boundaries is written on its own degrees of freedom" + lab, cname(a[0]) == "get_projection_dof_handler" and cname(a[1]) == "get_damage_at_grain_boundaries"
             and all(p32.strip(y.args[1]) is m("gCP_solver") for y in a[:2]), w, show(add_[0][1][:2], 5)[:300])
        s = [y.args[0] for y in subterms(a[2]) if y.op in ("strlit", "str")] if isinstance(a[2], Term) else []
        c.ob("damage is called damage" + lab, s == ["damage"], w, show(a[2], 4)[:200])
    # numbering
    i, j = e[3][2], x[3][2]
    c.ob("solution and damage of one output carry one number" + lab, isnum(i) and isnum(j) and mul(x[4], sub(i, j)) is ZERO, w, "%s / %s" % (show(i, 4), show(j, 4)))
    kept = [(r, b) for r, b in ev.base.items() if isnum(b) and any(y.op == "sym" and str(y.args[0]).startswith("static:") for y in subterms(b))] if isnum(i) else []
    adv = False
    for r, b in kept:
        end = ev.read(vg.Loc(r, ()), ("num", "int"))
        adv = adv or (sub(end, b + 1) is ZERO and any(sub(i, b + k) is ZERO for k in (0, 1)))
    mem = [y for y in subterms(i) if y.op == "at" and y.args[0] is THIS] if isnum(i) else []
    for y in mem:
        end = ev.read(vg.Loc("$this", y.args[1]), ("num", "int"))
        adv = adv or (sub(end, atom(y) + 1) is ZERO and any(sub(i, atom(y) + k) is ZERO for k in (0, 1)))
    c.ob("every output gets a number of its own, one after the other" + lab, adv, w, "number %s" % show(i, 4))
    for y in (e, x):
        p = texts(y[3][0])
        c.ob("%s is written below the output directory%s" % (texts(y[3][1]), lab), p is not None and p.startswith(DIR) and p[len(DIR):].strip("/") == "paraview", w, str(p))
        c.ob("%s is written by all processes together%s" % (texts(y[3][1]), lab), "mpi_comm_world" in show(y[3][3], 4).lower() or "communicator" in show(y[3][3], 4), w, show(y[3][3], 4)[:100])


CELL = {"locally_owned_subdomain": ("locally_owned_subdomain", "triangulation"), "material_id": ("material_id", None), "active_fe_index": ("active_fe_index", None)}


def mesh(c, d):
    f = c.anchor(APP % d + "::triangulation_output", 0)
    ev, _ = c.vg(f, opaque=inside)
    w, lab = c.where(f), " (dim %d)" % d
    es = [e for e in calls(ev, ("write_vtu_in_parallel", "write_vtu_with_pvtu_record"))]
    if not c.ob("the mesh is written once" + lab, len(es) == 1 and es[0][4] is ONE and not loops(es[0]), w, "%d" % len(es)):
        return
    e = es[0]
    c.ob("the mesh's file is triangulation.vtu" + lab, is_file(e[3][0], "triangulation.vtu"), w, str(texts(e[3][0])))
    ops = vectors(e[2])
    got = {}
    for n, a in ops:
        if n == "add_data_vector":
            got[texts(a[1])] = a[0]
    want = set(CELL) | {"cell_is_at_grain_boundary"}
    c.ob("fields of the mesh" + lab, set(got) == want, w, str(sorted(map(str, got))))
    h = ops[0]
    c.ob("the mesh is the field's" + lab, h[0] == "attach_dof_handler" and "fe_field" in show(h[1][0], 4), w, str(h[0]))
    for n in sorted(set(got) & want):
        if n == "cell_is_at_grain_boundary":
            t = p32.strip(got[n])
            c.ob("field %s is the solver's%s" % (n, lab), cname(t) == "get_cell_is_at_grain_boundary_vector" and "gCP_solver" in show(t.args[1], 3), w, show(t, 4)[:200])
            continue
        t = as_atom(got[n])
        ok = isinstance(t, Term) and t.op == "objst" and len(t.args[1]) == 1
        if ok:
            b = t.args[1][0]
            kind, steps, val, g = b.args[1][:4]
            v = as_atom(val)
            name, on = CELL[n]
            ok = kind == "set" and len(steps) == 1 and steps[0][0] == "i" and isinstance(v, Term) and cname(v) == name
            if ok:
                i = as_atom(steps[0][1])
                cell = i.args[1] if cname(i) == "active_cell_index" else None
                ok = cell is not None and (v.args[1] is m_(on) if on else v.args[1] is cell) and "active_cell_iterators" in show(cell, 4)
                own = atom(mk("b", mk("call", "is_locally_owned", cell))) if cell is not None else None
                ok = ok and sub(g, own) is ZERO
            base = p32.strip(t.args[0]) if t.args[0].op != "fill" else t.args[0]
            ok = ok and base.op == "fill" and const(base.args[0]) == -1
        c.ob("field %s of every owned cell is its own, -1 elsewhere%s" % (n, lab), ok, w, show(got[n], 9)[:500])


def m_(n):
    return at(THIS, (("f", n),))
