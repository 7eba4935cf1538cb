"""P19: all processes take the same decisions and enter every collective operation together."""
import re

from report import Check
from flow import strip_targs, short
from uniform import Uniform

EXPL = ("A taint analysis of every function follows values only one process knows (its cells and unknowns, entries of vectors, its rank) "
        "through assignments, members, parameters and results; reductions over all processes end it. No collective operation may "
        "be reached under a branch, loop or early exit whose condition carries such a value, and no number given to a distributed "
        "object, a linear solver's control or the time may carry one.")


def check():
    c = Check("P19", "interprocedural taint analysis of process-dependent values into control of collective operations", EXPL, None)
    c.load()
    u = Uniform(c.prog)
    u.run()
    for (file, line, op, fn), local in sorted(u.sites.items()):
        c.ob("every process enters %s" % op, not local, "%s:%d (%s)" % (file, line, fn),
             "reached only if a condition only this process knows holds (branch, loop or early exit)", key="%s %s" % (fn, op))
    for (file, line, op, fn), local in sorted(u.numbers.items()):
        c.ob("every process gives the same numbers to %s" % op, not local, "%s:%d (%s)" % (file, line, fn),
             "the number stems from what only this process knows", key="%s %s number" % (fn, op))
    fns = {fn for (_, _, op, fn) in u.sites if op.startswith("MPI::")}
    for f in c.prog.funcs.values():
        if not f.get("body") or not re.match(r"(const )?(double|float|(unsigned )?(int|long)|bool)\b", f.get("ret", "")):
            continue
        q = strip_targs(f["q"])
        if q in fns or q.endswith("Solver::get_macroscopic_damage"):
            r, _ = u.call(f, False, tuple(False for _ in f["params"]), False)
            c.ob("%s has the same result on all processes" % short(q), not r, c.where(f), "its result stems from what only this process knows", key=q + " result")
    for q in u.funcs:
        c.functions.add(q)
    c.count("functions and contexts", u.calls)
    c.count("collective operations", len(u.sites))
    c.count("numbers given to distributed objects", len(u.numbers))
    c.count("members whose values differ between processes", sum(u.fields.values()))
    c.need(len(u.sites) > 40 and any(u.fields.values()), "collective operations of the program")
    c.assumptions.append("deal.II's distributed classes are collective and process-dependent as documented (tables in lib/uniform.py)")
    return c.finish(EXPL)
