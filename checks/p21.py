"""P21 a named option selects exactly the behaviour of that name."""
from lab import *
from report import Check
from solver import last, as_atom
import terms as T
import params as P
import p20

EXPL = ("For every selection the configuration offers, the value graph of the constructor is specialised to each alternative: the stored enumerator "
        "must be the one of that name, different alternatives must differ, the default must be on offer and any other text must be refused.")
N = "gCP::RunTimeParameters::"
OPTIONS = {
    "solution_algorithm": {"monolithic": "Monolithic", "bouncing": "Bouncing", "embracing": "Embracing"},
    "boundary_conditions_at_grain_boundaries": {"microhard": "Microhard", "microfree": "Microfree", "microtraction": "Microtraction"},
    "loading_type": {"monotonic": "Monotonic", "cyclic": "Cyclic"},
    "control_type": {"load_control": "Load", "displacement_control": "Displacement"},
    "regularization_function": {"atan": "Atan", "sqrt": "Sqrt", "gd": "Gd", "tanh": "Tanh", "erf": "Erf"},
    "cohesive_law_model": {"OrtizEtAl": "OrtizEtAl"},
    "damage_evolution_model": {"OrtizEtAl": "OrtizEtAl", "M1": "M1"},
    "solver_type": {"directsolver": "DirectSolver", "cg": "CG", "gmres": "GMRES"},
    "monolithic_preconditioner": {"built-in": "BuiltIn", "block": None},      # block: not implemented, must be refused
}


def check():
    c = Check("P21", "value graph of the configuration's constructor specialised to every named option", "", ("source/run_time_parameters.cc",))
    c.load()
    L = Lab(c)
    C = P.Config(c, L, p20.CLS)
    f = [x for x in c.prog.by_q[p20.CLS + "::InfiniteStripProblem"] if len(x["params"]) == 1][0]
    w = c.where(f)
    throws = [(C.canon(g), line, q) for g, line, q in C.throws]
    n = 0
    for pre, sec, fields in p20.GROUPS:
        for fl, entry in fields.items():
            if p20.kind(pre + fl) == "enum":
                algs = p20.ALGS if "solution_algorithm" not in fl else (None,)
                n += option(c, C, pre + fl, sec + "/" + entry, (None,), throws, w)
    for pre, sec, fields, algs in p20.ONLY:
        for fl, entry in fields.items():
            if p20.kind(pre + fl) == "enum":
                n += option(c, C, pre + fl, sec + "/" + entry, algs, throws, w)
    c.need(n >= 30, "named options")
    c.count("options", n)
    return c.finish(EXPL)


def option(c, C, path, name, algs, throws, w):
    fl = path.rsplit(".", 1)[-1]
    alts, default = p20.alternatives(C, name)
    c.ob("'%s' offers a choice" % name, bool(alts), w, "no selection is declared")
    if not alts:
        return 0
    c.ob("the default of '%s' is one of its options" % name, default in alts, w, "default %s, options %s" % (default, alts))
    want = OPTIONS[fl]
    for a in want:
        if want[a]:
            c.ob("'%s' offers '%s'" % (name, a), a in alts, w, str(alts))
    got = p20.fetch(C, path)
    n = 0
    for alg in algs:
        of = (lambda t: t) if alg is None else (lambda t: p20.with_algorithm(t, alg))
        tag = "" if alg is None else " (%s)" % alg
        seen = {}
        for a in alts:
            v = P.option(of(got), name, a)
            refused = [x for x in throws if P.option(of(x[0]), name, a) is ONE]
            x = T.single_atom(v)
            e = x.args[0] if x is not None and x.op == "enum" else None
            n += 1
            if a in want and want[a] is None:
                c.ob("'%s = %s'%s is refused" % (name, a, tag), bool(refused), w, "accepted as %s" % show(v, 5)[:300])
                continue
            c.ob("'%s = %s'%s is accepted" % (name, a, tag), not refused, w, "refused at line %s" % [x[1] for x in refused])
            if a in want:
                c.ob("'%s = %s'%s selects %s" % (name, a, tag, want[a]), e is not None and e.rsplit("::", 1)[-1] == want[a], w, "selects %s" % show(v, 5)[:300])
            c.ob("'%s = %s'%s selects something of its own" % (name, a, tag), e is not None and e not in seen, w,
                 "selects %s like '%s'" % (show(v, 5)[:200], seen.get(e)))
            seen[e] = a
        rest = [x for x in throws if P.option(of(x[0]), name, "\0") is ONE]
        c.ob("any other text for '%s'%s is refused" % (name, tag), bool(rest), w, "no exception for an unknown option")
        n += 1
    return n


