"""P20 every entry of the parameter file reaches the quantity it names."""
from lab import *
from report import Check
from solver import last, as_atom
import terms as T
import params as P

EXPL = ("The configuration object is built by evaluating its constructor (declare, read the file, parse) as one value graph; each field's final "
        "value must be the entry documented for it, read once the file was parsed, from the section it was declared in, with a matching type.")
CLS = "gCP::RunTimeParameters::InfiniteStripProblem"

SPAT, TEMP, INP, OUT_ = "1. Spatial discretization parameters", "2. Temporal discretization parameters", "3. Input parameters", "4. Output parameters"
POST, SOLV = "5. Postprocessing parameters", "6. Solver parameters"
LAWS = SOLV + "/Constitutive laws' parameters"
SL = TEMP + "/Simple loading"
DIML = SOLV + "/Dimensionless formulation parameters"
MONOA, STAG = SOLV + "/Monolithic algorithm", SOLV + "/Staggered algorithm"
ALG = SOLV + "/Solution algorithm"

# field prefix, section, {field: entry}
LAW = "solver_parameters.constitutive_laws_parameters."
GROUPS = [
    ("spatial_discretization.", SPAT, {"dim": "Spatial dimension", "fe_degree_displacements": "FE's polynomial degree - Displacements",
                                       "fe_degree_slips": "FE's polynomial degree - Slips", "n_global_refinements": "Number of global refinements",
                                       "mapping_degree": "Mapping - Polynomial degree",
                                       "flag_apply_mapping_to_interior_cells": "Mapping - Apply to interior cells"}),
    ("temporal_discretization_parameters.", TEMP, {"start_time": "Start time", "end_time": "End time", "time_step_size": "Time step size"}),
    ("input.", INP, {"slips_normals_pathname": "Slip normals path name", "slips_directions_pathname": "Slip directions path name",
                     "euler_angles_pathname": "Euler angles path name"}),
    ("output.", OUT_, {"output_directory": "Graphical output directory", "graphical_output_frequency": "Graphical output frequency",
                       "terminal_output_frequency": "Terminal output frequency", "flag_output_damage_variable": "Output damage variable field",
                       "flag_output_fluctuations": "Output fluctuations fields",
                       "flag_output_dimensionless_quantities": "Output dimensionless quantities"}),
    (LAW + "hooke_law_parameters.", LAWS + "/Hooke-Law's parameters", {"C1111": "C1111", "C1122": "C1122", "C1212": "C1212"}),
    (LAW + "scalar_microstress_law_parameters.", LAWS + "/Scalar microstress law's parameters",
     {"regularization_function": "Regularization function", "regularization_parameter": "Regularization parameter",
      "flag_rate_independent": "Rate-independent behavior"}),
    (LAW + "vectorial_microstress_law_parameters.", LAWS + "/Vectorial microstress law's parameters",
     {"energetic_length_scale": "Energetic length scale", "initial_slip_resistance": "Initial slip resistance",
      "defect_energy_index": "Defect energy index", "regularization_parameter": "Regularization parameter"}),
    (LAW + "microtraction_law_parameters.", LAWS + "/Microtraction law's parameters", {"grain_boundary_modulus": "Grain boundary modulus"}),
    (LAW + "cohesive_law_parameters.", LAWS + "/Cohesive law's parameters",
     {"cohesive_law_model": "Cohesive law model", "critical_cohesive_traction": "Critical cohesive traction",
      "critical_opening_displacement": "Critical opening displacement",
      "tangential_to_normal_stiffness_ratio": "Tangential to normal stiffness ratio"}),
    (LAW + "contact_law_parameters.", LAWS + "/Contact law's parameters", {"penalty_coefficient": "Penalty coefficient"}),
    (LAW + "hardening_law_parameters.", LAWS + "/Hardening law's parameters",
     {"initial_slip_resistance": "Initial slip resistance", "linear_hardening_modulus": "Linear hardening modulus",
      "hardening_parameter": "Hardening parameter", "flag_perfect_plasticity": "Perfect plasticity"}),
    (LAW + "degradation_function_parameters.", LAWS + "/Degradation function parameters", {"degradation_exponent": "Degradation exponent"}),
    (LAW + "damage_evolution_parameters.", LAWS + "/Damage evolution parameters",
     {"damage_evolution_model": "Damage evolution model", "damage_accumulation_constant": "Damage accumulation constant",
      "damage_decay_constant": "Damage decay constant", "damage_decay_exponent": "Damage decay exponent", "endurance_limit": "Endurance limit",
      "flag_set_damage_to_zero": "Set damage to zero", "flag_couple_microtraction_to_damage": "Couple microtraction to damage",
      "flag_couple_macrotraction_to_damage": "Couple macrotraction to damage"}),
    ("solver_parameters.", SOLV, {"solution_algorithm": "Solution algorithm", "allow_decohesion": "Allow decohesion at grain boundaries",
                                  "boundary_conditions_at_grain_boundaries": "Boundary conditions at grain boundaries",
                                  "flag_skip_extrapolation": "Skip extrapolation of start value",
                                  "flag_skip_extrapolation_at_extrema": "Skip extrapolation of start value at extrema",
                                  "extrapolation_factor": "Extrapolation factor",
                                  "flag_zero_damage_during_loading_and_unloading": "Zero damage evolution during un- and loading",
                                  "print_sparsity_pattern": "Print sparsity pattern", "flag_output_debug_fields": "Output debug fields",
                                  "verbose": "Verbose"}),
    ("solver_parameters.", OUT_, {"logger_output_directory": "Graphical output directory"}),
    ("solver_parameters.dimensionless_form_parameters.", DIML, {"flag_solve_dimensionless_problem": "Solve the dimensionless problem"}),
    ("homogenization.", POST + "/Homogenization", {"homogenization_frequency": "Homogenization frequency",
                                                   "flag_compute_homogenized_quantities": "Compute homogenized quantities"}),
    ("", "", {"verbose": "Verbose"}),
    ("simple_loading.", SL, {"loading_type": "Loading type", "max_load": "Maximum load", "min_load": "Minimum load"}),
    ("simple_loading.", SL + "/Monotonic load parameters", {"duration_monotonic_load": "Duration of monotonic load",
                                                            "n_steps_monotonic_load": "Number of steps during monotonic load"}),
    ("simple_loading.", SL + "/Cyclic load parameters",
     {"duration_loading_and_unloading_phase": "Duration of un- and loading phase",
      "n_steps_loading_and_unloading_phase": "Number of steps during un- and loading phase", "n_cycles": "Number of cycles", "period": "Period",
      "n_steps_quarter_period": "Number of steps during a quarter cycle", "flag_skip_unloading_phase": "Skip unloading phase"}),
    ("", SPAT + "/Problem specific parameters", {"height": "Height of the strip", "n_elements_in_y_direction": "Number of elements in y-direction",
                                                 "n_equal_sized_crystals": "Number of equally sized crystals in y-direction"}),
    ("", "0. Infinite strip parameters (Extended in 1. and 2.)/Loading parameters", {"control_type": "Control type"}),
]
KRY = {"krylov_parameters.solver_type": "Krylov parameters/Solver type", "krylov_parameters.relative_tolerance": "Krylov parameters/Relative tolerance",
       "krylov_parameters.absolute_tolerance": "Krylov parameters/Absolute tolerance",
       "krylov_parameters.n_max_iterations": "Krylov parameters/Maximum number of iterations",
       "newton_parameters.relative_tolerance": "Newton-Raphson parameters/Relative tolerance of the residual",
       "newton_parameters.absolute_tolerance": "Newton-Raphson parameters/Absolute tolerance of the residual",
       "newton_parameters.step_tolerance": "Newton-Raphson parameters/Absolute tolerance of the step",
       "newton_parameters.n_max_iterations": "Newton-Raphson parameters/Maximum number of iterations",
       "newton_parameters.flag_line_search": "Newton-Raphson parameters/Line search algorithm",
       "line_search_parameters.alpha": "Line search parameters/Alpha condition constant",
       "line_search_parameters.beta": "Line search parameters/Beta condition constant",
       "line_search_parameters.n_max_iterations": "Line search parameters/Maximum number of iterations"}
# read only when the algorithm it belongs to is the one chosen
MA, SA = "solver_parameters.monolithic_algorithm_parameters.", "solver_parameters.staggered_algorithm_parameters."
ONLY = [
    (MA + "monolithic_system_solver_parameters.", MONOA, KRY, ("monolithic",)),
    (MA, MONOA, {"monolithic_preconditioner": "Monolithic preconditioner"}, ("monolithic",)),
    (SA + "linear_momentum_solver_parameters.", STAG + "/Linear momentum balance", KRY, ("bouncing", "embracing")),
    (SA + "pseudo_balance_solver_parameters.", STAG + "/Pseudo-balance", KRY, ("bouncing", "embracing")),
    (SA, STAG, {"max_n_solution_loops": "Maximum number of solution loops",
                "flag_reset_trial_solution_at_micro_loop": "Reset trial solution at each micro loop"}, ("bouncing", "embracing")),
]
ALGS = ("monolithic", "bouncing", "embracing")
PATHS = ("input.slips_normals_pathname", "input.slips_directions_pathname", "input.euler_angles_pathname")
STRINGS = PATHS + ("output.output_directory", "solver_parameters.logger_output_directory")
ENUMS = {"solution_algorithm", "loading_type", "control_type", "regularization_function", "cohesive_law_model", "damage_evolution_model",
         "boundary_conditions_at_grain_boundaries", "solver_type", "monolithic_preconditioner"}
GETTERS = {"Integer": ("get_integer", "get_double"), "Double": ("get_double",), "Bool": ("get_bool",), "Selection": ("get",),
           "FileName": ("get",), "DirectoryName": ("get",), "Anything": ("get",)}


def check():
    c = Check("P20", "value graph of the configuration's constructor against a table of entries and fields", "", ("source/run_time_parameters.cc",))
    c.load()
    L = Lab(c)
    C = P.Config(c, L, CLS)
    f = [x for x in c.prog.by_q[CLS + "::InfiniteStripProblem"] if len(x["params"]) == 1][0]
    w = c.where(f)
    declarations(c, C, w)
    pat = {p + (n,): pattern(x) for p, n, _, x, _, _ in C.declared if p is not None}
    reads(c, C, pat, f["file"] if "file" in f else f["relfile"])
    n = 0
    for pre, sec, fields in GROUPS:
        for fl, entry in fields.items():
            name = "/".join(x for x in (sec, entry) if x)
            if pre + fl in PATHS:
                continue
            n += 1
            value(c, C, pre + fl, name, w, pat)
    for pre, sec, fields, algs in ONLY:
        for fl, entry in fields.items():
            n += 1
            conditional(c, C, pre + fl, sec + "/" + entry, algs, w)
    paths(c, C, w)
    c.need(n > 110, "fields of the configuration")
    c.count("fields", n)
    return c.finish(EXPL)


def pattern(x):
    return last(str(x.args[0])) if isinstance(x, T.Term) and x.op == "ctorobj" else "?"


def declarations(c, C, w):
    c.need(len(C.declared) > 100, "declared entries")
    seen = {}
    for p, n, default, pat, g, line in C.declared:
        at = "%s:%s" % (w.rsplit(":", 1)[0] if ":" in w else w, line)
        c.ob("'%s' is declared in a section" % n, p is not None and n is not None, at, "", key="decl %s" % line)
        if p is None:
            continue
        c.ob("'%s' is always declared" % "/".join(p + (n,)), g is ONE, at, show(g, 4))
        if p + (n,) in seen:
            c.ob("'%s' is declared once, with one default and one kind" % "/".join(p + (n,)), seen[p + (n,)] == (default, pat), at, "declared again with %s, %s" % (default, show(pat, 4)))
        seen[p + (n,)] = (default, pat)
    need = {"/".join(x for x in (s, e) if x) for _, s, fl in GROUPS for e in fl.values()} | {s + "/" + e for _, s, fl, _ in ONLY for e in fl.values()}
    have = {"/".join(k) for k in seen}
    for n in sorted(need):
        c.ob("'%s' can be set" % n, n in have, w, "not declared")


def reads(c, C, pat, file):
    c.need(len(C.reads) > 100, "values read from the parameter file")
    for get, ch, n, g, line in C.reads:
        at = "%s:%s" % (file, line)
        full = None if ch.path is None else ch.path + (n,)
        label = "%s (line %s)" % (n, line) if full is None else "/".join(full)
        c.ob("'%s' is read in the section it is declared in" % label, full is not None and full in ch.declared, at,
             "open sections: %s" % (ch.path,), key="read %s %s" % (label, line))
        c.ob("'%s' is read after the file was parsed" % label, ch.parsed == 1 and ch.after_parse, at, "")
        if full in pat:
            k = pat[full]
            c.ob("'%s' is read as what it is declared" % label, get in GETTERS.get(k, ()), at, "declared as %s, read with %s" % (k, get))


def kind(path):
    f = path.rsplit(".", 1)[-1]
    if f.startswith("flag_") or f in ("verbose", "allow_decohesion", "print_sparsity_pattern"):
        return "bool"
    if path in STRINGS:
        return "std::string"
    return "enum" if f in ENUMS else "double"


def entries(t):
    return {x.args[0] for x in T.subterms(t) if x.op == "sym" and x.args[0] in NAMES}


NAMES = {"/".join(x for x in (s, e) if x) for _, s, fl in GROUPS for e in fl.values()} | {s + "/" + e for _, s, fl, _ in ONLY for e in fl.values()}


def alternatives(C, name):
    """what a declared selection offers, with its default"""
    for p, n, default, pat, _, _ in C.declared:
        if p is not None and "/".join(p + (n,)) == name and pattern(pat) == "Selection":
            return tuple(P.text(pat.args[1]).split("|")), default
    return (), None


def chosen(C, t, name):
    """the value depends on the entry and on no other; a selection offering one alternative need not be looked at"""
    return entries(t) == {name} or (not entries(t) and len(alternatives(C, name)[0]) == 1)


def fetch(C, path):
    k = kind(path)
    return C.get(path, {"bool": "bool", "std::string": "std::string"}.get(k, "double"))


def expect(path, name):
    s = mk("sym", name)
    k = kind(path)
    return atom(mk("b", s)) if k == "bool" else s if k == "std::string" else atom(s)


def value(c, C, path, name, w, pat):
    got = fetch(C, path)
    if kind(path) == "enum":
        c.ob("%s is chosen by '%s' alone" % (path, name), chosen(C, got, name), w, show(got, 6)[:500])
        return
    if pat.get(tuple(name.split("/"))) == "Integer":
        x = T.single_atom(got)
        if x is not None and x.op in ("trunc", "floor", "round"):
            got = as_atom(x.args[0])
            got = got if got.op == "poly" else atom(got)
    want = expect(path, name)
    c.ob("%s is '%s'" % (path, name), got is want, w, "computed %s" % (show(got, 6)[:500]))


def with_algorithm(t, alg):
    """value when the named algorithm is chosen"""
    return P.option(t, ALG, alg, ALGS)


def conditional(c, C, path, name, algs, w):
    got = fetch(C, path)
    for a in ALGS:
        v = with_algorithm(got, a)
        if a in algs:
            if kind(path) == "enum":
                c.ob("%s is chosen by '%s' alone (%s)" % (path, name, a), chosen(C, v, name), w, show(v, 6)[:500])
            else:
                c.ob("%s is '%s' (%s)" % (path, name, a), v is expect(path, name), w, "computed %s" % show(v, 6)[:500])
        else:
            c.ob("%s is left alone by other algorithms (%s)" % (path, a), not entries(v), w, "computed %s" % show(v, 6)[:500])


def paths(c, C, w):
    """input files: as given, or their three-dimensional variants if all of them exist"""
    sec = dict((p + f, s + "/" + e) for p, s, fl in GROUPS for f, e in fl.items())
    dim3 = T.eq(atom(mk("sym", SPAT + "/Spatial dimension")), num(3))
    for p in PATHS:
        st = [s for s in C.L.ev.logs[C.o.root] if ".".join(str(x[1]) for x in s.steps) == p and s.line]
        first = [s for s in st if C.canon(s.guard) is ONE and s.kind == "set"]
        c.ob("%s is '%s'" % (p, sec[p]), bool(first) and C.canon(first[-1].val) is mk("sym", sec[p]), w, str([show(C.canon(s.val), 4) for s in st]))
        rest = [s for s in st if s not in first]
        c.ob("%s changes only for the three-dimensional variant" % p,
             len(rest) == 1 and rest[0].kind == "add" and P.text(rest[0].val) == "_3d", w, str([(s.kind, show(C.canon(s.val), 4)) for s in rest]))
        for s in rest:
            g = C.canon(s.guard)
            ex = [x for x in T.subterms(g) if x.op == "call" and last(str(x.args[0])) == "exists"]
            names = [entries(x) for x in ex]
            fits = all(any(y.op == "str" and y.args[0] == "_3d.txt" for y in T.subterms(x)) for x in ex)
            want = dim3
            for x in ex:
                want = T.land(want, atom(mk("b", x)))
            ok = sorted(names, key=sorted) == sorted([{sec[q]} for q in PATHS], key=sorted) and fits and g is want
            c.ob("%s: the variant is used in three dimensions if all three files exist" % p, ok, w, show(g, 8)[:900])
