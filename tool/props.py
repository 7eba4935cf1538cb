#!/usr/bin/env python3
"""Property metadata: generates properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = "source/constitutive_laws.cc"
CR = "source/crystal_data.cc"
QH = "source/gradient_crystal_plasticity/quadrature_point_history.cc"
UT = "source/utilities.cc"
UH = "include/gCP/utilities.h"
LS = "source/line_search.cc"
SO = "source/gradient_crystal_plasticity/solve.cc"
AS = "source/gradient_crystal_plasticity/assembly.cc"
SU = "source/gradient_crystal_plasticity/setup.cc"
AC = "source/gradient_crystal_plasticity/active_set.cc"
GS = "source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc"
FE = "source/fe_field.cc"
PP = "source/postprocessing.cc"
RT = "source/run_time_parameters.cc"
BC = "source/boundary_conditions.cc"
AD = "source/gradient_crystal_plasticity/assembly_data.cc"
SS = "applications/simple_shear.cc"

VG = ("abstract interpretation of the typed syntax tree into a global value graph with algebraic normal forms "
      "(joins at merges, loop summaries, no path enumeration, no solver)")
TRUST = ("Decided for all inputs by comparing normal forms of the value graph (polynomial normal forms, with random "
         "interpretation of the two terms as the equality oracle). Trusted: clang's typed AST, the extractor, the "
         "term algebra, and models of std:: and dealii:: calls; arithmetic is over the reals, not IEEE doubles.")

P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique=VG, note=TRUST, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


TESTS = ("The stable tests run one crystal-data program and one line-search program on fixed inputs; ")

prop("P01", "Slip systems, Schmid tensors and rotations are those of the input tables",
     "For every crystal the rotation tensor is the one of its Euler angles in degrees (2D: one angle about the out-of-plane axis; 3D: Rz(first)·Rx(second)·Rz(third)), and the slip directions, normals and orthogonals are the unit vectors of the tables (orthogonal = normal × direction in 3D, zero in 2D) rotated by it. "
     "The Schmid tensor of every slip system is direction ⊗ normal and the symmetrised one is its symmetric part, and every accessor, singular or plural, in-plane or three-dimensional, returns these same values. "
     "The number of slip systems is the number of rows read and the number of crystals is the number of distinct material ids over all processes, not counting cells a process does not know.",
     ["inputs", "configurations"], "all orientation and slip tables, any number of crystals and slip systems, both dimensions, any partition of the mesh",
     TESTS + "the crystal-data program prints values of one small table in serial and compares a reference file.",
     [CR], [("initialisation of rotations, slip systems and Schmid tensors", CR), ("accessors", "include/gCP/crystal_data.h")])

prop("P02", "Inconsistent crystal input is always rejected, in release builds too",
     "A missing file, a line with another number of entries than the spatial dimension requires, a number of orientations different from the number of crystals, differing numbers of slip directions and normals, a zero-length direction or normal, and a non-orthogonal pair each end in an exception in every build type, before anything is stored out of bounds; consistent input is accepted. "
     "No datum can be obtained from crystal data that has not been initialised successfully, including after an initialisation that failed part-way. "
     "Numbers are stored exactly as read, in double precision.",
     ["inputs", "fault_sequences"], "all contents of the three input files, every point at which initialisation can fail",
     TESTS + "no malformed table is ever read.", [CR],
     [("reading and validation of the input files", CR), ("initialisation state", "include/gCP/crystal_data.h")])

prop("P03", "Stress, elastic strain and stiffness obey the rotated cubic elastic law",
     "The stiffness of every crystal is the cubic tensor of the three configured constants (divided by the characteristic stiffness) with all four indices rotated by that crystal's rotation, in-plane and three-dimensional, and without crystals the unrotated tensor; the stress is its double contraction with the elastic strain. "
     "The elastic strain is the strain minus the dimensionless factor times the plastic strain, and the plastic strain is the sum over all slip systems of slip times symmetrised Schmid tensor. "
     "The resolved shear stress is the double contraction of the stress with the symmetrised Schmid tensor of that crystal and slip system.",
     ["inputs", "configurations"], "all strains, slips, elastic constants, rotations, crystals and slip systems, both dimensions",
     TESTS + "no test evaluates the elastic law.", [CL, "include/gCP/constitutive_laws.h"],
     [("elastic law, elastic strain, resolved shear stress", CL)])

prop("P04", "The scalar microstress and its derivative match for every regularisation",
     "For each of the five regularisations the sigmoid helper is the stated odd function of rate over parameter (arctangent, square root, Gudermannian, hyperbolic tangent, error function; unit slope times 1/parameter at zero) and its derivative helper is its exact derivative; signum is 0 at 0 and Macaulay brackets keep positive arguments only. "
     "The scalar microstress is slip resistance times the regularised rate (slip increment over time step), or times its signum when rate independent. "
     "Its Jacobian entry (α,β) is hardening modulus(α,β) times the regularised signs of both rates (absent under perfect plasticity), plus on the diagonal, unless rate independent, resistance over time step times the derivative of the regularisation.",
     ["inputs", "configurations"], "all slips, old slips, resistances, time steps, hardening parameters and regularisations",
     TESTS + "no test evaluates the microstress law.", [CL, UH, UT],
     [("scalar microstress law", CL), ("sigmoid, signum and Macaulay helpers", UT)])

prop("P05", "Slip resistances are a function of the committed state, updates never pile up",
     "Resistances start at the configured initial value over the characteristic one; an update sets each to its committed value plus the sum over all slip systems of hardening modulus times the absolute slip increment (no increment under perfect plasticity), whatever updates happened since the last commit. "
     "A commit makes the current values the committed ones without changing them, a restore brings the committed values back, and no update changes the committed values. "
     "The hardening modulus is H·(h + (1−h)δ) over the characteristic resistance, the same that enters the microstress Jacobian.",
     ["histories", "inputs"], "every sequence of update, commit and restore calls with any slips",
     TESTS + "the history object is exercised by no stable test.", [QH, "include/gCP/quadrature_point_history.h"],
     [("slip resistance history", QH)])

prop("P06", "The vectorial microstress Jacobian is the exact derivative of the microstress",
     "The vectorial microstress of a slip system is factor·(|∇γ·s|^(n−2)(∇γ·s)s + |∇γ·l|^(n−2)(∇γ·l)l) with s and l the slip direction and orthogonal of that crystal and n the defect-energy index; the factor is initial resistance times energetic length to the n, or one in dimensionless form. "
     "Its Jacobian equals the exact derivative of that expression with respect to the slip gradient.",
     ["inputs", "configurations"], "all slip gradients, crystals, slip systems, indices and both dimensions, with and without dimensionless form",
     TESTS + "no test evaluates the vectorial microstress.", [CL], [("vectorial microstress law", CL)])

prop("P07", "Grain-boundary interaction moduli, microtraction and derivatives are consistent",
     "The intra- and inter-grain interaction moduli of slip systems α and β at a face point are (sα·sβ)(mα×n)·(mβ×n), with β's vectors of the same and of the neighbouring crystal respectively. "
     "The microtraction is −K/characteristic times the sum over all slip systems of intra modulus times own slip minus inter modulus times neighbour slip, and its two derivative matrices are its exact derivatives with respect to own and neighbour slips. "
     "The grain-boundary free energy is K/2 times the squared norm of the difference of the two crystals' grain-boundary Burgers tensors.",
     ["inputs", "configurations"], "all normals, slips, pairs of crystals and slip systems, both dimensions",
     TESTS + "the microtraction test is not part of the stable set and samples a few orientations.", [CL],
     [("microtraction law", CL)])

prop("P08", "Cell residual is the weak form, the cell Jacobian its exact linearisation",
     "For every displacement test function the cell residual is minus the quadrature sum of the factor (fourth over first dimensionless number) times stress of the macroscopic plus elastic strain contracted with the symmetric gradient, less body force times test function; for every plastic-slip test function it is minus the sum of third number·microstress vector·gradient minus test function·(fourth number·resolved shear stress − scalar microstress). "
     "All fields are the trial solution's, rates use the old solution and the next time step, and crystal, extractors and slip resistances are those of the cell and quadrature point. "
     "The cell Jacobian is, for every pair of displacement and slip entries, minus the exact derivative of that residual, the laws contributing their own Jacobians. "
     "This holds for every grain-boundary condition, with or without decohesion, and nothing of an earlier cell survives in the local vector or matrix.",
     ["inputs", "configurations"], "all trial and old solutions, cells, quadrature points, crystals, slip systems, dimensionless numbers, grain-boundary conditions, both dimensions",
     TESTS + "no test assembles the system.", [AS, AD, "include/gCP/assembly_data.h"],
     [("cell part of the residual and Jacobian kernels", AS)])

prop("P09", "Grain-boundary residual and Jacobian terms agree and couple to the neighbour",
     "On exactly the interior faces between cells of different crystals, the residual rows of displacements gain factor·test function·(degraded cohesive traction + contact traction) when decohesion is allowed, and those of slips third number·test function·degraded microtraction under microtraction conditions, integrated with the face's own weights; nothing is added otherwise. "
     "The opening is the neighbour's minus the cell's trial displacement at the same quadrature point, normal, moduli and interface history are those of this cell and face, and each term is degraded under its own coupling flag by the stored damage, zero without decohesion. "
     "The own and the coupling matrix are minus the derivative of these terms (damage fixed) with respect to the cell's and the neighbour's unknowns, and each coupling matrix is added to the rows of the cell and the columns of the neighbour across that face. "
     "Boundary faces with a prescribed traction gain test function times traction at the next time.",
     ["inputs", "configurations"], "all trial solutions, interface histories, meshes and crystal layouts, grain-boundary conditions, with and without decohesion, both dimensions",
     TESTS + "no test assembles a grain boundary.", [AS, AD, GS, "source/gradient_crystal_plasticity/setup.cc"],
     [("face part of the residual and Jacobian kernels, copier", AS), ("marking of cells at grain boundaries", SU)])

prop("P10", "Cohesive, contact and degradation laws: Jacobians are the tractions' derivatives",
     "The effective opening is sqrt(⟨δn⟩² + β²|δt|²); at the largest opening while opening the cohesive traction is σc·(δ/δc)·exp(1−δ/δc) along the weighted opening direction, below it or while closing it unloads linearly to the origin from the largest opening, and the cohesive energy is zero at zero opening and has that traction as derivative. "
     "The contact traction is minus penalty times the interpenetration along the normal, zero in opening, and the degradation function is (1−damage)^exponent or one when uncoupled. "
     "Each Jacobian or derivative, with any characteristic displacement and stress, is the exact derivative of its traction or function in the same regime.",
     ["inputs", "configurations"], "all openings, unit normals, largest and previous openings, damage values, parameters and both dimensions",
     TESTS + "the traction-separation programs are not in the stable set and sample a few load paths with unit scaling.", [CL],
     [("cohesive law", CL), ("contact law", CL), ("degradation function", CL)])

prop("P11", "Interface damage is irreversible and a function of the committed state",
     "Damage and largest opening start at zero; an update sets the largest opening to the maximum of the committed one and the argument, and the damage either to 1−(1+r)exp(−r) of that maximum over the critical opening, or to the committed damage plus accumulation constant·characteristic displacement·⟨opening increment⟩·(1−damage+decay constant)^decay exponent·⟨force−endurance limit⟩, capped at one, or to zero when damage is switched off. "
     "Repeated updates between commits never pile up, commit and restore move values unchanged, and neither quantity ever decreases across commits. "
     "The stored opening that increments refer to is the cohesive law's own effective measure of the opening, and storing it changes neither damage nor largest opening.",
     ["histories", "inputs"], "every sequence of update, store, commit and restore calls with any openings, forces and parameters",
     TESTS + "the damage-evolution program is not in the stable set and follows single load histories.", [QH, "include/gCP/quadrature_point_history.h"],
     [("interface history", QH)])

prop("P12", "The two cells at a crystal boundary share one set of interface records",
     "The store of interface records answers a query for a pair of cells with the same records, in the same order, whichever of the two cells asks, and a query changes nothing. "
     "Initialising it over a range of cells creates, for every interior face between cells of different crystals with at least one local cell, under the key used by the queries, one distinct record per face quadrature point; it creates none for other faces and never replaces records that exist. "
     "The set-up of the solver creates the records of all local cells and faces and initialises each record of a cell with the hardening parameters, number of slip systems and reference slip resistance, and, when decohesion is allowed, each record of a crystal boundary with the parameters of damage and of the cohesive law.",
     ["inputs", "configurations"], "all meshes, distributions of cells and crystals over processes, orders of the cells' ids, numbers of quadrature points",
     TESTS + "no test builds the store on a mesh.", [QH, "include/gCP/quadrature_point_history.h", SU],
     [("store of interface records", QH), ("initialisation of all records", SU)])

prop("P13", "A load step is accepted only with its residual below tolerance, within limits",
     "A load step is accepted only when the norm of the residual belonging to the accepted trial solution is below the configured tolerance: the full residual for the monolithic algorithm, both block residuals at the same state for the staggered ones. "
     "The number of linear solves never exceeds the configured maximum since the start or the last restart of the active set, nested rounds being limited too, and reaching the maximum ends in an exception instead of an accepted step.",
     ["inputs", "configurations", "histories"], "all sequences of residuals, all solution algorithms, tolerances and iteration limits, with and without active-set restarts",
     TESTS + "no test runs the nonlinear solver.", [SO, AS, AC],
     [("nonlinear solution algorithms", SO)])

prop("P14", "Each Newton update solves the assembled system of its unknowns, or the run ends",
     "The Newton update is the solution of: Jacobian and residual (monolithic algorithm), the diagonal block of the unknowns being solved for and their residual block (staggered algorithms), or, from the second iteration of the embracing algorithm on, the Schur complement of the slips' block in the Jacobian and the displacements' residual, both assembled for the current trial solution (the bouncing algorithm keeps the displacements' Jacobian within a round). "
     "It is computed by the configured solver with the configured iteration limit and tolerance, max(relative tolerance times norm of that right-hand side, absolute tolerance), satisfies the homogeneous constraints of the Newton iteration, and is zero in the other block. "
     "The trial solution then is the previous one plus step length times update in the solved block, with the inhomogeneous constraints applied, the other block unchanged; storing and restoring it reproduce the value at the beginning of the load step or of the iteration, constrained. "
     "A linear solve that fails ends the run abnormally (abort, or an exception leading to a non-zero exit status); it never yields an update.",
     ["inputs", "configurations", "fault_sequences"], "all Jacobians and residuals, all solver types, tolerances and algorithms, every failing linear solve",
     TESTS + "no test solves a system, and a failing linear solver is not provoked by any.", [SO, UT, "applications/simple_shear.cc"],
     [("linear solves and trial solution", SO), ("exception handlers", UT)])

prop("P15", "The line search accepts only sufficient decrease and commits the accepted trial",
     "A step λ is accepted exactly if the objective is below (1−2αλ)·initial objective or the configured maximum number of iterations is exceeded; rejected steps are followed by the minimiser of the quadratic (first) and of the cubic interpolant (later) of the recorded values, limited to 0.1 to 0.5 times the previous step and defined for every sequence of objective values. "
     "Every trial tested is the constrained stored trial plus λ times the whole Newton update, for all unknowns or for one block, with internal variables refreshed and the residual reassembled at it; the objective is half the squared norm of the same residual. "
     "The returned λ is the one of the last, accepted trial.",
     ["inputs", "histories", "configurations"], "all sequences of objective values and residuals, all line-search parameters, monolithic and block-wise use",
     TESTS + "the line-search test replays two fixed objective sequences and never drives the solver.", [LS, SO, "include/gCP/line_search.h"],
     [("step proposal and acceptance", LS), ("driver loops", SO)])

prop("P16", "Internal variables always belong to the trial solution being assembled",
     "Whenever residual or Jacobian are assembled, in the solution algorithms or the line searches, the internal variables were last refreshed for exactly that trial solution, starting from the values stored at the beginning of the load step. "
     "A refresh hands every quadrature point of a cell the slips of the trial and of the last converged solution there, and every quadrature point of a face between crystals, once per refresh among the two cells, the effective opening of the trial displacements (model M1 also the driving force: minus the degradation's derivative at the stored damage times cohesive plus grain-boundary free energy); nodal slip resistances become the stored ones plus modulus times absolute slip increment summed over the slip systems, the same for active and inactive systems. "
     "The values of the last step are stored for all histories once per load step, before its first iteration.",
     ["inputs", "histories", "configurations"], "all solution algorithms, with and without line search, both material kinds, all trial solutions, faces and damage models",
     TESTS + "no test runs the nonlinear solver or a refresh of its histories.", [SO, AS, SU, AC],
     [("nonlinear solution algorithms", SO), ("refresh of the histories", AS), ("nodal slip resistances", SU)])

prop("P17", "Each load step is solved once for its end-of-step loads and then becomes history",
     "The simulation starts at the loading's start time after mesh, system and postprocessing are set up, and continues exactly while the current time is below the end time. "
     "Each load step takes the loading's step size for the number of steps done so far, sets the boundary functions to the time at the end of the step, then renews the Dirichlet constraints, solves the nonlinear system exactly once, shifts the solutions exactly once (older = old, old = solution), advances the time and postprocesses at the new time; graphical results are written every n-th step (configured frequency) and at the end. "
     "A step's starting point is the old solution plus extrapolation factor times next over previous step size times (old minus older solution) (step-size ratio one in the first step), and the old solution alone where the loading or the configuration skips extrapolation, hanging-node constraints applied; the field's solution is replaced once per solve, by the accepted trial solution, and the solve leaves old and older solutions untouched.",
     ["histories", "inputs", "configurations"], "all loadings, step sizes and numbers of steps, all solution algorithms, both dimensions",
     TESTS + "no test runs a time step.", [SS, SO, FE],
     [("time loop", SS), ("starting point and accepted solution", SO), ("solution history", FE)])

prop("P20", "Every entry of the parameter file reaches the quantity it names",
     "Each configured quantity (discretization, time, input and output paths and frequencies, postprocessing, constitutive laws, loading, solver and algorithm settings) is, after construction, the value of the documented entry of the file in its section: declared before the file is read, with that type and an admissible default, read after it with a matching accessor and never overwritten. "
     "Entries of the monolithic and of the staggered algorithm's two systems reach the settings of exactly that algorithm and system; shared quantities such as the characteristic length or the initial slip resistance have the same value everywhere.",
     ["configurations", "inputs"], "all parameter files, all entries, all solution algorithms",
     TESTS + "no test reads a parameter file into the application's configuration.", [RT, "include/gCP/run_time_parameters.h"],
     [("declare and parse", RT)])

prop("P21", "A named option selects exactly the behaviour of its name",
     "For every entry of the parameter file which offers named options (solution algorithm, grain-boundary conditions, loading and control type, regularization function, cohesive law, damage evolution model, linear solver, preconditioner), each option offered selects the enumerator of that name and no two options the same one, every documented option is offered, the default is among them, and any other text, as well as an option that is not implemented (the block preconditioner), ends in an exception.",
     ["configurations", "inputs"], "all parameter files and option texts, all solution algorithms",
     TESTS + "no test selects an option through the parameter file.", [RT],
     [("parsing of options", RT)])

prop("P22", "Inadmissible configurations are refused, admissible ones are not, in every build",
     "Independently of debug assertions, a run refuses with an exception: a parameter file that cannot be opened; a dimension other than two or three; stiffnesses, regularization parameters, strip height, loading durations, period, tolerances or a line-search alpha that are not positive; a maximum load not above the minimum load; relative tolerances not above the absolute ones; a line-search beta outside (alpha, 1); initial slip resistances that differ between the hardening law and the vectorial microstress law; the dimensionless formulation with decohesion or microtraction, and rate-independent behaviour with microtraction. "
     "Numbers with a least value (degrees, counts, frequencies, iteration limits, material and reference parameters) are declared with it, so that the reader refuses smaller ones. No other configuration is refused.",
     ["configurations", "inputs"], "all parameter files, in debug and release builds",
     TESTS + "no test reads an inadmissible parameter file, and tests run debug builds.", [RT, GS],
     [("checks of the parsed parameters", RT), ("checks of the solver", GS)])

prop("P23", "Output fields carry the quantities their names announce, in Voigt components",
     "At every output point the solution fields are, in this order: displacement (dim components forming a vector, everything else scalars; in characteristic displacements, summed over the crystals with decohesion), slip of every system summed over the crystals (Slip_01, …), their sum and sum of magnitudes over all crystals and systems (EquivalentPlasticStrain, EquivalentAbsolutePlasticStrain), edge and screw dislocation densities sqrt(Σ(∇γ·s)²), sqrt(Σ(∇γ·l)²) with slip direction s and slip orthogonal l, von Mises stress sqrt(3/2 s:s) of the 3D stress and von Mises plastic strain sqrt(2/3 e:e) (s, e deviators), "
     "then stress, strain (symmetric displacement gradient plus macroscopic strain), elastic strain (strain less the first dimensionless number times plastic strain) and plastic strain (Σγ·symmetrised Schmid tensor) in Voigt order 11, 22, 33, 23, 13, 12 with doubled shear strains (…x2); the stress is the crystal's 3D stiffness times the elastic strain, out-of-plane strains zero in 2D. With fluctuations requested, von Mises stress, stress and strain without the macroscopic strain follow. Stresses, strains and densities are scaled once by their characteristic quantity, all by one for dimensionless output, plastic strain never. Light output has displacement and slips only. "
     "Fields per slip system (trial microstress, slip resistance, active set) are the magnitudes summed over the crystals, named by the output name and the system's index from 0. Names, interpretations and values agree in number.",
     ["inputs", "configurations"], "all solution values and gradients, both dimensions, with and without decohesion, light, dimensionless and fluctuation output",
     TESTS + "no test writes output.", [PP],
     [("solution postprocessor", PP), ("per-slip postprocessor", PP)])

prop("P24", "Homogenized columns are volume averages over the whole domain",
     "Each call of the homogenization writes one row: time, and the components 11, 22, 12 (in 3D also 33, 23, 13) of the volume average of the stress of strain including the macroscopic strain (Stress_..), of the stress without it (StressFluctuations_..) and of the symmetric displacement gradient (StrainFluctuations_..); Strain_.. is macroscopic strain plus that average. "
     "Averages are sums over the quadrature points of every locally owned cell of value·JxW, summed over all processes, divided by the equally computed domain volume; stress is that of the cell's crystal for the elastic strain from displacement and slips of the current solution at the point. VonMisesStress/-Fluctuations and VonMisesStrain/-Fluctuations are sqrt(3/2 s:s) and sqrt(2/3 e:e) of the averaged tensors less a third of their trace on the diagonal. Every column is declared once and filled once per call; the macroscopic strain is kept as given.",
     ["inputs", "configurations", "histories"], "all solutions, meshes, partitions and both dimensions",
     TESTS + "no test computes averages.", [PP],
     [("homogenization", PP)])

prop("P25", "Shear response: mean stress on the upper boundary against prescribed strain",
     "Every evaluation writes both columns exactly once: shear_at_upper_boundary is the shear strain that the boundary function prescribes at that time for the configured loading (monotonic: maximum·time; cyclic: linear to the mean in the initial phase, mean plus amplitude·sin(2π(t−start)/period) while cycling, linear back to zero afterwards), and stress_12_at_upper_boundary is the integral of the stress component 12 over the faces of the locally owned cells on the upper boundary and on no other, summed over all processes, divided by the boundary's area width^(dim−1). "
     "The stress there is that of the cell's crystal, for the elastic strain from displacement and slips of the current solution at the face's quadrature points.",
     ["inputs", "configurations"], "all solutions, times, loadings, partitions and both dimensions",
     TESTS + "no test evaluates the shear response.", [PP, SS],
     [("shear evaluation", PP), ("its arguments", SS)])

prop("P26", "Iteration log, statistics and outputs record the converged states on schedule",
     "Every linear solve is followed by exactly one row of the iteration log, complete and all of this iteration: N-Itr counts the iterations of its loop from one, K-Itr is what the linear solve returned, L-Itr the iterations of the line search armed in this iteration, (NS), (NS_U), (NS_G) the norms of the Newton update (whole, displacements, slips) times the relaxation applied, (R), (R_U), (R_G) those of the residual of the trial solution reached, C-Rate the quotient of the logarithms of the residual norm reached and the one before, for the block solved for. Rows opening a loop have zeros and the residual of the current trial solution. "
     "The statistics get one row per load step: LoadStep is the number of the step, every other column is written exactly once, when the step is accepted; Iterations is the number of Newton iterations since the last restart (monolithic) or of rounds of the slip loop (staggered), and the average convergence columns are the means of the logged rates over exactly the iterations and rounds counted (zero for the other algorithms; the reduced mean leaves out the first iteration). "
     "After every step the shear response is evaluated at the time reached and it and the statistics are written to stress12_vs_shear_strain_at_boundary.txt and solution_algorithm_statistics.txt in the output directory; homogenized quantities, if asked for, are computed every homogenization_frequency-th step and at the end and go to homogenization.txt after the last step; every graphical_output_frequency-th step and at the end the solution, evaluated by the postprocessor, and, if asked for, the damage at the grain boundaries are written below paraview with one common number that grows by one from output to output; triangulation.vtu, written before the first step, shows subdomain, material and finite element of every owned cell (-1 elsewhere) and the cells at grain boundaries.",
     ["histories", "configurations", "inputs"], "all load histories, solution algorithms, line search on/off, rate-dependent and -independent, both dimensions",
     TESTS + "no test runs a load step or writes a file.", [SO, SS, PP, GS],
     [("iteration log and statistics", SO), ("columns declared", GS), ("outputs of the application", SS), ("tables", PP)])

prop("P27", "Constraints hold the boundary, grain-boundary and periodicity conditions",
     "Displacements of every crystal are zero at the lower boundary and the applied displacement at the upper one, and all plastic slips are zero at both; under the microhard condition, and only then, exactly the slip unknowns on an owned cell's own side of a face between different crystals are blocked; opposite faces are tied periodically in the first direction (in 3D also in the third), for all components; hanging-node constraints come before all of these, and the set is closed once, complete. "
     "Newton increments are constrained on the same unknowns, with zero boundary values. "
     "At every load step the applied displacement of the upper boundary is renewed; no other constraint changes, and those of the Newton increment stay.",
     ["inputs", "configurations", "histories"], "all meshes, crystals, grain-boundary conditions, load times and both dimensions",
     TESTS + "no test sets up the application's constraints.", [SS, FE],
     [("constraints of the application", SS), ("constraints of the field", FE)])

prop("P28", "Applied displacement and time steps follow the configured loading",
     "Under monotonic loading the applied displacement is time times maximum load times strip height, over the characteristic displacement, in equal steps of duration over number of steps, ending with the duration. "
     "Under cyclic loading it grows linearly to the mean load in the loading phase, then is mean plus amplitude times the sine of the given period for the number of cycles, then returns linearly to zero in the unloading phase (unless skipped), scaled likewise; step sizes are each phase's duration over its number of steps (a period has four times the steps per quarter cycle), and the loading ends with its last phase. "
     "Only the loading direction's component is moved (with decohesion, the one of every crystal), all others are held. "
     "Extrapolation is skipped exactly at the start of cycling and of unloading and at the extrema of the cycles, never under monotonic loading.",
     ["inputs", "configurations", "histories"], "all loading parameters, times and step numbers, both loading types and dimensions",
     TESTS + "no test evaluates a load function or a step size.", [RT, BC],
     [("time-step sizes", RT), ("displacement control", BC)])

prop("P18", "Every assembly counts each owned cell once, from zero, under any thread schedule",
     "Residual, Jacobian, the damage projection (matrix and right-hand side) and the trial microstress (lumped matrix and right-hand side) are set to zero, then every locally owned cell's contribution is computed anew and added exactly once, through the constraints of the assembled object, at the cell's own degrees of freedom (couplings across a grain boundary: rows own, columns the neighbour's, each face once), and afterwards contributions of all processes are added up; nothing else alters the assembled object. "
     "The concurrently executed part (these and the refresh of the histories) writes nothing but its own scratch and copy data and histories of its own cell; a face's history shared by two cells is written by one of them.",
     ["schedules", "inputs", "configurations"], "all schedules of the assembly loops, all meshes and partitions, all configurations",
     TESTS + "no test runs an assembly, and a race shows on some schedules only.", [AS, "include/gCP/assembly_data.h"],
     [("assembly loops", AS), ("scratch and copy data", "include/gCP/assembly_data.h")])

prop("P19", "All processes decide alike and enter every collective operation together",
     "In a parallel run no process takes a decision of its own that others need: every branch, loop bound and early exit under which a collective operation lies (assembly and compression, assignments of distributed vectors, norms, distribution of constraints, linear solves, numbering, sparsity patterns, reductions, parallel output) depends only on values that are the same on all processes, so either all enter it or none does. "
     "What one process knows alone (its cells, unknowns, entries of vectors, its rank) reaches such decisions only through a reduction over all processes. "
     "The same holds for the numbers all have to give alike: relaxation factors and other scalars applied to distributed vectors, tolerances and iteration limits of the linear solvers, the time step, the number of crystals, components of the element, and every value written to a table of results or logs.",
     ["schedules", "inputs", "configurations"], "all partitions of the mesh over any number of processes, all solutions and configurations",
     TESTS + "both in serial: no test has two processes, and a diverging decision shows on particular partitions and solutions only.",
     [SO, AS, AC, SU, PP, FE, CR, SS],
     [("decisions of the algorithms", SO), ("active set", AC), ("reductions", PP), ("output", SS)],
     technique="interprocedural taint analysis of process-dependent values into the control of collective operations",
     note="Trusted: clang's typed AST, the extractor, and tables saying which deal.II operations are collective and which values are the same on all processes. Values are tracked per member and per variable, not per element; exceptions end the run on all processes.")

prop("P29", "Unknowns: each crystal's own, displacements before slips, norms over them",
     "For every number of crystals and slip systems: on a cell of crystal i exactly the displacement components (one set shared by all crystals; crystal i's own set if decohesion is allowed) and the slips of crystal i have unknowns, with continuous elements of the displacement and the slip degree; every other component has none. "
     "The extractors point to these components (displacements of all crystals first, then the slips crystal by crystal), and the component of a local unknown maps to its direction (below dim) or to dim plus its slip number. "
     "All displacement unknowns are numbered before all slip unknowns; their numbers, the owned and relevant index sets of the two blocks (or of the single block of everything) and the owned displacement and slip sets follow that split, and every owned unknown is in exactly one of the two. "
     "The field's constraints start as, and are reset to, exactly the hanging-node constraints. Solution vectors start at zero on the relevant unknowns of the blocks, the distributed one without ghosts. "
     "Norms are over the owned entries of all processes, also for ghosted input; the split norms are those of the displacement unknowns, divided by the given factor, and of the slip unknowns, for one and for two blocks. A copied field has the same layout and only the hanging-node constraints.",
     ["inputs", "configurations"], "all numbers of crystals and slip systems, block layouts, continuity of the displacements, both dimensions",
     TESTS + "no test sets up a field.", [FE],
     [("layout of the unknowns", FE)])

prop("P30", "Rate-independent slip: exactly the overstressed unknowns may flow",
     "In rate-independent runs, whenever the active set is (re)computed, it consists exactly of the locally owned plastic-slip unknowns, not fixed by a boundary condition, whose trial microstress exceeds the slip resistance in magnitude (perfect plasticity: the initial one over its characteristic value); of a periodic pair both are active if either is. "
     "Exactly the other plastic-slip unknowns get no Newton increment, and those not prescribed restart from the last converged value; all other unknowns keep theirs, then constraints are distributed. Constraints of an earlier active set are dropped first. In rate-dependent runs every plastic-slip unknown is active. "
     "The trial microstress of an unknown is the weak form of the microforce balance with the slips frozen at the last converged solution (fourth dimensionless number times test function times resolved shear stress of the trial displacements, minus third number times test gradient times vectorial microstress, plus its boundary flux) over the lumped mass of its slip system.",
     ["inputs", "histories", "configurations"], "all trial solutions and slip resistances, crystals, periodic and Dirichlet boundaries, both material kinds",
     TESTS + "no test computes an active set.", [AC, AS, SU],
     [("active and inactive set", AC), ("trial microstress", AS)])

prop("P31", "Finite element data and buffers are valid wherever they are used",
     "Wherever shape functions, field values, gradients, JxW, normals or quadrature points are taken from a finite element evaluator in assembly, the refresh of histories, postprocessing and homogenization, the evaluator was created with the update flag that quantity needs and moved to a cell or face before; in the parallel loops this holds for the copies of the scratch objects the workers get. Postprocessors ask for the flags of the quantities they evaluate. "
     "Every buffer handed to an evaluator has exactly one entry per quadrature point, cells and faces alike, and the history storages hold one history per quadrature point of the cell or face. "
     "No element of a buffer, local vector or local matrix is read or written beyond its size there, for any number of crystals, slip systems, degrees of freedom per cell and dimension.",
     ["inputs", "configurations"], "all meshes, elements, numbers of crystals and slip systems, both dimensions",
     TESTS + "no test assembles anything, and in a release build a missing flag or an overrun is silent.", [AD, AS, PP, GS],
     [("evaluators, buffers and sizes", AD), ("their use", AS), ("postprocessing", PP)])

prop("P32", "All components work on one mesh, field, crystals and set of laws",
     "The application builds mesh, field, crystals, solver, homogenization, graphical output and shear evaluation on one another: same clock, field, crystals and mapping everywhere, degrees, decohesion, mapping degree and output units as configured, one block of unknowns for the monolithic and two for the staggered algorithms. "
     "Each constitutive law is built from the crystals and the parameters of its own kind, with its characteristic quantity (stiffness for the elastic law, slip resistance for the scalar microstress, stress and displacement for contact, first dimensionless number for the elastic strain); postprocessing uses the solver's own elastic strain and stiffness, after these are initialised. "
     "The mesh is the strip (1/n × height, in 3D × 1/n, n cells across the height), periodic before refinement, refined as configured, with equally high layers as crystals in ascending order; set-up reads crystals from the configured files, fixes components, communicates crystal ids, sets each owned cell's element to its crystal, and only then distributes unknowns, creates the applied displacement and constraints, and sizes the vectors.",
     ["configurations"], "all parameter files, meshes and both dimensions",
     TESTS + "no test builds the application or its solver.", [SS, GS],
     [("application", SS), ("laws of the solver", GS)])

prop("P33", "Dimensionless formulation: one consistent set of reference quantities",
     "With the dimensionless formulation switched on, the reference length, time, displacement, stiffness and slip resistance are those of the file, and the derived ones follow: strain = displacement/length, stress = stiffness·strain (also for resolved shear stress and macroscopic tractions), microscopic traction = S0·l^n/length^(n−1) with initial slip resistance S0, energetic length l and defect energy index n, body force = stress/length, dislocation density = 1/length. "
     "The dimensionless numbers are length/displacement, hardening modulus/slip resistance, S0/slip resistance·(l/length)^n and stress/slip resistance. "
     "With it switched off all of them are exactly one, whatever the reference values, and the vectorial microstress law is set up in the form of the chosen formulation, so that its magnitude is scaled exactly once.",
     ["configurations", "inputs"], "all parameter files, both formulations",
     TESTS + "no test sets up the dimensionless formulation.", [RT, SU, CL],
     [("characteristic quantities and numbers", RT), ("set-up of the microstress law", SU)])

prop("P34", "Damage written at crystal boundaries is the projection of the records",
     "If crystals are coupled by decohesion or microtraction, the damage field written for an owned unknown of the projection with mass is the quotient of two integrals over the interior faces between different crystals of owned cells: of its test function times the damage of the interface record both cells share, over that of its test function. Unknowns without mass are zero, as is everything if crystals are not coupled; hanging nodes follow their constraints. "
     "The numerator is assembled anew whenever the field is requested, the mass once, after the projection's unknowns, hanging-node constraints and vectors are set up. The field returned is the one just computed. "
     "The macroscopic damage is the integral of the damage over those same faces divided by their area, both summed over all processes.",
     ["inputs", "histories", "configurations"], "all meshes and damage histories, decohesion and microtraction on or off, both dimensions",
     TESTS + "no test writes a damage field.", [AS, GS, SU, PP],
     [("kernels and copiers of the projection", AS), ("quotient", GS), ("set-up", SU)])

prop("P35", "System matrix and solver vectors have room for every coupling that is assembled",
     "The sparsity pattern of the system matrix contains, for every locally owned cell, all couplings among the unknowns of that cell; if crystals are coupled by decohesion or microtraction, it also contains, for every interior face of an owned cell to a cell of a different crystal, the couplings of the cell's unknowns with the neighbour's. The constraints of the Newton iteration are resolved when inserting. "
     "The pattern is built over the owned and relevant unknowns per block after the cells at crystal boundaries are marked, compressed, and the system matrix is created from it. "
     "After initialisation, trial, initial, temporary solution and Newton update have the layout of the field's (ghosted) solution, the residual that of its distributed vector, all zero; the vectors of trial microstress, lumped mass, slip resistances and active set have the layout of the trial microstress's distributed vector. A distributed vector created without a size gets its layout before anything else is done with it.",
     ["inputs", "configurations", "schedules"], "all meshes, partitions, numbers of crystals and boundary conditions at crystal boundaries, both dimensions and kinds of patterns",
     TESTS + "no test sets up a solver; a missing entry shows for particular meshes and partitions only.", [SU],
     [("sparsity pattern", SU), ("set-up of matrix and vectors", SU)])

prop("P40", "The nonlinear iteration converges for every solvable load step",
     "Whenever a load step has a solution near the extrapolated state, the configured algorithm finds it to the tolerance within the iteration limits, and the residual decreases quadratically near it.",
     ["inputs", "configurations"], "all meshes, materials and load histories",
     TESTS + "convergence is only observed for the runs made.", [SO, LS], [("nonlinear solution algorithms", SO)])

prop("P41", "Results are independent of the number of processes and threads",
     "Solution, output fields and logs of a run agree to round-off whatever the number of MPI processes and threads.",
     ["schedules", "configurations"], "all partitions of the mesh and thread schedules",
     TESTS + "only single runs are observed.", [SO, AS], [("distributed assembly and solution", AS)])

NA = [("P40", "convergence depends on floating-point values and on the conditioning of systems that no static argument in reach bounds; what is decidable of it is covered: consistent Jacobians (P04, P06-P10), line search (P15), limits and acceptance (P13)"),
      ("P41", "the statement is about floating-point sums in different orders and about iterative solvers and partitioners of Trilinos, PETSc and p4est, outside the analysed source; its decidable parts are covered by P18 (each owned cell once, race freedom), P29 (owned sets) and the MPI sums in P24 and P25")]



def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    na = {x[0] for x in NA}
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [{"property": a, "reason": r} for a, r in NA],
         "notes": "Static analysis only: every check re-extracts the typed syntax tree of /repo's current sources with clang and decides the property on it; nothing of /repo is executed. See DESIGN.md."}
    for p in P:
        if p["pid"] not in na:
            cmd = "python3 check.py " + p["pid"]
            m["checks"].append({"property": p["pid"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": p["technique"],
                                "level": "other", "level_note": p["note"]})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
