"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=x, meaning="state the property is about", where=files[0]) for x in state]
    if observe: d["anchors"]["observe_at"] = [observe]
    if hook: d["anchors"]["hook_needed"] = "observation points guarded by GCP_VERIFICATION"
    P.append(d)

p("P01", "Backtracking line search accepts and shortens steps by its rules",
  "A line search accepts a trial step exactly when the merit value (half the squared residual norm) lies below the start value by at least the configured fraction of the linear decrease predicted for that step length (so a trial that is exactly a solution is always accepted), or when more reductions than the configured maximum have been made. Every rejected trial yields a finite step length between one tenth and one half of the rejected one: after a full first step the minimiser of the quadratic, later the minimiser of the cubic through the start value, the start slope and the last one or two rejected merit values. A new search depends on nothing recorded by an earlier one.",
  ["histories", "inputs"], "every sequence of trial merit values, start value and setting, including exactly quadratic merit functions and searches repeated with one object",
  "The repository's test follows one two-dimensional system through three searches; the rule has to hold for every sequence of merit values, including degenerate ones and the limit on the number of reductions.",
  ["include/gCP/line_search.h", "source/line_search.cc"],
  [("Armijo test and iteration limit", "gCP::LineSearch::suficient_descent_condition"), ("quadratic and cubic models", "gCP::LineSearch::get_lambda")],
  ["n_iterations", "initial_scalar_function_value", "old_lambda", "old_old_lambda"])

p("P02", "Slip resistances harden from committed state only and never soften",
  "At every material point the slip resistance of each slip system starts at the initial slip resistance (made dimensionless) and, within a step, equals the value committed at the end of the last step plus the sum over all slip systems of hardening modulus times interaction coefficient (one for the system itself, the latent ratio otherwise) times the absolute slip increment of the step, however often the iteration re-evaluates it. A discarded trial leaves no trace, an accepted one becomes the new committed value, so the resistances never decrease. Under perfect plasticity they keep their initial value for ever; using a record before it is set up is refused.",
  ["histories", "inputs"], "every sequence of set-up, store, reset, update and read operations with any slip increments, hardening parameters and number of slip systems",
  "The outcome depends on the order of iterations, roll-backs and commits of a whole loading history; a test samples one order.",
  ["include/gCP/quadrature_point_history.h", "source/gradient_crystal_plasticity/quadrature_point_history.cc"],
  [("trial update from the committed value", "gCP::QuadraturePointHistory::update_values"), ("commit and roll-back", "gCP::QuadraturePointHistory::store_current_values, reset_values")],
  ["slip_resistances", "tmp_slip_resistances"])

p("P03", "Grain-boundary damage is irreversible, bounded and committed step-wise",
  "At every grain-boundary point the largest effective opening displacement and the damage evaluated within a step are computed from the values committed at the end of the last step and the present opening only, however often they are evaluated, and never fall below the committed values; damage stays between zero and one. With the exponential law damage is one minus (1+r) exp(-r), r being the largest effective opening over the critical one; with the accumulation law it grows by accumulation constant times opening increment times (1 - damage + decay constant) to the decay exponent times the excess of the driving force over the endurance limit, and only while opening. With damage switched off it is zero; a roll-back restores the committed values.",
  ["histories", "inputs"], "every sequence of openings, closings, evaluations, commits and roll-backs, with both damage laws and any admissible parameters",
  "Irreversibility and boundedness are statements about all loading histories, including reversals between iterations and driving forces below the endurance limit.",
  ["include/gCP/quadrature_point_history.h", "source/gradient_crystal_plasticity/quadrature_point_history.cc"],
  [("damage laws", "gCP::InterfaceQuadraturePointHistory::update_values"), ("opening measure", "gCP::InterfaceQuadraturePointHistory::store_effective_opening_displacement"), ("commit and roll-back", "store_current_values, reset_values")],
  ["damage_variable", "max_effective_opening_displacement", "old_effective_opening_displacement"])

p("P04", "Both sides of a grain boundary face share one record",
  "Every cell face between two different crystals has exactly one set of history records, faces inside a crystal or on the boundary of the body have none, and a query from either side of the face, in any order of the two cells, reaches the same record and the same quadrature point. Initialising again keeps the stored values. A record that keeps a maximum takes the larger of its value and the absolute difference of the two sides' values and is changed at most once per announced update, no matter how many times and from which side it is visited.",
  ["histories", "configurations"], "every mesh layout and crystal arrangement, and every interleaving of visits from the two sides with announcements of new updates",
  "A double visit shows only for particular meshes and visiting orders and does not crash.",
  ["include/gCP/quadrature_point_history.h", "source/gradient_crystal_plasticity/quadrature_point_history.cc"],
  [("unordered pair of cells as the key", "gCP::InterfaceDataStorage::initialize, get_data"), ("one update per announcement", "gCP::InterfaceData::update, prepare_for_update_call")],
  ["map", "flag_values_were_updated"])

p("P05", "The load schedule covers the whole programme without gap or overshoot",
  "For every loading programme the planned steps end exactly at the end time: monotonic loading takes the requested number of equal steps over its duration, cyclic loading takes the requested number of equal steps for the loading phase, four times the requested number per quarter for each cycle, and the same number as in the loading phase for the unloading phase unless it is skipped. The phase boundaries and the load extrema of the cycles are always step ends, and extrapolation from the previous step is switched off exactly for the first step after such a point of a cyclic programme (start of cycling, each extremum, start of unloading) and for no other step.",
  ["configurations", "inputs"], "every loading type, duration, number of steps, period and number of cycles, over every step of the programme",
  "Off-by-one errors and floating-point end conditions depend on the combination of durations and step counts.",
  ["include/gCP/run_time_parameters.h", "source/run_time_parameters.cc"],
  [("step sizes", "gCP::RunTimeParameters::SimpleLoading::get_next_time_step_size"), ("extrapolation switch", "gCP::RunTimeParameters::SimpleLoading::skip_extrapolation"), ("end time", "gCP::RunTimeParameters::SimpleLoading::parse_parameters")])

p("P06", "The prescribed boundary displacement follows the loading programme",
  "At any time the displacement prescribed in the sheared direction is the strip height times the programmed shear, divided by the characteristic displacement, and zero in every other component. For monotonic loading the programmed shear is time times the maximum load; for cyclic loading it rises linearly from zero to the mean load during the loading phase, oscillates sinusoidally about the mean load between the minimum and the maximum load with the given period, and returns linearly to zero during the unloading phase, without jumps. All crystals share the prescribed value when decohesion is allowed; otherwise it appears once.",
  ["inputs", "configurations"], "every time, loading type and parameter set, dimension, number of crystals and sheared component, with and without decohesion",
  "The programme is a function of continuous time and many parameters; jumps and missing factors show only off the sampled ones.",
  ["include/gCP/boundary_conditions.h", "source/boundary_conditions.cc"],
  [("loading programme", "gCP::BoundaryConditions::DisplacementControl::vector_value")])

p("P07", "Crystal data read from files give orthonormal, rotated slip systems",
  "Slip systems and orientations read from files yield, for every crystal and slip system, a unit slip direction and a unit slip normal perpendicular to each other (input vectors are scaled to unit length), in three dimensions also a unit third vector perpendicular to both, and a Schmid tensor equal to the dyad of direction and normal together with its symmetric part, all rotated by the crystal's rotation from the Euler angles in degrees. Rotations are orthogonal with determinant one, and the data of a file end at its first empty line. Vectors that are zero or not perpendicular, different numbers of directions and normals, a wrong number of columns and missing files are refused, and nothing can be read before initialisation.",
  ["inputs"], "every well-formed or ill-formed set of input files in two and three dimensions",
  "The tests read one fixed set of files; the guarantee is about all files a user may supply.",
  ["include/gCP/crystal_data.h", "source/crystal_data.cc"],
  [("reading and checking", "gCP::CrystalsData::read_and_store_data, init"), ("rotation and Schmid tensors", "gCP::CrystalsData::compute_rotation_matrices, compute_slip_systems, compute_schmid_tensors")])

p("P08", "Parameter files are read completely and impossible settings refused",
  "Every documented entry of a parameter file reaches the part of the program it belongs to with the value written, entries left out take the documented default, quantities derived from entries (step sizes, end time, characteristic quantities and dimensionless numbers) follow their defining formulas, and settings shared by several laws agree. Values outside the admissible range, unknown names and options and contradictory settings are refused with an error. A missing parameter file is reported and a file with the defaults is written in its place; the copy stored with the results gives the same settings when read.",
  ["inputs", "configurations"], "every assignment of values to the entries, one deviation at a time and in combination",
  "There are about a hundred entries; a swapped or dropped one changes results silently only in runs that use it.",
  ["include/gCP/run_time_parameters.h", "source/run_time_parameters.cc"],
  [("parsing and validation", "gCP::RunTimeParameters::*::parse_parameters"), ("derived numbers", "gCP::RunTimeParameters::DimensionlessForm::init")])

p("P09", "Only converged solutions are accepted by the nonlinear solver",
  "A time step ends with a solution only if the residual assembled for exactly that solution is below the configured absolute tolerance (for the staggered strategies: of both the displacement and the slip part); when the permitted number of iterations or solution loops is exhausted the run stops with an error instead. In each iteration the update solves the linear system assembled at the iterate, and the new iterate is the iterate at the start of the iteration plus the accepted step length times the update: shortened trials start again from that iterate, and so do the material-point records; iterations which start over return to the start value of the step. The iteration numbers and residual norms reported in the solver log are those that occurred.",
  ["histories", "configurations"], "every solution strategy, setting and sequence of residuals, line-search rejections and failures along a loading history",
  "The stable tests never run the solver; acceptance has to be right for every sequence of residuals including failures.",
  ["source/gradient_crystal_plasticity/solve.cc", "include/gCP/gradient_crystal_plasticity.h"],
  [("Newton loop", "gCP::GradientCrystalPlasticitySolver::monolithic_algorithm"), ("staggered loops", "bouncing_algorithm, embracing_algorithm"), ("backtracking", "line_search_algorithm, reset_trial_solution, store_trial_solution")],
  ["trial_solution", "tmp_trial_solution", "newton_update", "residual_norm"], "hooks in solve.cc", True)

p("P10", "The active set matches the yield condition at the iterate it was built from",
  "For rate-dependent behaviour every slip unknown is active; for rate-independent behaviour a slip unknown is active exactly if it is not prescribed and the magnitude of the trial microstress at its node exceeds the slip resistance there, the trial microstress being the nodal value which the microforce balance of the iterate with the slips of the last step demands, under the prescribed macroscopic strain if there is one; the two partners of a periodic pair are always active together. The set is determined in every step, and anew for every slip loop of the bouncing strategy. Inactive slips keep the value of the last committed step, and the slip resistance of active ones grows from its committed value with the slip increments of the step.",
  ["histories", "configurations"], "every iterate along a loading history of a rate-independent problem, for every mesh, crystal arrangement and boundary condition",
  "No test runs the active-set code; errors change which nodes yield without failing.",
  ["source/gradient_crystal_plasticity/active_set.cc", "source/gradient_crystal_plasticity/solve.cc"],
  [("active set", "gCP::GradientCrystalPlasticitySolver::determine_active_set"), ("inactive values", "determine_inactive_set, reset_inactive_set_values"), ("slip resistances", "reset_and_update_slip_resistances")],
  ["locally_owned_active_set", "locally_owned_inactive_set", "trial_microstress"], "hooks", True)

p("P11", "Time steps commit solutions in order and start from the extrapolation",
  "When a step is accepted, the last committed solution becomes the one before last and the accepted solution becomes the last committed one, exactly once per step and with all prescribed values in place. The first iterate of a step is the linear extrapolation of the last two committed solutions in time, scaled by the extrapolation factor, or the last committed solution in the first step after a turning point of a cyclic programme and when extrapolation is switched off, and always satisfies the prescribed values of the new time (clamped lower end, prescribed upper end, locked slips there and on hard grain boundaries, periodicity).",
  ["histories"], "every loading history with constant or changing step sizes, with and without extrapolation",
  "The effect shows only across three or more steps of different size and does not change converged results, or changes them slightly.",
  ["source/gradient_crystal_plasticity/solve.cc", "include/gCP/fe_field.h", "source/fe_field.cc"],
  [("extrapolation", "gCP::GradientCrystalPlasticitySolver::extrapolate_initial_trial_solution"), ("history", "gCP::FEField::update_solution_vectors")],
  ["solution", "old_solution", "old_old_solution"], "hooks", True)

p("P12", "Degrees of freedom are laid out so that every field is separate",
  "For every dimension, number of crystals, number of slip systems and decohesion setting the components split exactly into displacement components (one set in all, or one per crystal with decohesion) and one component per crystal and slip system, every component belongs to exactly one of them, a crystal's cells carry unknowns of its own fields only, and displacements are continuous across grain boundaries exactly when decohesion is not allowed. Mapping a component to the unknowns of a cell and back is consistent, the plastic and the displacement unknowns partition all unknowns, and field vectors keep their ghost values consistent after being set. All of this holds for any number of processes; the norms reported for the two kinds of unknowns are those of the respective entries.",
  ["configurations"], "every dimension, polynomial degrees, crystal arrangement, number of slip systems and decohesion setting",
  "The layout is combinatorial; tests exercise single configurations and print them.",
  ["include/gCP/fe_field.h", "source/fe_field.cc"],
  [("extractors and collection", "gCP::FEField::setup_extractors, update_ghost_material_ids, setup_fe_collection"), ("partition", "gCP::FEField::setup_dofs")])

p("P13", "Grain-boundary tractions follow the cohesive, contact and degradation laws",
  "Cohesive traction is the derivative of a free energy on first loading: it depends on an effective opening that counts only opening (not closing) normal displacement and the weighted tangential displacement, follows the exponential law while the opening is the largest reached and grows, and returns linearly to the origin otherwise; contact traction is normal, acts only under penetration and grows linearly with it; degradation scales with a power of one minus damage when coupled and not otherwise. The tangents are the exact derivatives of the tractions, tractions and tangents are finite for every opening including zero, and openings rotate with the interface.",
  ["inputs"], "every opening displacement, unit normal, opening history and parameter set in two and three dimensions",
  "Tests evaluate few points; the signs, the switches between branches and the zero opening are corner cases of a continuum of inputs.",
  ["include/gCP/constitutive_laws.h", "source/constitutive_laws.cc"],
  [("cohesive law", "gCP::ConstitutiveLaws::CohesiveLaw"), ("contact law", "gCP::ConstitutiveLaws::ContactLaw"), ("degradation", "gCP::ConstitutiveLaws::DegradationFunction")])

p("P14", "Crystal constitutive laws: stresses and consistent tangents",
  "Elastic strain is total strain minus the scaled sum of slips times symmetric Schmid tensors; stress is the cubic stiffness, rotated with the crystal, times elastic strain; resolved shear stress is its product with the symmetric Schmid tensor. The scalar microstress is slip resistance times the chosen regularised sign of slip rate (odd, monotone, bounded by one; the exact sign when rate-independent) and its tangent is slip resistance over time step times the derivative of that function plus the hardening matrix weighted by the regularised signs of both rates; the vectorial microstress is the gradient of the defect energy in the slip plane and its tangent that gradient's derivative. Results are finite wherever inputs are.",
  ["inputs"], "every strain, slip, slip gradient, slip rate, orientation, time step and parameter set, for all five regularisations, in two and three dimensions",
  "The stable tests do not evaluate the laws; consistency between law and tangent must hold for all inputs.",
  ["include/gCP/constitutive_laws.h", "source/constitutive_laws.cc"],
  [("kinematics and elasticity", "gCP::Kinematics::ElasticStrain, gCP::ConstitutiveLaws::HookeLaw, ResolvedShearStressLaw"), ("microstresses", "gCP::ConstitutiveLaws::ScalarMicrostressLaw, VectorialMicrostressLaw")])

p("P15", "Microtractions between grains derive from one interaction energy",
  "The microtraction on a slip system at a grain boundary is minus the derivative, with respect to that slip on its own side, of one non-negative energy: half the grain-boundary modulus times the squared jump of the grain-boundary Burgers tensor. Both sides therefore see the same energy, the interaction of slip a on one side with slip b on the other equals that of b with a seen from the other side, equal crystals with equal slips exert no net traction, and the derivatives delivered for the own and the other side are the exact derivatives of the microtraction. Interaction moduli never exceed one in magnitude and exist for every pair of orientations.",
  ["inputs"], "every pair of orientations, unit normal, slips and number of slip systems in two and three dimensions",
  "Symmetry and energy consistency relate results of different calls over all orientations.",
  ["include/gCP/constitutive_laws.h", "source/constitutive_laws.cc"],
  [("moduli", "gCP::ConstitutiveLaws::MicrotractionLaw::get_grain_interaction_moduli"), ("traction, derivatives and energy", "get_microtraction, get_intra_gateaux_derivative, get_inter_gateaux_derivative, get_free_energy_density")])

p("P16", "The assembled system matrix is the derivative of the assembled residual",
  "For every problem variant (grain boundaries microfree, microhard or interacting, with and without decohesion, rate-dependent and rate-independent, dimensional and dimensionless) the system matrix assembled at an iterate is minus the derivative of the assembled residual with respect to the unconstrained unknowns, at held damage and with the hardening term symmetrised, including the coupling of both crystals at a boundary. It is therefore symmetric, and rows of constrained unknowns do not enter other rows.",
  ["inputs", "configurations"], "every iterate, material record and problem variant on every mesh",
  "No stable test assembles anything; a wrong tangent term only slows convergence.",
  ["source/gradient_crystal_plasticity/assembly.cc", "include/gCP/assembly_data.h", "source/assembly_data.cc"],
  [("matrix", "gCP::GradientCrystalPlasticitySolver::assemble_jacobian"), ("boundary terms", "assemble_local_jacobian, copy_local_to_global_jacobian")], None, "private access", True)

p("P17", "A simulation run passes through its stages in order and reports every step",
  "A run builds the strip with the requested number of elements and equally thick crystals from bottom to top, then for every step of the schedule prescribes the boundary displacement of the new time, solves, commits, advances time and reports, in this order and for each step once, until the end time is reached exactly. One row per step appears in the boundary stress curve and in the solver statistics, with the shear actually applied and the average shear stress on the upper boundary; field output is written at the requested frequency and at the end. The committed displacement is zero on the lower boundary, the prescribed value on the upper boundary and periodic sideways.",
  ["histories", "configurations"], "every loading programme, mesh and problem variant, over all steps of the run",
  "The application is not run by any test; row counts, order and bookkeeping only show over whole runs.",
  ["applications/simple_shear.cc", "source/postprocessing.cc"],
  [("time loop", "gCP::SimpleShearProblem::run"), ("boundary curve", "gCP::Postprocessing::SimpleShear::compute_data"), ("statistics", "gCP::GradientCrystalPlasticitySolver::output_data_to_file")], None, "output files and hooks", True)

p("P18", "Reported fields and averages are those of the committed solution",
  "At every output point the reported displacement, slips, equivalent plastic strain, strain, elastic strain, plastic strain, stress and von Mises values are those of the committed solution under the constitutive laws (total strain being the sum of elastic and plastic strain in the units of the output, stiffness rotated with the crystal, plane strain in two dimensions), in the declared order and units of the output components; fluctuation fields, written when asked for, are those without the prescribed macroscopic strain. Homogenised stress and strain are volume averages over the body, and von Mises values are those of the averaged tensors. The reported damage is that of the grain boundary points.",
  ["inputs", "configurations"], "every solution field, crystal arrangement, dimension, decohesion setting and system of characteristic quantities",
  "Output is never compared by a test; a swapped component or a missing factor yields plausible pictures.",
  ["include/gCP/postprocessing.h", "source/postprocessing.cc"],
  [("point-wise output", "gCP::Postprocessing::Postprocessor::evaluate_vector_field"), ("averages", "gCP::Postprocessing::Homogenization")])

p("P19", "The residual is the discrete balance of momentum and of microforces",
  "The residual assembled at any iterate of any step is the discrete weak form of the balance of momentum (stress of the crystal under the elastic strain, which includes a prescribed macroscopic one, cohesive traction degraded by damage and contact traction across the boundaries, volume force and tractions applied from outside at the time of the step) and of the microforces (resolved shear stress against scalar microstress, divergence of the vector microstress, microtractions across the boundaries), each term with its dimensionless number, tied unknowns summed and prescribed ones left out. The slip resistances, damage and largest openings it uses are those which follow from the committed solutions of all steps before and from this iterate. An undeformed body has no residual, and the boundary tractions of both crystals are in equilibrium.",
  ["inputs", "configurations", "histories"], "every iterate of every loading history, problem variant, dimension, polynomial degree and crystal arrangement",
  "No stable test assembles anything, and a wrong term still gives a converging computation with plausible results.",
  ["source/gradient_crystal_plasticity/assembly.cc", "source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc", "source/gradient_crystal_plasticity/setup.cc"],
  [("residual", "gCP::GradientCrystalPlasticitySolver::assemble_residual"), ("records", "prepare_quadrature_point_history, reset_and_update_internal_variables, store_effective_opening_displacement_in_quadrature_history")], None, "hooks", True)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
    if d["statement"].count(". ") > 2: print(d["id"], "sentences", d["statement"].count(". ") + 1)
