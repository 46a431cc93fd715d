------------------------------ MODULE Parameters ----------------------------
(* Parameter files: the documented entries, what they may be set to, and     *)
(* what the settings mean.                                                   *)
(*                                                                           *)
(* A parameter file is a sequence of assignments <<path, text>>; a path is   *)
(* the sequence of sections and the name of the entry.  The last assignment  *)
(* of an entry counts, an entry never assigned has its default.              *)
EXTENDS Real64, FiniteSets, TLC

Real(lo, hi) == [k |-> "real", lo |-> lo, hi |-> hi]
NonNeg == Real(R0, "Infinity")
AnyReal == Real("-Infinity", "Infinity")
Int(lo) == [k |-> "int", lo |-> lo]
Flag == [k |-> "bool"]
OneOf(options) == [k |-> "select", options |-> options]
Text == [k |-> "text"]

(* key: the setting the entry controls ("" when it controls nothing);        *)
(* when: the choice under which the setting is in use ("" always)            *)
E(section, name, kind, dflt, key, when) ==
  [path |-> Append(section, name), kind |-> kind, dflt |-> dflt, key |-> key, when |-> when]

Solver == <<"6. Solver parameters">>
Laws == Append(Solver, "Constitutive laws' parameters")
Law(name) == Append(Laws, name)

Hooke == Law("Hooke-Law's parameters")
Scalar == Law("Scalar microstress law's parameters")
Vectorial == Law("Vectorial microstress law's parameters")
Micro == Law("Microtraction law's parameters")
Cohesive == Law("Cohesive law's parameters")
Contact == Law("Contact law's parameters")
Degradation == Law("Degradation function parameters")
Hardening == Law("Hardening law's parameters")
Damage == Law("Damage evolution parameters")

LawEntries == <<
  E(Hooke, "C1111", NonNeg, "134615.0", "hooke.C1111", ""),
  E(Hooke, "C1122", NonNeg, "57692.3", "hooke.C1122", ""),
  E(Hooke, "C1212", NonNeg, "38461.5", "hooke.C1212", ""),
  E(Scalar, "Regularization function", OneOf({"atan", "sqrt", "gd", "tanh", "erf"}), "tanh", "scalar.function", ""),
  E(Scalar, "Regularization parameter", NonNeg, "3e-4", "scalar.parameter", ""),
  E(Scalar, "Rate-independent behavior", Flag, "false", "scalar.rate_independent", ""),
  E(Vectorial, "Energetic length scale", NonNeg, "0.0", "vectorial.length", ""),
  E(Vectorial, "Initial slip resistance", NonNeg, "0.0", "vectorial.resistance", ""),
  E(Vectorial, "Defect energy index", Real("1.0", "Infinity"), "2.0", "vectorial.index", ""),
  E(Vectorial, "Regularization parameter", NonNeg, "1e-6", "vectorial.parameter", ""),
  E(Micro, "Grain boundary modulus", NonNeg, "0.0", "micro.modulus", ""),
  E(Cohesive, "Cohesive law model", OneOf({"OrtizEtAl"}), "OrtizEtAl", "cohesive.model", ""),
  E(Cohesive, "Critical cohesive traction", NonNeg, "700.0", "cohesive.traction", ""),
  E(Cohesive, "Critical opening displacement", NonNeg, "2.5e-2", "cohesive.opening", ""),
  E(Cohesive, "Tangential to normal stiffness ratio", NonNeg, "1.0", "cohesive.ratio", ""),
  E(Contact, "Penalty coefficient", NonNeg, "100.0", "contact.penalty", ""),
  E(Degradation, "Degradation exponent", NonNeg, "1.0", "degradation.exponent", ""),
  E(Hardening, "Initial slip resistance", NonNeg, "0.0", "hardening.resistance", ""),
  E(Hardening, "Linear hardening modulus", NonNeg, "500.0", "hardening.modulus", ""),
  E(Hardening, "Hardening parameter", NonNeg, "1.4", "hardening.latent", ""),
  E(Hardening, "Perfect plasticity", Flag, "false", "hardening.perfect", ""),
  E(Damage, "Damage evolution model", OneOf({"OrtizEtAl", "M1"}), "M1", "damage.model", ""),
  E(Damage, "Damage accumulation constant", NonNeg, "1.0", "damage.accumulation", ""),
  E(Damage, "Damage decay constant", NonNeg, "0.0", "damage.decay", ""),
  E(Damage, "Damage decay exponent", NonNeg, "1.0", "damage.exponent", ""),
  E(Damage, "Endurance limit", NonNeg, "0.0", "damage.endurance", ""),
  E(Damage, "Set damage to zero", Flag, "false", "damage.zero", ""),
  E(Damage, "Couple microtraction to damage", Flag, "true", "damage.couple_micro", ""),
  E(Damage, "Couple macrotraction to damage", Flag, "false", "damage.couple_macro", "") >>

(* one nonlinear system solver                                               *)
SystemEntries(s, k, when) ==
  LET N == Append(s, "Newton-Raphson parameters")
      L == Append(s, "Line search parameters")
      K == Append(s, "Krylov parameters") IN
  << E(N, "Relative tolerance of the residual", NonNeg, "1e-6", k \o ".newton.rel", when),
     E(N, "Absolute tolerance of the residual", NonNeg, "1e-8", k \o ".newton.abs", when),
     E(N, "Absolute tolerance of the step", NonNeg, "1e-8", k \o ".newton.step", when),
     E(N, "Maximum number of iterations", Int(1), "15", k \o ".newton.max", when),
     E(N, "Line search algorithm", Flag, "true", k \o ".newton.line_search", when),
     E(L, "Alpha condition constant", Real(R0, R1), "1e-4", k \o ".ls.alpha", when),
     E(L, "Beta condition constant", Real(R0, R1), "0.9", k \o ".ls.beta", when),
     E(L, "Maximum number of iterations", Int(0), "15", k \o ".ls.max", when),
     E(K, "Solver type", OneOf({"directsolver", "cg", "gmres"}), "cg", k \o ".krylov.type", when),
     E(K, "Relative tolerance", NonNeg, "1e-6", k \o ".krylov.rel", when),
     E(K, "Absolute tolerance", NonNeg, "1e-8", k \o ".krylov.abs", when),
     E(K, "Maximum number of iterations", Int(1), "1000", k \o ".krylov.max", when) >>

Mono == Append(Solver, "Monolithic algorithm")
Stag == Append(Solver, "Staggered algorithm")
Dimless == Append(Solver, "Dimensionless formulation parameters")
Reference == Append(Dimless, "Reference parameters")

SolverEntries ==
  SystemEntries(Mono, "mono", "monolithic")
  \o << E(Mono, "Monolithic preconditioner", OneOf({"built-in", "block"}), "built-in", "mono.preconditioner", "monolithic") >>
  \o SystemEntries(Append(Stag, "Linear momentum balance"), "macro", "staggered")
  \o SystemEntries(Append(Stag, "Pseudo-balance"), "micro", "staggered")
  \o <<
  E(Stag, "Maximum number of solution loops", Int(2), "15", "staggered.loops", "staggered"),
  E(Stag, "Reset trial solution at each micro loop", Flag, "true", "staggered.reset", "staggered"),
  E(Dimless, "Solve the dimensionless problem", Flag, "false", "dimless.flag", ""),
  E(Reference, "Reference length value", NonNeg, "1.0", "dimless.length", "dimensionless"),
  E(Reference, "Reference time value", NonNeg, "1.0", "dimless.time", "dimensionless"),
  E(Reference, "Reference displacement value", NonNeg, "1.0", "dimless.displacement", "dimensionless"),
  E(Reference, "Reference stiffness value", NonNeg, "1.0", "dimless.stiffness", "dimensionless"),
  E(Reference, "Reference slip resistance value", NonNeg, "1.0", "dimless.resistance", "dimensionless"),
  E(Solver, "Solution algorithm", OneOf({"monolithic", "bouncing", "embracing"}), "monolithic", "solver.algorithm", ""),
  E(Solver, "Allow decohesion at grain boundaries", Flag, "false", "solver.decohesion", ""),
  E(Solver, "Boundary conditions at grain boundaries", OneOf({"microhard", "microfree", "microtraction"}), "microfree", "solver.gb", ""),
  E(Solver, "Skip extrapolation of start value", Flag, "false", "solver.skip_extrapolation", ""),
  E(Solver, "Skip extrapolation of start value at extrema", Flag, "false", "solver.skip_extrapolation_at_extrema", ""),
  E(Solver, "Extrapolation factor", NonNeg, "1.0", "solver.extrapolation_factor", ""),
  E(Solver, "Zero damage evolution during un- and loading", Flag, "false", "solver.zero_damage", ""),
  E(Solver, "Print sparsity pattern", Flag, "false", "solver.print_sparsity", ""),
  E(Solver, "Output debug fields", Flag, "false", "solver.debug_fields", ""),
  E(Solver, "Verbose", Flag, "false", "solver.verbose", "") >>

Space == <<"1. Spatial discretization parameters">>
Time == <<"2. Temporal discretization parameters">>
Input == <<"3. Input parameters">>
Output == <<"4. Output parameters">>
Homog == <<"5. Postprocessing parameters", "Homogenization">>

BasicEntries == <<
  E(Space, "Spatial dimension", Int(2), "2", "space.dim", ""),
  E(Space, "Mapping - Polynomial degree", Int(1), "1", "space.mapping_degree", ""),
  E(Space, "Mapping - Apply to interior cells", Flag, "false", "space.mapping_interior", ""),
  E(Space, "Number of global refinements", Int(0), "0", "space.refinements", ""),
  E(Space, "FE's polynomial degree - Displacements", Int(1), "2", "space.degree_displacements", ""),
  E(Space, "FE's polynomial degree - Slips", Int(1), "1", "space.degree_slips", ""),
  E(Time, "Start time", NonNeg, "0.0", "time.start", ""),
  E(Time, "End time", NonNeg, "1.0", "time.end", ""),
  E(Time, "Time step size", NonNeg, "1e-1", "time.step", ""),
  E(Input, "Slip normals path name", Text, "input/crystal_structure/symmetric_double_slip_system/slip_normals", "input.normals", "path"),
  E(Input, "Slip directions path name", Text, "input/crystal_structure/symmetric_double_slip_system/slip_directions", "input.directions", "path"),
  E(Input, "Euler angles path name", Text, "input/crystal_orientation/euler_angles_0_30", "input.angles", "path"),
  E(Output, "Graphical output directory", Text, "results/default/", "output.directory", ""),
  E(Output, "Graphical output frequency", Int(1), "1", "output.frequency", ""),
  E(Output, "Terminal output frequency", Int(0), "1", "output.terminal_frequency", ""),
  E(Output, "Output damage variable field", Flag, "false", "output.damage", ""),
  E(Output, "Output dimensionless quantities", Flag, "false", "output.dimensionless", ""),
  E(Output, "Output fluctuations fields", Flag, "false", "output.fluctuations", ""),
  E(Output, "Store checkpoints", Flag, "false", "", ""),
  E(Homog, "Compute homogenized quantities", Flag, "false", "homogenization.compute", ""),
  E(Homog, "Homogenization frequency", Int(1), "1", "homogenization.frequency", ""),
  E(<<>>, "Verbose", Flag, "false", "verbose", "") >>

Loading == Append(Time, "Simple loading")
MonoLoad == Append(Loading, "Monotonic load parameters")
Cyclic == Append(Loading, "Cyclic load parameters")
Strip == Append(Space, "Problem specific parameters")

StripEntries == <<
  E(Loading, "Loading type", OneOf({"monotonic", "cyclic"}), "monotonic", "load.type", ""),
  E(Loading, "Maximum load", NonNeg, "1.0", "load.max", ""),
  E(Loading, "Minimum load", NonNeg, "0.0", "load.min", ""),
  E(MonoLoad, "Duration of monotonic load", NonNeg, "1.0", "load.duration", ""),
  E(MonoLoad, "Number of steps during monotonic load", Int(1), "20", "load.steps", ""),
  E(Cyclic, "Duration of un- and loading phase", NonNeg, "1.0", "load.phase_duration", ""),
  E(Cyclic, "Number of steps during un- and loading phase", Int(1), "20", "load.phase_steps", ""),
  E(Cyclic, "Period", NonNeg, "1.0", "load.period", ""),
  E(Cyclic, "Number of steps during a quarter cycle", Int(1), "5", "load.quarter_steps", ""),
  E(Cyclic, "Number of cycles", Int(0), "1", "load.cycles", ""),
  E(Cyclic, "Skip unloading phase", Flag, "true", "load.skip_unloading", ""),
  E(Strip, "Height of the strip", NonNeg, "1.0", "strip.height", ""),
  E(Strip, "Number of elements in y-direction", Int(1), "100", "strip.elements", ""),
  E(Strip, "Number of equally sized crystals in y-direction", Int(1), "1", "strip.crystals", ""),
  E(<<"0. Infinite strip parameters (Extended in 1. and 2.)", "Loading parameters">>, "Control type",
    OneOf({"load_control", "displacement_control"}), "displacement_control", "strip.control", "") >>

Semi == <<"Semi-coupled problem">>
SemiEntries == <<
  E(Semi, "Max strain component 11", AnyReal, "0.0", "semi.11", ""),
  E(Semi, "Max strain component 22", AnyReal, "0.0", "semi.22", ""),
  E(Semi, "Max strain component 33", AnyReal, "0.0", "semi.33", ""),
  E(Semi, "Max strain component 23", AnyReal, "0.0", "semi.23", ""),
  E(Semi, "Max strain component 13", AnyReal, "0.0", "semi.13", ""),
  E(Semi, "Max strain component 12", AnyReal, "0.01", "semi.12", ""),
  E(Semi, "Minimum to maximum strain load ratio", AnyReal, "0.5", "semi.ratio", ""),
  E(Semi, "Mesh file (*.msh) path name", Text, "input/mesh/periodic_polycrystal.msh", "semi.mesh", "") >>

Basic == LawEntries \o SolverEntries \o BasicEntries
StripTable == RForce(Basic \o StripEntries)
SemiTable == RForce(Basic \o SemiEntries)
Table(prob) == IF prob = "strip" THEN StripTable ELSE SemiTable

-----------------------------------------------------------------------------
(* The texts an entry may be set to.                                         *)
Fits(kind, text) ==
  CASE kind.k = "real" -> RIsNumber(text) /\ RLe(kind.lo, text) /\ RLe(text, kind.hi)
    [] kind.k = "int" -> RIsInteger(text) /\ RLe(ROfInt(kind.lo), text)
    [] kind.k = "bool" -> text \in {"true", "false"}
    [] kind.k = "select" -> text \in kind.options
    [] OTHER -> TRUE

Same(kind, a, b) == IF kind.k \in {"real", "int"} THEN REq(a, b) ELSE a = b

(* index of the entry with a path, 0 if there is none                        *)
Named(prob, path) == RFind(Table(prob), "path", path)

(* <<index, text>> of the assignments                                        *)
Resolve(prob, set) == RForce([j \in 1..Len(set) |-> <<Named(prob, set[j][1]), set[j][2]>>])
WellFormed(prob, res) ==
  \A j \in 1..Len(res) : res[j][1] > 0 /\ Fits(Table(prob)[res[j][1]].kind, res[j][2])

Value(prob, res, i) ==
  IF \E j \in 1..Len(res) : res[j][1] = i
  THEN res[CHOOSE j \in 1..Len(res) : res[j][1] = i /\ \A m \in (j + 1)..Len(res) : res[m][1] # i][2]
  ELSE Table(prob)[i].dflt

(* the setting of every entry, by key                                        *)
Settings(prob, res) ==
  RForce([k \in {Table(prob)[i].key : i \in 1..Len(Table(prob))} |->
            Value(prob, res, RFind(Table(prob), "key", k))])

-----------------------------------------------------------------------------
(* Combinations refused although every entry fits.                           *)
Positive(a) == RLt(R0, a)
Tolerances(rel, abs) == Positive(rel) /\ Positive(abs) /\ RLt(abs, rel)
SystemOk(v, k) ==
  /\ Tolerances(v[k \o ".newton.rel"], v[k \o ".newton.abs"])
  /\ Tolerances(v[k \o ".krylov.rel"], v[k \o ".krylov.abs"])
  /\ Positive(v[k \o ".ls.alpha"])
  /\ RLt(v[k \o ".ls.alpha"], v[k \o ".ls.beta"]) /\ RLt(v[k \o ".ls.beta"], R1)

InUse(v, when) ==
  CASE when = "monolithic" -> v["solver.algorithm"] = "monolithic"
    [] when = "staggered" -> v["solver.algorithm"] # "monolithic"
    [] when = "dimensionless" -> v["dimless.flag"] = "true"
    [] OTHER -> TRUE

Consistent(prob, v) ==
  /\ Positive(v["hooke.C1111"]) /\ Positive(v["hooke.C1122"]) /\ Positive(v["hooke.C1212"])
  /\ Positive(v["scalar.parameter"]) /\ Positive(v["vectorial.parameter"])
  /\ REq(v["hardening.resistance"], v["vectorial.resistance"])
  /\ InUse(v, "monolithic") => SystemOk(v, "mono") /\ v["mono.preconditioner"] = "built-in"
  /\ InUse(v, "staggered") => SystemOk(v, "macro") /\ SystemOk(v, "micro")
  /\ v["space.dim"] \in {"2", "3"}
  /\ RLt(v["time.start"], v["time.end"]) /\ Positive(v["time.step"])
  /\ RLe(RAdd(v["time.start"], v["time.step"]), v["time.end"])
  /\ prob = "strip" =>
       /\ Positive(v["load.duration"]) /\ Positive(v["load.period"])
       /\ RLt(v["load.min"], v["load.max"])
       /\ Positive(v["strip.height"])
  /\ prob = "semi" =>
       /\ RLe(R0, v["semi.ratio"]) /\ RLt(v["semi.ratio"], R1)
       /\ REndsWith(v["semi.mesh"], ".msh")

(* whether tolerances of the algorithm that is not chosen are inspected, too, *)
(* is left open                                                              *)
Undecided(v) ==
  \/ ~InUse(v, "monolithic") /\ ~(SystemOk(v, "mono") /\ v["mono.preconditioner"] = "built-in")
  \/ ~InUse(v, "staggered") /\ ~(SystemOk(v, "macro") /\ SystemOk(v, "micro"))

Accepted(prob, set) ==
  \A res \in {Resolve(prob, set)} :
    WellFormed(prob, res) /\ \A v \in {Settings(prob, res)} : Consistent(prob, v)

-----------------------------------------------------------------------------
(* Settings derived from entries: pairs <<setting, value>>.                   *)
Derived(prob, v) ==
  LET L == v["dimless.length"]
      u == v["dimless.displacement"]
      C == v["dimless.stiffness"]
      g == v["dimless.resistance"]
      e == RDiv(u, L)
      s == RMul(C, e)
      g0 == v["vectorial.resistance"]
      l == v["vectorial.length"]
      p == v["vectorial.index"]
      on == v["dimless.flag"] = "true"
      N(x) == IF on THEN x ELSE R1
      phases == IF v["load.skip_unloading"] = "true" THEN R1 ELSE R2
      pd == v["load.phase_duration"]
      cyc == RMul(v["load.cycles"], v["load.period"])
  IN
  << <<"char.length", N(L)>>, <<"char.time", N(v["dimless.time"])>>,
     <<"char.displacement", N(u)>>, <<"char.stiffness", N(C)>>, <<"char.resistance", N(g)>>,
     <<"char.strain", N(e)>>, <<"char.stress", N(s)>>, <<"char.resolved", N(s)>>,
     <<"char.macro", N(s)>>,
     <<"char.micro", N(RDiv(RMul(g0, RPow(l, p)), RPow(L, RSub(p, R1))))>>,
     <<"char.body", N(RDiv(s, L))>>, <<"char.dislocation", N(RDiv(R1, L))>>,
     <<"number.1", N(RDiv(L, u))>>, <<"number.2", N(RDiv(v["hardening.modulus"], g))>>,
     <<"number.3", N(RMul(RDiv(g0, g), RPow(RDiv(l, L), p)))>>, <<"number.4", N(RDiv(s, g))>>,
     <<"damage.degradation_exponent", v["degradation.exponent"]>> >>
  \o IF prob # "strip" THEN <<>> ELSE
  << <<"load.step", RDiv(v["load.duration"], v["load.steps"])>>,
     <<"load.phase_step", RDiv(pd, v["load.phase_steps"])>>,
     <<"load.cyclic_step", RDiv(RDiv(v["load.period"], "4.0"), v["load.quarter_steps"])>>,
     <<"load.cyclic_start", pd>>, <<"load.unload_start", RAdd(pd, cyc)>>,
     <<"load.end", IF v["load.type"] = "monotonic" THEN v["load.duration"]
                   ELSE RAdd(RMul(phases, pd), cyc)>> >>

(* settings that are texts                                                   *)
DerivedText(prob, v, existing) ==
  LET n == v["input.normals"]
      d == v["input.directions"]
      a == v["input.angles"]
      space == v["space.dim"] = "3" /\ {n \o "_3d.txt", d \o "_3d.txt", a \o "_3d.txt"} \subseteq existing
      S(x) == IF space THEN x \o "_3d" ELSE x
  IN << <<"input.normals", S(n)>>, <<"input.directions", S(d)>>, <<"input.angles", S(a)>>,
        <<"solver.log_directory", v["output.directory"]>> >>

(* a record of settings agrees with what an accepted file says               *)
Agrees(prob, set, existing, got) ==
  \A v \in {Settings(prob, Resolve(prob, set))} :
  \A der \in {RForce(Derived(prob, v))}, txt \in {RForce(DerivedText(prob, v, existing))} :
  /\ \A i \in 1..Len(Table(prob)) :
       LET e == Table(prob)[i] IN
       e.key # "" /\ e.when \notin {"path", "dimensionless"} /\ InUse(v, e.when)
         => Same(e.kind, got[e.key], v[e.key])
  /\ \A j \in 1..Len(der) : RClose(got[der[j][1]], der[j][2], "1e-13", "0.0")
  /\ \A j \in 1..Len(txt) : got[txt[j][1]] = txt[j][2]
=============================================================================
