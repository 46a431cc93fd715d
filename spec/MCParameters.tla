---------------------------- MODULE MCParameters ----------------------------
(* Parameter files written assignment by assignment.                         *)
EXTENDS Parameters, TLC, Json

CONSTANTS Depth, OnlyFitting, Sample, Emit

VARIABLES prob, base, set
vars == <<prob, base, set>>

Bases == {
  <<>>,
  << <<Append(Solver, "Solution algorithm"), "bouncing">> >>,
  << <<Append(Solver, "Solution algorithm"), "embracing">>, <<Append(Loading, "Loading type"), "cyclic">>,
     <<Append(Cyclic, "Skip unloading phase"), "false">> >>,
  << <<Append(Dimless, "Solve the dimensionless problem"), "true">>,
     <<Append(Reference, "Reference length value"), "4.0">>,
     <<Append(Reference, "Reference displacement value"), "0.125">>,
     <<Append(Reference, "Reference stiffness value"), "500.0">>,
     <<Append(Reference, "Reference slip resistance value"), "9.0">>,
     <<Append(Reference, "Reference time value"), "7.0">>,
     <<Append(Vectorial, "Initial slip resistance"), "27.0">>,
     <<Append(Hardening, "Initial slip resistance"), "27.0">>,
     <<Append(Vectorial, "Energetic length scale"), "0.5">>,
     <<Append(Vectorial, "Defect energy index"), "3.0">> >> }

Values(e) ==
  CASE e.kind.k = "real" -> {"0.0", "0.25", "3.0", "1e-10", "1.0", "-1.0", "abc"}
    [] e.kind.k = "int" -> {"0", "1", "2", "3", "7", "-1", "1.5"}
    [] e.kind.k = "bool" -> {"true", "false", "maybe"}
    [] e.kind.k = "select" -> e.kind.options \cup {"nonsense"}
    [] e.key = "semi.mesh" -> {"a/b.msh", "a/b.txt", "a"}
    [] e.key = "output.directory" -> {"elsewhere/"}
    [] OTHER -> {"here/x", "there/y"}
Unknown == {<<"No such section", "x">>, <<"4. Output parameters", "No such entry">>}

Init == /\ prob \in {"strip", "semi"}
        /\ base \in Bases
        /\ prob = "semi" => \A j \in 1..Len(base) : Named("semi", base[j][1]) > 0
        /\ set = base
Assign == \E i \in 1..Len(Table(prob)) : \E v \in Values(Table(prob)[i]) :
            /\ OnlyFitting => Fits(Table(prob)[i].kind, v)
            /\ set' = Append(set, <<Table(prob)[i].path, v>>)
(* one random assignment, for sampling long files in simulation             *)
Draw == \E i \in {RandomElement(1..Len(Table(prob)))} :
          \E v \in {RandomElement({w \in Values(Table(prob)[i]) : Fits(Table(prob)[i].kind, w)})} :
             set' = Append(set, <<Table(prob)[i].path, v>>)
Misname == \E p \in Unknown : ~OnlyFitting /\ set' = Append(set, <<p, "1">>)
Next == /\ Len(set) < Len(base) + Depth
        /\ IF Sample THEN Draw ELSE Assign \/ Misname
        /\ UNCHANGED <<prob, base>>
Spec == Init /\ [][Next]_vars
Emission == Emit /\ Len(set) = Len(base) + Depth => PrintT("GEN " \o ToJson([prob |-> prob, set |-> set]))
-----------------------------------------------------------------------------
(* The table names every entry once and every setting once.                  *)
ASSUME \A p \in {"strip", "semi"} :
         LET n == Len(Table(p)) IN
         /\ Cardinality({Table(p)[i].path : i \in 1..n}) = n
         /\ Cardinality({Table(p)[i].key : i \in 1..n}) = n
         /\ \A i \in 1..n : Fits(Table(p)[i].kind, Table(p)[i].dflt)

BasesAccepted == set = base => Accepted(prob, set)
(* an unknown name or a value out of range is never ignored                  *)
NothingIgnored == Accepted(prob, set) => WellFormed(prob, Resolve(prob, set))

Close(a, b) == RClose(a, b, "1e-12", "0.0")
(* the defining relations among the characteristic quantities                *)
Scales(W, D) ==
  /\ Close(RMul(D["char.strain"], D["number.1"]), R1)
  /\ Close(RMul(D["char.body"], D["char.length"]), D["char.stress"])
  /\ Close(RMul(D["char.resistance"], D["number.4"]), D["char.stress"])
  /\ Close(RMul(D["char.dislocation"], D["char.length"]), R1)
  /\ Close(RMul(RMul(D["number.3"], D["char.resistance"]), D["char.length"]), D["char.micro"])
  /\ Close(RMul(D["char.strain"], D["char.length"]), D["char.displacement"])
Unscaled(W, D) == \A k \in {"char.length", "char.stress", "char.micro", "number.1", "number.3"} : D[k] = R1
(* the programme ends after its phases                                       *)
Phases(W, D) ==
  /\ RLe(D["load.cyclic_start"], D["load.unload_start"])
  /\ W["load.type"] = "cyclic" => RLe(D["load.unload_start"], D["load.end"])
  /\ W["load.type"] = "monotonic" => Close(RMul(D["load.step"], W["load.steps"]), D["load.end"])
Relations ==
  Accepted(prob, set) =>
    \A W \in {Settings(prob, Resolve(prob, set))} : \A der \in {Derived(prob, W)} :
    \A D \in {TLCEval([k \in {der[j][1] : j \in 1..Len(der)} |-> der[CHOOSE j \in 1..Len(der) : der[j][1] = k][2]])} :
      /\ IF W["dimless.flag"] = "true"
         THEN (\A k \in {"dimless.length", "dimless.displacement", "dimless.stiffness", "dimless.resistance"} : Positive(W[k]))
                => Scales(W, D)
         ELSE Unscaled(W, D)
      /\ prob = "strip" => Phases(W, D)
=============================================================================
