-------------------------------- MODULE Runs ---------------------------------
(* A run of the simulation: its stages, the tables it keeps and the files it *)
(* leaves.                                                                   *)
(*                                                                           *)
(* A run r has the fields: stage ("built", "solving", "solved", "over"), k   *)
(* (completed steps), shear, stress (columns of the curve), averages         *)
(* (numbers of the steps whose averages are tabulated), outputs (numbers of  *)
(* the steps whose fields are written).                                      *)
EXTENDS LoadProgramme, Sequences

RunInit == [stage |-> "built", k |-> 0, shear |-> <<>>, stress |-> <<>>, averages |-> <<>>, outputs |-> <<>>]

(* c: load, outfreq, homogenization, homfreq                                 *)
Due(c, k, frequency) == k % frequency = 0 \/ k = NSteps(c.load)

RunBegin(c, r) == r.stage \in {"built", "reported"} /\ r.k < NSteps(c.load)
Solving(r) == [r EXCEPT !.stage = "solving"]
Solved(r) == [r EXCEPT !.stage = "solved"]
(* time advances, and the step is reported                                   *)
Reported(c, r, stress) ==
  LET k == r.k + 1 IN
  [stage |-> "reported", k |-> k,
   shear |-> Append(r.shear, Shear(c.load, TimeAfter(c.load, k))),
   stress |-> Append(r.stress, stress),
   averages |-> IF c.homogenization /\ Due(c, k, c.homfreq) THEN Append(r.averages, k) ELSE r.averages,
   outputs |-> IF Due(c, k, c.outfreq) THEN Append(r.outputs, k) ELSE r.outputs]
RunOver(c, r) == r.stage = "reported" /\ r.k = NSteps(c.load)
=============================================================================
