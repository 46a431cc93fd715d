------------------------ MODULE TraceTrialMicrostress ------------------------
(* Recorded trial microstresses of the yield condition, judged by those of   *)
(* the specification.                                                        *)
EXTENDS TrialMicrostress, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, c, B, F, old
data == <<c, B, F, old>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
Init == run \in 1..Len(Runs) /\ pos = 1 /\ c = Nothing /\ B = Nothing /\ F = <<>> /\ old = <<>>

Ev == Runs[run][pos]

Largest2(s) == RMaxAbs([k \in 1..Len(s) |-> RMaxAbs(s[k])])
(* magnitude of the terms: rounding errors are relative to it                *)
Size(x) ==
  LET steepest == RMaxAbs([k \in 1..Len(B.cells[1]) |-> RMaxAbs([b \in 1..c.dim |-> Largest2(B.cells[1][k].D[b])])])
      stiffest == RMaxAbs([i \in 1..c.nc |-> Largest2(B.crystals[i].stiffness)])
      slips == RMaxAbs(Select(old, B.mesh.g))
  IN  RAdd(RMul(B.n3, RMul(stiffest, RSum(<<RMul(RMul("8.0", steepest), RMaxAbs(Select(x, B.mesh.u))), RMul(B.n0, slips),
                                         RMul("2.0", RMaxAbs(B.macro))>>))),
           RMul(RMul(B.n2, steepest), RMul(DefectFactor(B.vect), RPow(RMul(steepest, slips), RSub(c.vect.n, R1)))))

Match(x, tau) ==
  \A w \in {TrialOf(B, F, x, old)} :
    \A k \in 1..Len(B.mesh.g) : RClose(tau[B.mesh.g[k]], w[B.mesh.g[k]], R0, RMul("1e-10", Size(x)))

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<B, F, old>>
    [] Ev.e = "mesh" -> B' = Body(c, Ev.dofs) /\ F' = Faces(B', Ev.dofs) /\ UNCHANGED <<c, old>>
    [] Ev.e = "step" -> old' = Ev.old /\ UNCHANGED <<c, B, F>>
    [] Ev.e \in {"determined", "probe"} -> Match(Ev.x, Ev.tau) = TRUE /\ UNCHANGED data
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
