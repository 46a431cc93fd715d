------------------------------ MODULE TraceRun ------------------------------
(* Whole runs of the simulation.                                             *)
EXTENDS Runs, Fields, FiniteSets, TLC, Json, IOUtils

Behaviours == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, B,
          r,          \* the run
          x,          \* committed solution
          failed
data == <<c, B, r, x, failed>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
Init ==
  /\ run \in 1..Len(Behaviours) /\ pos = 1
  /\ c = Nothing /\ B = Nothing /\ r = RunInit /\ x = <<>> /\ failed = FALSE

Ev == Behaviours[run][pos]
Elements(s) == {s[k] : k \in 1..Len(s)}

-----------------------------------------------------------------------------
Time(k) == TimeAfter(c.load, k)
AtTime(t, k) == RClose(t, Time(k), "1e-12", RMul("1e-13", EndTime(c.load)))

Grid0 ==
  /\ Len(Ev.cells) = c.ne
  /\ Elements(Ev.cells) = {<<CrystalOf(c, j), 1, 2 * j - 1, IF c.dim = 2 THEN 0 ELSE 1>> : j \in 1..c.ne}

(* tables are printed with six or seven digits                               *)
StressSize == RMul(RMul("12.0", RMaxAbs([k \in 1..Len(B.crystals[1].stiffness) |-> RMaxAbs(B.crystals[1].stiffness[k])])),
                   RMul(RMul("12.0", ROfInt(c.ne)), RMaxAbs(x)))
CurveMatches(q, rows) ==
  /\ Len(rows) = q.k
  /\ \A k \in 1..q.k :
       /\ Len(rows[k]) = 2
       /\ RClose(rows[k][1], q.shear[k], "6e-7", RMul("1e-12", c.load.max))
       /\ RClose(rows[k][2], q.stress[k], "6e-7", RMul("1e-12", StressSize))
StatisticsMatch(q, rows) == Len(rows) = q.k /\ \A k \in 1..q.k : REq(rows[k][1], ROfInt(k))

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Number5(n) == "000" \o Digit[1 + ((n \div 10) % 10)] \o Digit[1 + (n % 10)]
FilesOf(q, name) ==
  {name \o "_" \o Number5(i - 1) \o s : i \in 1..Len(q.outputs), s \in {".0.vtu", ".pvtu"}}
(* the files of earlier runs are gone, others are left alone                 *)
FilesMatch(q, names) ==
  Elements(names) = {"notes.txt"} \cup FilesOf(q, "solution") \cup (IF c.outdamage THEN FilesOf(q, "damage") ELSE {})

Begin ==
  /\ RunBegin(c, r)
  /\ Ev.k = r.k /\ AtTime(Ev.t, r.k) /\ AtTime(Ev.next, r.k + 1)
  /\ RClose(Ev.dt, StepSize(c.load, r.k), "1e-9", RMul("1e-12", EndTime(c.load)))
  /\ r' = Solving(r)
  /\ UNCHANGED <<c, B, x, failed>>

Accept ==
  /\ r.stage = "solving"
  /\ Admissible(c, B.mesh, Ev.x, Time(r.k + 1)) = TRUE
  /\ x' = Ev.x
  /\ r' = Solved(r)
  /\ UNCHANGED <<c, B, failed>>

Report ==
  /\ \/ r.stage = "built" /\ r' = r
     \/ r.stage = "solved" /\ r' = Reported(c, r, UpperStress(B, x))
  /\ Ev.k = r'.k /\ AtTime(Ev.t, r'.k)
  /\ CurveMatches(r', Ev.curve) = TRUE
  /\ StatisticsMatch(r', Ev.statistics) = TRUE
  /\ FilesMatch(r', Ev.files) = TRUE
  /\ UNCHANGED <<c, B, x, failed>>

Over ==
  /\ RunOver(c, r)
  /\ r' = [r EXCEPT !.stage = "over"]
  /\ UNCHANGED <<c, B, x, failed>>

Left ==
  {"triangulation.vtu", "parameter_file.prm", "nonlinear_solver_log.txt", "paraview",
   "solution_algorithm_statistics.txt", "stress12_vs_shear_strain_at_boundary.txt"}
  \cup (IF c.homogenization THEN {"homogenization.txt"} ELSE {})
Files ==
  /\ CurveMatches(r, Ev.curve) = TRUE
  /\ StatisticsMatch(r, Ev.statistics) = TRUE
  /\ failed \/ Left \subseteq Elements(Ev.out)
  \* the averages are written at the end
  /\ failed \/ (/\ Len(Ev.homogenized) = Len(r.averages)
                /\ \A k \in 1..Len(r.averages) :
                     RClose(Ev.homogenized[k][1], Time(r.averages[k]), R0, "5.1e-5"))
  /\ UNCHANGED data

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<B, r, x, failed>>
    [] Ev.e = "mesh" ->
         /\ B' = Body(c, Ev.dofs)
         /\ x' = RForce([i \in 1..Len(Ev.dofs) |-> R0])
         /\ UNCHANGED <<c, r, failed>>
    [] Ev.e = "grid" -> Grid0 /\ UNCHANGED data
    [] Ev.e = "report" -> Report
    [] Ev.e = "step" -> Begin
    [] Ev.e = "accept" -> Accept
    [] Ev.e = "end" -> Over
    [] Ev.e = "fail" -> r.stage = "solving" /\ Ev.limit /\ failed' = TRUE /\ UNCHANGED <<c, B, r, x>>
    [] Ev.e = "files" -> Files
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Behaviours[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Behaviours[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
