------------------------- MODULE TraceLoadProgramme -------------------------
(* Recorded schedules and boundary values of the real classes.               *)
EXTENDS LoadProgramme, TLC, Json, IOUtils, Sequences

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, p, b, k, ended
vars == <<run, pos, p, b, k, ended>>
Init == run \in 1..Len(Runs) /\ pos = 1 /\ p = <<>> /\ b = <<>> /\ k = 0 /\ ended = FALSE
Ev == Runs[run][pos]

(* times as written in decimal to a parameter file                           *)
Close(x, y) == RClose(x, y, "1e-11", "1e-14")

(* the characteristic size of the boundary values                            *)
Size == RDiv(RMul(b.height, RMax(p.max, Mean(p))), b.chr)

Step ==
  CASE Ev.e = "programme" ->
         /\ Ev.exc = FALSE
         /\ p' = Ev.p /\ k' = 0
         /\ REq(Ev.start, R0) /\ Close(Ev.end, EndTime(p'))
         /\ p'.cyclic => Close(Ev.cyclic_start, CyclicStart(p')) /\ Close(Ev.unload_start, UnloadStart(p'))
         /\ UNCHANGED <<b, ended>>
    [] Ev.e = "step" ->
         /\ k < NSteps(p)
         /\ Close(Ev.size, StepSize(p, k))
         /\ Ev.skip = SkipsExtrapolation(p, k)
         /\ k' = k + 1
         /\ Close(Ev.time, TimeAfter(p, k'))
         /\ ended' = Ev.at_end
         /\ UNCHANGED <<p, b>>
    [] Ev.e = "done" -> /\ ended /\ k = NSteps(p)
                        /\ UNCHANGED <<p, b, k, ended>>
    [] Ev.e = "boundary" -> b' = Ev.b /\ UNCHANGED <<p, k, ended>>
    [] Ev.e = "value" ->
         /\ Ev.exc = FALSE
         /\ RCloseSeq(Ev.v, Prescribed(p, b, Ev.t), "1e-9", RMul("1e-10", Size))
         /\ \A i \in 1..b.total : i \notin Sheared(b) => REq(Ev.v[i], R0)
         /\ UNCHANGED <<p, b, k, ended>>

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
