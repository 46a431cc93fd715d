--------------------------- MODULE TraceTimeSteps ---------------------------
(* Recorded histories of the committed solutions and start values of whole   *)
(* simulations.                                                              *)
EXTENDS TimeSteps, Strip, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, m,
          h,          \* committed solutions
          step,       \* the step in progress: number, time at its end, size
          e,          \* its extrapolation
          x,          \* the last iterate; empty before the first one
          held        \* slips which do not yield
data == <<c, m, h, step, e, x, held>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
NoStep == [k |-> -1, open |-> FALSE]
Init ==
  /\ run \in 1..Len(Runs) /\ pos = 1
  /\ c = Nothing /\ m = Nothing /\ h = Nothing /\ step = NoStep /\ e = <<>> /\ x = <<>> /\ held = {}

Ev == Runs[run][pos]
Same(v, w, rel) ==
  \A a \in {m.u, m.g} :
    \A p \in {Select(v, a)}, q \in {Select(w, a)} : RCloseSeq(p, q, rel, RMul(rel, RMaxAbs(q)))

Begin ==
  /\ ~step.open /\ Ev.k = step.k + 1
  /\ Same(Ev.old, h.old, "1e-13") /\ Same(Ev.oldold, h.oldold, "1e-13")
  /\ Ev.k > 0 => RClose(Ev.dtold, h.dtold, "1e-9", R0)
  /\ step' = [k |-> Ev.k, open |-> TRUE, t |-> Ev.next, dt |-> Ev.dt]
  /\ x' = <<>> /\ held' = {}
  /\ UNCHANGED <<c, m, h, e>>

Start ==
  /\ e' = TSStart(h, step.dt, c.factor, c.skipex \/ SkipsExtrapolation(c.load, step.k))
  /\ UNCHANGED <<c, m, h, step, x, held>>

(* the first iterate carries the prescribed values and is otherwise the      *)
(* extrapolation, or the committed value for slips which do not yield        *)
First(y) ==
  /\ Admissible(c, m, y, step.t)
  /\ \A idx \in {m.u, m.g} :
       \A tol \in {RMul("1e-11", RMaxAbs(Select(y, idx)))} :
         \A i \in {idx[k] : k \in 1..Len(idx)} :
           m.locked[i] \/ RClose(y[i], IF i \in held THEN h.old[i] ELSE e[i], "1e-11", tol)

Residual ==
  /\ x = <<>> => First(Ev.x) = TRUE
  /\ x' = Ev.x
  /\ UNCHANGED <<c, m, h, step, e, held>>

Determined ==
  /\ held' = {Ev.inactive[k] : k \in 1..Len(Ev.inactive)}
  /\ UNCHANGED <<c, m, h, step, e, x>>

Accept ==
  /\ step.open /\ Same(Ev.x, x, "1e-13")
  /\ Admissible(c, m, Ev.x, step.t) = TRUE
  /\ h' = TSCommit(h, Ev.x, step.dt)
  /\ step' = [step EXCEPT !.open = FALSE]
  /\ UNCHANGED <<c, m, e, x, held>>

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<m, h, step, e, x, held>>
    [] Ev.e = "mesh" ->
         /\ m' = StripMesh(c, Ev.dofs)
         /\ h' = TSInit(RForce([i \in 1..Len(Ev.dofs) |-> R0]))
         /\ UNCHANGED <<c, step, e, x, held>>
    [] Ev.e = "step" -> Begin
    [] Ev.e = "start" -> Start
    [] Ev.e = "residual" -> Residual
    [] Ev.e = "determined" -> Determined
    [] Ev.e = "accept" -> Accept
    [] Ev.e = "end" -> ~step.open /\ UNCHANGED data
    [] Ev.e = "fail" -> Ev.limit /\ UNCHANGED data
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
