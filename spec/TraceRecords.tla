---------------------------- MODULE TraceRecords ----------------------------
(* Records of material points and grain boundary points recorded from whole  *)
(* simulations: before a step the committed ones, at every iterate those     *)
(* which follow from the committed ones and this iterate.                    *)
EXTENDS WeakForm, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, B,
          h,          \* records committed at the end of the last step
          step        \* the old solution
data == <<c, B, h, step>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
Init ==
  /\ run \in 1..Len(Runs) /\ pos = 1
  /\ c = Nothing /\ B = Nothing /\ h = Nothing /\ step = Nothing

Ev == Runs[run][pos]

(* records of one kind only where the other one is not looked at             *)
Bulk(r) == [r EXCEPT !.face = <<>>]
Face(r) == [r EXCEPT !.bulk = <<>>]

ResistancesMatch(x, r) ==
  \A e \in {Evaluated(B, Bulk(h), x, step.old).bulk} :
    /\ Len(r) = Len(e)
    /\ \A j \in 1..Len(e) : Len(r[j]) = Len(e[j]) /\ \A q \in 1..Len(e[j]) :
         /\ RCloseSeq(r[j][q], e[j][q].cur, "1e-11", R0)
         \* never below the committed ones
         /\ \A a \in 1..Len(r[j][q]) : RLe(RMul(e[j][q].com[a], "0.9999999999"), r[j][q][a])

BoundariesMatch(x, r) ==
  \A e \in {Evaluated(B, Face(h), x, step.old).face} :
    \A size \in {RMul("1e-12", RMaxAbs(Select(x, B.mesh.u)))} :
      /\ Len(r) = Len(e)
      /\ \A f \in 1..Len(e) : Len(r[f]) = Len(e[f]) /\ \A q \in 1..Len(e[f]) :
           /\ RClose(r[f][q][2], e[f][q].max, "1e-10", size)
           /\ RClose(r[f][q][1], e[f][q].d, "1e-8", "1e-10")
           /\ RLe(R0, r[f][q][1]) /\ RLe(r[f][q][1], R1)
           /\ RLe(RSub(e[f][q].cmax, size), r[f][q][2])

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<B, h, step>>
    [] Ev.e = "mesh" ->
         /\ B' = Body(c, Ev.dofs)
         /\ h' = Records(B')
         /\ UNCHANGED <<c, step>>
    [] Ev.e = "step" -> step' = [old |-> Ev.old] /\ UNCHANGED <<c, B, h>>
    [] Ev.e = "records" -> ResistancesMatch(Ev.x, Ev.values) = TRUE /\ UNCHANGED data
    [] Ev.e = "boundaries" -> BoundariesMatch(Ev.x, Ev.values) = TRUE /\ UNCHANGED data
    [] Ev.e = "accept" -> h' = Committed(B, h, Ev.x, step.old) /\ UNCHANGED <<c, B, step>>
    [] Ev.e = "fail" -> Ev.limit /\ UNCHANGED data
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
