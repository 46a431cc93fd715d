---------------------------- MODULE TraceWeakForm ---------------------------
(* Residuals and system matrices recorded from whole simulations, judged by  *)
(* the discrete balances of the specification, whose records are carried     *)
(* from step to step.                                                        *)
EXTENDS WeakForm, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, B,
          h,          \* records committed at the end of the last step
          X,          \* external forces
          clock,      \* time at the end of the last step
          step,       \* old solution, size
          held        \* slips which do not yield in this step
data == <<c, B, h, X, clock, step, held>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
Init ==
  /\ run \in 1..Len(Runs) /\ pos = 1
  /\ c = Nothing /\ B = Nothing /\ h = Nothing /\ X = Nothing /\ clock = R0 /\ step = Nothing /\ held = {}

Ev == Runs[run][pos]

-----------------------------------------------------------------------------
Largest2(s) == RMaxAbs([k \in 1..Len(s) |-> RMaxAbs(s[k])])
(* magnitude of the terms which make up a row of displacements or of slips:  *)
(* rounding errors are relative to it                                        *)
Volume == RSum(B.w)
Area == RSum(B.wf)
Steepest == RMaxAbs([k \in 1..Len(B.cells[1]) |->
              RMaxAbs([b \in 1..c.dim |-> Largest2(B.cells[1][k].D[b])])])
Stiffest == RMaxAbs([i \in 1..c.nc |-> Largest2(B.crystals[i].stiffness)])
StrainSize(x) ==
  RSum(<<RMul(RMul("8.0", Steepest), RMaxAbs(Select(x, B.mesh.u))),
         RMul(B.n0, RMaxAbs(Select(x, B.mesh.g))), RMul("2.0", RMaxAbs(B.macro))>>)
FaceStiffness == RAdd(RMul("3.0", RDiv(c.cohesive.t, c.cohesive.delta)), c.contact)
MomentumScale(x) ==
  RAdd(RMul(B.f, RMul(RMul(Volume, Steepest), RMul(Stiffest, StrainSize(x)))),
       IF c.deco THEN RMul(FaceStiffness, RMul(Area, RMaxAbs(Select(x, B.mesh.u)))) ELSE R0)
ResistanceScale(e) ==
  RMaxAbs([j \in 1..c.ne |-> RMaxAbs([q \in 1..Len(B.w) |-> RMaxAbs(e.bulk[j][q].cur)])])
MicroforceScale(x, e) ==
  RSum(<<RMul(B.n3, RMul(Volume, RMul(Stiffest, StrainSize(x)))),
         RMul(Volume, ResistanceScale(e)),
         RMul(RMul(B.n2, Volume), RMul(DefectFactor(B.vect), RPow(RMul(Steepest, RMaxAbs(Select(x, B.mesh.g))), RSub(c.vect.n, R1)))),
         IF Interacts(B) THEN RMul(RMul(c.micro, "2.0"), RMul(Area, RMaxAbs(Select(x, B.mesh.g)))) ELSE R0>>)

(* rate-independent: the sign of an increment of the size of a rounding error *)
(* is not known                                                              *)
Uncertain(x) ==
  IF ~c.scalar.ri THEN {}
  ELSE LET tol == RMul("1e-13", RMaxAbs(Select(x, B.mesh.g)))
           unclear(j, a) ==
             LET g == SlipValues(B, j, x)[a]
                 o == SlipValues(B, j, step.old)[a]
             IN  \E q \in 1..Len(g) : RLe(RAbs(RSub(g[q], o[q])), tol) /\ ~REq(g[q], o[q])
           bad == {w \in (1..c.ne) \X (1..NSlips(B)) : unclear(w[1], w[2])}
       IN  {i \in 1..B.mesh.n : \E w \in bad :
              \E k \in 1..Len(B.cells[w[1]][c.dim + w[2]].dof) : B.cells[w[1]][c.dim + w[2]].dof[k] = i}

Occurs(s) == {s[k] : k \in 1..Len(s)}

(* recorded rows r are the rows w of the specification                       *)
RowsMatch(r, w, skip, su, sg) ==
  \A v \in {Condensed(B, r)} :
    \A k \in 1..Len(B.rows) :
      LET i == B.rows[k]
          scale == IF Kind(B.mesh.dofs[i]) = 0 THEN su ELSE sg
      IN  IF i \notin held
          THEN (B.mesh.group[i] \cap skip # {}) \/ RClose(v[k], w[k], R0, RMul("1e-10", scale))
          ELSE REq(v[k], R0)

LockedZero(r) == \A k \in 1..Len(B.mesh.fixed) : REq(r[B.mesh.fixed[k]], R0)

ResidualMatches(x, r) ==
  \A e \in {Evaluated(B, h, x, step.old)} :
    /\ LockedZero(r)
    /\ \A ext \in {ExternalAt(X, RAdd(clock, step.dt))} :
         RowsMatch(r, VAdd(ResidualOf(B, e, x, step.old, step.dt), ext), Uncertain(x),
                   RAdd(MomentumScale(x), RMaxAbs(ext)), MicroforceScale(x, e))

(* the tangent of a grain boundary point at its kink or on the verge of      *)
(* unloading is not unique                                                   *)
Kinks(x, e) ==
  \E f \in 1..Len(e.face) : \E u \in {Displacements(B, f, x)} : \E q \in 1..Len(B.wf) :
    LET s == e.face[f][q]
        o == VSub(u[q].upper, u[q].lower)
        eff == Effective(B.cohesive, o, B.up)
        near(a, b) == RClose(a, b, "1e-9", "1e-300")
    IN  \/ RLe(RAbs(Normal(o, B.up)), RMul("1e-9", VNorm(o)))
        \/ near(eff, s.cmax) \/ near(eff, s.eff0)
(* ... and the defect energy has none where a slip does not vary             *)
Cusps(x) ==
  RLt(c.vect.n, R2) /\
  \E j \in 1..c.ne : \E a \in 1..NSlips(B) : \E d \in {Gradient(B, j, c.dim + a, x)} : \E q \in 1..Len(B.w) :
    LET g == [b \in 1..c.dim |-> d[b][q]] IN
    \E v \in {Systems(B, j)[a].dir, Systems(B, j)[a].orth} :
      ~REq(VNorm(v), R0) /\ RLe(RAbs(RDot(v, g)), RMul("1e-9", VNorm(g)))

TangentMatches(x, v, jv) ==
  \A e \in {Evaluated(B, h, x, step.old)} :
    \A w \in {TangentOf(B, e, x, step.old, step.dt, v)} :
      \* relative to the largest row
      LET s == RMaxAbs(w) IN RowsMatch(jv, w, Uncertain(x), s, s)

Probe ==
  /\ ResidualMatches(Ev.x, Ev.r) = TRUE
  /\ (\A e \in {Evaluated(B, h, Ev.x, step.old)} : Kinks(Ev.x, e) \/ Cusps(Ev.x)) = TRUE
     \/ \A k \in 1..Len(Ev.v) : TangentMatches(Ev.x, Ev.v[k], Ev.jv[k]) = TRUE
  /\ UNCHANGED data

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<B, h, X, clock, step, held>>
    [] Ev.e = "mesh" ->
         /\ B' = Body(c, Ev.dofs)
         /\ h' = Records(B')
         /\ X' = External(B')
         /\ UNCHANGED <<c, clock, step, held>>
    [] Ev.e = "step" -> step' = [old |-> Ev.old, dt |-> Ev.dt] /\ held' = {} /\ UNCHANGED <<c, B, h, X, clock>>
    [] Ev.e = "forces" ->
         /\ ResidualMatches(Ev.x, Ev.r) = TRUE
         /\ UNCHANGED data
    [] Ev.e = "tangents" -> Probe
    [] Ev.e = "applied" ->
         /\ held' = {i \in Occurs(B.mesh.g) : i \notin Occurs(Ev.active)}
         /\ UNCHANGED <<c, B, h, X, clock, step>>
    [] Ev.e = "accept" -> /\ h' = Committed(B, h, Ev.x, step.old)
                            /\ clock' = RAdd(clock, step.dt)
                            /\ UNCHANGED <<c, B, X, step, held>>
    [] Ev.e = "fail" -> Ev.limit /\ UNCHANGED data
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
