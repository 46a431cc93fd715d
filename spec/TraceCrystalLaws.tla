--------------------------- MODULE TraceCrystalLaws -------------------------
(* Recorded evaluations of the real laws for real crystals.                  *)
EXTENDS CrystalLaws, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, s
vars == <<run, pos, s>>
Init == run \in 1..Len(Runs) /\ pos = 1 /\ s = [dim |-> 0]
Ev == Runs[run][pos]

Setup(dim, angles, dirs, normals) ==
  LET R == RForce([c \in 1..Len(angles) |-> Rotation(dim, angles[c])]) IN
  [dim |-> dim, R |-> R,
   R3 |-> RForce([c \in 1..Len(angles) |-> Rotation3d(dim, angles[c])]),
   sys |-> RForce([c \in 1..Len(angles) |-> [a \in 1..Len(dirs) |-> SlipSystem(dim, R[c], dirs[a], normals[a])]])]

MMax(A) == RSqrt(MDot(A, A))
Near(A, B) == MClose(A, B, "1e-11", RMul("1e-12", RMax("1e-290", MMax(B))))
NearV(a, b) == RCloseSeq(a, b, "1e-11", RMul("1e-12", RMax("1e-290", VNorm(b))))
(* c = 0: a law without crystals                                             *)
Rot(c) == IF c = 0 THEN MIdent(s.dim) ELSE s.R[c]
Rot3(c) == IF c = 0 THEN MIdent(3) ELSE s.R3[c]

Step ==
  /\ IF Ev.e = "setup" THEN s' = Setup(Ev.dim, Ev.angles, Ev.dirs, Ev.normals)
     ELSE s' = s
  /\ CASE Ev.e = "setup" -> TRUE
       [] Ev.e = "refused" -> Ev.exc = TRUE
       [] Ev.exc -> FALSE
       [] Ev.e = "strain" ->
            \A sys \in {s.sys[Ev.c]} :
            /\ Near(Ev.el, ElasticStrain(sys, Ev.number, Ev.strain, Ev.slips, Ev.q))
            /\ Near(Ev.pl, PlasticStrain(sys, s.dim, Ev.slips, Ev.q))
       [] Ev.e = "stress" ->
            /\ Near(Ev.stress, Stress(Ev.law, Ev.chr, Rot(Ev.c), Ev.strain))
            /\ Near(Ev.stress1, Stress(Ev.law, Ev.chr, Rot(Ev.c), Ev.strain))
            /\ Near(Ev.stress3, Stress(Ev.law, Ev.chr, Rot3(Ev.c), Ev.strain3))
       [] Ev.e = "resolved" ->
            RClose(Ev.value, ResolvedShear(s.sys[Ev.c][Ev.a], Ev.stress), "1e-11", RMul("1e-13", MNorm(Ev.stress)))
       [] Ev.e = "scalar" ->
            RClose(Ev.value, ScalarMicrostress(Ev.law, Ev.slip, Ev.old, Ev.g, Ev.dt), "1e-11", RMul("1e-14", Ev.g))
       [] Ev.e = "tangent" ->
            \A t \in {ScalarTangent(Ev.law, Ev.slips, Ev.old, Ev.g, Ev.dt, Ev.q)} :
              Near(Ev.value, t)
       [] Ev.e = "vector" ->
            \A y \in {s.sys[Ev.c][Ev.a]} :
            /\ NearV(Ev.value, VectorMicrostress(Ev.law, y, Ev.grad))
            /\ IF HasVectorTangent(Ev.law, y, Ev.grad)
               THEN Near(Ev.tangent, VectorTangent(Ev.law, y, Ev.grad))
               ELSE \A i, j \in 1..s.dim : RIsFinite(Ev.tangent[i][j])

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
