---------------------------- MODULE CrystalLaws -----------------------------
(* The constitutive laws of the crystals.                                    *)
(*                                                                           *)
(* A crystal is given by its rotation R and its slip systems (records of     *)
(* CrystalFiles!SlipSystem); tensors are matrices of reals.                  *)
EXTENDS CrystalFiles

(* slips[a][q]: value of slip a at quadrature point q                        *)
PlasticStrain(systems, dim, slips, q) ==
  LET RECURSIVE S(_)
      S(a) == IF a = 0 THEN MZero(dim) ELSE MAdd(S(a - 1), MScale(slips[a][q], systems[a].sym))
  IN  S(Len(systems))
ElasticStrain(systems, number, strain, slips, q) ==
  MSub(strain, MScale(number, PlasticStrain(systems, Len(strain), slips, q)))

(* cubic elasticity in the axes of the crystal                               *)
CubicStress(prm, chr, e) ==
  RForce([i \in 1..Len(e) |-> [j \in 1..Len(e) |->
    RDiv(IF i = j THEN RAdd(RMul(prm.C1111, e[i][i]), RMul(prm.C1122, RSub(Trace(e), e[i][i])))
         ELSE RMul("2.0", RMul(prm.C1212, e[i][j])), chr)]])
(* ... carried into the axes of the body                                     *)
Stress(prm, chr, R, e) ==
  MatMul(R, MatMul(CubicStress(prm, chr, MatMul(Transp(R), MatMul(e, R))), Transp(R)))

ResolvedShear(system, stress) == MDot(stress, system.schmid)

-----------------------------------------------------------------------------
(* smooth signs and their derivatives                                        *)
HalfPi == RDiv(RPi, "2.0")
Smooth(kind, p, x) ==
  LET z == RDiv(x, p) IN
  CASE kind = "atan" -> RDiv(RAtan(RMul(HalfPi, z)), HalfPi)
    [] kind = "sqrt" -> RDiv(z, RSqrt(RAdd(R1, RSq(z))))
    [] kind = "gd" -> RDiv(RMul("2.0", RAtan(RTanh(RMul("0.5", RMul(HalfPi, z))))), HalfPi)
    [] kind = "tanh" -> RTanh(z)
    [] kind = "erf" -> RErf(RMul(RDiv(RSqrt(RPi), "2.0"), z))
SmoothSlope(kind, p, x) ==
  LET z == RDiv(x, p) IN
  RDiv(CASE kind = "atan" -> RDiv(R1, RAdd(R1, RSq(RMul(HalfPi, z))))
         [] kind = "sqrt" -> RDiv(R1, RPow(RAdd(R1, RSq(z)), "1.5"))
         [] kind = "gd" -> RDiv(R1, RCosh(RMul(HalfPi, z)))
         [] kind = "tanh" -> RDiv(R1, RSq(RCosh(z)))
         [] kind = "erf" -> RExp(RNeg(RMul(RDiv(RPi, "4.0"), RSq(z)))), p)

(* law: [kind, p, H, q, chr (strings), perfect, indep (booleans)]            *)
SignOf(law, rate) == IF law.indep THEN RSgn(rate) ELSE Smooth(law.kind, law.p, rate)
ScalarMicrostress(law, slip, old, g, dt) ==
  RMul(g, SignOf(law, RDiv(RSub(slip, old), dt)))
ScalarTangent(law, slips, old, g, dt, q) ==
  LET n == Len(slips)
      rate == RForce([a \in 1..n |-> RDiv(RSub(slips[a][q], old[a][q]), dt)])
      sign == RForce([a \in 1..n |-> SignOf(law, rate[a])])
      H(a, b) == IF law.perfect THEN R0
                 ELSE RMul(RDiv(law.H, law.chr), IF a = b THEN R1 ELSE law.q)
  IN  RForce([a \in 1..n |-> [b \in 1..n |->
        RAdd(RMul(H(a, b), RMul(sign[a], sign[b])),
             IF a = b /\ ~law.indep
             THEN RMul(RDiv(g[a], dt), SmoothSlope(law.kind, law.p, rate[a])) ELSE R0)]])

-----------------------------------------------------------------------------
(* defect energy factor/p (|s.grad|^p + |t.grad|^p), s the slip direction, t *)
(* the direction across it in the slip plane (none in two dimensions)        *)
DefectFactor(law) == IF law.dimless THEN R1 ELSE RMul(law.g0, RPow(law.l, law.p))
DefectEnergy(law, system, grad) ==
  RMul(RDiv(DefectFactor(law), law.p),
       RAdd(RPow(RAbs(RDot(system.dir, grad)), law.p), RPow(RAbs(RDot(system.orth, grad)), law.p)))
Power(x, p) == IF REq(x, R0) THEN R0 ELSE RMul(RSgn(x), RPow(RAbs(x), p))
VectorMicrostress(law, system, grad) ==
  VScale(DefectFactor(law),
         VAdd(VScale(Power(RDot(system.dir, grad), RSub(law.p, R1)), system.dir),
              VScale(Power(RDot(system.orth, grad), RSub(law.p, R1)), system.orth)))
(* the tangent exists unless a projection vanishes and p < 2                 *)
HasVectorTangent(law, system, grad) ==
  RGe(law.p, R2) \/ (/\ ~REq(RDot(system.dir, grad), R0)
                     /\ REq(VNorm(system.orth), R0) \/ ~REq(RDot(system.orth, grad), R0))
VectorTangent(law, system, grad) ==
  LET w(v) == IF REq(RDot(v, grad), R0) /\ RLt(law.p, R2) THEN R0
              ELSE RPow(RAbs(RDot(v, grad)), RSub(law.p, R2))
  IN  MScale(RMul(DefectFactor(law), RSub(law.p, R1)),
             MAdd(MScale(w(system.dir), Dyad(system.dir, system.dir)),
                  MScale(w(system.orth), Dyad(system.orth, system.orth))))
=============================================================================
