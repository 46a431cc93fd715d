--------------------------- MODULE InterfaceLaws ----------------------------
(* Tractions across a grain boundary: cohesion, contact and degradation.     *)
(*                                                                           *)
(* u: opening displacement (other side minus own side) made dimensionless by *)
(* chru, n: unit normal, outward from the own side.  Cohesive law:           *)
(* [Tc, dc, beta, chrs, chru] -- strength, opening at the strength, ratio of *)
(* tangential to normal stiffness, characteristic stress and displacement.   *)
EXTENDS Tensors

Normal(u, n) == RDot(u, n)
Tangential(u, n) == VSub(u, VScale(Normal(u, n), n))

(* only opening counts in the normal direction                               *)
Weighted(law, u, n) ==
  VAdd(VScale(RPos(Normal(u, n)), n), VScale(RSq(law.beta), Tangential(u, n)))
Effective(law, u, n) ==
  LET t == Tangential(u, n) IN
  RSqrt(RAdd(RSq(RPos(Normal(u, n))), RMul(RSq(law.beta), RDot(t, t))))

(* free energy per area of an opening d (in units of length) never unloaded  *)
CohesiveEnergy(law, d) ==
  LET x == RDiv(d, law.dc) IN
  RMul(RMul(RMul(law.Tc, law.dc), RExp(R1)), RSub(R1, RMul(RAdd(R1, x), RExp(RNeg(x)))))
(* secant stiffness of the envelope                                          *)
Secant(law, d) == RMul(RDiv(law.Tc, law.dc), RExp(RSub(R1, RDiv(d, law.dc))))

(* loading: the opening is the largest reached and not shrinking             *)
Loading(eff, max, old) == REq(eff, max) /\ RGe(eff, old)
(* the opening that governs the stiffness is the largest one; loading and    *)
(* unloading therefore differ in the tangent only                            *)
CohesiveTraction(law, u, n, max) ==
  VScale(RDiv(RMul(Secant(law, RMul(law.chru, max)), law.chru), law.chrs), Weighted(law, u, n))
(* derivative with respect to the opening in units of length; a: value of    *)
(* the step function at the normal opening (any between 0 and 1 at the kink) *)
WeightTensor(law, n, a) ==
  MAdd(MScale(a, Dyad(n, n)), MScale(RSq(law.beta), MSub(MIdent(Len(n)), Dyad(n, n))))
CohesiveTangent(law, u, n, max, loading, a) ==
  LET eff == Effective(law, u, n)
      w == Weighted(law, u, n)
      d == IF REq(eff, R0) THEN w ELSE VScale(RDiv(R1, eff), w)
      x == RDiv(RMul(law.chru, eff), law.dc)
      S == RDiv(Secant(law, RMul(law.chru, max)), law.chrs)
  IN  MScale(S, IF loading THEN MSub(WeightTensor(law, n, a), MScale(x, Dyad(d, d)))
                ELSE WeightTensor(law, n, a))
StepAt(x) == IF RLt(R0, x) THEN {R1} ELSE IF RLt(x, R0) THEN {R0} ELSE {R0, R1}

(* contact: [k, chrs, chru]                                                  *)
ContactTraction(law, u, n) ==
  VScale(RNeg(RMul(RDiv(RMul(law.k, law.chru), law.chrs), RPos(RNeg(Normal(u, n))))), n)
ContactTangent(law, n, a) == MScale(RMul(a, RDiv(law.k, law.chrs)), Dyad(n, n))

Degradation(exponent, damage, coupled) ==
  IF coupled THEN RPow(RSub(R1, damage), exponent) ELSE R1
DegradationSlope(exponent, damage) ==
  IF REq(exponent, R0) THEN R0
  ELSE RMul(RNeg(exponent), RPow(RSub(R1, damage), RSub(exponent, R1)))
=============================================================================
