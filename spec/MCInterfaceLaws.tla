--------------------------- MODULE MCInterfaceLaws --------------------------
(* A point of a grain boundary opens, slides, closes and the largest opening *)
(* is committed step by step.                                                *)
EXTENDS InterfaceLaws, TLC
CONSTANTS Betas, Depth
VARIABLES law, u, max, old, k, energy
vars == <<law, u, max, old, k, energy>>

Moves == {<<"0.3", "0.4">>, <<"-0.15", "-0.2">>, <<"0.16", "-0.12">>, <<"-0.3", "0.1">>}
n == <<"0.6", "0.8">>
Q == <<<<"0.28", "-0.96">>, <<"0.96", "0.28">>>>       \* a rotation
Contact == [k |-> "50.0", chrs |-> "2.0", chru |-> "0.1"]
Init == /\ \E b \in Betas : law = [Tc |-> "10.0", dc |-> "0.05", beta |-> b, chrs |-> "2.0", chru |-> "0.1"]
        /\ u = <<R0, R0>> /\ max = R0 /\ old = R0 /\ k = 0 /\ energy = R0
Eff(v) == Effective(law, v, n)
(* energy: lower bound of the work put in, by the trapezoidal rule on many   *)
(* small pieces of the way                                                   *)
Pieces == 20
At(a, b, i) == VAdd(a, VScale(RDiv(ROfInt(i), ROfInt(Pieces)), VSub(b, a)))
RECURSIVE Work(_, _, _, _)
Work(a, b, m, i) ==
  IF i = Pieces THEN R0
  ELSE LET x == At(a, b, i)
           y == At(a, b, i + 1)
           m1 == RMax(m, Eff(x))
           m2 == RMax(m1, Eff(y))
       IN  RAdd(RMul("0.5", RDot(VAdd(CohesiveTraction(law, x, n, m1), CohesiveTraction(law, y, n, m2)), VSub(y, x))),
                Work(a, b, m2, i + 1))
Move == \E d \in Moves : \A w \in {RForce(VAdd(u, d))} :
          /\ u' = w /\ energy' = RAdd(energy, Work(u, w, max, 0))
          /\ max' = RMax(max, Eff(w)) /\ old' = Eff(u)
Next == k < Depth /\ k' = k + 1 /\ UNCHANGED law /\ Move
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Z == "1e-12"
H == "1e-7"
Shift(v, i, h) == [v EXCEPT ![i] = RAdd(v[i], h)]
T(v, m) == CohesiveTraction(law, v, n, m)
(* the first loading follows the energy                                      *)
Potential ==
  RLt("1e-3", Eff(u)) /\ ~RClose(Normal(u, n), R0, R0, "1e-6") =>
    \A i \in 1..2 :
      RClose(RMul(RMul(law.chrs, law.chru), T(u, Eff(u))[i]),
             RDiv(RSub(CohesiveEnergy(law, RMul(law.chru, Eff(Shift(u, i, H)))),
                       CohesiveEnergy(law, RMul(law.chru, Eff(Shift(u, i, RNeg(H)))))), RMul(R2, H)), "1e-5", "1e-6")
Tangents ==
  ~RClose(Normal(u, n), R0, R0, "1e-6") /\ RLt("1e-3", Eff(u)) =>
    \A a \in StepAt(Normal(u, n)), i, j \in 1..2 :
      /\ RClose(RMul(law.chru, CohesiveTangent(law, u, n, Eff(u), TRUE, a)[i][j]),
                RDiv(RSub(T(Shift(u, j, H), Eff(Shift(u, j, H)))[i], T(Shift(u, j, RNeg(H)), Eff(Shift(u, j, RNeg(H))))[i]), RMul(R2, H)),
                "1e-5", "1e-5")
      /\ RClose(RMul(law.chru, CohesiveTangent(law, u, n, max, FALSE, a)[i][j]),
                RDiv(RSub(T(Shift(u, j, H), max)[i], T(Shift(u, j, RNeg(H)), max)[i]), RMul(R2, H)), "1e-5", "1e-5")
      /\ RClose(RMul(law.chru, ContactTangent(Contact, n, RSub(R1, a))[i][j]),
                RDiv(RSub(ContactTraction(Contact, Shift(u, j, H), n)[i], ContactTraction(Contact, Shift(u, j, RNeg(H)), n)[i]),
                     RMul(R2, H)), "1e-6", "1e-6")
(* turning the body turns the tractions                                      *)
Objective ==
  /\ RCloseSeq(CohesiveTraction(law, MatVec(Q, u), MatVec(Q, n), max), MatVec(Q, T(u, max)), Z, Z)
  /\ RCloseSeq(ContactTraction(Contact, MatVec(Q, u), MatVec(Q, n)), MatVec(Q, ContactTraction(Contact, u, n)), Z, Z)
  (* and the two sides pull each other alike                                 *)
  /\ RCloseSeq(CohesiveTraction(law, VScale("-1.0", u), VScale("-1.0", n), max), VScale("-1.0", T(u, max)), Z, Z)
  /\ RCloseSeq(ContactTraction(Contact, VScale("-1.0", u), VScale("-1.0", n)), VScale("-1.0", ContactTraction(Contact, u, n)), Z, Z)
(* no traction above the strength, none against the contact                  *)
Bounded ==
  /\ RLe(RMul(law.chrs, VNorm(T(u, max))), RMul(RAdd(RMax(R1, law.beta), Z), law.Tc))
  /\ RGe(RDot(T(u, max), n), RNeg(Z))
  /\ RGe(RDot(ContactTraction(Contact, u, n), u), R0)
(* no energy is gained: the work put in is at least what unloading returns   *)
Dissipative ==
  RGe(RAdd(energy, "1e-4"), RMul("0.5", RDot(T(u, max), u)))
=============================================================================
