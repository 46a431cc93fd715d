---------------------------- MODULE MCCrystalLaws ---------------------------
(* A material point is strained, slipped and its slip gradient changed in    *)
(* steps from a lattice, in crystals of several orientations and under all   *)
(* laws; at every state the laws have the properties claimed of them.        *)
EXTENDS CrystalLaws, TLC, FiniteSets

CONSTANTS Kinds, Rates, Gradients, Powers, Depth
VARIABLES c, kind, p, rate, last, grad, strain, n
vars == <<c, kind, p, rate, last, grad, strain, n>>

Angles == <<<<"0.0", "0.0", "0.0">>, <<"30.0", "0.0", "0.0">>, <<"21.0", "47.0", "-33.0">>>>
Dirs == <<<<"1.0", "0.0", "0.0">>, <<"0.0", "1.0", "-1.0">>>>
Normals == <<<<"0.0", "1.0", "0.0">>, <<"1.0", "1.0", "1.0">>>>
Rot == RForce([i \in 1..Len(Angles) |-> Rotation(3, Angles[i])])
Systems == RForce([i \in 1..Len(Angles) |-> [a \in 1..2 |-> SlipSystem(3, Rot[i], Dirs[a], Normals[a])]])
Cubic == [C1111 |-> "170.0", C1122 |-> "120.0", C1212 |-> "75.0"]
Strains == {<<<<"1e-3", "0.0", "0.0">>, <<"0.0", "0.0", "0.0">>, <<"0.0", "0.0", "0.0">>>>,
            <<<<"0.0", "2e-3", "0.0">>, <<"2e-3", "0.0", "-1e-3">>, <<"0.0", "-1e-3", "1e-3">>>>}

Init == /\ c \in 1..Len(Angles) /\ kind \in Kinds /\ p \in Powers /\ n = 0
        /\ rate = R0 /\ last = R0 /\ grad = <<R0, R0, R0>> /\ strain = MZero(3)
Strain == \E e \in Strains : strain' = MAdd(strain, e) /\ UNCHANGED <<rate, last, grad>>
Slip == \E r \in Rates : rate' = r /\ last' = rate /\ UNCHANGED <<grad, strain>>
Bend == \E i \in 1..3, g \in Gradients :
          grad' = [grad EXCEPT ![i] = RAdd(grad[i], g)] /\ UNCHANGED <<rate, last, strain>>
Next == n < Depth /\ n' = n + 1 /\ (Strain \/ Slip \/ Bend) /\ UNCHANGED <<c, kind, p>>
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
K == "0.01"                                   \* regularisation parameter
F(x) == Smooth(kind, K, x)
Sign == /\ RClose(F(RNeg(rate)), RNeg(F(rate)), "1e-13", "1e-15")
        /\ RLe(RAbs(F(rate)), R1)
        /\ RLe(rate, last) => RLe(F(rate), F(last))
        /\ REq(F(R0), R0) /\ RClose(RMul(K, SmoothSlope(kind, K, R0)), R1, "1e-13", R0)
H == "1e-6"
Slope == RClose(SmoothSlope(kind, K, rate),
                RDiv(RSub(F(RAdd(rate, H)), F(RSub(rate, H))), RMul(R2, H)), "1e-5", "1e-7")

Law == [g0 |-> "3.0", l |-> "0.5", p |-> p, dimless |-> FALSE]
Probe(i, h) == [grad EXCEPT ![i] = RAdd(grad[i], h)]
Defect ==
  \A a \in 1..2 :
    \A s \in {Systems[c][a]} : \A x \in {VectorMicrostress(Law, s, grad)} :
      /\ \A i \in 1..3 :
           RClose(x[i], RDiv(RSub(DefectEnergy(Law, s, Probe(i, H)), DefectEnergy(Law, s, Probe(i, RNeg(H)))),
                             RMul(R2, H)), "1e-4", "2e-3")
      /\ RClose(RDot(x, s.normal), R0, R0, "1e-10")      \* in the slip plane
      /\ RGe(RDot(x, grad), R0)
      /\ (RGe(p, R2)) => \A t \in {VectorTangent(Law, s, grad)} : \A i, j \in 1..3 :
           RClose(t[i][j], RDiv(RSub(VectorMicrostress(Law, s, Probe(j, H))[i],
                                     VectorMicrostress(Law, s, Probe(j, RNeg(H)))[i]), RMul(R2, H)), "1e-4", "1e-5")

Elastic ==
  \A s \in {Stress(Cubic, "100.0", Rot[c], strain)} :
    /\ MClose(s, Transp(s), "1e-12", "1e-15")
    /\ RGe(MDot(s, strain), R0)
    /\ RClose(Trace(s), RMul("4.1", Trace(strain)), "1e-12", "1e-15")   \* bulk response
    /\ \A a \in 1..2 : RClose(ResolvedShear(Systems[c][a], s), MDot(s, Systems[c][a].sym), "1e-12", "1e-15")
(* plastic strain keeps the volume                                           *)
Plastic ==
  \A e \in {PlasticStrain(Systems[c], 3, <<<<rate>>, <<last>>>>, 1)} :
    /\ RClose(Trace(e), R0, R0, "1e-15")
    /\ MClose(MAdd(ElasticStrain(Systems[c], R1, strain, <<<<rate>>, <<last>>>>, 1), e), strain, R0, "1e-15")
=============================================================================
