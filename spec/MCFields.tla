------------------------------ MODULE MCFields ------------------------------
(* The strips of MCWeakForm and their deformations: relations between what   *)
(* is reported about them.                                                   *)
EXTENDS MCWeakForm, Fields

Ends2 == {R0, "0.5", R1}
Points == {<<j, <<s, t>>>> : j \in 1..2, s \in {R0, R1}, t \in Ends2}
NoStrain == MZero(2)
Strained == <<<<"1e-3", "2e-3">>, <<"2e-3", "-4e-3">>>>
State(p) == PointState(B, p[1], p[2], x, Strained)
U == Units(B.cfg, FALSE)

Scale(A) == RAdd("1e-30", MNorm(A))
(* in the units of the output total is elastic plus plastic strain           *)
Additive ==
  \A p \in Points : \A s \in {State(p)} :
    MClose(MScale(U.strain, s.strain), MAdd(MScale(U.strain, s.elastic), s.plastic), "1e-10", "1e-15")
(* stresses are those of the elastic strain, in the plane as in the balances *)
Hooke ==
  \A j \in 1..2 : \A q \in 1..9 : \A g \in {Grid(2)[q]} :
    \A s \in {PointState(B, j, At(g), x, NoStrain)}, w \in {Stresses(B, j, x)[q]} :
      RCloseSeq(<<s.stress[1][1], s.stress[1][2], s.stress[2][1], s.stress[2][2]>>, w, "1e-9", RMul("1e-11", RMaxAbs(w)))
Plane ==
  \A p \in Points : \A s \in {State(p)} :
    /\ \A k \in 1..3 : REq(s.strain[k][3], R0) /\ REq(s.elastic[k][3], R0)
    /\ RClose(s.stress[1][3], R0, R0, RMul("1e-12", Scale(s.stress)))
VonMises ==
  \A p \in Points : \A s \in {State(p)} :
    /\ RLe(R0, VonMisesStress(s.stress))
    \* independent of pressure and orientation
    /\ RClose(VonMisesStress(s.stress), VonMisesStress(MAdd(s.stress, MScale("100.0", MIdent(3)))), "1e-9", "1e-9")
    /\ \A Q \in {Rotation(3, <<"20.0", "30.0", "70.0">>)} :
         RClose(VonMisesStress(s.stress), VonMisesStress(MatMul(Q, MatMul(s.stress, Transp(Q)))), "1e-10", "1e-12")
    \* pure shear and uniaxial tension
    /\ RClose(VonMisesStress(<<<<R0, R1, R0>>, <<R1, R0, R0>>, <<R0, R0, R0>>>>), RSqrt("3.0"), "1e-14", R0)
    /\ RClose(VonMisesStress(<<<<R1, R0, R0>>, <<R0, R0, R0>>, <<R0, R0, R0>>>>), R1, "1e-14", R0)
    /\ RClose(VonMisesStrain(<<<<R1, R0, R0>>, <<R0, "-0.5", R0>>, <<R0, R0, "-0.5">>>>), R1, "1e-14", R0)
(* slips do not change the volume                                            *)
Isochoric == \A p \in Points : \A s \in {State(p)} : RClose(Trace(s.plastic), R0, R0, "1e-15")
(* a translation changes nothing but the displacements                       *)
Moved ==
  \A shift \in {RForce([i \in 1..B.mesh.n |-> IF Kind(B.mesh.dofs[i]) = 0 THEN "0.01" ELSE R0])} :
    \A p \in Points : \A s \in {State(p)}, m \in {PointState(B, p[1], p[2], VAdd(x, shift), Strained)} :
      /\ MClose(s.stress, m.stress, "1e-9", "1e-8") /\ m.slips = s.slips /\ m.edge = s.edge
      /\ RCloseSeq(m.u, VAdd(s.u, <<"0.01", "0.01">>), "1e-12", R0)

(* neighbouring elements agree on the displacements of a coherent body       *)
Coherent ==
  ~B.cfg.deco => \A s \in {R0, R1} : \A a \in {PointState(B, 1, <<s, R1>>, x, NoStrain)}, b2 \in {PointState(B, 2, <<s, R0>>, x, NoStrain)} :
                   RCloseSeq(a.u, b2.u, "1e-14", "1e-18")

Mean2 == Averages(B, x, Strained)
Upper1 == CHOOSE i \in 1..B.mesh.n : Kind(B.mesh.dofs[i]) = 0 /\ Number(B.mesh.dofs[i]) = 1 /\ Y(B.mesh.dofs[i]) = 4
(* the mean strain of a coherent body is the one prescribed at its ends      *)
Prescribed2 ==
  ~B.cfg.deco =>
    \A a \in {Mean2} :
      MClose(a.own, Full(<<<<R0, RDiv(RMul("0.5", x[Upper1]), B.cfg.height)>>,
                           <<RDiv(RMul("0.5", x[Upper1]), B.cfg.height), R0>>>>), "1e-10", "1e-16")
Deviations ==
  \A a \in {Mean2} :
    /\ MClose(MSub(a.strain, a.own), Full(Strained), "1e-10", "1e-15")
    \* stress is linear in the strain
    /\ MClose(MSub(a.stress, a.ownstress),
              MScale("0.5", MAdd(FullStress(B, 1, Strained), FullStress(B, 2, Strained))), "1e-9", "1e-8")
(* averages are those of the point values                                    *)
MeanOfPoints ==
  \A a \in {Averages(B, x, NoStrain)} :
    \A all \in {RForce([j \in 1..2 |-> Stresses(B, j, x)])} :
      \A m \in {MeanOver(B, LAMBDA j : all[j])} :
        RCloseSeq(m, <<a.stress[1][1], a.stress[1][2], a.stress[2][1], a.stress[2][2]>>, "1e-9", RAdd("1e-9", RMul("1e-11", RMaxAbs(m))))

(* damage: uniform damage is reported as such, the mean is one               *)
Damages == IF Len(h.face) = 0 THEN <<>> ELSE [q \in 1..Len(B.wf) |-> h.face[1][q].d]
MeanBounded ==
  Len(h.face) > 0 =>
    /\ \E q \in 1..3 : RLe(MeanDamage(B, h), RAdd(Damages[q], "1e-15"))
    /\ \E q \in 1..3 : RLe(Damages[q], RAdd(MeanDamage(B, h), "1e-15"))
Uniform ==
  Len(h.face) > 0 =>
    \A u \in {[h EXCEPT !.face = [f \in 1..1 |-> [q \in 1..3 |-> [h.face[1][q] EXCEPT !.d = "0.3"]]]]} :
      /\ RClose(MeanDamage(B, u), "0.3", "1e-14", R0)
      /\ \A a \in 0..2 : RClose(DamageAt(B, u, <<a, 2, 0>>), "0.3", "1e-13", R0)
      /\ REq(DamageAt(B, u, <<0, 1, 0>>), R0)
=============================================================================
