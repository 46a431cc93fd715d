------------------------- MODULE MCTrialMicrostress -------------------------
(* Trial microstresses of displacement and slip fields from a lattice: the   *)
(* defect stresses only redistribute, and uniform ones leave nothing.        *)
EXTENDS TrialMicrostress, TLC

CONSTANTS Bodies, Fields, Gradients, Depth
GradientsDef == {<<"0.0", "1.0">>, <<"1.0", "-2.0">>}
VARIABLES b, x, old, n
vars == <<b, x, old, n>>

Base ==
  [dim |-> 2, macrostrain |-> <<>>, loads |-> [supply |-> <<>>, tractions |-> <<>>], height |-> "1.5", ne |-> 2, nc |-> 1, du |-> 1, ds |-> 1, bc |-> "microfree", deco |-> FALSE, dimless |-> FALSE,
   chars |-> [u |-> "0.01", l |-> "1.0", g |-> "60.0", c |-> "28500.0"],
   load |-> [cyclic |-> FALSE, max |-> "0.01", dur |-> "1.0", n |-> 1],
   hard |-> [g0 |-> "40.0", H |-> "100.0", q |-> "1.4", perfect |-> FALSE],
   hooke |-> <<"107942.0", "61246.0", "28500.0">>,
   scalar |-> [ri |-> TRUE, fn |-> "tanh", p |-> "0.1"],
   vect |-> [n |-> "2.0", l |-> "0.3", g0 |-> "40.0"],
   cohesive |-> [delta |-> "2.5e-2", t |-> "300.0", beta |-> "0.7"], contact |-> "1e4", micro |-> "1e3",
   damage |-> [macro |-> FALSE, micro |-> FALSE, acc |-> "0.5", decay |-> "0.1", exp |-> "1.0", model |-> "OrtizEtAl",
               endurance |-> "0.0", zero |-> FALSE, deg |-> "2.0"],
   euler |-> <<<<"10.0">>, <<"55.0">>>>,
   directions |-> <<<<"0.5", "0.8660254037844386">>, <<"-0.5", "0.8660254037844386">>>>,
   normals |-> <<<<"-0.8660254037844386", "0.5">>, <<"-0.8660254037844386", "-0.5">>>>]
Config(k) ==
  CASE k = "one" -> Base
    [] k = "cubic" -> [Base EXCEPT !.vect.n = "3.0"]
    [] k = "dimless" -> [Base EXCEPT !.dimless = TRUE]
    [] k = "two" -> [Base EXCEPT !.nc = 2]

Nodes == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 0>>, <<0, 4, 0>>, <<2, 4, 0>>>>
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Dofs(c) ==
  LET at(kind, number, crystal) ==
        LET here == SelectSeq(Nodes, LAMBDA p : \/ crystal = 0 \/ c.nc = 1
                                                \/ p[2] >= 2 * (crystal - 1) /\ p[2] <= 2 * crystal)
        IN  [i \in 1..Len(here) |-> <<kind, number, crystal, 1>> \o here[i]]
      g(k) == at(1, 1, k) \o at(1, 2, k)
  IN  RForce(at(0, 1, 0) \o at(0, 2, 0) \o g(1) \o (IF c.nc = 2 THEN g(2) ELSE <<>>))
Built == [k \in Bodies |-> Body(Config(k), Dofs(Config(k)))]
Outer == [k \in Bodies |-> Faces(Built[k], Dofs(Config(k)))]
B == Built[b]
F == Outer[b]

Number0(d) == ROfInt(d[1] * 7 + d[2] * 3 + d[3] * 5 + d[5] + d[6])
Field(f, kind) ==
  RForce([i \in 1..B.mesh.n |->
    LET d == B.mesh.dofs[i] IN
    IF d[1] # kind THEN R0
    ELSE RMul(IF kind = 0 THEN "3e-3" ELSE "2e-3", RSin(RMul(ROfInt(f), RAdd("0.7", Number0(d)))))])
(* slips which vary linearly                                                 *)
Place(d) == <<RMul("0.25", ROfInt(d[5])), RMul("0.375", ROfInt(d[6]))>>
Linear(g) ==
  RForce([i \in 1..B.mesh.n |->
    LET d == B.mesh.dofs[i] IN
    IF d[1] = 0 THEN R0
    ELSE RMul(RMul("1e-3", ROfInt(d[2])), RAdd(R1, RDot(g, Place(d))))])

Zero == RForce([i \in 1..B.mesh.n |-> R0])
Init == b \in Bodies /\ n = 0 /\ x = Zero /\ old = Zero
Next ==
  /\ n < Depth /\ n' = n + 1 /\ UNCHANGED b
  /\ \/ \E f \in Fields : x' = VAdd(x, Field(f, 0)) /\ UNCHANGED old
     \/ \E f \in Fields : old' = VAdd(old, Field(f, 1)) /\ UNCHANGED x
     \/ \E g \in Gradients : old' = VAdd(old, Linear(g)) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
T == TrialOf(B, F, x, old)
Weights == Spread(B, RForce([j \in 1..B.cfg.ne |-> LocalWeights(B, j)]))
Slips0 == 1..NSlips(B)
Close(p, q, s) == RLe(RAbs(RSub(p, q)), RMul("1e-10", RAdd(R1, s)))

Undeformed == n = 0 => \A t \in {T} : \A i \in 1..B.mesh.n : REq(t[i], R0)
(* the surroundings of the nodes make up the body                            *)
Whole == n = 0 =>
  \A w \in {Weights} : \A a \in Slips0 :
    RClose(RSum([i \in 1..B.mesh.n |-> IF Kind(B.mesh.dofs[i]) = 1 /\ Number(B.mesh.dofs[i]) = a THEN w[i] ELSE R0]),
           RMul("1.5", "0.5"), "1e-12", R0)
(* it is linear in the displacements                                         *)
Superposed ==
  \A y \in {Field(5, 0)} :
    \A t \in {T}, p \in {TrialOf(B, F, VAdd(x, y), old)}, q \in {TrialOf(B, F, y, Zero)} :
      \A s \in {RAdd(RMaxAbs(p), RMaxAbs(q))} :
        \A i \in 1..B.mesh.n : Close(p[i], RAdd(t[i], q[i]), s)
(* slips which vary linearly through one crystal exert no force              *)
Redistributed ==
  B.cfg.nc = 1 /\ n = 0 =>
    \A g \in Gradients : \A y \in {Linear(g)} : \A p \in {TrialOf(B, F, Zero, y)} :
      \* the stress of the slips alone, averaged over the surroundings
      \A q \in {TrialOf([B EXCEPT !.n2 = R0], F, Zero, y)} :
        \A s \in {RMaxAbs(q)} : \A i \in 1..B.mesh.n : Close(p[i], q[i], s)
(* a prescribed macroscopic strain acts as the displacements of that strain  *)
Stretch == <<"2e-3", "-1e-3", "-1e-3", "3e-3">>
Affine ==
  RForce([i \in 1..B.mesh.n |->
    LET d == B.mesh.dofs[i] IN
    IF d[1] # 0 THEN R0
    ELSE RAdd(RMul(Stretch[2 * d[2] - 1], RMul("0.25", ROfInt(d[5]))),
              RMul(Stretch[2 * d[2]], RMul(RMul("0.25", B.cfg.height), ROfInt(d[6]))))])
MacroscopicStrain ==
  \A r \in {TrialOf([B EXCEPT !.macro = Stretch], F, x, old)},
     s \in {TrialOf(B, F, VAdd(x, Affine), old)} :
    RCloseSeq(r, s, "1e-9", RMul("1e-9", RMaxAbs(s)))
=============================================================================
