----------------------------- MODULE MCWeakForm -----------------------------
(* A strip of two crystals is deformed by iterates from a lattice of fields  *)
(* and its steps are committed; at every state the balances have the         *)
(* properties claimed of them.                                               *)
EXTENDS WeakForm, TLC

CONSTANTS Bodies, Depth, Fields
VARIABLES b, x, old, h, n
vars == <<b, x, old, h, n>>

Base ==
  [dim |-> 2, macrostrain |-> <<>>, loads |-> [supply |-> <<>>, tractions |-> <<>>], height |-> "1.0", ne |-> 2, nc |-> 2, du |-> 1, ds |-> 1, bc |-> "microfree", deco |-> FALSE, dimless |-> FALSE,
   chars |-> [u |-> "0.01", l |-> "1.0", g |-> "60.0", c |-> "28500.0"],
   load |-> [cyclic |-> FALSE, max |-> "0.01", dur |-> "1.0", n |-> 1],
   hard |-> [g0 |-> "40.0", H |-> "100.0", q |-> "1.4", perfect |-> FALSE],
   hooke |-> <<"107942.0", "61246.0", "28500.0">>,
   scalar |-> [ri |-> TRUE, fn |-> "tanh", p |-> "0.1"],
   vect |-> [n |-> "2.0", l |-> "0.3", g0 |-> "60.0"],
   cohesive |-> [delta |-> "2.5e-2", t |-> "300.0", beta |-> "0.7"], contact |-> "1e4", micro |-> "1e3",
   damage |-> [macro |-> FALSE, micro |-> FALSE, acc |-> "0.5", decay |-> "0.1", exp |-> "1.0", model |-> "OrtizEtAl",
               endurance |-> "0.0", zero |-> FALSE, deg |-> "2.0"],
   euler |-> <<<<"10.0">>, <<"55.0">>>>,
   directions |-> <<<<"0.5", "0.8660254037844386">>, <<"-0.5", "0.8660254037844386">>>>,
   normals |-> <<<<"-0.8660254037844386", "0.5">>, <<"-0.8660254037844386", "-0.5">>>>]
Config(k) ==
  CASE k = "free" -> Base
    [] k = "rate" -> [Base EXCEPT !.scalar = [ri |-> FALSE, fn |-> "tanh", p |-> "0.1"], !.hard.perfect = TRUE, !.vect.n = "3.0"]
    [] k = "dimless" -> [Base EXCEPT !.dimless = TRUE]
    [] k = "interacting" -> [Base EXCEPT !.bc = "microtraction"]
    [] k = "opening" -> [Base EXCEPT !.deco = TRUE]
    [] k = "damaged" -> [Base EXCEPT !.deco = TRUE, !.bc = "microtraction", !.damage.macro = TRUE, !.damage.micro = TRUE]
    [] k = "fatigue" -> [Base EXCEPT !.deco = TRUE, !.damage.macro = TRUE, !.damage.model = "M1"]

(* the unknowns of the strip of two linear elements                          *)
Nodes == <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 2, 0>>, <<0, 4, 0>>, <<2, 4, 0>>>>
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Dofs(c) ==
  LET at(kind, number, crystal) ==
        LET here == SelectSeq(Nodes, LAMBDA p : crystal = 0 \/ (p[2] >= 2 * (crystal - 1) /\ p[2] <= 2 * crystal))
        IN  [i \in 1..Len(here) |-> <<kind, number, crystal, 1>> \o here[i]]
      u == IF c.deco THEN <<at(0, 1, 1), at(0, 2, 1), at(0, 1, 2), at(0, 2, 2)>> ELSE <<at(0, 1, 0), at(0, 2, 0)>>
      g == <<at(1, 1, 1), at(1, 2, 1), at(1, 1, 2), at(1, 2, 2)>>
  IN  RForce(Flatten(u \o g))
Built == [k \in Bodies |-> Body(Config(k), Dofs(Config(k)))]
B == Built[b]

(* fields: f-th field of values without symmetry; tied unknowns are equal    *)
Number0(d) == ROfInt(d[1] * 7 + d[2] * 3 + d[3] * 5 + d[6])
Field(f, kinds) ==
  RForce([i \in 1..B.mesh.n |->
    LET d == B.mesh.dofs[i] IN
    IF d[1] \notin kinds \/ (B.mesh.locked[i] /\ ~(d[1] = 0 /\ d[2] = 1 /\ d[6] = 4)) THEN R0
    ELSE RMul(IF d[1] = 0 THEN "3e-3" ELSE "2e-3", RSin(RMul(ROfInt(f), RAdd("0.7", Number0(d)))))])

Dt == "0.5"
Zero == RForce([i \in 1..B.mesh.n |-> R0])
Init == /\ b \in Bodies /\ n = 0
        /\ x = Zero /\ old = Zero /\ h = Records(B)
Iterate == \E f \in Fields : x' = VAdd(x, Field(f, {0, 1})) /\ UNCHANGED <<old, h>>
Commit == x # old /\ h' = Committed(B, h, x, old) /\ old' = x /\ UNCHANGED x
Next == n < Depth /\ n' = n + 1 /\ (Iterate \/ Commit) /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
R(y) == ResidualOf(B, Evaluated(B, h, y, old), y, old, Dt)
Undeformed == n = 0 => \A k \in 1..Len(R(x)) : REq(R(x)[k], R0)

(* no net force, however the boundaries have opened                          *)
Equilibrium ==
  \A L \in {LocalResidual(B, Evaluated(B, h, x, old), x, old, Dt)} :
    \A a \in 1..2 :
      \A all \in {Flatten([j \in 1..2 |-> L[j][a]])} :
        RLe(RAbs(RSum(all)), RMul("1e-11", RAdd(R1, RMaxAbs(all))))

(* a translation of the whole strip costs nothing                            *)
Translation ==
  \A shift \in {RForce([i \in 1..B.mesh.n |-> IF Kind(B.mesh.dofs[i]) = 0 THEN RMul("0.01", ROfInt(Number(B.mesh.dofs[i]))) ELSE R0])} :
    \A r \in {R(x)}, s \in {R(VAdd(x, shift))} : RCloseSeq(r, s, "1e-9", "1e-8")

(* a prescribed macroscopic strain acts as the displacements of that strain  *)
Stretch == <<"2e-3", "-1e-3", "-1e-3", "3e-3">>
Affine ==
  RForce([i \in 1..B.mesh.n |->
    LET d == B.mesh.dofs[i] IN
    IF d[1] # 0 THEN R0
    ELSE RAdd(RMul(Stretch[2 * d[2] - 1], RMul("0.25", ROfInt(d[5]))),
              RMul(Stretch[2 * d[2]], RMul(RMul("0.25", B.cfg.height), ROfInt(d[6]))))])
MacroscopicStrain ==
  \A e \in {Evaluated(B, h, x, old)} :
    \A r \in {ResidualOf([B EXCEPT !.macro = Stretch], e, x, old, Dt)},
       s \in {ResidualOf(B, e, VAdd(x, Affine), old, Dt)} :
      RCloseSeq(r, s, "1e-9", RMul("1e-9", RMaxAbs(s)))

(* external forces balance a stress field S + y T which they are those of    *)
S0 == <<"3.0", "-2.0", "-2.0", "5.0">>
T0 == <<"1.5", "4.0", "4.0", "-7.0">>
Slope(a) == <<R0, T0[a], R0, T0[a + 2]>>       \* of the forces in direction a
Forced ==
  [B EXCEPT !.f = R1,
            !.cfg.loads = [supply |-> <<<<RNeg(T0[2]), RNeg(T0[4])>>, VZero(4)>>,
              tractions |-> <<<<0, VScale("-1.0", <<S0[1], S0[3]>>), VScale("-1.0", Slope(1))>>,
                              <<1, <<S0[1], S0[3]>>, Slope(1)>>,
                              <<2, VScale("-1.0", <<S0[2], S0[4]>>), VScale("-1.0", Slope(2))>>,
                              <<3, <<S0[2], S0[4]>>, Slope(2)>>>>]]
Balanced(j) ==
  LET c == B.cfg
      none == VZero(Len(B.w))
      stress == [q \in 1..Len(B.w) |-> VAdd(S0, VScale(PlaceOf(c, j, At(Grid(2)[q]))[2], T0))]
  IN  Forces(Forced, j, RForce(stress), [a \in 1..NSlips(B) |-> none], [a \in 1..NSlips(B) |-> <<none, none>>])
ExternalForces ==
  n = 0 /\ ~B.cfg.deco =>
    \A r \in {Gather(B, RForce([j \in 1..B.cfg.ne |-> Balanced(j)]))}, e \in {ExternalAt(External(Forced), R0)} :
      RCloseSeq(r, VScale("-1.0", e), "1e-11", RMul("1e-11", RMaxAbs(e)))

(* the matrix is the derivative at held damage                               *)
Held(e, d) == [e EXCEPT !.face = [f \in 1..Len(e.face) |-> [q \in 1..Len(B.wf) |-> DSet(e.face[f][q], d.face[f][q].d)]]]
Small == "1e-7"
Derivative ==
  n > 0 =>
  \A e \in {Evaluated(B, h, x, old)} :
    \A f \in {3, 4} :
      \A v \in {Field(f, {0}), Field(f, {1})} :
        \A p \in {VAdd(x, VScale(Small, v))}, m \in {VAdd(x, VScale(RNeg(Small), v))} :
          \A t \in {TangentOf(B, e, x, old, Dt, v)},
             r \in {ResidualOf(B, Held(Evaluated(B, h, p, old), e), p, old, Dt)},
             s \in {ResidualOf(B, Held(Evaluated(B, h, m, old), e), m, old, Dt)} :
            \* not at the kinks: no increment, no opening
            (x = old) \/ RCloseSeq(t, VScale(RDiv("-0.5", Small), VSub(r, s)), "1e-5", RMul("1e-5", RMaxAbs(t)))
(* ... and symmetric                                                         *)
Row(v) == RForce([k \in 1..Len(B.rows) |-> v[B.rows[k]]])
Symmetric ==
  \A e \in {Evaluated(B, h, x, old)} :
    \A v \in {Field(3, {0, 1})}, w \in {Field(5, {0, 1})} :
      \* within the unconstrained unknowns
      \A v0 \in {RForce([i \in 1..B.mesh.n |-> IF B.mesh.locked[i] THEN R0 ELSE v[i]])},
         w0 \in {RForce([i \in 1..B.mesh.n |-> IF B.mesh.locked[i] THEN R0 ELSE w[i]])} :
        RClose(RDot(Row(w0), TangentOf(B, e, x, old, Dt, v0)), RDot(Row(v0), TangentOf(B, e, x, old, Dt, w0)), "1e-9", "1e-9")
=============================================================================
