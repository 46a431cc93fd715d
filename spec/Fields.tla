-------------------------------- MODULE Fields --------------------------------
(* What is reported about a solution: the fields at the corners of the       *)
(* elements, the averages over the body, the stress at its upper end and the *)
(* damage of the grain boundaries.                                           *)
EXTENDS WeakForm

(* values of component k of element j at the point with coordinates t        *)
Degree(B, k) == IF k <= B.cfg.dim THEN B.cfg.du ELSE B.cfg.ds
Offset(B, j, i) == LET d == B.mesh.dofs[i] IN <<d[5], d[6] - 2 * (j - 1), d[7]>>
Extent(B) == LET h == RDiv(R1, ROfInt(B.cfg.ne)) IN <<h, RMul(h, B.cfg.height), h>>
ValueAt(B, j, k, x, t) ==
  LET dof == B.cells[j][k].dof IN
  RSum([i \in 1..Len(dof) |-> RMul(Shape(Degree(B, k), Offset(B, j, dof[i]), t), x[dof[i]])])
SlopeAt(B, j, k, x, t) ==
  LET dof == B.cells[j][k].dof IN
  RForce([b \in 1..B.cfg.dim |->
    RSum([i \in 1..Len(dof) |-> RMul(ShapeSlope(Degree(B, k), Offset(B, j, dof[i]), t, Extent(B), b), x[dof[i]])])])

(* tensors of the plane become tensors of space (plane strain)               *)
Full(A) == RForce([a \in 1..3 |-> [b \in 1..3 |-> IF a <= Len(A) /\ b <= Len(A) THEN A[a][b] ELSE R0]])
Square(n, flat) == RForce([a \in 1..n |-> [b \in 1..n |-> flat[(a - 1) * n + b]]])
FullStress(B, j, elastic) ==
  LET c == B.cfg IN
  Stress([C1111 |-> c.hooke[1], C1122 |-> c.hooke[2], C1212 |-> c.hooke[3]], CharStiffness(c),
         Rotation3d(c.dim, c.euler[B.of[j]]), Full(elastic))
Deviator(A) == LET p == RDiv(Trace(A), "3.0") IN
               RForce([a \in 1..3 |-> [b \in 1..3 |-> IF a = b THEN RSub(A[a][b], p) ELSE A[a][b]]])
VonMisesStress(A) == RMul(RSqrt("1.5"), MNorm(Deviator(A)))
VonMisesStrain(A) == RMul(RSqrt(RDiv(R2, "3.0")), MNorm(Deviator(A)))

(* state of the point t of element j, in the units of the solver; E: strain  *)
(* prescribed on top of the displacements                                    *)
PointState(B, j, t, x, E) ==
  LET n == B.cfg.dim
      ns == NSlips(B)
      s == Systems(B, j)
      slips == RForce([a \in 1..ns |-> ValueAt(B, j, n + a, x, t)])
      slopes == RForce([a \in 1..ns |-> SlopeAt(B, j, n + a, x, t)])
      own == Sym(RForce([a \in 1..n |-> SlopeAt(B, j, a, x, t)]))
      plastic == PlasticStrain(s, n, [a \in 1..ns |-> <<slips[a]>>], 1)
      strain == MAdd(own, E)
      elastic == MSub(strain, MScale(B.n0, plastic))
      density(v(_)) == RSqrt(RSum([a \in 1..ns |-> RSq(RDot(slopes[a], v(s[a])))]))
  IN  [u |-> RForce([a \in 1..n |-> ValueAt(B, j, a, x, t)]),
       slips |-> slips,
       edge |-> density(LAMBDA y : y.dir), screw |-> density(LAMBDA y : y.orth),
       own |-> Full(own), strain |-> Full(strain), plastic |-> Full(plastic), elastic |-> Full(elastic),
       stress |-> FullStress(B, j, elastic),
       ownstress |-> FullStress(B, j, MSub(own, MScale(B.n0, plastic)))]

-----------------------------------------------------------------------------
(* units of the output; plain: those of the solver                           *)
Units(c, plain) ==
  IF plain \/ ~c.dimless THEN [u |-> R1, strain |-> R1, stress |-> R1, density |-> R1]
  ELSE [u |-> c.chars.u, strain |-> RDiv(c.chars.u, c.chars.l), stress |-> CharStress(c),
        density |-> RDiv(R1, c.chars.l)]

Voigt == <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 2>>>>
Six(f, A) == RForce([k \in 1..6 |-> RMul(f, A[Voigt[k][1]][Voigt[k][2]])])
Engineering(f, A) ==
  RForce([k \in 1..6 |-> RMul(RMul(f, A[Voigt[k][1]][Voigt[k][2]]), IF k > 3 THEN R2 ELSE R1)])
Suffixes == <<"11", "22", "33", "23", "13", "12">>
SixNames(name) == [k \in 1..6 |-> name \o "_" \o Suffixes[k]]
EngineeringNames(name) == [k \in 1..6 |-> name \o "_" \o Suffixes[k] \o (IF k > 3 THEN "x2" ELSE "")]
SlipNames == <<"Slip_01", "Slip_02", "Slip_03", "Slip_04", "Slip_05", "Slip_06", "Slip_07", "Slip_08",
               "Slip_09", "Slip_10", "Slip_11", "Slip_12">>

(* nu: number of entries of a displacement                                   *)
FieldNames(ns, nu, fluctuations) ==
  [k \in 1..nu |-> "Displacement"] \o SubSeq(SlipNames, 1, ns)
  \o <<"EquivalentPlasticStrain", "EquivalentAbsolutePlasticStrain", "EquivalentEdgeDislocationDensity",
       "EquivalentScrewDislocationDensity", "VonMisesStress", "VonMisesPlasticStrain">>
  \o SixNames("Stress") \o EngineeringNames("Strain") \o EngineeringNames("ElasticStrain")
  \o EngineeringNames("PlasticStrain")
  \o (IF ~fluctuations THEN <<>>
      ELSE <<"VonMisesStressFluctuations">> \o SixNames("StressFluctuations")
           \o EngineeringNames("StrainFluctuations"))
FieldValues(s, nu, fluctuations, unit) ==
  [k \in 1..nu |-> IF k <= Len(s.u) THEN RMul(unit.u, s.u[k]) ELSE R0] \o s.slips
  \o <<RSum(s.slips), RSum([a \in 1..Len(s.slips) |-> RAbs(s.slips[a])]),
       RMul(unit.density, s.edge), RMul(unit.density, s.screw),
       RMul(unit.stress, VonMisesStress(s.stress)), VonMisesStrain(s.plastic)>>
  \o Six(unit.stress, s.stress) \o Engineering(unit.strain, s.strain) \o Engineering(unit.strain, s.elastic)
  \o Engineering(R1, s.plastic)
  \o (IF ~fluctuations THEN <<>>
      ELSE <<RMul(unit.stress, VonMisesStress(s.ownstress))>> \o Six(unit.stress, s.ownstress)
           \o Engineering(unit.strain, s.own))

-----------------------------------------------------------------------------
(* averages over the volume                                                  *)
MeanOver(B, f(_)) ==     \* f(j): the values of a flat tensor at the points of element j
  LET n == Len(f(1)[1])
      V == RMul(ROfInt(B.cfg.ne), RSum(B.w))
  IN  RForce([k \in 1..n |->
        RDiv(RSum([j \in 1..B.cfg.ne |-> RDot(B.w, [q \in 1..Len(B.w) |-> f(j)[q][k]])]), V)])
MeanStress(B, elastic, E) ==       \* elastic: flat elastic strains of all points
  LET V == RSum(B.w)
      n == B.cfg.dim
      of(j) == FullStress(B, j, MAdd(E, Square(n, [k \in 1..(n * n) |->
                  RDiv(RDot(B.w, [q \in 1..Len(B.w) |-> elastic[j][q][k]]), V)])))
      all == RForce([j \in 1..B.cfg.ne |-> of(j)])
  IN  RForce([a \in 1..3 |-> [b \in 1..3 |->
        RDiv(RSum([j \in 1..B.cfg.ne |-> all[j][a][b]]), ROfInt(B.cfg.ne))]])
ElasticStrains(B, x) ==
  LET of(j) == LET e == Strains(B, j, x)
                   g == SlipValues(B, j, x)
                   k == B.crystals[B.of[j]]
               IN  RForce([q \in 1..Len(B.w) |->
                     IF NSlips(B) = 0 THEN e[q]
                     ELSE VSub(e[q], VScale(B.n0, MatVec(Transp(k.sym), AtPoint(g, q))))])
  IN  RForce([j \in 1..B.cfg.ne |-> of(j)])
(* in the units of the solver                                                *)
Averages(B, x, E) ==
  LET elastic == ElasticStrains(B, x)
      n == B.cfg.dim
      strains == RForce([j \in 1..B.cfg.ne |-> Strains(B, j, x)])
      own == Square(n, MeanOver(B, LAMBDA j : strains[j]))
      stress == MeanStress(B, elastic, E)
      ownstress == MeanStress(B, elastic, MZero(n))
  IN  [stress |-> stress, ownstress |-> ownstress, strain |-> Full(MAdd(E, own)), own |-> Full(own)]
(* the row of the table of averages after the time; blank: no such component *)
InPlane(B, k) == B.cfg.dim = 3 \/ k \in {1, 2, 6}
AverageRow(a) ==
  <<VonMisesStress(a.stress), VonMisesStress(a.ownstress), VonMisesStrain(a.strain), VonMisesStrain(a.own)>>
  \o Six(R1, a.stress) \o Six(R1, a.strain) \o Six(R1, a.ownstress) \o Six(R1, a.own)
Blank(B, k) == k > 4 /\ ~InPlane(B, 1 + ((k - 5) % 6))

(* average shear stress at the upper end                                     *)
UpperStress(B, x) ==
  LET n == B.cfg.dim
      j == B.cfg.ne
      zero == MZero(n)
      at(q) == FullStress(B, j, LET t == AtEnd(FaceGrid(n)[q], R1)
                                    own == Sym(RForce([a \in 1..n |-> SlopeAt(B, j, a, x, t)]))
                                    g == RForce([a \in 1..NSlips(B) |-> <<ValueAt(B, j, n + a, x, t)>>])
                                IN  MSub(own, MScale(B.n0, PlasticStrain(Systems(B, j), n, g, 1))))
  IN  RDiv(RDot(B.wf, RForce([q \in 1..Len(B.wf) |-> at(q)[1][2]])), RSum(B.wf))

-----------------------------------------------------------------------------
(* damage of the grain boundaries as a field: averages weighted by quadratic *)
(* shape functions; h: the records                                           *)
BoundaryAt(B, y) ==           \* number of the boundary at that height or 0
  IF \E f \in 1..Len(B.faces) : 2 * B.faces[f] = y
  THEN CHOOSE f \in 1..Len(B.faces) : 2 * B.faces[f] = y ELSE 0
DamageAt(B, h, p) ==          \* p: position in half elements
  LET f == BoundaryAt(B, p[2])
      o == IF B.cfg.dim = 2 THEN <<p[1]>> ELSE <<p[1], p[3]>>
      N == RForce([q \in 1..Len(B.wf) |-> RMul(B.wf[q], Shape(2, o, At(FaceGrid(B.cfg.dim)[q])))])
  IN  IF f = 0 THEN R0
      ELSE RDiv(RDot(N, [q \in 1..Len(B.wf) |-> h.face[f][q].d]), RSum(N))
(* ... and its average                                                       *)
MeanDamage(B, h) ==
  IF Len(B.faces) = 0 THEN R0
  ELSE RDiv(RSum([f \in 1..Len(B.faces) |-> RDot(B.wf, [q \in 1..Len(B.wf) |-> h.face[f][q].d])]),
            RMul(ROfInt(Len(B.faces)), RSum(B.wf)))
=============================================================================
