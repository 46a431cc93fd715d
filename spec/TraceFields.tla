----------------------------- MODULE TraceFields ----------------------------
(* Fields, averages and damage reported by whole simulations and for         *)
(* arbitrary values of the unknowns.                                         *)
EXTENDS Fields, FiniteSets, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, B,
          h,          \* records committed at the end of the last step
          old, x,     \* solutions before and after the last step
          probe,      \* arbitrary values being reported
          rows        \* averages to be reported
data == <<c, B, h, old, x, probe, rows>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
Init ==
  /\ run \in 1..Len(Runs) /\ pos = 1
  /\ c = Nothing /\ B = Nothing /\ h = Nothing /\ old = <<>> /\ x = <<>> /\ probe = Nothing /\ rows = <<>>

Ev == Runs[run][pos]

-----------------------------------------------------------------------------
(* magnitudes which rounding errors are relative to                          *)
LargestOf(A) == RMaxAbs([k \in 1..Len(A) |-> RMaxAbs(A[k])])
Steepest == RMaxAbs([k \in 1..Len(B.cells[1]) |-> RMaxAbs([b \in 1..c.dim |-> LargestOf(B.cells[1][k].D[b])])])
Stiffest == RMaxAbs([i \in 1..c.nc |-> LargestOf(B.crystals[i].stiffness)])
Size(v, E) ==
  LET u == RMaxAbs(Select(v, B.mesh.u))
      g == RMul(ROfInt(1 + NSlips(B)), RMaxAbs(Select(v, B.mesh.g)))
      strain == RSum(<<RMul(RMul("12.0", Steepest), u), RMul(B.n0, g), LargestOf(E)>>)
  IN  [u |-> u, g |-> g, slope |-> RMul(RMul("12.0", Steepest), g), strain |-> strain,
       stress |-> RMul(RMul("9.0", Stiffest), strain)]
(* the sizes of the fields in their order                                    *)
Repeat(n, v) == [k \in 1..n |-> v]
Sizes(z, unit, nu, fluctuations) ==
  LET s == RMul(unit.stress, z.stress)
      e == RMul(unit.strain, z.strain)
      d == RMul(unit.density, z.slope)
  IN  Repeat(nu, RMul(unit.u, z.u)) \o Repeat(NSlips(B) + 2, z.g) \o <<d, d, s, z.g>>
      \o Repeat(6, s) \o Repeat(12, e) \o Repeat(6, z.g)
      \o (IF fluctuations THEN Repeat(7, s) \o Repeat(6, e) ELSE <<>>)

(* points: position and centre of the element, in half elements              *)
ElementOf(p) == (p[5] + 1) \div 2
Local(p) == IF c.dim = 2 THEN <<RDiv(ROfInt(p[1]), R2), RDiv(ROfInt(p[2] - 2 * (ElementOf(p) - 1)), R2)>>
            ELSE <<RDiv(ROfInt(p[1]), R2), RDiv(ROfInt(p[2] - 2 * (ElementOf(p) - 1)), R2), RDiv(ROfInt(p[3]), R2)>>
Corners ==
  {<<a, 2 * (j - 1) + b, z, 1, 2 * j - 1, IF c.dim = 2 THEN 0 ELSE 1>> :
     a \in {0, 2}, b \in {0, 2}, z \in (IF c.dim = 2 THEN {0} ELSE {0, 2}), j \in 1..c.ne}
Elements(s) == {s[k] : k \in 1..Len(s)}

FieldsMatch(v, E, plain, fluctuations, nu) ==
  /\ Ev.names = FieldNames(NSlips(B), nu, fluctuations)
  /\ Elements(Ev.points) = Corners /\ Len(Ev.points) = Cardinality(Corners)
  /\ \A unit \in {Units(c, plain)} : \A z \in {Sizes(Size(v, E), unit, nu, fluctuations)} :
       \A i \in 1..Len(Ev.points) :
         \A w \in {FieldValues(PointState(B, ElementOf(Ev.points[i]), Local(Ev.points[i]), v, E), nu, fluctuations, unit)} :
           /\ Len(Ev.values[i]) = Len(w)
           /\ \A k \in 1..Len(w) : RClose(Ev.values[i][k], w[k], "2e-7", RMul("1e-12", z[k]))

(* row: time and averages of v                                               *)
RowMatches(row, v, E) ==
  \A w \in {AverageRow(Averages(B, v, E))}, z \in {Size(v, E)} :
    /\ Len(row) = 1 + Len(w)
    /\ \A k \in 1..Len(w) :
         IF Blank(B, k) THEN row[k + 1] = ""
         ELSE RClose(row[k + 1], w[k], "1e-10",
                     RMul("1e-12", IF k <= 2 \/ (k >= 5 /\ k <= 10) \/ (k >= 17 /\ k <= 22) THEN z.stress ELSE z.strain))

NoStrain == MZero(c.dim)

(* damage of the records evaluated at the last solution                      *)
DamageMatches(nodes, position(_), value(_), rel) ==
  \A i \in 1..Len(nodes) :
    RClose(value(i), DamageAt(B, h, position(i)), rel, "1e-13")

-----------------------------------------------------------------------------
Accept ==
  /\ h' = Committed(B, h, Ev.x, old)
  /\ x' = Ev.x
  /\ UNCHANGED <<c, B, old, probe, rows>>


Arbitrary ==
  /\ \A E \in {Square(c.dim, Ev.strain)} :
       /\ Len(Ev.homogenized) = 1
       /\ RowMatches(Ev.homogenized[1], Ev.x, E)
  /\ probe' = [x |-> Ev.x, strain |-> Square(c.dim, Ev.strain), dimless |-> Ev.dimless]
  /\ UNCHANGED <<c, B, h, old, x, rows>>

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ UNCHANGED <<B, h, old, x, probe, rows>>
    [] Ev.e = "mesh" ->
         /\ B' = Body(c, Ev.dofs)
         /\ h' = Records(B')
         /\ x' = Repeat(Len(Ev.dofs), R0)
         /\ UNCHANGED <<c, old, probe, rows>>
    [] Ev.e = "step" -> old' = Ev.old /\ UNCHANGED <<c, B, h, x, probe, rows>>
    [] Ev.e = "accept" -> Accept
    [] Ev.e = "arbitrary" -> Arbitrary
    [] Ev.e = "values" ->
         /\ FieldsMatch(probe.x, probe.strain, probe.dimless, TRUE, c.dim) = TRUE
         /\ UNCHANGED data
    [] Ev.e = "fields" ->
         /\ FieldsMatch(x, NoStrain, c.outdimless, c.fluct, 3) = TRUE
         /\ UNCHANGED data
    [] Ev.e = "faces" ->
         /\ Ev.names = <<"damage">>
         /\ {SubSeq(Ev.points[i], 1, 3) : i \in 1..Len(Ev.points)} =
              {p \in (0..2) \X (0..(2 * c.ne)) \X (IF c.dim = 2 THEN {0} ELSE 0..2) : ~(p[1] = 1 /\ p[2] % 2 = 1 /\ (c.dim = 2 \/ p[3] = 1))}
         /\ DamageMatches(Ev.points, LAMBDA i : Ev.points[i], LAMBDA i : Ev.values[i][1], "2e-7") = TRUE
         /\ UNCHANGED data
    [] Ev.e = "damage" ->
         /\ DamageMatches(Ev.nodes, LAMBDA i : Ev.nodes[i], LAMBDA i : Ev.nodes[i][4][1], "1e-10") = TRUE
         /\ RClose(Ev.mean, MeanDamage(B, h), "1e-10", "1e-13")
         /\ UNCHANGED data
    [] Ev.e = "fail" -> Ev.limit /\ UNCHANGED data
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
