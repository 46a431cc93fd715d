-------------------------------- MODULE Strip --------------------------------
(* The strip: the unknowns, which of them are prescribed, which are tied to  *)
(* each other, and the prescribed values.                                    *)
(*                                                                           *)
(* Every unknown d is described by <<kind, number, crystal, block, x, y, z>>:*)
(* kind 0 displacement, 1 slip; number of the direction or slip system;      *)
(* crystal 0 if shared; position in half elements.  The strip has ne         *)
(* elements upwards and one sideways.                                        *)
EXTENDS LoadProgramme

Kind(d) == d[1]
Number(d) == d[2]
Y(d) == d[6]

Indices(dofs, P(_)) == SelectSeq([i \in 1..Len(dofs) |-> i], LAMBDA i : P(dofs[i]))

Top(c) == 2 * c.ne
(* heights of the grain boundaries in half elements: element j (1..ne)       *)
(* belongs to the first crystal whose upper end is above its centre          *)
CrystalOf(c, j) ==
  CHOOSE i \in 1..c.nc :
    /\ (2 * j - 1) * c.nc < 2 * i * c.ne
    /\ \A k \in 1..(i - 1) : ~((2 * j - 1) * c.nc < 2 * k * c.ne)
BoundaryHeights(c) == {2 * j : j \in {j \in 1..(c.ne - 1) : CrystalOf(c, j) # CrystalOf(c, j + 1)}}

(* the ends are clamped and do not slip; hard grain boundaries do not slip   *)
Prescribed1(c, d) ==
  \/ Y(d) = 0 \/ Y(d) = Top(c)
  \/ Kind(d) = 1 /\ c.bc = "microhard" /\ Y(d) \in BoundaryHeights(c)

(* opposite sides carry the same values                                      *)
SideKey(d) == <<d[1], d[2], d[3], d[4], d[5] % 2, d[6], d[7] % 2>>

(* mesh m of the description dofs: locked[i], groups (sets of tied unknowns, *)
(* without the locked ones), displacement and slip unknowns                  *)
StripMesh(c, dofs) ==
  LET n == Len(dofs)
      key == RForce([i \in 1..n |-> SideKey(dofs[i])])
      free == {i \in 1..n : ~Prescribed1(c, dofs[i])}
  IN  [n |-> n,
       dofs |-> dofs,
       locked |-> RForce([i \in 1..n |-> i \notin free]),
       fixed |-> Indices(dofs, LAMBDA d : Prescribed1(c, d)),
       group |-> RForce([i \in 1..n |-> IF i \in free THEN {j \in free : key[j] = key[i]} ELSE {i}]),
       u |-> Indices(dofs, LAMBDA d : Kind(d) = 0),
       g |-> Indices(dofs, LAMBDA d : Kind(d) = 1)]

CharU(c) == IF c.dimless THEN c.chars.u ELSE R1
(* value of a prescribed unknown at time t                                   *)
PrescribedValue(c, d, t) ==
  IF Kind(d) = 0 /\ Number(d) = 1 /\ Y(d) = Top(c)
  THEN RDiv(RMul(c.height, Shear(c.load, t)), CharU(c)) ELSE R0

(* x carries the prescribed values of time t and is periodic                 *)
Admissible(c, m, x, t) ==
  LET tol == RMul("1e-12", RMaxAbs(x))
  IN  /\ \A v \in {RForce([k \in 1..Len(m.fixed) |-> PrescribedValue(c, m.dofs[m.fixed[k]], t)])} :
           RCloseSeq([k \in 1..Len(m.fixed) |-> x[m.fixed[k]]], v, "1e-11", tol)
      /\ \A i \in 1..m.n : \A j \in m.group[i] : j > i => RClose(x[i], x[j], "1e-11", tol)

Select(v, idx) == RForce([k \in 1..Len(idx) |-> v[idx[k]]])
Norm(v) == RSqrt(RDot(v, v))
=============================================================================
