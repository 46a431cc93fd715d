---------------------------- MODULE CrystalFiles ----------------------------
(* Crystal data: what the three input files mean and when they are refused.  *)
(*                                                                           *)
(* A file is a sequence of lines, a line a sequence of numbers (the empty    *)
(* line is <<>>).  The data of a file end at its first empty line.          *)
EXTENDS Tensors

Missing == <<<<"missing">>>>              \* stands for a file that is not there

RECURSIVE DataLines(_)
DataLines(f) == IF f = <<>> \/ Head(f) = <<>> THEN <<>>
                ELSE <<Head(f)>> \o DataLines(Tail(f))
FileOk(f, columns) ==
  /\ f # Missing
  /\ \A i \in 1..Len(DataLines(f)) : Len(DataLines(f)[i]) = columns

AngleColumns(dim) == IF dim = 2 THEN 1 ELSE 3

Perpendicular(a, b) == RLe(RAbs(RDot(a, b)), "2.2e-16")
NonZero(a) == RLt(R0, VNorm(a))

Accepted(dim, crystals, angles, dirs, normals) ==
  /\ FileOk(angles, AngleColumns(dim))
  /\ Len(DataLines(angles)) = crystals
  /\ FileOk(dirs, dim) /\ FileOk(normals, dim)
  /\ Len(DataLines(dirs)) = Len(DataLines(normals))
  /\ \A i \in 1..Len(DataLines(dirs)) :
       /\ Perpendicular(DataLines(dirs)[i], DataLines(normals)[i])
       /\ NonZero(DataLines(dirs)[i]) /\ NonZero(DataLines(normals)[i])

(* Bunge angles in degrees; in the plane one rotation about the normal of it *)
Rotation(dim, a) ==
  IF dim = 2 THEN RotZ2(Rad(a[1]))
  ELSE MatMul(RotZ(Rad(a[1])), MatMul(RotX(Rad(a[2])), RotZ(Rad(a[3]))))
Rotation3d(dim, a) == IF dim = 2 THEN RotZ(Rad(a[1])) ELSE Rotation(dim, a)

(* slip system i of a crystal with rotation R                                *)
SlipSystem(dim, R, dir, normal) ==
  LET s == MatVec(R, VUnit(dir))
      m == MatVec(R, VUnit(normal))
      t == IF dim = 2 THEN VZero(2) ELSE MatVec(R, VUnit(Cross(normal, dir)))
  IN  [dir |-> s, normal |-> m, orth |-> t, schmid |-> Dyad(s, m), sym |-> Sym(Dyad(s, m))]
=============================================================================
