--------------------------- MODULE MCCrystalFiles ---------------------------
(* Files are written line by line in every possible way from a lattice; the  *)
(* data are set up from what was written at any point.                       *)
EXTENDS CrystalFiles, TLC, FiniteSets, Json

CONSTANTS Dim, Coordinates, Angles, MaxLines, Emit

VARIABLES angles, dirs, normals
vars == <<angles, dirs, normals>>

Vectors == [1..Dim -> Coordinates]
AngleLines == [1..AngleColumns(Dim) -> Angles]
(* lines: vectors, one with a column too many, one too short, an empty one   *)
Bad == {<<>>, [i \in 1..(Dim + 1) |-> "1.0"], <<"1.0">>}
Crystals == 2

Init == /\ angles \in {<<a, b>> : a \in {[i \in 1..AngleColumns(Dim) |-> R0]}, b \in AngleLines}
                       \cup {<<[i \in 1..AngleColumns(Dim) |-> R0]>>, Missing}
        /\ dirs \in {<<>>, Missing} /\ normals \in {<<>>, Missing}
Write ==
  /\ dirs # Missing /\ Len(dirs) < MaxLines /\ normals # Missing
  /\ \E d, m \in Vectors \cup Bad :
       /\ dirs' = Append(dirs, d)
       /\ \/ normals' = Append(normals, m)
          \/ m \in Bad /\ UNCHANGED normals
  /\ UNCHANGED angles
Next == Write
Spec == Init /\ [][Next]_vars
Emission == Emit => PrintT("GEN " \o ToJson([angles |-> angles, dirs |-> dirs, normals |-> normals]))
-----------------------------------------------------------------------------
Z == "1e-13"
Unit(v) == RClose(RDot(v, v), R1, R0, Z)
Perp(a, b) == RClose(RDot(a, b), R0, R0, Z)
(* whatever is accepted gives orthonormal systems in every crystal           *)
Orthonormal ==
  Accepted(Dim, Crystals, angles, dirs, normals) =>
    \A c \in 1..Crystals :
      LET R == Rotation(Dim, angles[c]) IN
      /\ MClose(MatMul(R, Transp(R)), MIdent(Dim), R0, Z)
      /\ RClose(Det(R), R1, R0, Z)
      /\ \A i \in 1..Len(DataLines(dirs)) :
           LET y == SlipSystem(Dim, R, DataLines(dirs)[i], DataLines(normals)[i]) IN
           /\ Unit(y.dir) /\ Unit(y.normal) /\ Perp(y.dir, y.normal)
           /\ Dim = 3 => Unit(y.orth) /\ Perp(y.orth, y.dir) /\ Perp(y.orth, y.normal)
           /\ RClose(Trace(y.schmid), R0, R0, Z)
           /\ RClose(MDot(y.sym, y.sym), "0.5", R0, Z)
(* the plane is a slice of space                                             *)
Embedded ==
  Dim = 2 /\ angles # Missing => \A c \in 1..Len(angles) :
    LET R == Rotation3d(2, angles[c]) IN
    /\ \A i, j \in 1..2 : R[i][j] = Rotation(2, angles[c])[i][j]
    /\ R[3] = <<R0, R0, R1>>
=============================================================================
