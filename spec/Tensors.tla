------------------------------ MODULE Tensors -------------------------------
(* Vectors and matrices of reals as sequences.                               *)
EXTENDS Real64, Integers

VZero(n) == RForce([i \in 1..n |-> R0])
VAdd(a, b) == RForce([i \in 1..Len(a) |-> RAdd(a[i], b[i])])
VSub(a, b) == RForce([i \in 1..Len(a) |-> RSub(a[i], b[i])])
VScale(s, a) == RForce([i \in 1..Len(a) |-> RMul(s, a[i])])
VNorm(a) == RSqrt(RDot(a, a))
VUnit(a) == VScale(RDiv(R1, VNorm(a)), a)
Cross(a, b) == RForce(<<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                        RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                        RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>)

MZero(n) == RForce([i \in 1..n |-> [j \in 1..n |-> R0]])
MIdent(n) == RForce([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
Transp(A) == RForce([i \in 1..Len(A[1]) |-> [j \in 1..Len(A) |-> A[j][i]]])
MatVec(A, v) == RForce([i \in 1..Len(A) |-> RDot(A[i], v)])
MatMul(A, B) == LET C == Transp(B) IN
                RForce([i \in 1..Len(A) |-> [j \in 1..Len(C) |-> RDot(A[i], C[j])]])
MAdd(A, B) == RForce([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]])
MSub(A, B) == RForce([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]])
MScale(s, A) == RForce([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(s, A[i][j])]])
Dyad(a, b) == RForce([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> RMul(a[i], b[j])]])
Sym(A) == RForce([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> RMul("0.5", RAdd(A[i][j], A[j][i]))]])
MDot(A, B) == RSum([i \in 1..Len(A) |-> RDot(A[i], B[i])])
Trace(A) == RSum([i \in 1..Len(A) |-> A[i][i]])
MNorm(A) == RSqrt(MDot(A, A))
Det(A) == IF Len(A) = 2 THEN RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))
          ELSE RDot(A[1], Cross(A[2], A[3]))
MClose(A, B, rtol, atol) ==
  Len(A) = Len(B) /\ \A i \in 1..Len(A) : RCloseSeq(A[i], B[i], rtol, atol)

Rad(degrees) == RMul(degrees, RDiv(RPi, "180.0"))
RotZ2(t) == RForce(<<<<RCos(t), RNeg(RSin(t))>>, <<RSin(t), RCos(t)>>>>)
RotZ(t) == RForce(<<<<RCos(t), RNeg(RSin(t)), R0>>, <<RSin(t), RCos(t), R0>>, <<R0, R0, R1>>>>)
RotX(t) == RForce(<<<<R1, R0, R0>>, <<R0, RCos(t), RNeg(RSin(t))>>, <<R0, RSin(t), RCos(t)>>>>)
=============================================================================
