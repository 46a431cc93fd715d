--------------------------- MODULE MCMicrotraction --------------------------
(* Two crystals slip in turn; at every state the tractions, derivatives and  *)
(* the energy have the properties claimed.                                   *)
EXTENDS Microtraction, TLC
CONSTANTS Steps, Depth
VARIABLES o, nrm, cur, nei, k
vars == <<o, nrm, cur, nei, k>>

Angles == <<<<"0.0", "0.0", "0.0">>, <<"30.0", "0.0", "0.0">>, <<"21.0", "47.0", "-33.0">>>>
Dirs == <<<<"1.0", "0.0", "0.0">>, <<"0.0", "1.0", "-1.0">>>>
Normals == <<<<"0.0", "1.0", "0.0">>, <<"1.0", "1.0", "1.0">>>>
Rot == RForce([i \in 1..3 |-> Rotation(3, Angles[i])])
Sys == RForce([i \in 1..3 |-> [a \in 1..2 |-> SlipSystem(3, Rot[i], Dirs[a], Normals[a])]])
Ns == <<<<"0.0", "1.0", "0.0">>, <<"0.6", "0.0", "-0.8">>, <<"0.0", "0.0", "1.0">>>>
Pairs == {<<1, 2>>, <<3, 1>>, <<2, 2>>, <<3, 3>>}
T == RForce([i \in 1..3 |-> [m \in 1..3 |-> Trails(Sys[i], Ns[m])]])
TM == RForce([i \in 1..3 |-> [m \in 1..3 |-> Trails(Sys[i], VScale("-1.0", Ns[m]))]])

Init == o \in Pairs /\ nrm \in 1..3 /\ cur = <<R0, R0>> /\ nei = <<R0, R0>> /\ k = 0
Next == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED <<o, nrm>>
        /\ \E a \in 1..2, x \in Steps :
             \/ cur' = [cur EXCEPT ![a] = RAdd(cur[a], x)] /\ UNCHANGED nei
             \/ nei' = [nei EXCEPT ![a] = RAdd(nei[a], x)] /\ UNCHANGED cur
Spec == Init /\ [][Next]_vars

Kap == "10.0"
C == T[o[1]][nrm]
N == T[o[2]][nrm]
E(c, n) == Energy(Kap, C, N, c, n)
F(c, n, a) == Traction(Kap, "2.0", C, N, c, n, a)
H == "1e-4"
Plus(v, a, h) == [v EXCEPT ![a] = RAdd(v[a], h)]
Z == "1e-10"
Invariants ==
  /\ RGe(E(cur, nei), R0)
  (* the other side, whose normal points the other way, sees the same energy *)
  /\ RClose(E(cur, nei), Energy(Kap, TM[o[2]][nrm], TM[o[1]][nrm], nei, cur), Z, Z)
  /\ \A a \in 1..2 :
       /\ RClose(RMul(R2, F(cur, nei, a)),
                 RNeg(RDiv(RSub(E(Plus(cur, a, H), nei), E(Plus(cur, a, RNeg(H)), nei)), RMul(R2, H))), "1e-7", "1e-7")
       /\ \A b \in 1..2 :
            /\ RClose(Intra(Kap, "2.0", C)[a][b], RDiv(RSub(F(Plus(cur, b, R1), nei, a), F(cur, nei, a)), R1), Z, Z)
            /\ RClose(Inter(Kap, "2.0", C, N)[a][b], RDiv(RSub(F(cur, Plus(nei, b, R1), a), F(cur, nei, a)), R1), Z, Z)
            /\ RClose(Inter(Kap, "2.0", C, N)[a][b],
                      Inter(Kap, "2.0", TM[o[2]][nrm], TM[o[1]][nrm])[b][a], Z, Z)
            /\ RLe(RAbs(RDot(C[a], C[b])), RAdd(R1, "1e-14")) /\ RLe(RAbs(RDot(C[a], N[b])), RAdd(R1, "1e-14"))
       /\ (o[1] = o[2] /\ cur = nei) => REq(F(cur, nei, a), R0)
=============================================================================
