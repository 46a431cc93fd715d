--------------------------- MODULE Microtraction ----------------------------
(* Interaction of the slips of two crystals across their common boundary.    *)
(*                                                                           *)
(* Everything derives from one energy: half the modulus times the squared    *)
(* jump of the Burgers tensor of the boundary.  n: unit normal.              *)
EXTENDS CrystalFiles

(* what slip system y contributes to the Burgers tensor, as a flat sequence  *)
Flat(A) == RForce([k \in 1..(Len(A) * Len(A[1])) |->
                     A[1 + ((k - 1) \div Len(A[1]))][1 + ((k - 1) % Len(A[1]))]])
Trail(y, n) ==
  IF Len(n) = 2
  THEN VScale(RSub(RMul(y.normal[1], n[2]), RMul(y.normal[2], n[1])), y.dir)
  ELSE Flat(Dyad(y.dir, Cross(y.normal, n)))
Trails(systems, n) == RForce([a \in 1..Len(systems) |-> Trail(systems[a], n)])

(* G: trails of one crystal, slips: value of each slip                       *)
Burgers(G, slips) ==
  RForce([i \in 1..Len(G[1]) |-> RSum([a \in 1..Len(G) |-> RMul(slips[a], G[a][i])])])
Jump(Gc, Gn, cur, nei) == VSub(Burgers(Gn, nei), Burgers(Gc, cur))
Energy(modulus, Gc, Gn, cur, nei) ==
  LET j == Jump(Gc, Gn, cur, nei) IN RMul("0.5", RMul(modulus, RDot(j, j)))
(* minus the derivative of the energy with respect to slip a of the crystal *)
Traction(modulus, chr, Gc, Gn, cur, nei, a) ==
  RMul(RDiv(modulus, chr), RDot(Jump(Gc, Gn, cur, nei), Gc[a]))
(* its derivatives with respect to the own and the other crystal's slips     *)
Intra(modulus, chr, Gc) ==
  RForce([a \in 1..Len(Gc) |-> [b \in 1..Len(Gc) |-> RMul(RNeg(RDiv(modulus, chr)), RDot(Gc[a], Gc[b]))]])
Inter(modulus, chr, Gc, Gn) ==
  RForce([a \in 1..Len(Gc) |-> [b \in 1..Len(Gn) |-> RMul(RDiv(modulus, chr), RDot(Gc[a], Gn[b]))]])
=============================================================================
