-------------------------- MODULE MCSharedRecords ---------------------------
(* A row of three cells and one above the middle, all arrangements of two    *)
(* crystals, visited from both sides in every interleaving.                  *)
EXTENDS SharedRecords, TLC, Integers, Sequences

CONSTANTS Jumps, Depth
Cells == 1..4
Faces == {{1, 2}, {2, 3}, {2, 4}}

VARIABLES mesh, st, k, best, tried, inits
(* best: largest effective jump of each face; tried: the jump taken since    *)
(* the last announcement                                                     *)
vars == <<mesh, st, k, best, tried, inits>>

Init ==
  /\ \E m \in [Cells -> {0, 1}] : m[1] = 0 /\ mesh = [mat |-> m, faces |-> Faces]
  /\ st = SNew /\ k = 0 /\ inits = 0
  /\ best = [f \in Boundary(mesh) |-> R0]
  /\ tried = [f \in Boundary(mesh) |-> "none"]

Setup == st' = SInit(st, mesh, 1) /\ inits' = inits + 1 /\ UNCHANGED <<best, tried>>
Announce(a, b) ==
  /\ SHas(st, a, b)
  /\ st' = SAnnounce(st, a, b, 1)
  /\ tried' = [tried EXCEPT ![Pair(a, b)] = "none"]
  /\ UNCHANGED <<best, inits>>
Visit(a, b, j) ==
  /\ SHas(st, a, b)
  /\ st' = SUpdate(st, a, b, 1, j)
  /\ IF tried[Pair(a, b)] = "none"
     THEN /\ tried' = [tried EXCEPT ![Pair(a, b)] = j]
          /\ best' = [best EXCEPT ![Pair(a, b)] = RMax(@, j)]
     ELSE UNCHANGED <<tried, best>>
  /\ UNCHANGED inits

Next ==
  /\ k < Depth /\ k' = k + 1 /\ UNCHANGED mesh
  /\ \/ Setup
     \/ \E a, b \in Cells : Announce(a, b)
     \/ \E a, b \in Cells, j \in Jumps : Visit(a, b, j)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
OneRecordPerFace == st.ready => DOMAIN st.recs = Boundary(mesh)
BothSides == \A a, b \in Cells : SHas(st, a, b) =>
               SHas(st, b, a) /\ SGet(st, a, b) = SGet(st, b, a)
Maximum == st.ready => \A f \in Boundary(mesh) : st.recs[f][1].v = best[f]
NeverLess == [][st.ready => \A f \in Boundary(mesh) : RLe(st.recs[f][1].v, st'.recs[f][1].v)]_vars
=============================================================================
