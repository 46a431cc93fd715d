--------------------------- MODULE SharedRecords ----------------------------
(* The storage of the records of grain-boundary faces, reached from the      *)
(* cells on both sides, and the records in it which keep a maximum.          *)
EXTENDS Real64, FiniteSets

(* a mesh: mat: cell -> crystal; faces: set of unordered pairs of cells that *)
(* share a face                                                              *)
Pair(a, b) == {a, b}
Boundary(mesh) == {f \in mesh.faces : \E a, b \in f : mesh.mat[a] # mesh.mat[b]}

SNew == [ready |-> FALSE, recs |-> <<>>]

Fresh(v) == [v |-> v, done |-> FALSE]

(* set-up creates nq records for every boundary face that has none yet       *)
SInit(st, mesh, nq) ==
  [ready |-> TRUE,
   recs |-> [f \in Boundary(mesh) |->
               IF st.ready /\ f \in DOMAIN st.recs THEN st.recs[f]
               ELSE [q \in 1..nq |-> Fresh(R0)]]]

SHas(st, a, b) == st.ready /\ Pair(a, b) \in DOMAIN st.recs
SGet(st, a, b) == st.recs[Pair(a, b)]

(* operations on the record of quadrature point q of the face between a, b   *)
SSet(st, a, b, q, v) == [st EXCEPT !.recs[Pair(a, b)][q].v = v]
SAnnounce(st, a, b, q) == [st EXCEPT !.recs[Pair(a, b)][q].done = FALSE]
SUpdate(st, a, b, q, jump) ==
  IF SGet(st, a, b)[q].done THEN st
  ELSE [st EXCEPT !.recs[Pair(a, b)][q] =
          [v |-> RMax(SGet(st, a, b)[q].v, jump), done |-> TRUE]]
=============================================================================
