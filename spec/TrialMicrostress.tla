-------------------------- MODULE TrialMicrostress --------------------------
(* The trial microstress of the yield condition: what the balance of         *)
(* microforces leaves for the scalar microstress of a slip system if the     *)
(* slips stay those of the last committed step, as an average over the       *)
(* surroundings of a node.                                                   *)
EXTENDS WeakForm

(* outer faces of element j: <<direction, coordinate of the face>>           *)
OuterFaces(c, j) ==
  <<<<1, R0>>, <<1, R1>>>> \o (IF c.dim = 3 THEN <<<<3, R0>>, <<3, R1>>>> ELSE <<>>)
  \o (IF j = 1 THEN <<<<2, R0>>>> ELSE <<>>) \o (IF j = c.ne THEN <<<<2, R1>>>> ELSE <<>>)

(* shape functions of slip a of element j at the points of its outer face f  *)
FaceComponent(B, dofs, j, a, f, len) ==
  LET c == B.cfg
      idx == B.cells[j][c.dim + a].dof
      o(k) == <<dofs[idx[k]][5], dofs[idx[k]][6] - 2 * (j - 1), dofs[idx[k]][7]>>
      grid == FaceGrid(c.dim)
      t(q) == OnFace(c.dim, f, grid[q])
      N == RForce([q \in 1..Len(grid) |-> [k \in 1..Len(idx) |-> Shape(c.ds, o(k), t(q))]])
      D == RForce([b \in 1..c.dim |-> [q \in 1..Len(grid) |-> [k \in 1..Len(idx) |-> ShapeSlope(c.ds, o(k), t(q), len, b)]]])
  IN  RForce([NT |-> Transp(N), D |-> D])

Faces(B, dofs) ==
  LET c == B.cfg
      h == RDiv(R1, ROfInt(c.ne))
      len == RForce(<<h, RDiv(c.height, ROfInt(c.ne)), h>>)
      grid == FaceGrid(c.dim)
      side(j, f) ==
        [dir |-> f[1], sign |-> IF REq(f[2], R0) THEN "-1.0" ELSE R1,
         w |-> [q \in 1..Len(grid) |-> Product(<<Weight(grid[q])>> \o [d \in 1..c.dim |-> IF d = f[1] THEN R1 ELSE len[d]])],
         slips |-> [a \in 1..NSlips(B) |-> FaceComponent(B, dofs, j, a, f, len)]]
  IN  RForce([j \in 1..c.ne |-> LET l == OuterFaces(c, j) IN [k \in 1..Len(l) |-> side(j, l[k])]])

(* flux of the vector microstress of slip a through an outer face            *)
Flux(B, j, s, a, old) ==
  LET v == Coefficients(B.cells[j][B.cfg.dim + a], old)
      g == RForce([b \in 1..B.cfg.dim |-> MatVec(s.slips[a].D[b], v)])
      out == RForce([q \in 1..Len(s.w) |->
               RMul(RMul(s.w[q], s.sign),
                    VectorMicrostress(B.vect, Systems(B, j)[a], [b \in 1..B.cfg.dim |-> g[b][q]])[s.dir])])
  IN  RForce([i \in 1..Len(v) |-> RDot(out, s.slips[a].NT[i])])

(* forces on the slips of element j and their weights                        *)
LocalTrial(B, F, j, y) ==
  LET n == B.cfg.dim
      k == B.crystals[B.of[j]]
      stress == TotalStresses(B, j, y)
      s == RForce([a \in 1..NSlips(B) |-> [q \in 1..Len(B.w) |-> RMul(B.n3, RDot(stress[q], k.sym[a]))]])
      micro(a) == LET d == Gradient(B, j, n + a, y)
                      xi == RForce([q \in 1..Len(B.w) |->
                              VectorMicrostress(B.vect, k.systems[a], [b \in 1..n |-> d[b][q]])])
                  IN  RForce([b \in 1..n |-> [q \in 1..Len(B.w) |-> xi[q][b]]])
      inside == Forces(B, j, stress, s, RForce([a \in 1..NSlips(B) |-> micro(a)]))
      RECURSIVE Outside(_, _)
      Outside(a, m) == IF m > Len(F[j]) THEN VZero(Len(B.cells[j][n + a].dof))
                       ELSE VAdd(Flux(B, j, F[j][m], a, y), Outside(a, m + 1))
  IN  RForce([a \in 1..NSlips(B) |-> VAdd(inside[n + a], VScale(B.n2, Outside(a, 1)))])
LocalWeights(B, j) ==
  RForce([a \in 1..NSlips(B) |-> LET p == B.cells[j][B.cfg.dim + a] IN
            [i \in 1..Len(p.dof) |-> RDot(B.w, p.NT[i])]])

(* sums per unknown, ties between unknowns apart                             *)
Spread(B, L) ==
  LET n == B.cfg.dim
      RECURSIVE Find(_, _, _)
      Find(i, j, a) ==
        IF j > B.cfg.ne THEN <<>>
        ELSE IF a > NSlips(B) THEN Find(i, j + 1, 1)
        ELSE LET d == B.cells[j][n + a].dof
                 here == SelectSeq([k \in 1..Len(d) |-> k], LAMBDA k : d[k] = i)
             IN  [k \in 1..Len(here) |-> L[j][a][here[k]]] \o Find(i, j, a + 1)
  IN  RForce([i \in 1..B.mesh.n |-> IF Kind(B.mesh.dofs[i]) = 0 THEN R0 ELSE RSum(Find(i, 1, 1))])

(* displacements of the iterate x, slips of the last step                    *)
Mixed(B, x, old) == RForce([i \in 1..B.mesh.n |-> IF Kind(B.mesh.dofs[i]) = 0 THEN x[i] ELSE old[i]])
TrialOf(B, F, x, old) ==
  LET y == Mixed(B, x, old)
      f == Spread(B, RForce([j \in 1..B.cfg.ne |-> LocalTrial(B, F, j, y)]))
      w == Spread(B, RForce([j \in 1..B.cfg.ne |-> LocalWeights(B, j)]))
  IN  RForce([i \in 1..B.mesh.n |-> IF Kind(B.mesh.dofs[i]) = 0 THEN R0 ELSE RDiv(f[i], w[i])])
=============================================================================
