------------------------------ MODULE WeakForm ------------------------------
(* The discrete balances of momentum and of microforces of the strip: the    *)
(* residual of an iterate, its linearisation, and the records of the         *)
(* material points and grain boundary points they depend on.                 *)
(*                                                                           *)
(* Integrals are those of the Gauss rule with three points per direction;    *)
(* displacements and slips are Lagrange polynomials of degree c.du and c.ds. *)
EXTENDS Strip, CrystalLaws, InterfaceLaws, Microtraction, Damage, Hardening

GaussPoint == <<"0.1127016653792583", "0.5", "0.8872983346207417">>
GaussWeight == <<"0.2777777777777778", "0.4444444444444444", "0.2777777777777778">>

(* Lagrange polynomial of degree p of the node o half elements from the left *)
Lagrange(p, o, t) ==
  IF p = 1 THEN IF o = 0 THEN RSub(R1, t) ELSE t
  ELSE CASE o = 0 -> RMul(RSub(R1, t), RSub(R1, RMul(R2, t)))
         [] o = 1 -> RMul("4.0", RMul(t, RSub(R1, t)))
         [] o = 2 -> RMul(t, RSub(RMul(R2, t), R1))
LagrangeSlope(p, o, t) ==
  IF p = 1 THEN IF o = 0 THEN "-1.0" ELSE R1
  ELSE CASE o = 0 -> RSub(RMul("4.0", t), "3.0")
         [] o = 1 -> RSub("4.0", RMul("8.0", t))
         [] o = 2 -> RSub(RMul("4.0", t), R1)

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN R1 ELSE RMul(Head(s), Product(Tail(s)))
(* t: coordinates of a point of the element, o: offsets of the node          *)
Shape(p, o, t) == Product([d \in 1..Len(t) |-> Lagrange(p, o[d], t[d])])
ShapeSlope(p, o, t, len, b) ==
  Product([d \in 1..Len(t) |-> IF d = b THEN RDiv(LagrangeSlope(p, o[d], t[d]), len[d])
                               ELSE Lagrange(p, o[d], t[d])])

(* points of an element, of its lower and of its upper end                   *)
Grid(dim) ==
  IF dim = 2 THEN [q \in 1..9 |-> <<1 + ((q - 1) % 3), 1 + ((q - 1) \div 3)>>]
  ELSE [q \in 1..27 |-> <<1 + ((q - 1) % 3), 1 + (((q - 1) \div 3) % 3), 1 + ((q - 1) \div 9)>>]
FaceGrid(dim) == IF dim = 2 THEN [q \in 1..3 |-> <<q>>]
                 ELSE [q \in 1..9 |-> <<1 + ((q - 1) % 3), 1 + ((q - 1) \div 3)>>]
At(g) == [d \in 1..Len(g) |-> GaussPoint[g[d]]]
AtEnd(g, y) == IF Len(g) = 1 THEN <<GaussPoint[g[1]], y>> ELSE <<GaussPoint[g[1]], y, GaussPoint[g[2]]>>
Weight(g) == Product([d \in 1..Len(g) |-> GaussWeight[g[d]]])

-----------------------------------------------------------------------------
(* characteristic quantities and dimensionless numbers                       *)
CharStress(c) == IF c.dimless THEN RDiv(RMul(c.chars.c, c.chars.u), c.chars.l) ELSE R1
CharResistance(c) == IF c.dimless THEN c.chars.g ELSE R1
CharStiffness(c) == IF c.dimless THEN c.chars.c ELSE R1
CharMicro(c) == IF c.dimless THEN RDiv(RMul(c.vect.g0, RPow(c.vect.l, c.vect.n)), RPow(c.chars.l, RSub(c.vect.n, R1))) ELSE R1
N0(c) == IF c.dimless THEN RDiv(c.chars.l, c.chars.u) ELSE R1
N2(c) == IF c.dimless THEN RMul(RDiv(c.vect.g0, c.chars.g), RPow(RDiv(c.vect.l, c.chars.l), c.vect.n)) ELSE R1
N3(c) == IF c.dimless THEN RDiv(CharStress(c), c.chars.g) ELSE R1

FlatM(A) == RForce([k \in 1..(Len(A) * Len(A)) |-> A[1 + ((k - 1) \div Len(A))][1 + ((k - 1) % Len(A))]])
UnitM(n, k) == [i \in 1..n |-> [j \in 1..n |-> IF (i - 1) * n + j = k THEN R1 ELSE R0]]

(* the crystal: slip systems and the flat stiffness                          *)
Crystal(c, angles) ==
  LET R == Rotation(c.dim, angles)
      hooke == [C1111 |-> c.hooke[1], C1122 |-> c.hooke[2], C1212 |-> c.hooke[3]]
      T == RForce([k \in 1..(c.dim * c.dim) |->
                     FlatM(Stress(hooke, CharStiffness(c), R, Sym(UnitM(c.dim, k))))])
      systems == RForce([a \in 1..Len(c.directions) |-> SlipSystem(c.dim, R, c.directions[a], c.normals[a])])
  IN  [systems |-> systems, stiffness |-> Transp(T),
       sym |-> RForce([a \in 1..Len(systems) |-> FlatM(systems[a].sym)])]

(* one component in one element: its unknowns and their shape functions      *)
Component(c, dofs, idx, j, p, len) ==
  LET o(k) == <<dofs[idx[k]][5], dofs[idx[k]][6] - 2 * (j - 1), dofs[idx[k]][7]>>
      grid == Grid(c.dim)
      face == FaceGrid(c.dim)
      N == RForce([q \in 1..Len(grid) |-> [k \in 1..Len(idx) |-> Shape(p, o(k), At(grid[q]))]])
      D == RForce([b \in 1..c.dim |-> [q \in 1..Len(grid) |-> [k \in 1..Len(idx) |-> ShapeSlope(p, o(k), At(grid[q]), len, b)]]])
      end(y) == RForce([q \in 1..Len(face) |-> [k \in 1..Len(idx) |-> Shape(p, o(k), AtEnd(face[q], y))]])
  IN  RForce([dof |-> idx, N |-> N, D |-> D, NT |-> Transp(N), DT |-> [b \in 1..c.dim |-> Transp(D[b])],
              up |-> end(R1), down |-> end(R0)])

ComponentsOf(c, dofs, j, len) ==
  LET mine == SelectSeq([i \in 1..Len(dofs) |-> i],
                        LAMBDA i : /\ Y(dofs[i]) >= 2 * (j - 1) /\ Y(dofs[i]) <= 2 * j
                                   /\ dofs[i][3] \in {0, CrystalOf(c, j)})
      of(kind, number) == SelectSeq(mine, LAMBDA i : Kind(dofs[i]) = kind /\ Number(dofs[i]) = number)
  IN  RForce([k \in 1..(c.dim + Len(c.directions)) |->
                IF k <= c.dim THEN Component(c, dofs, of(0, k), j, c.du, len)
                ELSE Component(c, dofs, of(1, k - c.dim), j, c.ds, len)])

(* everything about the body which does not change                           *)
Body(c, dofs) ==
  LET h == RDiv(R1, ROfInt(c.ne))
      len == RForce(<<h, RDiv(c.height, ROfInt(c.ne)), h>>)
      m == StripMesh(c, dofs)
      cells == RForce([j \in 1..c.ne |-> ComponentsOf(c, dofs, j, len)])
      faces == SelectSeq([j \in 1..(c.ne - 1) |-> j], LAMBDA j : CrystalOf(c, j) # CrystalOf(c, j + 1))
      crystals == RForce([i \in 1..c.nc |-> Crystal(c, c.euler[i])])
      up == RForce([d \in 1..c.dim |-> IF d = 2 THEN R1 ELSE R0])
      representatives == SelectSeq([i \in 1..m.n |-> i], LAMBDA i : ~m.locked[i] /\ \A k \in m.group[i] : i <= k)
      RECURSIVE Rows(_, _, _)                   \* where the unknowns of a set occur
      Rows(g, j, k) ==
        IF j > c.ne THEN <<>>
        ELSE IF k > Len(cells[j]) THEN Rows(g, j + 1, 1)
        ELSE LET here == SelectSeq([i \in 1..Len(cells[j][k].dof) |-> <<j, k, i>>],
                                   LAMBDA w : cells[j][k].dof[w[3]] \in g)
             IN  here \o Rows(g, j, k + 1)
  IN  RForce([cfg |-> c, mesh |-> m, cells |-> cells, faces |-> faces, crystals |-> crystals,
       of |-> [j \in 1..c.ne |-> CrystalOf(c, j)],
       w |-> [q \in 1..Len(Grid(c.dim)) |-> Product(<<Weight(Grid(c.dim)[q])>> \o SubSeq(len, 1, c.dim))],
       wf |-> [q \in 1..Len(FaceGrid(c.dim)) |->
                 RMul(Weight(FaceGrid(c.dim)[q]), IF c.dim = 2 THEN h ELSE RMul(h, h))],
       up |-> up, down |-> VScale("-1.0", up),
       trails |-> [i \in 1..c.nc |-> IF Len(c.directions) = 0 THEN <<>> ELSE Trails(crystals[i].systems, up)],
       rows |-> representatives,
       where |-> [r \in 1..Len(representatives) |-> Rows(m.group[representatives[r]], 1, 1)],
       macro |-> IF Len(c.macrostrain) = 0 THEN VZero(c.dim * c.dim) ELSE c.macrostrain,
       n0 |-> N0(c), n2 |-> N2(c), n3 |-> N3(c), f |-> RDiv(N3(c), N0(c)),
       scalar |-> [kind |-> c.scalar.fn, p |-> c.scalar.p, H |-> c.hard.H, q |-> c.hard.q, chr |-> CharResistance(c),
                   perfect |-> c.hard.perfect, indep |-> c.scalar.ri],
       vect |-> [g0 |-> c.vect.g0, l |-> c.vect.l, p |-> c.vect.n, dimless |-> c.dimless],
       cohesive |-> [Tc |-> c.cohesive.t, dc |-> c.cohesive.delta, beta |-> c.cohesive.beta,
                     chrs |-> CharStress(c), chru |-> CharU(c)],
       contact |-> [k |-> c.contact, chrs |-> CharStress(c), chru |-> CharU(c)]])

Systems(B, j) == B.crystals[B.of[j]].systems
NSlips(B) == Len(B.cfg.directions)

-----------------------------------------------------------------------------
(* records of all material points and of all grain boundary points           *)
Records(B) ==
  LET c == B.cfg
      law == [g0 |-> c.hard.g0, H |-> c.hard.H, q |-> c.hard.q, perfect |-> c.hard.perfect]
      prm == [deltac |-> c.cohesive.delta, beta |-> c.cohesive.beta, A |-> c.damage.acc, c |-> c.damage.decay,
              m |-> c.damage.exp, limit |-> c.damage.endurance, zero |-> c.damage.zero]
  IN  RForce([bulk |-> [j \in 1..c.ne |-> [q \in 1..Len(B.w) |-> HInit(law, NSlips(B), CharResistance(c))]],
              face |-> [f \in 1..(IF c.deco THEN Len(B.faces) ELSE 0) |-> [q \in 1..Len(B.wf) |-> DNew(prm)]]])

Coefficients(comp, x) == RForce([k \in 1..Len(comp.dof) |-> x[comp.dof[k]]])
(* values of the slips of element j at its points                            *)
SlipValues(B, j, x) ==
  RForce([a \in 1..NSlips(B) |-> LET k == B.cells[j][B.cfg.dim + a] IN MatVec(k.N, Coefficients(k, x))])
AtPoint(values, q) == [a \in 1..Len(values) |-> values[a][q]]

(* displacement or slips of both sides of boundary f: lower and upper        *)
Lower(B, f, k, x) == LET p == B.cells[B.faces[f]][k] IN MatVec(p.up, Coefficients(p, x))
Upper(B, f, k, x) == LET p == B.cells[B.faces[f] + 1][k] IN MatVec(p.down, Coefficients(p, x))
Sides(B, f, x, first, last) ==
  LET l == RForce([k \in first..last |-> Lower(B, f, k, x)])
      u == RForce([k \in first..last |-> Upper(B, f, k, x)])
  IN  RForce([q \in 1..Len(B.wf) |->
        [lower |-> [k \in 1..(last - first + 1) |-> l[first + k - 1][q]],
         upper |-> [k \in 1..(last - first + 1) |-> u[first + k - 1][q]]]])
Displacements(B, f, x) == Sides(B, f, x, 1, B.cfg.dim)
Slips(B, f, x) == Sides(B, f, x, B.cfg.dim + 1, B.cfg.dim + NSlips(B))

BoundaryEnergy(B, f, g) ==
  IF NSlips(B) = 0 THEN R0
  ELSE Energy(B.cfg.micro, B.trails[B.of[B.faces[f]]], B.trails[B.of[B.faces[f] + 1]], g.lower, g.upper)

(* the records evaluated at the iterate x of a step which started from old   *)
EvaluatedFace(B, f, records, x) ==
  LET c == B.cfg
      u == Displacements(B, f, x)
      g == Slips(B, f, x)
  IN  RForce([q \in 1..Len(B.wf) |->
        LET eff == EffectiveOpening(u[q].upper, u[q].lower, B.up, c.cohesive.beta)
            s == records[q]
        IN  IF c.damage.model = "OrtizEtAl" THEN DEvalExp(s, eff)
            ELSE DEvalAcc(s, eff, CharU(c),
                          RMul(RNeg(DegradationSlope(c.damage.deg, s.cd)),
                               RAdd(CohesiveEnergy(B.cohesive, RMul(CharU(c), eff)), BoundaryEnergy(B, f, g[q]))))])
Evaluated(B, h, x, old) ==
  LET bulk(j) == LET g == SlipValues(B, j, x)
                     o == SlipValues(B, j, old)
                 IN  RForce([q \in 1..Len(B.w) |-> HUpdate(h.bulk[j][q], AtPoint(g, q), AtPoint(o, q))])
  IN  [bulk |-> RForce([j \in 1..Len(h.bulk) |-> bulk(j)]),
       face |-> RForce([f \in 1..Len(h.face) |-> EvaluatedFace(B, f, h.face[f], x)])]
(* the end of a step with the solution x                                     *)
Committed(B, h, x, old) ==
  LET e == Evaluated(B, h, x, old)
      face(f) == LET u == Displacements(B, f, x) IN
                 RForce([q \in 1..Len(B.wf) |->
                   DOpening(DStore(e.face[f][q]),
                            EffectiveOpening(u[q].upper, u[q].lower, B.up, B.cfg.cohesive.beta))])
  IN  [bulk |-> RForce([j \in 1..Len(e.bulk) |-> [q \in 1..Len(B.w) |-> HStore(e.bulk[j][q])]]),
       face |-> RForce([f \in 1..Len(e.face) |-> face(f)])]

-----------------------------------------------------------------------------
(* gradient of component k in element j: one sequence over the points per    *)
(* direction                                                                 *)
Gradient(B, j, k, x) ==
  LET p == B.cells[j][k]
      v == Coefficients(p, x)
  IN  RForce([b \in 1..B.cfg.dim |-> MatVec(p.D[b], v)])
(* flat strain at every point                                                *)
Strains(B, j, x) ==
  LET n == B.cfg.dim
      g == RForce([a \in 1..n |-> Gradient(B, j, a, x)])
  IN  RForce([q \in 1..Len(B.w) |-> [k \in 1..(n * n) |->
        LET a == 1 + ((k - 1) \div n) b == 1 + ((k - 1) % n) IN RMul("0.5", RAdd(g[a][b][q], g[b][a][q]))]])
(* flat stress: linear in displacements and slips                            *)
Stresses(B, j, x) ==
  LET e == Strains(B, j, x)
      g == SlipValues(B, j, x)
      k == B.crystals[B.of[j]]
      plastic(q) == IF NSlips(B) = 0 THEN VZero(Len(e[q]))
                    ELSE MatVec(Transp(k.sym), AtPoint(g, q))
  IN  RForce([q \in 1..Len(B.w) |-> MatVec(k.stiffness, VSub(e[q], VScale(B.n0, plastic(q))))])

(* ... and with the prescribed macroscopic strain                            *)
TotalStresses(B, j, x) ==
  LET s == Stresses(B, j, x)
      macro == MatVec(B.crystals[B.of[j]].stiffness, B.macro)
  IN  RForce([q \in 1..Len(s) |-> VAdd(s[q], macro)])

(* virtual work of the generalised forces of element j: stress (flat, per    *)
(* point), per slip the force s and the vector microstress v (per direction) *)
Forces(B, j, stress, s, v) ==
  LET n == B.cfg.dim
      over(h) == RForce([q \in 1..Len(B.w) |-> RMul(B.w[q], h[q])])
      sw == RForce([k \in 1..(n * n) |-> over([q \in 1..Len(B.w) |-> stress[q][k]])])
      body(a, i) == RMul(RNeg(B.f), RSum([b \in 1..n |-> RDot(sw[(a - 1) * n + b], B.cells[j][a].DT[b][i])]))
      svw == RForce([a \in 1..NSlips(B) |-> [s |-> over(s[a]), v |-> [b \in 1..n |-> over(v[a][b])]]])
      slip(a, i) == LET p == B.cells[j][n + a] IN
                    RSub(RDot(svw[a].s, p.NT[i]),
                         RMul(B.n2, RSum([b \in 1..n |-> RDot(svw[a].v[b], p.DT[b][i])])))
  IN  RForce([k \in 1..Len(B.cells[j]) |-> [i \in 1..Len(B.cells[j][k].dof) |->
                IF k <= n THEN body(k, i) ELSE slip(k - n, i)]])

(* residual of the interior of element j                                     *)
Interior(B, j, h, x, old, dt) ==
  LET k == B.crystals[B.of[j]]
      stress == TotalStresses(B, j, x)
      g == SlipValues(B, j, x)
      o == SlipValues(B, j, old)
      force(a) == RForce([q \in 1..Len(B.w) |->
                    RSub(RMul(B.n3, RDot(stress[q], k.sym[a])),
                         ScalarMicrostress(B.scalar, g[a][q], o[a][q], h.bulk[j][q].cur[a], dt))])
      micro(a) == LET d == Gradient(B, j, B.cfg.dim + a, x)
                      xi == RForce([q \in 1..Len(B.w) |->
                              VectorMicrostress(B.vect, k.systems[a], [b \in 1..B.cfg.dim |-> d[b][q]])])
                  IN  RForce([b \in 1..B.cfg.dim |-> [q \in 1..Len(B.w) |-> xi[q][b]]])
  IN  Forces(B, j, stress, RForce([a \in 1..NSlips(B) |-> force(a)]), RForce([a \in 1..NSlips(B) |-> micro(a)]))
(* its derivative along v, with the opposite sign                            *)
InteriorTangent(B, j, h, x, old, dt, v) ==
  LET k == B.crystals[B.of[j]]
      n == B.cfg.dim
      stress == Stresses(B, j, v)
      g == SlipValues(B, j, x)
      o == SlipValues(B, j, old)
      dg == SlipValues(B, j, v)
      T == RForce([q \in 1..Len(B.w) |-> ScalarTangent(B.scalar, g, o, h.bulk[j][q].cur, dt, q)])
      force(a) == RForce([q \in 1..Len(B.w) |->
                    RSub(RMul(B.n3, RDot(stress[q], k.sym[a])), RDot(T[q][a], AtPoint(dg, q)))])
      micro(a) == LET d == Gradient(B, j, n + a, x)
                      dd == Gradient(B, j, n + a, v)
                      xi == RForce([q \in 1..Len(B.w) |->
                              MatVec(VectorTangent(B.vect, k.systems[a], [b \in 1..n |-> d[b][q]]),
                                     [b \in 1..n |-> dd[b][q]])])
                  IN  RForce([b \in 1..n |-> [q \in 1..Len(B.w) |-> xi[q][b]]])
  IN  Forces(B, j, stress, RForce([a \in 1..NSlips(B) |-> force(a)]), RForce([a \in 1..NSlips(B) |-> micro(a)]))

-----------------------------------------------------------------------------
(* tractions on one side of boundary point q: here and there are the values  *)
(* of this and of the other side, n the outward normal                       *)
Damaged(B, h, f, q, coupled) ==
  IF B.cfg.deco THEN Degradation(B.cfg.damage.deg, h.face[f][q].d, coupled) ELSE R1
MacroTraction(B, h, f, q, here, there, n) ==
  LET u == VSub(there, here)
      s == h.face[f][q]
  IN  VAdd(VScale(Damaged(B, h, f, q, B.cfg.damage.macro), CohesiveTraction(B.cohesive, u, n, s.max)),
           ContactTraction(B.contact, u, n))
(* ... along the openings v; the record is held                              *)
MacroTangent(B, h, f, q, here, there, n, v) ==
  LET u == VSub(there, here)
      s == h.face[f][q]
      a == IF RLt(R0, Normal(u, n)) THEN R1 ELSE R0
      b == IF RLt(Normal(u, n), R0) THEN R1 ELSE R0
      K == CohesiveTangent(B.cohesive, u, n, s.max, Loading(Effective(B.cohesive, u, n), s.max, s.eff0), a)
  IN  MatVec(MAdd(MScale(Damaged(B, h, f, q, B.cfg.damage.macro), K), ContactTangent(B.contact, n, b)), v)
(* linear in the slips                                                       *)
MicroTraction(B, h, f, q, Gc, Gn, here, there) ==
  LET d == Damaged(B, h, f, q, B.cfg.damage.micro) IN
  RForce([a \in 1..NSlips(B) |->
            RMul(RMul(B.n2, d), Traction(B.cfg.micro, CharMicro(B.cfg), Gc, Gn, here, there, a))])

Interacts(B) == B.cfg.bc = "microtraction" /\ NSlips(B) > 0

(* virtual work of tractions t[q] (displacements first) on side end of face  *)
Pressed(B, j, end, t) ==
  RForce([k \in 1..Len(B.cells[j]) |-> [i \in 1..Len(B.cells[j][k].dof) |->
            RSum([q \in 1..Len(B.wf) |-> RMul(RMul(B.wf[q], t[q][k]), end[k][q][i])])]])
Tractions(B, h, f, x, macro(_, _, _, _), lower) ==
  LET n == B.cfg.dim
      j == B.faces[f]
      u == Displacements(B, f, x)
      g == Slips(B, f, x)
      Gl == B.trails[B.of[j]]
      Gu == B.trails[B.of[j + 1]]
      t(q) == IF ~B.cfg.deco THEN VZero(n)
              ELSE VScale(B.f, IF lower THEN macro(q, u[q].lower, u[q].upper, B.up)
                               ELSE macro(q, u[q].upper, u[q].lower, B.down))
      s(q) == IF ~Interacts(B) THEN VZero(NSlips(B))
              ELSE IF lower THEN MicroTraction(B, h, f, q, Gl, Gu, g[q].lower, g[q].upper)
              ELSE MicroTraction(B, h, f, q, Gu, Gl, g[q].upper, g[q].lower)
  IN  RForce([q \in 1..Len(B.wf) |-> t(q) \o s(q)])

AddLocal(a, b) == RForce([k \in 1..Len(a) |-> VAdd(a[k], b[k])])
HasFaces(B) == B.cfg.deco \/ Interacts(B)
WithFaces(B, h, interior, x, macro(_, _, _, _, _)) ==
  IF ~HasFaces(B) THEN interior
  ELSE LET side(f, lower) ==
             LET j == IF lower THEN B.faces[f] ELSE B.faces[f] + 1
                 mac(q, here, there, n) == macro(f, q, here, there, n)
             IN  Pressed(B, j, [k \in 1..Len(B.cells[j]) |-> IF lower THEN B.cells[j][k].up ELSE B.cells[j][k].down],
                         Tractions(B, h, f, x, mac, lower))
           RECURSIVE Add(_, _)
           Add(f, L) == IF f > Len(B.faces) THEN L
                        ELSE Add(f + 1, RForce([L EXCEPT ![B.faces[f]] = AddLocal(@, side(f, TRUE)),
                                                         ![B.faces[f] + 1] = AddLocal(@, side(f, FALSE))]))
       IN  Add(1, interior)

(* sums over the elements and tied unknowns, one per representative          *)
Gather(B, L) ==
  RForce([r \in 1..Len(B.rows) |->
    RSum([k \in 1..Len(B.where[r]) |-> LET w == B.where[r][k] IN L[w[1]][w[2]][w[3]]])])
Condensed(B, r) ==
  RForce([k \in 1..Len(B.rows) |->
    LET g == B.mesh.group[B.rows[k]] IN
    IF g = {B.rows[k]} THEN r[B.rows[k]]
    ELSE RSum([i \in 1..B.mesh.n |-> IF i \in g THEN r[i] ELSE R0])])

(* residual of all elements; h: the records evaluated at x                   *)
LocalResidual(B, h, x, old, dt) ==
  LET I == RForce([j \in 1..B.cfg.ne |-> Interior(B, j, h, x, old, dt)])
      macro(f, q, here, there, n) == MacroTraction(B, h, f, q, here, there, n)
  IN  WithFaces(B, h, I, x, macro)
ResidualOf(B, h, x, old, dt) == Gather(B, LocalResidual(B, h, x, old, dt))

(* External forces: a volume force and tractions on outer faces, which are   *)
(* affine functions of the place; the latter grow with the time t as 1 + t.  *)
(* c.loads.supply is <<>> or <<a, M>>, c.loads.tractions has <<id, a, M>>    *)
OuterFace(id) == <<<<1, R0>>, <<1, R1>>, <<2, R0>>, <<2, R1>>, <<3, R0>>, <<3, R1>>>>[id + 1]
Borders(c, j, id) == CASE id = 2 -> j = 1 [] id = 3 -> j = c.ne [] OTHER -> TRUE
OnFace(dim, f, g) ==
  [d \in 1..dim |-> IF d = f[1] THEN f[2] ELSE GaussPoint[g[IF d < f[1] THEN d ELSE d - 1]]]
Lengths(c) ==
  LET h == RDiv(R1, ROfInt(c.ne)) IN SubSeq(<<h, RDiv(c.height, ROfInt(c.ne)), h>>, 1, c.dim)
(* the place with the coordinates t in element j                             *)
PlaceOf(c, j, t) ==
  LET len == Lengths(c) IN
  [d \in 1..c.dim |-> RMul(len[d], IF d = 2 THEN RAdd(ROfInt(j - 1), t[d]) ELSE t[d])]
AffineAt(a, M, p) ==
  [k \in 1..Len(a) |-> RAdd(a[k], RSum([d \in 1..Len(p) |-> RMul(M[(k - 1) * Len(a) + d], p[d])]))]

(* virtual work of forces v at points t of element j with the weights w      *)
Applied(B, j, t, w, v) ==
  RForce([k \in 1..Len(B.cells[j]) |-> [i \in 1..Len(B.cells[j][k].dof) |->
    IF k > B.cfg.dim THEN R0
    ELSE LET d == B.mesh.dofs[B.cells[j][k].dof[i]]
             o == <<d[5], d[6] - 2 * (j - 1), d[7]>>
         IN  RSum([q \in 1..Len(t) |-> RMul(RMul(w[q], v[q][k]), Shape(B.cfg.du, o, t[q]))])]])
Unloaded(B, j) == RForce([k \in 1..Len(B.cells[j]) |-> VZero(Len(B.cells[j][k].dof))])
SupplyOn(B, j) ==
  LET c == B.cfg
      t == RForce([q \in 1..Len(B.w) |-> At(Grid(c.dim)[q])])
  IN  Applied(B, j, t, [q \in 1..Len(B.w) |-> RMul(B.f, B.w[q])],
              RForce([q \in 1..Len(t) |-> AffineAt(c.loads.supply[1], c.loads.supply[2], PlaceOf(c, j, t[q]))]))
TractionOn(B, j, l) ==
  LET c == B.cfg
      f == OuterFace(l[1])
      g == FaceGrid(c.dim)
      len == Lengths(c)
      t == RForce([q \in 1..Len(g) |-> OnFace(c.dim, f, g[q])])
  IN  Applied(B, j, t, [q \in 1..Len(g) |-> Product(<<Weight(g[q])>> \o [d \in 1..c.dim |-> IF d = f[1] THEN R1 ELSE len[d]])],
              RForce([q \in 1..Len(t) |-> AffineAt(l[2], l[3], PlaceOf(c, j, t[q]))]))
RECURSIVE TractionsOn(_, _, _)
TractionsOn(B, j, k) ==
  IF k > Len(B.cfg.loads.tractions) THEN Unloaded(B, j)
  ELSE LET l == B.cfg.loads.tractions[k]
           rest == TractionsOn(B, j, k + 1)
       IN  IF Borders(B.cfg, j, l[1]) THEN AddLocal(TractionOn(B, j, l), rest) ELSE rest
External(B) ==
  LET c == B.cfg IN
  RForce([supply |-> Gather(B, [j \in 1..c.ne |-> IF Len(c.loads.supply) = 0 THEN Unloaded(B, j) ELSE SupplyOn(B, j)]),
          traction |-> Gather(B, [j \in 1..c.ne |-> TractionsOn(B, j, 1)])])
ExternalAt(X, t) == VAdd(X.supply, VScale(RAdd(R1, t), X.traction))

(* minus the derivative along v; records are held, and the hardening enters  *)
(* symmetrised (ScalarTangent)                                               *)
TangentOf(B, h, x, old, dt, v) ==
  LET I == RForce([j \in 1..B.cfg.ne |-> InteriorTangent(B, j, h, x, old, dt, v)])
      U == RForce([f \in 1..Len(B.faces) |-> Displacements(B, f, x)])
      \* the opening rate does not depend on the side apart from its sign
      macro(f, q, here, there, n) ==
        LET u == U[f][q]
            low == REq(n[2], R1)
        IN  MacroTangent(B, h, f, q, IF low THEN u.lower ELSE u.upper, IF low THEN u.upper ELSE u.lower, n,
                         VSub(there, here))
  IN  VScale("-1.0", Gather(B, WithFaces(B, h, I, v, macro)))
=============================================================================
