---------------------------- MODULE MCDofLayout -----------------------------
(* Cells of a strip (or a small block) receive their unknowns in any order.  *)
EXTENDS DofLayout, TLC, Json

CONSTANTS Dims, MaxCrystals, MaxSlips, MaxLength, Widths, Emit

VARIABLES cfg, mesh, done, unknowns, shared
vars == <<cfg, mesh, done, unknowns, shared>>

Positions(dim, w, l) ==
  {x \in [1..dim -> 0..(IF w > l THEN w ELSE l)] :
      x[1] < w /\ x[2] < l /\ (dim = 3 => x[3] = 0)}

(* material identifiers are 0..nc-1, each used                               *)
Meshes(dim, nc, w, l) ==
  {m \in [Positions(dim, w, l) -> 0..nc-1] : {m[x] : x \in DOMAIN m} = 0..nc-1}

Cfgs == [dim : Dims, nc : 1..MaxCrystals, ns : 0..MaxSlips, deco : BOOLEAN,
         du : 1..2, ds : 1..2]

Init == /\ cfg \in Cfgs
        /\ \E w \in Widths, l \in 1..MaxLength :
             mesh \in Meshes(cfg.dim, cfg.nc, w, l)
        /\ done = {} /\ unknowns = {} /\ shared = {}
        /\ Emit => PrintT("GEN " \o ToJson([cfg |-> cfg, at |-> {<<x, mesh[x]>> : x \in DOMAIN mesh}]))

Place(x) ==
  LET u == Unknowns(cfg, mesh[x], x) IN
  /\ done' = done \cup {x}
  /\ unknowns' = unknowns \cup u
  /\ shared' = shared \cup {<<d, mesh[x]>> : d \in u}
  /\ UNCHANGED <<cfg, mesh>>

Next == ~Emit /\ \E x \in DOMAIN mesh \ done : Place(x)
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
(* every component belongs to one kind and one owner (or all of them)        *)
Partition ==
  /\ UNION {Own(cfg, c) : c \in 0..cfg.nc-1} = 0..NComponents(cfg)-1
  /\ \A c, d \in 0..cfg.nc-1 : c # d =>
        Own(cfg, c) \cap Own(cfg, d) = (IF cfg.deco THEN {} ELSE 0..cfg.dim-1)
  /\ \A c \in 0..cfg.nc-1 :
        {Within(cfg, c, k) : k \in Own(cfg, c)} = 0..(cfg.dim + cfg.ns - 1)

(* order of the cells does not matter                                        *)
Complete == done = DOMAIN mesh => unknowns = All(cfg, mesh)

(* slips are never shared between crystals, displacements exactly if the     *)
(* body is coherent                                                          *)
Owners(d) == {p[2] : p \in {q \in shared : q[1] = d}}
Separate ==
  \A d \in unknowns :
     /\ ~IsDisp(cfg, d[1]) => Cardinality(Owners(d)) = 1
     /\ cfg.deco => Cardinality(Owners(d)) = 1
Continuous ==
  (done = DOMAIN mesh /\ ~cfg.deco) =>
     \A x, y \in DOMAIN mesh :
        \A n \in Nodes(cfg.dim, x, cfg.du) \cap Nodes(cfg.dim, y, cfg.du), j \in 0..cfg.dim-1 :
           <<j, n>> \in unknowns
           /\ {mesh[x], mesh[y]} \subseteq Owners(<<j, n>>)

=============================================================================
