----------------------------- MODULE DofLayout ------------------------------
(* The unknowns of the discretised problem.  A mesh is a set of unit cells   *)
(* at integer positions, each of one crystal.  Nodes are written in twice    *)
(* the coordinates, so that midpoints (quadratic elements) are integers.     *)
(*                                                                           *)
(* cfg = [dim, nc (crystals), ns (slip systems), deco (decohesion allowed),  *)
(*        du, ds (polynomial degrees of displacements and slips)]            *)
EXTENDS Integers, Sequences, FiniteSets

(* the components of the vector-valued field, numbered from 0                *)
DispSets(cfg) == IF cfg.deco THEN cfg.nc ELSE 1
NDisp(cfg) == cfg.dim * DispSets(cfg)
NComponents(cfg) == NDisp(cfg) + cfg.nc * cfg.ns
DispBase(cfg, c) == IF cfg.deco THEN c * cfg.dim ELSE 0
DispComponent(cfg, c, j) == DispBase(cfg, c) + j
SlipComponent(cfg, c, s) == NDisp(cfg) + c * cfg.ns + s
IsDisp(cfg, k) == k < NDisp(cfg)

(* which components a crystal owns and their numbers within the crystal      *)
Own(cfg, c) == {DispComponent(cfg, c, j) : j \in 0..cfg.dim-1}
               \cup {SlipComponent(cfg, c, s) : s \in 0..cfg.ns-1}
Within(cfg, c, k) == IF IsDisp(cfg, k) THEN k - DispBase(cfg, c)
                     ELSE cfg.dim + (k - NDisp(cfg) - c * cfg.ns)

Degree(cfg, k) == IF IsDisp(cfg, k) THEN cfg.du ELSE cfg.ds

(* the nodes of the cell at position x for elements of degree p              *)
Offsets(p) == IF p = 1 THEN {0, 2} ELSE {0, 1, 2}
Nodes(dim, x, p) ==
  {n \in [1..dim -> UNION {{2 * x[i] + o : o \in Offsets(p)} : i \in 1..dim}] :
      \A i \in 1..dim : n[i] - 2 * x[i] \in Offsets(p)}

(* the unknowns of a cell of crystal c at x: a component at a node           *)
Unknowns(cfg, c, x) ==
  UNION {{<<k, n>> : n \in Nodes(cfg.dim, x, Degree(cfg, k))} : k \in Own(cfg, c)}

(* the unknowns of a mesh [positions -> crystals]                            *)
All(cfg, mesh) == UNION {Unknowns(cfg, mesh[x], x) : x \in DOMAIN mesh}
Displacements(cfg, u) == {d \in u : IsDisp(cfg, d[1])}
Slips(cfg, u) == {d \in u : ~IsDisp(cfg, d[1])}
=============================================================================
