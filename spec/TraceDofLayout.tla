--------------------------- MODULE TraceDofLayout ---------------------------
(* Recorded layouts of the real field.  pairs collects <<unknown, number,    *)
(* crystal>>.                                                                *)
EXTENDS DofLayout, Real64, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, cfg, mesh, pairs, owned, n
vars == <<run, pos, cfg, mesh, pairs, owned, n>>

Init == /\ run \in 1..Len(Runs) /\ pos = 1 /\ cfg = <<>> /\ mesh = <<>>
        /\ pairs = {} /\ owned = {} /\ n = 0
Ev == Runs[run][pos]
Range(s) == {s[i] : i \in DOMAIN s}

Config ==
  /\ cfg' = [dim |-> Ev.dim, nc |-> Ev.nc, ns |-> Ev.ns, deco |-> Ev.deco, du |-> Ev.du, ds |-> Ev.ds,
             single |-> Ev.single]
  /\ mesh' = [x \in {Ev.cells[i].at : i \in DOMAIN Ev.cells} |->
                (CHOOSE c \in Range(Ev.cells) : c.at = x).mat]
  /\ UNCHANGED <<pairs, owned, n>>

Components ==
  /\ Ev.n = NComponents(cfg)
  /\ Ev.decohesion = cfg.deco /\ Ev.crystals = cfg.nc /\ Ev.slipsystems = cfg.ns
  /\ Ev.du = cfg.du /\ Ev.ds = cfg.ds
  /\ Len(Ev.disp) = cfg.nc /\ Len(Ev.slips) = cfg.nc
  /\ \A c \in 0..cfg.nc-1 :
       /\ Ev.disp[c + 1] = DispComponent(cfg, c, 0)
       /\ Len(Ev.slips[c + 1]) = cfg.ns
       /\ \A s \in 0..cfg.ns-1 : Ev.slips[c + 1][s + 1] = SlipComponent(cfg, c, s)
  /\ UNCHANGED <<cfg, mesh, pairs, owned, n>>

(* a cell, possibly a ghost of another process                               *)
Cell ==
  LET u == [i \in DOMAIN Ev.dofs |-> <<Ev.comp[i], Ev.nodes[i]>>] IN
  /\ Ev.at \in DOMAIN mesh
  /\ Ev.mat = mesh[Ev.at] /\ Ev.fe = Ev.mat
  /\ Range(u) = Unknowns(cfg, Ev.mat, Ev.at)
  /\ Cardinality(Range(u)) = Len(Ev.dofs)
  /\ \A i \in DOMAIN Ev.dofs : Ev.within[i] = Within(cfg, Ev.mat, Ev.comp[i])
  /\ pairs' = pairs \cup {<<u[i], Ev.dofs[i], Ev.mat>> : i \in DOMAIN Ev.dofs}
  /\ owned' = IF Ev.owned THEN owned \cup {<<"cell", Ev.at, Ev.rank>>} ELSE owned
  /\ UNCHANGED <<cfg, mesh, n>>

(* what the processes own; kept until the counts are known                   *)
Owned ==
  LET a == Range(Ev.all)  d == Range(Ev.disp)  g == Range(Ev.slip) IN
  /\ d \cup g = a /\ d \cap g = {}
  /\ \A o \in owned : (o[1] = "dof") => (o[3] \cap a = {})
  /\ owned' = owned \cup {<<"dof", Ev.rank, a, d, g, Ev.blocks>>}
  /\ UNCHANGED <<cfg, mesh, pairs, n>>

(* Known finding quadratic-3d (see known_findings.txt): in three dimensions   *)
(* the unknowns at the middle of an edge between crystals are not shared if  *)
(* displacements and slips are both quadratic.  Such a displacement then has *)
(* one number for each crystal.                                              *)
Apart(u) ==
  /\ IOEnv.KNOWN = "quadratic-3d"
  /\ cfg.dim = 3 /\ ~cfg.deco /\ cfg.du = 2 /\ cfg.ds = 2
  /\ IsDisp(cfg, u[1])
  /\ Cardinality({i \in 1..3 : u[2][i] % 2 = 1}) = 1

Numbering ==
  IF IOEnv.KNOWN = ""
  THEN Cardinality({<<p[1], p[2]>> : p \in pairs}) = Cardinality(All(cfg, mesh))
  ELSE /\ Cardinality({<<p[1], p[2]>> : p \in {q \in pairs : ~Apart(q[1])}})
            = Cardinality({u \in All(cfg, mesh) : ~Apart(u)})
       /\ \A u \in {v \in All(cfg, mesh) : Apart(v)} :
            LET own == {p \in pairs : p[1] = u} IN
            Cardinality(own) = Cardinality({p[3] : p \in own})

Count ==
  LET all == All(cfg, mesh)
      disp == {p[2] : p \in {q \in pairs : IsDisp(cfg, q[1][1])}}
      slip == {p[2] : p \in {q \in pairs : ~IsDisp(cfg, q[1][1])}}
      nu == Cardinality(disp)
      ds == {o \in owned : o[1] = "dof"} IN
  /\ {p[1] : p \in pairs} = all                       \* every unknown has a number
  /\ {p[2] : p \in pairs} = 0..Ev.n-1                 \* all numbers are used
  /\ Cardinality({<<p[1], p[2]>> : p \in pairs}) = Ev.n \* for one unknown each
  /\ Numbering                                        \* one number each
  /\ cfg.ns > 0 => /\ Ev.nu = nu /\ Ev.ng = Ev.n - nu
                   /\ disp = 0..nu-1                   \* blocks
                   /\ slip = nu..Ev.n-1
  /\ UNION {o[3] : o \in ds} = 0..Ev.n-1
  /\ UNION {o[4] : o \in ds} = disp
  /\ UNION {o[5] : o \in ds} = slip
  /\ \A o \in ds : o[6] = IF cfg.single THEN <<Ev.n>> ELSE <<nu, Ev.n - nu>>
  /\ {<<o[2]>> : o \in {q \in owned : q[1] = "cell"}} = {<<x>> : x \in DOMAIN mesh}
  /\ Cardinality({o \in owned : o[1] = "cell"}) = Cardinality(DOMAIN mesh)
  /\ n' = Ev.n
  /\ UNCHANGED <<cfg, mesh, pairs, owned>>

(* a vector holding number + 1 at every unknown is seen so by each process,  *)
(* which sees at least the unknowns of its own cells                         *)
Ghosts ==
  /\ \A i \in DOMAIN Ev.dofs : Ev.vals[i] = Ev.dofs[i] + 1
  /\ \A o \in owned :
        (o[1] = "cell" /\ o[3] = Ev.rank) =>
           LET u == Unknowns(cfg, mesh[o[2]], o[2]) IN
           {p[2] : p \in {q \in pairs : q[1] \in u}} \subseteq Range(Ev.dofs)
  /\ UNCHANGED <<cfg, mesh, pairs, owned, n>>

(* norms of the vector big * (1, 2, .., n) and of its two parts              *)
SumSq(k) == RDiv(RMul(RMul(ToString(k), ToString(k + 1)), ToString(2 * k + 1)), "6")
Norm(a, b) == RMul(Ev.big, RSqrt(RSub(SumSq(b), SumSq(a))))
Norms ==
  LET nu == Cardinality({p[2] : p \in {q \in pairs : IsDisp(cfg, q[1][1])}}) IN
  /\ \A k \in {"all", "all_d"} : RClose(Ev[k], Norm(0, n), "1e-12", R0)
  /\ \A k \in {"u", "u_d"} : RClose(Ev[k], Norm(0, nu), "1e-12", R0)
  /\ \A k \in {"g", "g_d"} : RClose(Ev[k], Norm(nu, n), "1e-12", R0)
  /\ UNCHANGED <<cfg, mesh, pairs, owned, n>>

Step ==
  CASE Ev.e = "config" -> Config
    [] Ev.e = "components" -> Components
    [] Ev.e = "cell" -> Cell
    [] Ev.e = "owned" -> Owned
    [] Ev.e = "ties" -> Ev.lines = <<>> /\ UNCHANGED <<cfg, mesh, pairs, owned, n>>
    [] Ev.e = "count" -> Count
    [] Ev.e = "ghosts" -> Ghosts
    [] Ev.e = "norms" -> Norms
    [] Ev.e = "end" -> n > 0 /\ UNCHANGED <<cfg, mesh, pairs, owned, n>>

Next ==
  \/ /\ pos <= Len(Runs[run]) /\ Step
     /\ pos' = pos + 1 /\ UNCHANGED run
  \/ /\ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
