--------------------------- MODULE TraceActiveSet ---------------------------
(* Recorded active sets, slip resistances and slips of whole loading         *)
(* histories, judged by the specification of the active set.                 *)
EXTENDS ActiveSet, Strip, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos,
          c, m, law,
          committed,  \* resistances and slips at the end of the last step
          old,
          sets,       \* active and inactive slips; fresh: determined in this step,
                      \* due: to be determined anew
          x, g,       \* last iterate and its resistances
          iterated    \* a slip system of equations has been solved
data == <<c, m, law, committed, old, sets, x, g, iterated>>
vars == <<run, pos, data>>

Nothing == [none |-> TRUE]
Init ==
  /\ run \in 1..Len(Runs) /\ pos = 1
  /\ c = Nothing /\ m = Nothing /\ law = Nothing /\ committed = <<>> /\ old = <<>>
  /\ sets = [active |-> {}, inactive |-> {}, fresh |-> FALSE, due |-> FALSE] /\ x = <<>> /\ g = <<>> /\ iterated = FALSE

Ev == Runs[run][pos]
Set(v) == {v[k] : k \in 1..Len(v)}

CharG(cfg) == IF cfg.dimless THEN cfg.chars.g ELSE R1
Law(cfg) ==
  LET self == RDiv(cfg.hard.H, CharG(cfg))
  IN  [perfect |-> cfg.hard.perfect, g0 |-> RDiv(cfg.hard.g0, CharG(cfg)),
       self |-> self, latent |-> RMul(self, cfg.hard.q), ri |-> cfg.scalar.ri]

(* the mesh of ActiveSet in terms of the strip                               *)
NodeKey(d) == <<d[3], d[5], d[6], d[7]>>
Mesh(cfg, dofs) ==
  LET s == StripMesh(cfg, dofs)
      slips == {i \in 1..s.n : Kind(dofs[i]) = 1}
      key == RForce([i \in 1..s.n |-> NodeKey(dofs[i])])
  IN  [slips |-> slips, locked |-> {i \in slips : s.locked[i]},
       fixed |-> {i \in 1..s.n : s.locked[i]},
       group |-> s.group,
       same |-> RForce([i \in 1..s.n |-> IF i \in slips THEN {j \in slips : key[j] = key[i]} ELSE {i}])]

-----------------------------------------------------------------------------
Scale(v) == RMaxAbs([k \in 1..Len(v) |-> v[k]])
(* resistances g of the iterate y                                            *)
ResistancesMatch(gs, y, active) ==
  \A i \in m.slips :
    RClose(gs[i], Resistance(m, law, i, active, committed, y, old), "1e-11", R0) = TRUE
Held(y) ==
  \A i \in sets.inactive : RClose(y[i], old[i], "1e-12", RMul("1e-13", RMaxAbs(y))) = TRUE

(* the sets belong to the stresses and resistances, which are compared in    *)
(* floating-point numbers                                                    *)
Scaled(f, v) == [i \in m.slips |-> RMul(f, v[i])]
Matches(active, tau, gs) ==
  LET soft == [law EXCEPT !.g0 = RMul("0.999999999999", @)]
      hard == [law EXCEPT !.g0 = RMul("1.000000000001", @)]
  IN  /\ ActiveOf(m, hard, tau, Scaled("1.000000000001", gs)) \subseteq active
      /\ active \subseteq ActiveOf(m, soft, tau, Scaled("0.999999999999", gs))
      /\ \A i \in active : m.group[i] \subseteq active

Residual ==
  /\ LET a == Set(Ev.active)
     IN  /\ IF law.ri THEN sets.fresh => a = sets.active
            ELSE a = m.slips \/ (~iterated /\ a = {} /\ c.strategy # "monolithic")
         /\ ResistancesMatch(Ev.g, Ev.x, a) = TRUE
  /\ Held(Ev.x) = TRUE
  /\ x' = Ev.x /\ g' = Ev.g
  /\ sets' = IF law.ri THEN sets ELSE [sets EXCEPT !.active = Set(Ev.active)]
  /\ UNCHANGED <<c, m, law, committed, old, iterated>>

Solve ==
  /\ Ev.what # "macro" =>
       IF law.ri THEN sets.fresh /\ ~sets.due ELSE sets.active = m.slips
  /\ iterated' = (iterated \/ Ev.what # "macro")
     \* new displacements: the bouncing strategy determines the set anew
  /\ sets' = IF c.strategy = "bouncing" /\ Ev.what = "macro" THEN [sets EXCEPT !.due = TRUE] ELSE sets
  /\ UNCHANGED <<c, m, law, committed, old, x, g>>

(* the yield condition is evaluated at the present iterate                   *)
Determined ==
  /\ law.ri
  /\ ResistancesMatch(Ev.g, Ev.x, sets.active) = TRUE
  /\ LET a == Set(Ev.active)
     IN  /\ Matches(a, Ev.tau, Ev.g) = TRUE
         /\ Set(Ev.inactive) = InactiveOf(m, a)
         /\ sets' = [active |-> a, inactive |-> Set(Ev.inactive), fresh |-> TRUE, due |-> FALSE]
  /\ x' = Ev.x /\ g' = Ev.g
  /\ UNCHANGED <<c, m, law, committed, old, iterated>>

Applied ==
  /\ \A y \in {Hold(x, old, sets.inactive)} :
       \A i \in (1..Len(x)) \ m.fixed :
         RClose(Ev.x[i], y[i], "1e-12", RMul("1e-13", RMaxAbs(x))) = TRUE
  /\ x' = Ev.x
  /\ UNCHANGED <<c, m, law, committed, old, sets, g, iterated>>

(* the yield condition at any other admissible iterate                       *)
Probe ==
  /\ law.ri
  /\ ResistancesMatch(Ev.g, Ev.x, Set(Ev.from)) = TRUE
  /\ LET a == Set(Ev.active)
     IN  /\ Matches(a, Ev.tau, Ev.g) = TRUE
         /\ Set(Ev.inactive) = InactiveOf(m, a)
         /\ \A y \in {Hold(Ev.x, old, InactiveOf(m, a))} :
              \A i \in (1..Len(y)) \ m.fixed :
                RClose(Ev.y[i], y[i], "1e-12", RMul("1e-13", RMaxAbs(y))) = TRUE
  /\ UNCHANGED <<c, m, law, committed, old, sets, x, g, iterated>>

Accept ==
  /\ Held(Ev.x) = TRUE
  /\ law.ri => sets.fresh /\ ~sets.due
  /\ ResistancesMatch(g, Ev.x, sets.active) = TRUE
  /\ law.ri \/ sets.active = m.slips
  /\ committed' = g /\ x' = Ev.x
  /\ UNCHANGED <<c, m, law, old, sets, g, iterated>>

Step ==
  CASE Ev.e = "config" -> c' = Ev /\ law' = Law(Ev) /\ UNCHANGED <<m, committed, old, sets, x, g, iterated>>
    [] Ev.e = "mesh" ->
         /\ m' = Mesh(c, Ev.dofs)
         /\ committed' = RForce([i \in 1..Len(Ev.dofs) |-> law.g0])
         /\ UNCHANGED <<c, law, old, sets, x, g, iterated>>
    [] Ev.e = "step" ->
         /\ old' = Ev.old
         /\ sets' = [active |-> sets.active, inactive |-> {}, fresh |-> FALSE, due |-> FALSE]
         /\ UNCHANGED <<c, m, law, committed, x, g, iterated>>
    [] Ev.e = "residual" -> Residual
    [] Ev.e = "solve" -> Solve
    [] Ev.e = "determined" -> Determined
    [] Ev.e = "applied" -> Applied
    [] Ev.e = "probe" -> Probe
    [] Ev.e = "accept" -> Accept
    [] Ev.e = "fail" -> Ev.limit /\ UNCHANGED data
    [] OTHER -> UNCHANGED data

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
