---------------------------- MODULE MCActiveSet ----------------------------
(* All histories of a small body: two nodes tied to each other, one free and *)
(* one clamped node, with one or two slip systems; trial stresses and slip   *)
(* increments are arbitrary.                                                 *)
EXTENDS ActiveSet, Integers, Sequences, TLC

CONSTANTS Systems, Stresses, Increments, StepsMax, ChangesMax

VARIABLES x, old, committed, active, inactive, steps, changes, phase, built
vars == <<x, old, committed, active, inactive, steps, changes, phase, built>>

Nodes == 1..3                      \* 1 and 2 tied, 3 clamped
Unknown(node, sys) == (node - 1) * Systems + sys
Slips == {Unknown(n, a) : n \in Nodes, a \in 1..Systems}
Node(i) == ((i - 1) \div Systems) + 1
System(i) == ((i - 1) % Systems) + 1
M == [slips |-> Slips,
      locked |-> {i \in Slips : Node(i) = 3},
      group |-> [i \in Slips |-> IF Node(i) = 3 THEN {i} ELSE {j \in Slips : Node(j) # 3 /\ System(j) = System(i)}],
      same |-> [i \in Slips |-> {j \in Slips : Node(j) = Node(i)}]]
Laws == {[perfect |-> p, g0 |-> "2.0", self |-> "1.0", latent |-> l] : p \in BOOLEAN, l \in {"0.0", "1.0"}}
VARIABLE law

Num(n) == ROfInt(n - 5)           \* the configuration counts from -5
Zero == [i \in Slips |-> R0]
G == [i \in Slips |-> Resistance(M, law, i, active, committed, x, old)]

Init ==
  /\ law \in Laws
  /\ x = Zero /\ old = Zero /\ committed = [i \in Slips |-> law.g0]
  /\ active = {} /\ inactive = {} /\ steps = 0 /\ changes = 0 /\ phase = "determine"
  /\ built = [none |-> TRUE]

(* trial stresses of tied unknowns need not agree                            *)
Determine ==
  /\ phase = "determine"
  /\ \E t \in [Slips \ M.locked -> Stresses] :
       LET tau == [i \in Slips |-> IF i \in M.locked THEN Num(9) ELSE Num(t[i])]
           a == ActiveOf(M, law, tau, G)
       IN  /\ active' = a /\ inactive' = InactiveOf(M, a)
           /\ x' = Hold(x, old, InactiveOf(M, a))
           /\ built' = [tau |-> tau, g |-> G]
  /\ phase' = "iterate"
  /\ UNCHANGED <<old, committed, steps, changes, law>>

Iterate ==
  /\ phase = "iterate" /\ changes < ChangesMax
  /\ \E d \in [1..Systems -> Increments] :
       x' = [i \in Slips |-> IF i \in active THEN RAdd(x[i], Num(d[System(i)])) ELSE x[i]]
  /\ changes' = changes + 1
  /\ phase' \in {"iterate", "determine", "commit"}
  /\ UNCHANGED <<old, committed, active, inactive, steps, law, built>>

Commit ==
  /\ phase = "commit" /\ steps < StepsMax
  /\ old' = x /\ committed' = G /\ steps' = steps + 1 /\ changes' = 0
  /\ phase' = "determine"
  /\ UNCHANGED <<x, active, inactive, law, built>>

Next == Determine \/ Iterate \/ Commit
Spec == Init /\ [][Next]_<<vars, law>>

Partition ==
  phase # "determine" =>
    /\ active \cap inactive = {} /\ active \cup inactive = M.slips \ M.locked
TiedTogether == \A i \in active : M.group[i] \subseteq active
TiedEqual == \A i \in Slips \ M.locked : \A k \in M.group[i] : REq(x[i], x[k])
InactiveHeld == phase = "iterate" => \A i \in inactive : REq(x[i], old[i])
(* only slips which exceed the resistance, or are tied to one which does     *)
Justified ==
  phase # "determine" =>
    /\ \A i \in active : \E k \in M.group[i] : RLt(YieldStress(law, built.g[k]), RAbs(built.tau[k]))
    /\ \A i \in inactive : RLe(RAbs(built.tau[i]), YieldStress(law, built.g[i]))
ClampedNever == \A i \in M.locked : REq(x[i], R0) /\ i \notin active
ResistanceGrows == \A i \in Slips : RLe(committed[i], G[i]) /\ RLe(law.g0, committed[i])
Irreversible == [][\A i \in Slips : RLe(committed[i], committed'[i])]_<<vars, law>>
=============================================================================
