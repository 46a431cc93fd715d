---------------------------- MODULE MCHardening -----------------------------
(* A material point in a loading history: in every step the iterations try   *)
(* slips from a lattice, roll back and finally commit.                       *)
EXTENDS Hardening, TLC, Json, Sequences

CONSTANTS Values,    \* lattice of slip values
          Laws,      \* names of hardening laws
          Depth, Emit

N == 2
Law(name) ==
  CASE name = "hard"    -> [g0 |-> "10.0", H |-> "3.0", q |-> "1.4", perfect |-> FALSE]
    [] name = "self"    -> [g0 |-> "10.0", H |-> "2.0", q |-> "0.0", perfect |-> FALSE]
    [] name = "perfect" -> [g0 |-> "10.0", H |-> "3.0", q |-> "1.0", perfect |-> TRUE]
Chr == "4.0"

VARIABLES name, h, slip, slipCom, total, k, hist
(* slip, slipCom: trial and committed slips; total: sum over the committed   *)
(* steps of the magnitude of their slip increments                           *)
vars == <<name, h, slip, slipCom, total, k, hist>>

Zero == [a \in 1..N |-> R0]
Init ==
  /\ name \in Laws
  /\ h = HInit(Law(name), N, Chr)
  /\ slip = Zero /\ slipCom = Zero /\ total = Zero
  /\ k = 0 /\ hist = <<>>

Log(op) == /\ hist' = IF Emit THEN Append(hist, op) ELSE hist
           /\ k' = k + 1
           /\ UNCHANGED name
Evaluate(v) ==
  /\ slip' = v
  /\ h' = HUpdate(h, v, slipCom)
  /\ UNCHANGED <<slipCom, total>>
  /\ Log([op |-> "u", v |-> v])
RollBack ==
  /\ h' = HReset(h) /\ slip' = slipCom
  /\ UNCHANGED <<slipCom, total>>
  /\ Log([op |-> "r", v |-> <<>>])
Commit ==
  /\ h' = HStore(h)
  /\ total' = [a \in 1..N |-> RAdd(total[a], RAbs(RSub(slip[a], slipCom[a])))]
  /\ slipCom' = slip
  /\ UNCHANGED slip
  /\ Log([op |-> "s", v |-> <<>>])

Next ==
  /\ k < Depth
  /\ \/ \E x, y \in Values : Evaluate(<<x, y>>)
     \/ RollBack
     \/ Commit
Spec == Init /\ [][Next]_vars
Done == k = Depth /\ Emit =>
  PrintT("GEN " \o ToJson([law |-> Law(name), chr |-> Chr, ops |-> hist]))
-----------------------------------------------------------------------------
Start == [a \in 1..N |-> RDiv(Law(name).g0, Chr)]
NeverSofter ==
  \A a \in 1..N : RLe(h.com[a], h.cur[a]) /\ RLe(Start[a], h.com[a])
PerfectConstant == h.law.perfect => h.cur = Start /\ h.com = Start
(* the committed value is a function of the committed slip path alone,       *)
(* whatever was tried and discarded on the way                               *)
PathOnly ==
  \A a \in 1..N :
    RClose(h.com[a],
           IF h.law.perfect THEN Start[a]
           ELSE RAdd(Start[a], RMul(RDiv(h.law.H, Chr),
                  RSum([b \in 1..N |-> RMul(Interaction(h.law, a, b), total[b])]))),
           "1e-12", R0)
Evaluated == HUpdate(HUpdate(h, slip, slipCom), slip, slipCom) = HUpdate(h, slip, slipCom)
Monotone == [][\A a \in 1..N : RLe(h.com[a], h'.com[a])]_vars
=============================================================================
