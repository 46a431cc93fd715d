------------------------------ MODULE MCDamage ------------------------------
(* One grain-boundary point in a loading history.                            *)
EXTENDS Damage, TLC, Json, Sequences

CONSTANTS Openings, Forces, Laws, Depth, Emit

Prm(name) ==
  LET base == [deltac |-> "1.0", beta |-> "0.5", A |-> "0.3", c |-> R0, m |-> R1,
               limit |-> R1, zero |-> FALSE]
  IN CASE name \in {"exp", "acc"} -> base
       [] name = "expzero" -> [base EXCEPT !.zero = TRUE]
       [] name = "acczero" -> [base EXCEPT !.zero = TRUE]
       [] name = "accdecay" -> [base EXCEPT !.c = "0.1", !.m = "2.0", !.limit = R0]
Exponential == {"exp", "expzero"}
Chr == "0.5"

VARIABLES name, s, eff, k, hist
vars == <<name, s, eff, k, hist>>

Init == /\ name \in Laws /\ s = DNew(Prm(name)) /\ eff = R0 /\ k = 0 /\ hist = <<>>
Log(op) == /\ hist' = IF Emit THEN Append(hist, op) ELSE hist
           /\ k' = k + 1 /\ UNCHANGED name

EvalWith(t, e, f) ==
  IF name \in Exponential THEN DEvalExp(t, e) ELSE DEvalAcc(t, e, Chr, f)
Evaluate(e, f) ==
  /\ s' = EvalWith(s, e, f)
  /\ eff' = e
  /\ Log([op |-> "u", v |-> <<e, f>>])
RollBack == s' = DReset(s) /\ eff' = s.eff0 /\ Log([op |-> "r", v |-> <<>>])
Commit == s' = DOpening(DStore(s), eff) /\ UNCHANGED eff /\ Log([op |-> "s", v |-> <<>>])

Next ==
  /\ k < Depth
  /\ \/ \E e \in Openings :
          \/ name \in Exponential /\ Evaluate(e, R0)
          \/ name \notin Exponential /\ \E f \in Forces : Evaluate(e, f)
     \/ RollBack
     \/ Commit
Spec == Init /\ [][Next]_vars
Done == k = Depth /\ Emit =>
  PrintT("GEN " \o ToJson([exp |-> name \in Exponential, prm |-> s.prm,
                           chr |-> Chr, ops |-> hist]))
-----------------------------------------------------------------------------
Bounded == RLe(R0, s.d) /\ RLe(s.d, R1)
Irreversible == RLe(s.cd, s.d) /\ RLe(s.cmax, s.max)
SwitchedOff == s.prm.zero => REq(s.d, R0)
FunctionOfLargest ==
  name = "exp" => RClose(s.cd, ExpDamage(RDiv(s.cmax, s.prm.deltac)), "1e-12", "1e-15")
NoGrowthWithoutOpening ==
  name \notin Exponential => \A e \in Openings, f \in Forces :
    /\ RLe(e, s.eff0) => REq(EvalWith(s, e, f).d, s.cd)
    /\ RLe(f, s.prm.limit) => REq(EvalWith(s, e, f).d, s.cd)
(* what was evaluated before does not matter                                 *)
FromCommitted ==
  \A e1, e2 \in Openings : \A f1 \in Forces, f2 \in Forces :
    EvalWith(EvalWith(s, e1, f1), e2, f2) = EvalWith(s, e2, f2)
Monotone == [][RLe(s.cd, s'.cd) /\ RLe(s.cmax, s'.cmax)]_vars
=============================================================================
