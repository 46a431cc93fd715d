---------------------------- MODULE MCNewtonStep ----------------------------
(* Every strategy against every outcome of its evaluations.                  *)
EXTENDS NewtonStep, FiniteSets, TLC

CONSTANTS NMax, LoopsMax, RestartsMax

VARIABLES s, restarts
vars == <<s, restarts>>

Strategies ==
  [kind : {"monolithic", "bouncing", "embracing"}, n : [1..3 -> 1..NMax], loops : 1..LoopsMax]

Init == \E c \in Strategies : s = NSBegin(c) /\ restarts = 0

(* an update of one part leaves nothing known about the other; the whole     *)
(* residual is small only if its parts are not both large                    *)
Evaluate ==
  /\ ~s.known /\ s.end = "no"
  /\ \E a, b, t \in BOOLEAN : s' = NSEvaluate(s, <<a, b, t>>)
  /\ UNCHANGED restarts
EnterSlips ==
  /\ NSMayEnterSlips(s)
  /\ \E again \in BOOLEAN :   \* a return to the start value changes the iterate
       s' = [NSEnterSlips(s) EXCEPT !.known = again]
  /\ UNCHANGED restarts
Solve == \E what \in Solves : NSMaySolve(s, what) /\ s' = NSSolve(s, what) /\ UNCHANGED restarts
Restart == restarts < RestartsMax /\ NSMayRestart(s) /\ s' = NSRestart(s) /\ restarts' = restarts + 1
Accept == NSMayAccept(s) /\ s' = NSAccept(s) /\ UNCHANGED restarts
Fail == NSMayFail(s) /\ s' = NSFail(s) /\ UNCHANGED restarts
Done == s.end # "no" /\ UNCHANGED vars

Next == Evaluate \/ EnterSlips \/ Solve \/ Restart \/ Accept \/ Fail \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* only converged iterates are accepted                                      *)
OnlyConverged ==
  s.end = "accepted" =>
    /\ s.known
    /\ IF s.c.kind = "monolithic" THEN s.ok[3] ELSE s.ok[1] /\ s.ok[2]
(* the limits hold                                                           *)
Limits ==
  /\ s.last = "all" => s.it <= s.c.n[1]
  /\ s.last = "micro" => s.it <= s.c.n[3]
  /\ s.c.kind = "bouncing" => /\ (s.last = "macro" => s.it <= s.c.n[2])
                              /\ s.loops <= s.c.loops
  /\ s.c.kind = "embracing" => s.total <= s.c.n[2]
(* a step fails only with an exhausted limit                                 *)
FailsAtLimit ==
  s.end = "failed" =>
    \/ s.it >= s.c.n[CASE s.last = "all" -> 1 [] s.last \in Displacements -> 2 [] OTHER -> 3]
    \/ s.c.kind = "bouncing" /\ s.loops >= s.c.loops
    \/ s.c.kind = "embracing" /\ s.total >= s.c.n[2]
(* a strategy is never at a loss, nor does it run for ever                   *)
NeverStuck == s.end = "no" => ENABLED (Evaluate \/ EnterSlips \/ Solve \/ Accept \/ Fail)
Ends == <>(s.end # "no")
=============================================================================
