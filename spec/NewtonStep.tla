----------------------------- MODULE NewtonStep -----------------------------
(* The solution of one time step: the order of linear solutions, evaluations *)
(* of the residual and acceptance for the three strategies.                  *)
(*                                                                           *)
(* A strategy c has the fields: kind ("monolithic", "bouncing" or            *)
(* "embracing"), n (permitted iterations of the whole system, of the         *)
(* displacements and of the slips) and loops (permitted slip loops plus one  *)
(* of the bouncing strategy).                                                *)
(*                                                                           *)
(* monolithic: all unknowns at once, until their residual is below the       *)
(*   tolerance.                                                              *)
(* bouncing: the displacements are iterated to convergence, then the slips,  *)
(*   and so on, until the displacement residual is below its tolerance right *)
(*   after a converged slip loop.                                            *)
(* embracing: every displacement update is followed by a converged slip      *)
(*   loop, the updates after the first take the response of the slips into   *)
(*   account (reduced system).                                               *)
(*                                                                           *)
(* ok = <<displacements, slips, all>> tells which residual norms of the      *)
(* current iterate are below their tolerance.                                *)
EXTENDS Integers, Sequences

NSBegin(c) ==
  [c |-> c, last |-> "none",   \* kind of the last linear solution
   it |-> 0,                   \* iterations of the present loop
   total |-> 0,                \* displacement iterations of the step
   loops |-> 0,                \* slip loops of the step
   known |-> FALSE,            \* has the current iterate been evaluated
   ok |-> <<FALSE, FALSE, FALSE>>,
   end |-> "no"]

NSEvaluate(s, ok) == [s EXCEPT !.known = TRUE, !.ok = ok]

Displacements == {"macro", "reduced"}

(* the slips may be iterated from here (a new slip loop)                     *)
NSMayEnterSlips(s) ==
  /\ s.known /\ s.end = "no" /\ s.last \in Displacements
  /\ CASE s.c.kind = "bouncing" -> s.ok[1] /\ s.loops < s.c.loops
       [] s.c.kind = "embracing" -> TRUE
       [] OTHER -> FALSE
NSEnterSlips(s) == [s EXCEPT !.last = "micro", !.it = 0, !.loops = @ + 1]

(* the slips are converged in the present loop                               *)
SlipsDone(s) == s.last = "micro" /\ s.it > 0 /\ s.ok[2]

NSMaySolve(s, what) ==
  /\ s.known /\ s.end = "no"
  /\ CASE s.c.kind = "monolithic" ->
            what = "all" /\ s.it < s.c.n[1] /\ (s.it = 0 \/ ~s.ok[3])
       [] s.c.kind = "bouncing" /\ what = "macro" ->
            \/ s.last = "none"
            \/ s.last = "macro" /\ ~s.ok[1] /\ s.it < s.c.n[2]
            \/ SlipsDone(s) /\ ~s.ok[1] /\ s.c.n[2] > 0
       [] s.c.kind = "embracing" /\ what = "macro" -> s.last = "none"
       [] s.c.kind = "embracing" /\ what = "reduced" ->
            SlipsDone(s) /\ ~s.ok[1] /\ s.total < s.c.n[2]
       [] s.c.kind # "monolithic" /\ what = "micro" ->
            s.last = "micro" /\ (s.it = 0 \/ ~s.ok[2]) /\ s.it < s.c.n[3]
       [] OTHER -> FALSE

NSSolve(s, what) ==
  [s EXCEPT !.last = what,
            !.it = IF what = s.last \/ {what, s.last} \subseteq Displacements THEN @ + 1 ELSE 1,
            !.total = IF what \in Displacements THEN @ + 1 ELSE @,
            !.known = FALSE]

(* a new set of yielding slips: the iterations start afresh                  *)
NSMayRestart(s) == s.c.kind = "monolithic" /\ s.known /\ s.it > 0 /\ s.ok[3] /\ s.end = "no"
NSRestart(s) == [s EXCEPT !.it = 0, !.known = FALSE]

NSMayAccept(s) ==
  /\ s.known /\ s.end = "no"
  /\ IF s.c.kind = "monolithic" THEN s.it > 0 /\ s.ok[3] ELSE SlipsDone(s) /\ s.ok[1]
NSAccept(s) == [s EXCEPT !.end = "accepted"]

(* a limit is exhausted and the iterate is no solution                       *)
NSMayFail(s) ==
  /\ s.known /\ s.end = "no"
  /\ CASE s.c.kind = "monolithic" -> s.it >= s.c.n[1] /\ ~s.ok[3]
       [] s.c.kind = "bouncing" ->
            \/ s.last = "macro" /\ s.it >= s.c.n[2] /\ ~s.ok[1]
            \/ s.last = "micro" /\ s.it >= s.c.n[3] /\ ~s.ok[2]
            \/ SlipsDone(s) /\ s.loops + 1 > s.c.loops
            \/ s.last = "macro" /\ s.ok[1] /\ s.loops >= s.c.loops
       [] s.c.kind = "embracing" ->
            \/ SlipsDone(s) /\ ~s.ok[1] /\ s.total >= s.c.n[2]
            \/ s.last = "micro" /\ s.it >= s.c.n[3] /\ ~s.ok[2]
       [] OTHER -> FALSE
NSFail(s) == [s EXCEPT !.end = "failed"]

Solves == {"all", "macro", "micro", "reduced"}
=============================================================================
