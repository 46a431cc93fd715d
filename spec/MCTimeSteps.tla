---------------------------- MODULE MCTimeSteps ----------------------------
(* All short histories of two unknowns with steps of different sizes: the    *)
(* first unknown is free, the second one is prescribed.                      *)
EXTENDS TimeSteps, Integers, TLC

CONSTANTS Sizes, Values, Factors, StepsMax

VARIABLES h, time, history, factor, start, phase
vars == <<h, time, history, factor, start, phase>>

Num(n) == ROfInt(n)
Val(n) == RSub(Num(n), Num(3))        \* the configuration counts from -3
Load(t) == RMul(Num(2), t)

Init ==
  /\ h = TSInit(<<R0, R0>>) /\ time = R0
  /\ history = <<[t |-> R0, x |-> <<R0, R0>>]>>
  /\ factor \in {RDiv(Num(f), Num(2)) : f \in Factors}
  /\ start = [none |-> TRUE] /\ phase = "idle"

Begin ==
  /\ phase = "idle" /\ Len(history) <= StepsMax
  /\ \E d \in Sizes, skip \in BOOLEAN :
       LET e == TSStart(h, Num(d), factor, skip)
           t == RAdd(time, Num(d))
       IN  start' = [t |-> t, dt |-> Num(d), skip |-> skip, e |-> e, x |-> <<e[1], Load(t)>>]
  /\ phase' = "solving"
  /\ UNCHANGED <<h, time, history, factor>>

(* whatever the iterations do, the prescribed value stays                    *)
Finish ==
  /\ phase = "solving"
  /\ \E v \in Values :
       LET x == <<Val(v), Load(start.t)>>
       IN  /\ h' = TSCommit(h, x, start.dt)
           /\ history' = Append(history, [t |-> start.t, x |-> x])
  /\ time' = start.t /\ phase' = "idle"
  /\ UNCHANGED <<factor, start>>

Next == Begin \/ Finish
Spec == Init /\ [][Next]_vars

n == Len(history)
Ordered ==
  /\ h.old = history[n].x
  /\ h.oldold = IF n > 1 THEN history[n - 1].x ELSE history[1].x
(* a history which is linear in time is continued exactly                    *)
LinearContinued ==
  phase = "solving" /\ n > 1 /\ ~start.skip /\ REq(factor, R1) =>
    LET a == history[n - 1] b == history[n]
        slope == RDiv(RSub(b.x[1], a.x[1]), RSub(b.t, a.t))
    IN  /\ REq(RSub(start.e[1], a.x[1]), RMul(slope, RSub(start.t, a.t)))
        (* in particular the load, which is linear                            *)
        /\ REq(start.e[2], Load(start.t))
ConstantKept ==
  phase = "solving" /\ n > 1 /\ history[n].x[1] = history[n - 1].x[1] => REq(start.e[1], history[n].x[1])
NotExtrapolated ==
  phase = "solving" /\ (start.skip \/ REq(factor, R0) \/ n = 1) => start.e = h.old
PrescribedInPlace ==
  /\ phase = "solving" => REq(start.x[2], Load(start.t))
  /\ REq(h.old[2], Load(time))
=============================================================================
