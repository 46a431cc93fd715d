----------------------------- MODULE ActiveSet -----------------------------
(* The yielding slips of a time step.                                        *)
(*                                                                           *)
(* A mesh m has the fields: slips (set of slip unknowns), locked (prescribed *)
(* ones), group[i] (unknowns tied to i, i included) and same[i] (the unknowns*)
(* of all slip systems at the node of i, i included).                        *)
(* A law h has the fields: perfect, g0 (initial resistance), self and latent *)
(* (hardening moduli of the own and of other slip systems).                  *)
EXTENDS Real64, FiniteSets

YieldStress(h, g) == IF h.perfect THEN h.g0 ELSE g
Exceeds(h, tau, g) == RLt(YieldStress(h, g), RAbs(tau))

(* tied unknowns yield together                                              *)
ActiveOf(m, h, tau, g) ==
  {i \in m.slips \ m.locked : \E k \in m.group[i] : Exceeds(h, tau[k], g[k])}
InactiveOf(m, active) == (m.slips \ m.locked) \ active

(* inactive slips do not change in the step                                  *)
Hold(x, old, inactive) == [i \in DOMAIN x |-> IF i \in inactive THEN old[i] ELSE x[i]]

(* resistance of an active slip: the committed one and the increments of all *)
(* slips of its node                                                         *)
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN R0 ELSE LET i == CHOOSE i \in S : TRUE IN RAdd(f[i], SumOver(S \ {i}, f))
Increment(m, h, i, x, old) ==
  SumOver(m.same[i], [k \in m.same[i] |-> RMul(IF k = i THEN h.self ELSE h.latent, RAbs(RSub(x[k], old[k])))])
Resistance(m, h, i, active, committed, x, old) ==
  IF ~h.perfect /\ i \in active THEN RAdd(committed[i], Increment(m, h, i, x, old)) ELSE committed[i]
=============================================================================
