----------------------------- MODULE Hardening ------------------------------
(* The slip resistances of one material point: a trial value, evaluated as   *)
(* often as the iterations need, and the value committed at the end of the   *)
(* last step.                                                                *)
EXTENDS Real64

HNew == [ready |-> FALSE]

(* law: [g0, H, q (strings), perfect (boolean)]; chr: the characteristic     *)
(* slip resistance that makes the values dimensionless                       *)
HInit(law, n, chr) ==
  LET g == [a \in 1..n |-> RDiv(law.g0, chr)]
  IN  [ready |-> TRUE, law |-> law, n |-> n, chr |-> chr, cur |-> g, com |-> g]

HStore(h) == [h EXCEPT !.com = h.cur]
HReset(h) == [h EXCEPT !.cur = h.com]

(* self interaction one, latent interaction q                                *)
Interaction(law, a, b) == IF a = b THEN R1 ELSE law.q

(* the increments of the step in, always starting from the committed values  *)
HUpdate(h, slips, old) ==
  IF h.law.perfect THEN HReset(h)
  ELSE [h EXCEPT !.cur =
         [a \in 1..h.n |->
            RAdd(h.com[a],
                 RSum([b \in 1..h.n |->
                        RMul(RMul(RDiv(h.law.H, h.chr), Interaction(h.law, a, b)),
                             RAbs(RSub(slips[b], old[b])))]))]]
=============================================================================
