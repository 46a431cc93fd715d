------------------------------- MODULE Damage -------------------------------
(* The record of one grain-boundary point: damage and the largest effective  *)
(* opening, each with a trial value and the value committed at the end of    *)
(* the last step, and the effective opening at the end of the last step.     *)
EXTENDS Real64

(* prm: [deltac, beta, A, c, m, limit (strings), zero (boolean)]             *)
DNew(prm) == [prm |-> prm, d |-> R0, max |-> R0, cd |-> R0, cmax |-> R0,
              eff0 |-> R0, eff |-> R0, traction |-> R0]

(* a record is set up once; parameters given later are not adopted           *)
DSet(s, d) == [s EXCEPT !.d = d]
DStore(s) == [s EXCEPT !.cd = s.d, !.cmax = s.max]
DReset(s) == [s EXCEPT !.d = s.cd, !.max = s.cmax]

Largest(s, eff) == RMax(s.cmax, eff)
Finish(s, d) == IF s.prm.zero THEN R0 ELSE d

(* exponential law                                                           *)
ExpDamage(r) == RSub(R1, RMul(RAdd(R1, r), RExp(RNeg(r))))
DEvalExp(s, eff) ==
  [s EXCEPT !.max = Largest(s, eff),
            !.d = Finish(s, ExpDamage(RDiv(Largest(s, eff), s.prm.deltac)))]

(* accumulation law                                                          *)
Growth(s, eff, chr, force) ==
  RMul(RMul(RMul(s.prm.A, chr), RPos(RSub(eff, s.eff0))),
       RMul(RPow(RAdd(RSub(R1, s.cd), s.prm.c), s.prm.m),
            RPos(RSub(force, s.prm.limit))))
DEvalAcc(s, eff, chr, force) ==
  [s EXCEPT !.max = Largest(s, eff),
            !.d = Finish(s, RMin(R1, RAdd(s.cd, Growth(s, eff, chr, force))))]

(* effective opening: opening (not closing) normal displacement and weighted *)
(* tangential displacement of the neighbour relative to this side; normal    *)
(* points from this side to the neighbour                                    *)
NormalOpening(nb, here, normal) ==
  RDot([i \in 1..Len(nb) |-> RSub(nb[i], here[i])], normal)
EffectiveOpening(nb, here, normal, beta) ==
  LET u == [i \in 1..Len(nb) |-> RSub(nb[i], here[i])]
      n == RDot(u, normal)
      t == [i \in 1..Len(nb) |-> RSub(u[i], RMul(n, normal[i]))]
  IN  RSqrt(RAdd(RSq(RPos(n)), RMul(RSq(beta), RDot(t, t))))

DOpening(s, eff) == [s EXCEPT !.eff0 = eff]
DOpeningT(s, eff, traction) == [s EXCEPT !.eff0 = eff, !.eff = eff, !.traction = traction]
=============================================================================
