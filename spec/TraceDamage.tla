----------------------------- MODULE TraceDamage ----------------------------
(* Recorded histories of real grain-boundary records.                        *)
EXTENDS Damage, TLC, Json, IOUtils, Sequences

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, s
vars == <<run, pos, s>>

NoPrm == [deltac |-> R1, beta |-> R1, A |-> R1, c |-> R0, m |-> R1, limit |-> R0, zero |-> FALSE]
Init == run \in 1..Len(Runs) /\ pos = 1 /\ s = DNew(NoPrm)
Ev == Runs[run][pos]

Observed(t) ==
  /\ RClose(Ev.d, t.d, "1e-10", "1e-13")
  /\ RClose(Ev.max, t.max, "1e-12", R0)
  /\ RClose(Ev.eff0, t.eff0, "1e-12", R0)
  /\ RClose(Ev.eff, t.eff, "1e-12", R0)
  /\ RClose(Ev.traction, t.traction, "1e-12", R0)
  /\ RLe(R0, Ev.d) /\ RLe(Ev.d, R1)

(* the effective opening the record reports after it was told the            *)
(* displacements of the two sides; it is the difference of large numbers, so *)
(* the tolerance refers to these                                             *)
Opening ==
  LET e == EffectiveOpening(Ev.nb, Ev.here, Ev.normal, s.prm.beta)
      size == RSqrt(RAdd(RDot(Ev.nb, Ev.nb), RDot(Ev.here, Ev.here)))
  IN  IF RClose(e, Ev.eff0, "1e-12", RMul("1e-14", RMul(RAdd(R1, s.prm.beta), size)))
      THEN Ev.eff0 ELSE e

Step ==
  /\ s' = CASE Ev.e = "init" -> DNew(Ev.prm)
            [] Ev.e = "again" -> s
            [] Ev.e = "set" -> DSet(s, Ev.v)
            [] Ev.e = "store" -> DStore(s)
            [] Ev.e = "reset" -> DReset(s)
            [] Ev.e = "exp" -> DEvalExp(s, Ev.x)
            [] Ev.e = "acc" -> DEvalAcc(s, Ev.x, Ev.chr, Ev.force)
            [] Ev.e = "opening" -> DOpening(s, Opening)
            [] Ev.e = "openingT" -> DOpeningT(s, Opening, Ev.t)
  /\ Observed(s')

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
