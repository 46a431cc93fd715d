------------------------- MODULE TraceInterfaceLaws -------------------------
(* Recorded evaluations of the real laws of a grain boundary.                *)
EXTENDS InterfaceLaws, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, s
vars == <<run, pos, s>>
Init == run \in 1..Len(Runs) /\ pos = 1 /\ s = [e |-> "none"]
Ev == Runs[run][pos]

Z == "1e-11"
(* either branch is allowed where rounding decides the sign                  *)
Steps == IF RLe(RAbs(Normal(Ev.u, Ev.n)), RMul("1e-13", VNorm(Ev.u))) THEN {R0, R1}
         ELSE StepAt(Normal(Ev.u, Ev.n))
Scale(law) == RDiv(RMul(law.Tc, RMax(R1, RSq(law.beta))), law.chrs)
Stiff(law) == RMul(RDiv(RMul(R2, Scale(law)), law.dc), "1e-11")

Step ==
  /\ s' = IF Ev.e = "laws" THEN Ev ELSE s
  /\ CASE Ev.e = "laws" -> TRUE
       [] Ev.exc -> FALSE
       [] Ev.e = "open" ->
            /\ RClose(Ev.eff, Effective(s.cohesive, Ev.u, Ev.n), Z, RMul(RMul("1e-14", RMax(R1, s.cohesive.beta)), VNorm(Ev.u)))
            /\ REq(Ev.eff, Ev.eff1)
            (* the envelope's energy at that opening                         *)
            /\ RClose(Ev.energy, CohesiveEnergy(s.cohesive, RMul(s.cohesive.chru, Ev.eff)), Z,
                      RMul("1e-14", RMul(s.cohesive.Tc, s.cohesive.dc)))
       [] Ev.e = "tractions" ->
            \A L \in {Loading(Ev.eff, Ev.max, Ev.old)} :
            /\ RCloseSeq(Ev.traction, CohesiveTraction(s.cohesive, Ev.u, Ev.n, Ev.max), Z,
                         RMul("1e-12", Scale(s.cohesive)))
            /\ \E a \in Steps : MClose(Ev.tangent, CohesiveTangent(s.cohesive, Ev.u, Ev.n, Ev.max, L, a), Z, Stiff(s.cohesive))
            /\ RCloseSeq(Ev.contact, ContactTraction(s.contact, Ev.u, Ev.n), Z,
                         RMul("1e-13", RMul(RDiv(RMul(s.contact.k, s.contact.chru), s.contact.chrs), VNorm(Ev.u))))
            /\ \E a \in Steps : MClose(Ev.contact_tangent, ContactTangent(s.contact, Ev.n, RSub(R1, a)), Z,
                                       RMul("1e-12", RDiv(s.contact.k, s.contact.chrs)))
       [] Ev.e = "degradation" ->
            /\ RClose(Ev.value, Degradation(s.exponent, Ev.damage, Ev.coupled), Z, R0)
            /\ Ev.coupled => RClose(Ev.slope, DegradationSlope(s.exponent, Ev.damage), Z, R0)

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
