--------------------------- MODULE TraceLineSearch ---------------------------
(* Recorded calls of the real line search, judged by the specification.      *)
EXTENDS LineSearch, TLC, Json, IOUtils, Sequences

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, s
vars == <<run, pos, s>>

Init == run \in 1..Len(Runs) /\ pos = 1 /\ s = LSNew(0, R0)

Ev == Runs[run][pos]

(* ill-conditioning of the decision itself: a merit value within rounding of *)
(* the threshold may be judged either way                                    *)
NearThreshold(f, lam) ==
  RClose(f, RAdd(s.f0, RMul(s.alpha, RMul(lam, Slope(s)))), "1e-13", R0)

Step ==
  CASE Ev.e = "new" -> s' = LSNew(Ev.nmax, Ev.alpha)
    [] Ev.e = "reinit" -> s' = LSReinit(s, Ev.f0)
    [] Ev.e = "accept" ->
         /\ \/ Ev.out = LSAccepts(s, Ev.f, Ev.lam)
            \/ s.n <= s.nmax /\ ~REq(Ev.f, R0) /\ NearThreshold(Ev.f, Ev.lam)
         /\ s' = s
    [] Ev.e = "next" ->
         /\ Ev.exc = FALSE
         /\ RIsFinite(Ev.out)
         /\ RLe(RMul("0.09999999", Ev.lam), Ev.out)
         /\ RLe(Ev.out, RMul("0.50000001", Ev.lam))
         (* below 1e-5 the differences of merit values are mostly rounding   *)
         /\ \/ RLt(Ev.lam, "1e-5")
            \/ RClose(Ev.out, LSNext(s, Ev.f, Ev.lam), "1e-5", R0)
         /\ s' = LSReduce(s, Ev.f, Ev.lam)
    [] Ev.e = "count" -> Ev.out = s.n /\ s' = s
    [] Ev.e = "merit" -> RClose(Ev.out, Merit(Ev.r), "1e-14", R0) /\ s' = s

Next ==
  \/ pos <= Len(Runs[run]) /\ Step /\ pos' = pos + 1 /\ run' = run
  \/ pos > Len(Runs[run]) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
