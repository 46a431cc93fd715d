---------------------------- MODULE MCLineSearch ----------------------------
(* The caller's loop around the line search, with every outcome of a trial   *)
(* taken from a lattice of merit values relative to the start value.         *)
EXTENDS LineSearch, TLC, Json, Sequences

CONSTANTS Levels,     \* merit values of trials, as multiples of the start value
          Starts,     \* start values
          NMaxs, Alphas, Emit

VARIABLES s, lam, done, hist, prev
vars == <<s, lam, done, hist, prev>>

Init ==
  /\ \E nmax \in NMaxs, alpha \in Alphas, f0 \in Starts :
       /\ s = LSReinit(LSNew(nmax, alpha), f0)
       /\ hist = <<>>
  /\ lam = R1
  /\ prev = R0
  /\ done = FALSE

Trial(m) ==
  LET f == RMul(s.f0, m)
      h == Append(hist, m)
  IN  /\ ~done
      /\ hist' = h
      /\ IF LSAccepts(s, f, lam)
         THEN /\ done' = TRUE
              /\ (Emit => PrintT("GEN " \o ToJson([nmax |-> s.nmax, alpha |-> s.alpha,
                                                   f0 |-> s.f0, trials |-> h])))
              /\ UNCHANGED <<s, lam, prev>>
         ELSE /\ lam' = LSNext(s, f, lam)
              /\ s' = LSReduce(s, f, lam)
              /\ prev' = lam
              /\ UNCHANGED done

Next == \E m \in Levels : Trial(m)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the step length stays finite, positive and shrinks by a factor in         *)
(* [0.1,0.5] on every rejection                                              *)
StepLengths ==
  /\ RIsFinite(lam) /\ RGt(lam, R0) /\ RLe(lam, R1)
  /\ s.n > 0 => /\ RLe(RMul("0.0999999999", prev), lam)
                /\ RLe(lam, RMul("0.5000000001", prev))
(* a search ends after at most nmax + 2 trials                               *)
Bounded == s.n <= s.nmax + 1 /\ Len(hist) <= s.nmax + 2
(* an acceptance before the limit means a genuine decrease                   *)
Genuine == done /\ s.n <= s.nmax =>
             RLt(RMul(s.f0, hist[Len(hist)]), s.f0)
=============================================================================
