--------------------------- MODULE LoadProgramme ----------------------------
(* Loading programmes: the steps they are divided into and the shear they    *)
(* prescribe.                                                                *)
(*                                                                           *)
(* A programme p has the fields: cyclic, skip (booleans), max, min, dur,     *)
(* phase, period (reals), n, nphase, nq, cycles (numbers of steps of a       *)
(* monotonic load, of the loading and unloading phase, per quarter period,   *)
(* and the number of cycles).                                                *)
EXTENDS Real64, Integers

NCyclic(p) == 4 * p.nq * p.cycles
NSteps(p) ==
  IF ~p.cyclic THEN p.n
  ELSE p.nphase + NCyclic(p) + (IF p.skip THEN 0 ELSE p.nphase)

(* starts of the phases                                                      *)
CyclicStart(p) == p.phase
UnloadStart(p) == RAdd(p.phase, RMul(ROfInt(p.cycles), p.period))
EndTime(p) ==
  IF ~p.cyclic THEN p.dur
  ELSE IF p.skip THEN UnloadStart(p) ELSE RAdd(UnloadStart(p), p.phase)

(* size of step k = 0, 1, ...                                                *)
StepSize(p, k) ==
  IF ~p.cyclic THEN RDiv(p.dur, ROfInt(p.n))
  ELSE IF k < p.nphase \/ k >= p.nphase + NCyclic(p) THEN RDiv(p.phase, ROfInt(p.nphase))
  ELSE RDiv(p.period, ROfInt(4 * p.nq))

(* time at the end of k steps                                                *)
TimeAfter(p, k) ==
  IF ~p.cyclic THEN RDiv(RMul(p.dur, ROfInt(k)), ROfInt(p.n))
  ELSE IF k <= p.nphase THEN RDiv(RMul(p.phase, ROfInt(k)), ROfInt(p.nphase))
  ELSE IF k <= p.nphase + NCyclic(p)
  THEN RAdd(p.phase, RDiv(RMul(p.period, ROfInt(k - p.nphase)), ROfInt(4 * p.nq)))
  ELSE RAdd(UnloadStart(p),
            RDiv(RMul(p.phase, ROfInt(k - p.nphase - NCyclic(p))), ROfInt(p.nphase)))

(* the load changes its direction or its law at the end of step k            *)
Extremum(p, k) ==
  /\ p.cyclic /\ k > p.nphase /\ k < p.nphase + NCyclic(p)
  /\ (k - p.nphase) % (2 * p.nq) = p.nq
Turning(p, k) ==
  p.cyclic /\ (k = p.nphase \/ k = p.nphase + NCyclic(p) \/ Extremum(p, k))
(* the step which starts there must not be extrapolated from the one before  *)
SkipsExtrapolation(p, k) == Turning(p, k)

-----------------------------------------------------------------------------
Mean(p) == RMul("0.5", RAdd(p.max, p.min))
Amplitude(p) == RMul("0.5", RSub(p.max, p.min))
Shear(p, t) ==
  IF ~p.cyclic THEN RMul(t, p.max)
  ELSE IF RLt(t, CyclicStart(p)) THEN RMul(Mean(p), RDiv(t, p.phase))
  ELSE IF RLt(t, UnloadStart(p))
  THEN RAdd(Mean(p),
            RMul(Amplitude(p),
                 RSin(RMul(RMul(R2, RPi), RDiv(RSub(t, CyclicStart(p)), p.period)))))
  ELSE RMul(Mean(p), RSub(R1, RDiv(RSub(t, UnloadStart(p)), p.phase)))

(* the values prescribed for all components: b has the fields dim, comp      *)
(* (sheared direction, from zero), total (number of components), crystals,   *)
(* decohesion (boolean), height and chr (characteristic displacement)        *)
Sheared(b) ==
  {b.comp + 1} \cup (IF b.decohesion THEN {b.comp + 1 + i * b.dim : i \in 1..(b.crystals - 1)} ELSE {})
Prescribed(p, b, t) ==
  [i \in 1..b.total |->
     IF i \in Sheared(b) THEN RDiv(RMul(b.height, Shear(p, t)), b.chr) ELSE R0]
=============================================================================
