-------------------------- MODULE MCLoadProgramme ---------------------------
(* Every programme of a lattice, stepped through from its start to its end.  *)
EXTENDS LoadProgramme, TLC, Json, FiniteSets

CONSTANTS Counts, Cycles, Durations, Emit

VARIABLES p, k, t
vars == <<p, k, t>>

Programmes ==
  [cyclic : BOOLEAN, skip : BOOLEAN, max : {"0.05"}, min : {"0.0", "0.02"},
   dur : Durations, phase : Durations, period : Durations,
   n : Counts, nphase : Counts, nq : Counts, cycles : Cycles]
(* fields without a meaning for the kind of programme are not varied         *)
Sensible(q) ==
  IF q.cyclic THEN q.dur = "1.0" /\ q.n = 1
  ELSE q.phase = "1.0" /\ q.period = "1.0" /\ q.nphase = 1 /\ q.nq = 1 /\ q.cycles = 0
       /\ ~q.skip /\ q.min = "0.0"

Init == /\ p \in {q \in Programmes : Sensible(q)}
        /\ k = 0 /\ t = R0
        /\ Emit => PrintT("GEN " \o ToJson(p))
Advance ==
  /\ k < NSteps(p)
  /\ t' = RAdd(t, StepSize(p, k))
  /\ k' = k + 1
  /\ UNCHANGED p
Spec == Init /\ [][Advance]_vars /\ WF_vars(Advance)
-----------------------------------------------------------------------------
Close(a, b) == RClose(a, b, "1e-12", "1e-14")
OnSchedule == Close(t, TimeAfter(p, k))
EndsAtEnd == k = NSteps(p) => Close(t, EndTime(p))
NoOvershoot == RLe(t, RMul(EndTime(p), "1.000000000001"))
(* every change of direction of the load is the end of a step                *)
PhasesAreStepEnds ==
  p.cyclic => /\ k = p.nphase => Close(t, CyclicStart(p))
              /\ k = p.nphase + NCyclic(p) => Close(t, UnloadStart(p))
ExtremaAreStepEnds ==
  Extremum(p, k) => \/ Close(Shear(p, t), p.max) \/ Close(Shear(p, t), p.min)
TwoExtremaPerCycle ==
  k = 0 /\ p.cyclic =>
    Cardinality({j \in 0..NSteps(p) : Extremum(p, j)}) = 2 * p.cycles
Within == p.cyclic => /\ RLe(Shear(p, t), RAdd(p.max, "1e-12"))
                      /\ RGe(Shear(p, t), RNeg("1e-12"))
StartsAtZero == k = 0 => REq(Shear(p, t), R0)
EndsAtZero == (p.cyclic /\ ~p.skip /\ k = NSteps(p)) => RClose(Shear(p, t), R0, R0, "1e-12")
(* no jumps: just before and just after each phase boundary                  *)
Eps == "1e-9"
Continuous ==
  k = 0 /\ p.cyclic => \A b \in {CyclicStart(p), UnloadStart(p)} :
    /\ RClose(Shear(p, RSub(b, Eps)), Mean(p), R0, "1e-6")
    /\ RClose(Shear(p, RAdd(b, Eps)), Mean(p), R0, "1e-6")
Finishes == <>(k = NSteps(p))
=============================================================================
