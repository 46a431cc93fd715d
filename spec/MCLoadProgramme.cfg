SPECIFICATION Spec
CONSTANTS
  Counts = {1, 2, 3, 7}
  Cycles = {0, 1, 3}
  Durations = {"1.0", "0.3", "4.7"}
  Emit = FALSE
INVARIANTS OnSchedule EndsAtEnd NoOvershoot PhasesAreStepEnds ExtremaAreStepEnds TwoExtremaPerCycle Within StartsAtZero EndsAtZero Continuous
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
