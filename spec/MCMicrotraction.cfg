SPECIFICATION Spec
CONSTANTS
  Steps = {"1.0", "-0.5"}
  Depth = 4
INVARIANT Invariants
CHECK_DEADLOCK FALSE
