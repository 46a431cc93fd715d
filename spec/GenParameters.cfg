SPECIFICATION Spec
CONSTANTS
  Depth = 6
  OnlyFitting = TRUE
  Sample = TRUE
  Emit = TRUE
INVARIANTS Emission
CHECK_DEADLOCK FALSE
