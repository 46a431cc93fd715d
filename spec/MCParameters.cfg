SPECIFICATION Spec
CONSTANTS
  Depth = 1
  OnlyFitting = FALSE
  Sample = FALSE
  Emit = FALSE
INVARIANTS BasesAccepted NothingIgnored Relations Emission
CHECK_DEADLOCK FALSE
