SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Dims = {2}
  MaxCrystals = 3
  MaxSlips = 1
  MaxLength = 3
  Widths = {1}
  Emit = FALSE
INVARIANTS Partition Complete Separate Continuous
