SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 4}
  Values = {1, 3, 5}
  Factors = {0, 1, 2}
  StepsMax = 3
INVARIANTS
  Ordered
  LinearContinued
  ConstantKept
  NotExtrapolated
  PrescribedInPlace
CHECK_DEADLOCK FALSE
