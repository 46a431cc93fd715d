SPECIFICATION Spec
CONSTANTS
  Values = {"0.0", "0.5", "-1.0"}
  Laws = {"hard", "self", "perfect"}
  Depth = 6
  Emit = FALSE
INVARIANTS NeverSofter PerfectConstant PathOnly Evaluated Done
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
