SPECIFICATION Spec
CONSTANTS
  Openings = {"0.0", "0.5", "1.5", "4.0"}
  Forces = {"0.5", "2.0", "9.0"}
  Laws = {"exp", "expzero", "acc", "acczero", "accdecay"}
  Depth = 6
  Emit = FALSE
INVARIANTS Bounded Irreversible SwitchedOff FunctionOfLargest NoGrowthWithoutOpening FromCommitted Done
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
