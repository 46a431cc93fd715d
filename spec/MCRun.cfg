SPECIFICATION Spec
CONSTANTS
  Phases = {1, 2}
  Quarters = {1, 2}
  Cycles = {1, 2}
  Steps = {1, 2, 5}
  Frequencies = {1, 2, 3, 7}
INVARIANTS OneRowPerStep Frequency End Increasing Bounded Extremes
PROPERTIES Ends Order
CHECK_DEADLOCK FALSE
