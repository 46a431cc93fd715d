SPECIFICATION Spec
CONSTANTS
  Betas = {"1.0", "0.5", "2.0"}
  Depth = 4
INVARIANTS Potential Tangents Objective Bounded Dissipative
CHECK_DEADLOCK FALSE
