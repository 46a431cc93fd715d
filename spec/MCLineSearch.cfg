SPECIFICATION Spec
CONSTANTS
  Levels = {"0.25", "0.99995", "1.0", "1.5", "19.0", "1e6"}
  Starts = {"1.0", "3e-7"}
  NMaxs = {0, 1, 3}
  Alphas = {"1e-4", "0.2"}
  Emit = FALSE
INVARIANTS StepLengths Bounded Genuine
CHECK_DEADLOCK FALSE
