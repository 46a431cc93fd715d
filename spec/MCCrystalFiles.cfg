SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Coordinates = {"0.0", "1.0", "-2.0"}
  Angles = {"0.0", "30.0", "90.0", "-200.0"}
  MaxLines = 2
  Emit = FALSE
INVARIANTS Orthonormal Embedded Emission
CHECK_DEADLOCK FALSE
