SPECIFICATION Spec
CONSTANTS
  Bodies = {"rate", "dimless", "damaged"}
  Fields = {1, 2}
  Depth = 2
INVARIANTS Derivative Symmetric
CHECK_DEADLOCK FALSE
