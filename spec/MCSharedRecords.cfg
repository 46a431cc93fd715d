SPECIFICATION Spec
CONSTANTS
  Jumps = {"1.0", "2.0", "3.0"}
  Depth = 7
INVARIANTS OneRecordPerFace BothSides Maximum
PROPERTIES NeverLess
CHECK_DEADLOCK FALSE
