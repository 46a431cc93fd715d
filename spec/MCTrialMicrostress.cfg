SPECIFICATION Spec
CONSTANTS
  Bodies = {"one", "cubic", "dimless", "two"}
  Fields = {1, 2}
  Gradients <- GradientsDef
  Depth = 1
INVARIANTS Undeformed Whole Superposed Redistributed MacroscopicStrain
CHECK_DEADLOCK FALSE
