SPECIFICATION Spec
CONSTANTS
  Kinds = {"atan", "sqrt", "gd", "tanh", "erf"}
  Rates = {"-0.03", "-0.002", "0.0", "0.01", "1.0"}
  Gradients = {"1.0", "-0.5"}
  Powers = {"1.5", "2.0", "3.0"}
  Depth = 2
INVARIANTS Sign Slope Defect Elastic Plastic
CHECK_DEADLOCK FALSE
