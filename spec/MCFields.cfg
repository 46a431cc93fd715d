SPECIFICATION Spec
CONSTANTS
  Bodies = {"rate", "dimless", "damaged", "fatigue"}
  Fields = {1, 2}
  Depth = 2
INVARIANTS Additive Hooke Plane VonMises Isochoric Moved Coherent Prescribed2 Deviations MeanOfPoints MeanBounded Uniform
CHECK_DEADLOCK FALSE
