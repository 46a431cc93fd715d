SPECIFICATION Spec
CONSTANTS
  Bodies = {"rate", "dimless", "damaged", "fatigue"}
  Fields = {1, 2}
  Depth = 3
INVARIANTS Undeformed Equilibrium Translation MacroscopicStrain ExternalForces
CHECK_DEADLOCK FALSE
