SPECIFICATION Spec
CONSTANTS
  Systems = 1
  Stresses = {2, 7, 8, 9}
  Increments = {4, 6, 7}
  StepsMax = 2
  ChangesMax = 2
INVARIANTS Partition TiedTogether TiedEqual InactiveHeld Justified ClampedNever ResistanceGrows
PROPERTY Irreversible
CHECK_DEADLOCK FALSE
