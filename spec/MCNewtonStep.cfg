SPECIFICATION Spec
CONSTANTS
  NMax = 3
  LoopsMax = 3
  RestartsMax = 2
INVARIANTS OnlyConverged Limits FailsAtLimit NeverStuck
PROPERTY Ends
CHECK_DEADLOCK TRUE
