CONSTANTS
  MaxSteps = 7
SPECIFICATION Spec
INVARIANTS Exact ServiceStats Balanced
CHECK_DEADLOCK FALSE
