CONSTANTS
  Keys = {"a", "b"}
  Vals = {1, 2}
  MaxSteps = 4
SPECIFICATION Spec
INVARIANTS Finds Reproduces
CHECK_DEADLOCK FALSE
